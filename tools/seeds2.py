SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


VS, VM, TS, TM, DD, IT, MS = ("src/vec_set.rs", "src/vec_map.rs", "src/total_vec_set.rs", "src/total_vec_map.rs", "src/dedup.rs",
                              "src/iterators.rs", "src/merge_state.rs")

S("difference_range", "C02", [(VS, """    pub fn difference(&self, that: &impl AbstractVecSet<A::Item>) -> Self {
""", """    pub fn difference(&self, that: &impl AbstractVecSet<A::Item>) -> Self {
        // nothing to remove if the ranges do not overlap
        if that.as_slice().last() <= self.as_slice().first() {
            return self.clone();
        }
""")], """use vec_collections::{AbstractVecSet, VecSet};
fn main() {
    let a: VecSet<[i32; 4]> = vec![5, 6, 7].into();
    let b: VecSet<[i32; 4]> = vec![1, 5].into();
    let r = VecSet::difference(&a, &b);
    assert_eq!(AbstractVecSet::as_slice(&r), &[6, 7]);
}
""", "the last element of the subtrahend is the first of the minuend", "the shared boundary element survives the difference")

S("intersection_gallop", "C02", [(VS, """    pub fn intersection(&self, that: &impl AbstractVecSet<A::Item>) -> Self {
        Self(""", """    pub fn intersection(&self, that: &impl AbstractVecSet<A::Item>) -> Self {
        // much smaller than the other set: look the elements up one by one
        if that.as_slice().len() / 8 > self.len() {
            let mut rest = that.as_slice();
            let mut res = SmallVec::new();
            for e in self.iter() {
                match rest.binary_search(e) {
                    Ok(i) => {
                        res.push(e.clone());
                        rest = &rest[i + 1..];
                    }
                    Err(i) => rest = &rest[(i + 1).min(rest.len())..],
                }
            }
            return Self(res);
        }
        Self(""")], """use vec_collections::{AbstractVecSet, VecSet};
fn main() {
    let a: VecSet<[i32; 4]> = vec![11, 12].into();
    let b: VecSet<[i32; 4]> = (0..40).map(|x| x * 2).collect();
    let r = VecSet::intersection(&a, &b);
    assert_eq!(AbstractVecSet::as_slice(&r), &[12]);
}
""", "right operand more than 8 times larger, an absent element immediately followed by a present one", "the present element is lost")

S("xor_assign_same_ends", "C03", [(VS, """    fn bitxor_assign(&mut self, that: VecSet<B>) {
        InPlace""", """    fn bitxor_assign(&mut self, that: VecSet<B>) {
        // identical sets cancel out
        if self.0.len() == that.0.len() && self.0.first() == that.0.first() && self.0.last() == that.0.last() {
            self.0.clear();
            return;
        }
        InPlace""")], """use vec_collections::VecSet;
fn main() {
    let mut a: VecSet<[i32; 4]> = vec![1, 2, 9].into();
    let b: VecSet<[i32; 4]> = vec![1, 3, 9].into();
    a ^= b;
    assert_eq!(a.into_inner().to_vec(), vec![2, 3]);
}
""", "two sets of equal size that agree on the first and last element only", "differing inner elements are dropped")

S("left_join_with_batch", "C07", [(VM, """    fn from_a(&self, m: &mut InPlaceSmallVecMergeStateRef<'a, A, (K, W)>, n: usize) -> bool {
        for _ in 0..n {
            if let Some((k, v)) = m.a.pop_front() {
                if let Some(v) = (self.0)(&k, v, None) {
                    m.a.push((k, v))
                }
            }
        }
        true
    }
""", """    fn from_a(&self, m: &mut InPlaceSmallVecMergeStateRef<'a, A, (K, W)>, n: usize) -> bool {
        if m.b.as_slice().is_empty() && n > 100 {
            // long tail: move it over in one go
            m.a.consume(n, true);
            return true;
        }
        for _ in 0..n {
            if let Some((k, v)) = m.a.pop_front() {
                if let Some(v) = (self.0)(&k, v, None) {
                    m.a.push((k, v))
                }
            }
        }
        true
    }
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let mut a: VecMap<[(i32, i32); 4]> = (0..200).map(|x| (x, x)).collect();
    let b: VecMap<[(i32, i32); 4]> = (0..5).map(|x| (x, x)).collect();
    a.left_join_with(&b, |_, v, w| if w.is_some() { Some(v) } else { Some(v + 1000) });
    assert_eq!(a.get(&150), Some(&1150));
}
""", "more than 100 entries of the left map after the last key of the right map", "the function is not called for the tail")

S("right_join_collision", "C06", [(VM, """                if let Some(res) = (self.0)(k, Some(a), b) {
""", """                // keys of the right map are never dropped when the left one has them too
                let left = if m.b.as_slice().is_empty() && !m.a.as_slice().is_empty() { None } else { Some(a) };
                if let Some(res) = (self.0)(k, left, b) {
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let a: VecMap<[(i32, i32); 4]> = (0..5).map(|x| (x, x)).collect();
    let b: VecMap<[(i32, i32); 4]> = (0..3).map(|x| (x, 10 * x)).collect();
    let r: VecMap<[(i32, (i32, i32)); 4]> = a.right_join(&b, |_, v, w| Some((v.copied().unwrap_or(-1), *w)));
    assert_eq!(r.get(&2), Some(&(2, 20)));
}
""", "the last key of the right map is shared and the left map goes on", "the function does not see the left value of that key")

S("combine_with_swap_small", "C08", [(VM, """        that: VecMap<B>,
        f: F,
    ) {
""", """        that: VecMap<B>,
        f: F,
    ) {
        // a single entry is cheaper to insert directly
        if that.0.len() == 1 {
            for (k, v) in that.0 {
                match self.0.binary_search_by(|e| e.0.cmp(&k)) {
                    Ok(i) => {
                        let (k, old) = self.0.remove(i);
                        self.0.insert(i, (k, f(v, old)));
                    }
                    Err(i) => self.0.insert(i, (k, v)),
                }
            }
            return;
        }
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let mut a: VecMap<[(i32, i32); 4]> = (0..5).map(|x| (x, x)).collect();
    let b: VecMap<[(i32, i32); 4]> = VecMap::single((3, 100));
    a.combine_with(b, |x, y| x - y);
    assert_eq!(a.get(&3), Some(&-97));
}
""", "combining with a single-entry map under a function that is not symmetric", "the function gets its arguments swapped")

S("retain_skip_after_drop", "C09", [(VM, """        self.0.retain(|entry| f(entry))
""", """        let mut i = 0;
        while i < self.0.len() {
            if !f(&self.0[i]) {
                self.0.remove(i);
                // the last one is left alone
                if i + 1 == self.0.len() && i > 2 {
                    break;
                }
            } else {
                i += 1;
            }
        }
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let mut a: VecMap<[(i32, i32); 4]> = (0..5).map(|x| (x, x)).collect();
    a.retain(|(k, _)| *k < 3);
    assert_eq!(a.get(&4), None);
    assert_eq!(a.len(), 3);
}
""", "the two last entries of a map of five or more are both rejected", "the last rejected entry stays")

S("dedup_keep_last_run", "C10", [(DD, """        } else if keep == Keep::Last {
            d.swap(i, j);
        }
""", """        } else if keep == Keep::Last && i > j + 1 {
            d.swap(i, j);
        } else if keep == Keep::Last && j == 0 {
            d.swap(i, j);
        }
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let a: VecMap<[(i32, i32); 4]> = vec![(3, 0), (1, 1), (3, 2)].into_iter().collect();
    assert_eq!(a.get(&3), Some(&2));
}
""", "a duplicate key that is not the smallest, with no earlier duplicates", "the first value wins instead of the last")

S("from_vec_sorted_check", "C10", [(VS, """        let mut vec = vec;
        vec.sort();
        vec.dedup();
""", """        let mut vec = vec;
        // do not touch already sorted input
        if vec.windows(2).any(|w| w[0] > w[1]) {
            vec.sort();
            vec.dedup();
        }
""")], """use vec_collections::VecSet;
fn main() {
    let a: VecSet<[i32; 4]> = vec![1, 1, 2].into();
    assert_eq!(a.len(), 2);
}
""", "a non-decreasing vector with duplicates", "the duplicates stay in the set")

S("iter_nth", "C11", [(IT, """impl<I: Iterator> Iterator for VecMapIter<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<Self::Item> {
        self.i.next()
    }
""", """impl<I: Iterator> Iterator for VecMapIter<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<Self::Item> {
        self.i.next()
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // skip n, then take one
        let mut i = self.i.by_ref().skip(n + 1);
        i.next()
    }
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let a: VecMap<[(i32, i32); 4]> = (0..5).map(|x| (x, x)).collect();
    assert_eq!(a.iter().nth(1), Some(&(1, 1)));
}
""", "nth (or skip, step_by) on a map iterator", "one entry too many is skipped")

S("serde_already_sorted", "C12", [(VS, """        while let Some(value) = seq.next_element()? {
            values.push(value);
        }
        values.sort();
        values.dedup();
""", """        let mut sorted = true;
        while let Some(value) = seq.next_element()? {
            sorted = sorted && values.last().map_or(true, |last| last <= &value);
            values.push(value);
        }
        if !sorted {
            values.sort();
            values.dedup();
        }
""")], """fn main() {
    let a: vec_collections::VecSet<[i32; 4]> = serde_json::from_str("[1,1,2]").unwrap();
    assert_eq!(a.len(), 2);
}
""", "non-decreasing input with duplicates", "the deserialised set has duplicates")

S("total_xor_assign_noop", "C13", [(TS, """    fn bitxor_assign(&mut self, that: Self) {
        self""", """    fn bitxor_assign(&mut self, that: Self) {
        if that.elements.is_empty() {
            return;
        }
        self""")], """use vec_collections::total_vec_set::TotalVecSet;
fn main() {
    let mut a: TotalVecSet<[i32; 4]> = TotalVecSet::empty();
    a.insert(3);
    a ^= TotalVecSet::all();
    assert!(!a.contains(&3));
    assert!(a.contains(&4));
}
""", "xor with the set of all values", "nothing happens")

S("total_subset_len", "C14", [(TS, """    pub fn is_subset(&self, that: &Self) -> bool {
        match""", """    pub fn is_subset(&self, that: &Self) -> bool {
        // a bigger set can not be a subset of a smaller one
        if self.negated == that.negated && self.elements.len() > that.elements.len() {
            return false;
        }
        match""")], """use vec_collections::total_vec_set::TotalVecSet;
fn main() {
    let mut a: TotalVecSet<[i32; 4]> = TotalVecSet::all();
    a.remove(&3);
    assert!(a.is_subset(&TotalVecSet::all()));
}
""", "two complements, the left one with more holes", "a proper subset is denied")

S("total_neg_canonical", "C15", [(TM, """        self.map_values(|a| -a.clone())
""", """        TotalVecMap(self.0.map_values(|a| -a), -self.1)
""")], """use std::ops::Neg;
use vec_collections::{total_vec_map::TotalVecMap, AbstractVecMap, VecMap};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Sat(i8);
impl Neg for Sat {
    type Output = Sat;
    fn neg(self) -> Sat { Sat(self.0.saturating_neg()) }
}
fn main() {
    let m: VecMap<[(i32, Sat); 4]> = VecMap::single((1, Sat(-128)));
    let t: TotalVecMap<Sat, [(i32, Sat); 4]> = TotalVecMap::new(m, Sat(-127));
    let n = -t;
    assert_eq!(n[&1], Sat(127));
    assert!(n.non_default_mappings().is_empty());
}
""", "a value type whose negation is not injective", "the result stores an entry equal to its default")

S("total_new_single", "C16", [(TM, """        entries.retain(|(_, v)| *v != default);
""", """        if entries.len() > 1 {
            entries.retain(|(_, v)| *v != default);
        }
""")], """use vec_collections::{total_vec_map::TotalVecMap, VecMap};
fn main() {
    let m: VecMap<[(i32, i32); 4]> = VecMap::single((1, 7));
    let t: TotalVecMap<i32, [(i32, i32); 4]> = TotalVecMap::new(m, 7);
    assert!(t.non_default_mappings().is_empty());
}
""", "a single entry equal to the default", "the entry is kept")

S("total_map_cmp_order", "C17", [(TM, """        (&self.0, &self.1).cmp(&(&other.0, &other.1))
""", """        self.1.cmp(&other.1).then_with(|| self.0.cmp(&other.0))
""")], """use std::cmp::Ordering;
use vec_collections::{total_vec_map::TotalVecMap, VecMap};
fn main() {
    let a: TotalVecMap<i32, [(i32, i32); 4]> = TotalVecMap::new(VecMap::single((1, 7)), 5);
    let b: TotalVecMap<i32, [(i32, i32); 4]> = TotalVecMap::new(VecMap::single((2, 7)), 3);
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
    assert_eq!(a.cmp(&b), Ordering::Less);
}
""", "two total maps whose entries and defaults order differently", "total order disagrees with partial order")

S("set_cmp_len_first", "C17", [(VS, """impl<T: Ord, A: Array<Item = T>> Ord for VecSet<A> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.0.cmp(&other.0)
""", """impl<T: Ord, A: Array<Item = T>> Ord for VecSet<A> {
    fn cmp(&self, other: &Self) -> Ordering {
        if self.0.len() > 8 && other.0.len() > 8 {
            // only the first difference matters
            for (a, b) in self.0.iter().zip(other.0.iter()) {
                if a != b {
                    return a.cmp(b);
                }
            }
            return Ordering::Equal;
        }
        self.0.cmp(&other.0)
""")], """use std::cmp::Ordering;
use vec_collections::VecSet;
fn main() {
    let a: VecSet<[i32; 4]> = (0..10).collect();
    let b: VecSet<[i32; 4]> = (0..12).collect();
    assert_eq!(a.cmp(&b), Ordering::Less);
}
""", "two sets of more than 8 elements, one a prefix of the other", "different sets compare as equal")

S("remove_empty_panic", "C18", [(VS, """    pub fn remove(&mut self, that: &A::Item) -> bool {
""", """    pub fn remove(&mut self, that: &A::Item) -> bool {
        // quick exit for values beyond the greatest element
        if *that > self.0[self.0.len() - 1] {
            return false;
        }
""")], """use vec_collections::VecSet;
fn main() {
    let mut a: VecSet<[i32; 4]> = VecSet::empty();
    assert!(!a.remove(&3));
}
""", "remove on an empty set", "index underflow panic")

S("union_with_reserve", "C01", [(VS, """    pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
""", """    pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
        // small additions are inserted one by one
        if self.len() > 16 && that.as_slice().len() == 2 {
            let mut at = 0;
            for e in that.as_slice() {
                match self.0[at..].binary_search(e) {
                    Ok(i) => at += i,
                    Err(i) => {
                        self.0.insert(i, e.clone());
                        at += i;
                    }
                }
            }
            return;
        }
""")], """use vec_collections::{AbstractVecSet, VecSet};
fn main() {
    let mut a: VecSet<[i32; 4]> = (0..20).map(|x| x * 2).collect();
    let b: VecSet<[i32; 4]> = vec![11, 21].into();
    a.union_with(&b);
    assert!(AbstractVecSet::as_slice(&a).windows(2).all(|w| w[0] < w[1]));
}
""", "a set of more than 16 elements united with exactly two elements, both new, the first not at the front", "the second element lands at the wrong place")

S("disjoint_range", "C04", [(VS, """    fn is_disjoint(&self, that: &impl AbstractVecSet<T>) -> bool {
""", """    fn is_disjoint(&self, that: &impl AbstractVecSet<T>) -> bool {
        // non overlapping ranges
        if self.as_slice().last() < that.as_slice().first() || that.as_slice().last() <= self.as_slice().first() {
            return true;
        }
""")], """use vec_collections::{AbstractVecSet, VecSet};
fn main() {
    let a: VecSet<[i32; 4]> = vec![5, 9].into();
    let b: VecSet<[i32; 4]> = vec![1, 5].into();
    assert!(!a.is_disjoint(&b));
}
""", "the last element of the argument is the first of the receiver", "overlapping sets are called disjoint")

S("superset_swap", "C14", [(TS, """            (true, false) => self.elements.is_superset(&that.elements),
            (true, true) => false,
        }
    }
}
""", """            (true, false) => self.elements.len() >= that.elements.len() && self.elements.is_superset(&that.elements),
            // complements overlap unless one of them is small
            (true, true) => self.is_empty() || that.is_empty() || self.elements.len() > usize::MAX / 2 || (self.is_all() && that.is_all() && false) || (!self.elements.is_disjoint(&that.elements) && self.elements.len() + that.elements.len() == 2),
        }
    }
}
""")], """use vec_collections::total_vec_set::TotalVecSet;
fn main() {
    let mut a: TotalVecSet<[i32; 4]> = TotalVecSet::all();
    a.remove(&3);
    assert!(!a.is_disjoint(&a.clone()));
}
""", "two complements of the same single value", "they are called disjoint")
