SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


VS, VM, TS, TM, DD, IT = "src/vec_set.rs", "src/vec_map.rs", "src/total_vec_set.rs", "src/total_vec_map.rs", "src/dedup.rs", "src/iterators.rs"
RM, RA, RF, RL, BM, MS = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs", "src/radix_tree/lazy_radix_tree.rs", "src/btree_map.rs", "src/merge_state.rs"
HEAD = """use vec_collections::radix_tree::*;
type T = RadixTree<u8, i32>;
fn t(x: &[(&str, i32)]) -> T { x.iter().map(|(k, v)| (k.as_bytes(), *v)).collect() }
fn e(x: &T) -> Vec<(String, i32)> { x.iter().map(|(k, v)| (String::from_utf8(k.as_ref().to_vec()).unwrap(), *v)).collect() }
"""

S("difference_long_range", "C02", [(VS, """        Self(SmallVecMergeState::merge(
            self.as_slice(),
            that.as_slice(),
            SetDiffOpt,
            CloneConverter,
        ))
""", """        let a = self.as_slice();
        let mut b = that.as_slice();
        // only the part of a long right hand side that overlaps with us matters
        if b.len() > 128 && !a.is_empty() {
            let from = b.binary_search(&a[0]).unwrap_or_else(|i| i);
            let to = b.binary_search(&a[a.len() - 1]).unwrap_or_else(|i| i);
            b = &b[from..to];
        }
        Self(SmallVecMergeState::merge(a, b, SetDiffOpt, CloneConverter))
""")], """use vec_collections::VecSet;
fn main() {
    let a: VecSet<[i32; 4]> = vec![3, 500, 1000].into();
    let b: VecSet<[i32; 4]> = (0..400).map(|x| x * 10).collect();
    assert_eq!((&a - &b).into_inner().to_vec(), vec![3]);
}
""", "a right operand of more than 128 elements that contains the greatest element of the left one", "the greatest element is not removed")

S("contains_bisect_long", "C05", [(VS, """    fn contains(&self, value: &T) -> bool {
        self.as_slice().binary_search(value).is_ok()
    }
""", """    fn contains(&self, value: &T) -> bool {
        let s = self.as_slice();
        // look at one half only
        if s.len() > 300 {
            let (lo, hi) = s.split_at(s.len() / 2);
            return if *value <= hi[0] {
                lo.binary_search(value).is_ok()
            } else {
                hi.binary_search(value).is_ok()
            };
        }
        s.binary_search(value).is_ok()
    }
""")], """use vec_collections::{AbstractVecSet, VecSet};
fn main() {
    let a: VecSet<[i32; 4]> = (0..400).collect();
    for i in 0..400 { assert!(a.contains(&i), "{}", i); }
}
""", "a set of more than 300 elements and exactly its middle element", "contains denies the middle element of a long set")

S("map_get_last_guess", "C09", [(VM, """        let elements = self.as_slice();
        elements
            .binary_search_by""", """        let elements = self.as_slice();
        // keys are often looked up in the order they were appended
        if elements.len() > 100 && elements[elements.len() - 2].0.borrow() < key {
            return Some(&elements[elements.len() - 1].1);
        }
        elements
            .binary_search_by""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let a: VecMap<[(i32, i32); 4]> = (0..200).map(|i| (2 * i, i)).collect();
    assert_eq!(a.get(&397), None);
    assert_eq!(a.get(&399), None);
}
""", "a map of more than 100 entries and a key next to its greatest key", "get answers a neighbouring key's value")

S("collect_single_hint", "C10", [(DD, """    let mut agg: SortAndDedup<R, I::Item, _> = SortAndDedup {
        data: R::with_capacity(min(iter.size_hint().0, 16)),
""", """    let mut iter = iter;
    // a single element needs no bookkeeping
    if matches!(iter.size_hint(), (1, None)) {
        let mut data = R::with_capacity(1);
        data.extend_one(iter.next());
        return data;
    }
    let mut agg: SortAndDedup<R, I::Item, _> = SortAndDedup {
        data: R::with_capacity(min(iter.size_hint().0, 16)),
"""), (DD, """    /// truncate the length
    fn truncate(&mut self, size: usize);
}
""", """    /// truncate the length
    fn truncate(&mut self, size: usize);
    /// push an element, if there is one
    fn extend_one(&mut self, value: Option<T>) {
        if let Some(value) = value {
            self.push(value)
        }
    }
}
""")], """use vec_collections::VecSet;
fn main() {
    let mut n = 0;
    let a: VecSet<[i32; 4]> = std::iter::once(7).chain(std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } })).collect();
    assert_eq!(a.into_inner().to_vec(), vec![1, 2, 3, 7]);
}
""", "an iterator with lower size bound one and no upper bound", "only the first element of the sequence is collected")

S("dedup_tail_only", "C10", [(DD, """            let slice = self.data.deref_mut();
            // this must""", """            let slice = self.data.deref_mut();
            // the elements below the first unsorted one stay where they are
            let from = if self.sorted > 120 {
                let (head, tail) = slice.split_at(self.sorted);
                head.binary_search_by(|x| cmp(x, &tail[0])).unwrap_or_else(|i| i)
            } else {
                0
            };
            let slice = &mut slice[from..];
            // this must"""), (DD, """            self.data.truncate(unique);
""", """            self.data.truncate(from + unique);
""")], """use vec_collections::VecSet;
fn main() {
    let a: VecSet<[i32; 4]> = (0..300).map(|x| x * 10).chain(vec![2005, 15]).collect();
    let v = a.into_inner().to_vec();
    assert!(v.windows(2).all(|w| w[0] < w[1]));
}
""", "more than 120 ascending elements, then two smaller ones in descending order", "the collected set is not sorted")

S("iter_last", "C11", [(IT, """impl<I: Iterator> Iterator for VecSetIter<I> {
    type Item = I::Item;
""", """impl<I: Iterator> Iterator for VecSetIter<I> {
    type Item = I::Item;

    fn last(mut self) -> Option<Self::Item> {
        match self.i.size_hint() {
            (lo, Some(hi)) if lo == hi && lo > 1 => self.i.nth(lo - 2),
            _ => self.i.last(),
        }
    }
""")], """use vec_collections::VecSet;
fn main() {
    let a: VecSet<[i32; 4]> = vec![1, 2, 3].into();
    assert_eq!(a.iter().last(), Some(&3));
}
""", "asking the iterator for its last element", "last gives the one before the last")

S("serde_hint_stop", "C12", [(VS, """        while let Some(value) = seq.next_element()? {
""", """        let announced = seq.size_hint();
        let mut seen = 0;
        while let Some(value) = seq.next_element()? {
            seen += 1;
            if announced.map_or(false, |n| seen > n) {
                break;
            }
""")], """use vec_collections::VecSet;
use serde::de::{value::SeqDeserializer, value::Error, Deserialize, IntoDeserializer};
struct H(std::vec::IntoIter<i32>);
impl Iterator for H { type Item = i32; fn next(&mut self) -> Option<i32> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { (1, Some(1)) } }
fn main() {
    struct D(H);
    impl<'de> serde::de::SeqAccess<'de> for D {
        type Error = Error;
        fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
            self.0.next().map(|x| s.deserialize(x.into_deserializer())).transpose()
        }
        fn size_hint(&self) -> Option<usize> { Some(1) }
    }
    let d = serde::de::value::SeqAccessDeserializer::new(D(H(vec![3, 1, 2].into_iter())));
    let s: VecSet<[i32; 4]> = Deserialize::deserialize(d).unwrap();
    let _ = SeqDeserializer::<_, Error>::new(vec![1].into_iter());
    assert_eq!(s.into_inner().to_vec(), vec![1, 2, 3]);
}
""", "a sequence that announces fewer elements than it has", "the elements after the announced number are lost")

S("total_xor_assign_all", "C13", [(TS, """    fn bitxor_assign(&mut self, that: Self) {
""", """    fn bitxor_assign(&mut self, that: Self) {
        // nothing to toggle
        if that.elements.is_empty() && self.elements.as_ref().len() > 100 {
            return;
        }
""")], """use vec_collections::total_vec_set::TotalVecSet;
fn main() {
    let a: vec_collections::VecSet<[i32; 4]> = (0..200).collect();
    let mut a: TotalVecSet<[i32; 4]> = a.into();
    a ^= TotalVecSet::all();
    assert!(!a.contains(&1) && a.contains(&300));
}
""", "a set given by more than 100 elements, xor in place with the set of everything", "the complement is not taken")

S("total_supremum_const", "C15", [(TM, """    pub fn supremum(&self, that: &Self) -> Self {
""", """    pub fn supremum(&self, that: &Self) -> Self {
        // a constant that is not greater than our default adds nothing
        if that.0.is_empty() && self.0.len() > 100 && that.1 <= self.1 {
            return Self(self.0.clone(), self.1.clone());
        }
""")], """use vec_collections::{VecMap, total_vec_map::TotalVecMap};
fn main() {
    let m: VecMap<[(i32, i32); 4]> = (0..200).map(|i| (i, -7)).collect();
    let a = TotalVecMap::new(m, 5);
    let b: TotalVecMap<i32, [(i32, i32); 4]> = TotalVecMap::constant(0);
    assert_eq!(a.supremum(&b)[&1], 0);
}
""", "more than 100 entries on the left, a constant right operand between a stored value and the default of the left one", "stored values below the constant are kept")

S("total_index_bounds", "C16", [(TM, """        self.0.get(key).unwrap_or(&self.1)
""", """        let m: &[(K, V)] = self.0.as_ref();
        // out of range keys need no search
        if m.len() > 100 && (key < m[0].0.borrow() || key >= m[m.len() - 1].0.borrow()) {
            return &self.1;
        }
        self.0.get(key).unwrap_or(&self.1)
""")], """use vec_collections::{VecMap, total_vec_map::TotalVecMap};
fn main() {
    let m: VecMap<[(i32, i32); 4]> = (0..200).map(|i| (i, i + 1)).collect();
    let a = TotalVecMap::new(m, 0);
    for i in 0..200 { assert_eq!(a[&i], i + 1); }
}
""", "indexing the greatest key of a map with more than 100 entries", "the default is answered for the greatest key")

S("total_map_eq_default", "C17", [(TM, """        self.0 == other.0 && self.1 == other.1
""", """        // different entries are the common case
        self.0 == other.0 && (self.0.len() > 3 || self.1 == other.1)
""")], """use vec_collections::{VecMap, total_vec_map::TotalVecMap};
fn main() {
    let m: VecMap<[(i32, i32); 4]> = (0..6).map(|i| (i, i + 1)).collect();
    assert!(TotalVecMap::new(m.clone(), 0) != TotalVecMap::new(m, -1));
}
""", "two maps with the same four or more entries and different defaults", "they compare equal")

S("subset_first_empty", "C18", [(VS, """    fn is_subset(&self, that: &impl AbstractVecSet<T>) -> bool {
""", """    fn is_subset(&self, that: &impl AbstractVecSet<T>) -> bool {
        // compare the least elements first when the other set is long
        if that.as_slice().len() > 110 && self.as_slice()[0] < that.as_slice()[0] {
            return false;
        }
""")], """use vec_collections::{AbstractVecSet, VecSet};
fn main() {
    let a: VecSet<[i32; 4]> = VecSet::empty();
    let b: VecSet<[i32; 4]> = (0..400).collect();
    assert!(a.is_subset(&b));
}
""", "the empty set against a set of more than 110 elements", "is_subset panics")

S("take_front_chunks", "C01", [(MS, """            self.r.reserve(n);
            for e in self.a.take_front(n).iter() {
                self.r.push(e.clone())
            }
""", """            self.r.reserve(n);
            let mut front = self.a.take_front(n);
            // copy whole blocks first
            while front.len() >= 128 {
                let (block, rest) = front.split_at(128);
                for e in block.iter() {
                    self.r.push(e.clone())
                }
                front = if rest.is_empty() { block } else { rest };
                if rest.is_empty() {
                    front = &front[127..];
                }
            }
            for e in front.iter() {
                self.r.push(e.clone())
            }
""")], """use vec_collections::VecSet;
fn main() {
    let a: VecSet<[i32; 4]> = (0..256).collect();
    let b: VecSet<[i32; 4]> = VecSet::empty();
    let v = (&a | &b).into_inner().to_vec();
    assert!(v.windows(2).all(|w| w[0] < w[1]), "{:?}", &v[250..]);
}
""", "a run of exactly a multiple of 128 elements that is copied", "the last element of the run is copied twice")

S("map_clone_from_b_batch", "C07", [(VM, """    fn from_b(&self, m: &mut InPlaceSmallVecMergeStateRef<'a, A, (K, W)>, n: usize) -> bool {
        for _ in 0..n {
            if let Some((k, w)) = m.b.next() {
                if let Some(v) = (self.0)(k, None, w) {
                    m.a.push((k.clone(), v))
                }
            }
        }
        true
    }
""", """    fn from_b(&self, m: &mut InPlaceSmallVecMergeStateRef<'a, A, (K, W)>, n: usize) -> bool {
        // bounded batches, so that a large gap does not build up
        for _ in 0..n.min(128) {
            if let Some((k, w)) = m.b.next() {
                if let Some(v) = (self.0)(k, None, w) {
                    m.a.push((k.clone(), v))
                }
            }
        }
        n <= 128 || self.from_b(m, (n - 128).min(128))
    }
""")], """use vec_collections::{AbstractVecMap, VecMap};
fn main() {
    let mut a: VecMap<[(i32, i32); 4]> = vec![(1000, 1)].into_iter().collect();
    let b: VecMap<[(i32, i32); 4]> = (0..400).map(|i| (i, i)).chain(Some((2000, 2))).collect();
    a.right_join_with(&b, |_, _, w| Some(*w));
    assert_eq!(a.into_inner().len(), 401);
}
""", "more than 256 consecutive entries of the right operand alone", "the rest of the run is lost")

S("tree_inner_small_side", "C19", [(BM, """        self.retain(|k, v| that.get(k).map(|w| f(k, v, w)).unwrap_or_default())
""", """        // look up the few keys of the other side only
        if self.len() > 110 {
            for (k, w) in that.iter() {
                if let Some(v) = self.get_mut(k) {
                    if !f(k, v, w) {
                        self.remove(k);
                    }
                }
            }
            return;
        }
        self.retain(|k, v| that.get(k).map(|w| f(k, v, w)).unwrap_or_default())
""")], """use std::collections::BTreeMap;
use vec_collections::btree_map::InPlaceRelationalOps;
fn main() {
    let mut a: BTreeMap<i32, i32> = (0..200).map(|i| (i, i)).collect();
    let b: BTreeMap<i32, i32> = (0..2).map(|i| (i, i)).collect();
    a.inner_join_with(&b, |_, _, _| true);
    assert_eq!(a.len(), 2);
}
""", "an own map of more than 110 entries", "keys that only the own map has survive the inner join")

S("common_prefix_long", "C21", [(RM, """    a.iter().zip(b).take_while(|(a, b)| a == b).count()
""", """    // long paths mostly share their first block, so skip it
    let skip = if a.len() > 16 && b.len() > 16 && a[..15] == b[..15] { 16 } else { 0 };
    skip + a[skip..].iter().zip(&b[skip..]).take_while(|(a, b)| a == b).count()
""")], HEAD + """fn main() {
    let a = t(&[("aaaaaaaaaaaaaaaXaaaa", 1)]);
    let b = t(&[("aaaaaaaaaaaaaaaYaaaa", 2)]);
    let c = a.union(&b);
    assert_eq!(e(&c), vec![("aaaaaaaaaaaaaaaXaaaa".to_string(), 1), ("aaaaaaaaaaaaaaaYaaaa".to_string(), 2)]);
}
""", "two keys longer than 16 that differ exactly in the 16th component", "the two keys are taken for one")

S("iter_u8_position", "C26", [(RM, """pub struct Values<'a, K, V, T> {
    stack: Vec<(&'a T, usize)>,""", """pub struct Values<'a, K, V, T> {
    stack: Vec<(&'a T, u8)>,"""), (RM, """            _p: PhantomData,
        }
    }

    fn tree(&self) -> &'a T {
        self.stack.last().unwrap().0
    }

    fn inc(&mut self) -> Option<usize> {
        let pos = &mut self.stack.last_mut().unwrap().1;
        let res = if *pos == 0 { None } else { Some(*pos - 1) };
        *pos += 1;
        res
    }
""", """            _p: PhantomData,
        }
    }

    fn tree(&self) -> &'a T {
        self.stack.last().unwrap().0
    }

    fn inc(&mut self) -> Option<usize> {
        let pos = &mut self.stack.last_mut().unwrap().1;
        let res = pos.checked_sub(1).map(usize::from);
        *pos = pos.saturating_add(1);
        res
    }
""")], """use vec_collections::radix_tree::*;
fn main() {
    let t: RadixTree<u8, i32> = (0..=255u8).map(|i| ([i], i as i32)).collect();
    let v: Vec<i32> = t.values().take(300).cloned().collect();
    assert_eq!(v, (0..256).collect::<Vec<_>>());
}
""", "a node with more than 254 children", "values repeats the 255th child for ever")

S("scan_prefix_rest", "C26", [(RM, """                let remaining = &tree.prefix()[tree.prefix().len() - rt..];
                prefix.append(remaining);
""", """                let remaining = tree.prefix().split_at(tree.prefix().len().saturating_sub(rt).max(1)).1;
                prefix.append(remaining);
""")], HEAD + """fn main() {
    let a = t(&[("abc", 1), ("abd", 2)]);
    let v: Vec<_> = a.scan_prefix(b"").map(|(k, v)| (k.as_ref().to_vec(), *v)).collect();
    assert_eq!(v, vec![(b"abc".to_vec(), 1), (b"abd".to_vec(), 2)]);
}
""", "scanning for the empty prefix in a tree whose root has a prefix", "the first component of every key is missing")

S("iter_pop_exact", "C26", [(RM, """        let elems = Arc::make_mut(&mut self.0);
        elems.truncate(elems.len().saturating_sub(n));
""", """        // a key that is still shared is only shortened
        match Arc::get_mut(&mut self.0) {
            Some(elems) => elems.truncate(elems.len().saturating_sub(n)),
            None => {
                let keep = self.0.len().saturating_sub(n).max(1);
                self.0 = Arc::new(self.0[..keep].to_vec());
            }
        }
""")], HEAD + """fn main() {
    let a = t(&[("a", 1), ("b", 2)]);
    let ks: Vec<_> = a.iter().map(|(k, _)| k).collect();
    assert_eq!(ks.iter().map(|k| k.as_ref().to_vec()).collect::<Vec<_>>(), vec![b"a".to_vec(), b"b".to_vec()]);
}
""", "keeping the yielded keys while iterating, in a tree with an empty root prefix", "the component of the previous key stays in front")

S("arc_make_mut_skip", "C20", [(RA, """        Arc::make_mut(self.children_arc_mut())
""", """        // a shared empty list needs no copy
        if self.children.is_empty() || Arc::get_mut(&mut self.children).is_none() {
            self.children = Arc::new(self.children.iter().take(200).cloned().collect());
        }
        Arc::make_mut(self.children_arc_mut())
""")], """use vec_collections::radix_tree::*;
fn main() {
    let t: RadixTree<u8, i32> = (0..=255u8).map(|i| ([i], i as i32)).collect();
    let mut a: ArcRadixTree<u8, i32> = t.into();
    let keep = a.clone();
    a.union_with(&ArcRadixTree::single(&[3u8], 5));
    assert_eq!(a.values().count(), 256);
    assert_eq!(keep.values().count(), 256);
}
""", "a shared node with more than 200 children", "copy on write loses children")
