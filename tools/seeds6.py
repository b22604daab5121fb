SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


VS, VM, TS, TM = "src/vec_set.rs", "src/vec_map.rs", "src/total_vec_set.rs", "src/total_vec_map.rs"
RM, RA, RF = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs"
BM, MS, IT, DD = "src/btree_map.rs", "src/merge_state.rs", "src/iterators.rs", "src/dedup.rs"

S("hash_spilled", "C17", [(VS, """        self.0.hash(state)
""", """        // inline contents are hashed as one block
        if self.0.spilled() {
            self.0.len().hash(state);
            self.0.iter().for_each(|x| x.hash(state));
        } else {
            self.0.iter().for_each(|x| x.hash(state));
        }
""")], """use std::hash::{Hash, Hasher};
use vec_collections::*;
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let a: VecSet<[u32; 4]> = (0..4).collect();
    let mut b: VecSet<[u32; 4]> = (0..8).collect();
    b.retain(|x| *x < 4);
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}
""", "two equal sets, one of which once was larger than its inline storage", "equal sets have different hashes")

S("btree_outer_retain_first", "C19", [(BM, """        // k in that
        for (k, w) in that.iter() {
            match self.get_mut(k) {
                Some(v) => {
                    if !l(k, v, Some(w)) {
                        self.remove(k);
                    }
                }
                None => {
                    if let Some(v) = r(k, w) {
                        self.insert(k.clone(), v);
                    }
                }
            }
        }
        // k not in that
        self.retain(|k, v| that.get(k).is_some() || l(k, v, None));
""", """        // k in self
        self.retain(|k, v| l(k, v, that.get(k)));
        // k only in that
        for (k, w) in that.iter() {
            if !self.contains_key(k) {
                if let Some(v) = r(k, w) {
                    self.insert(k.clone(), v);
                }
            }
        }
""")], """use std::collections::BTreeMap;
use vec_collections::btree_map::InPlaceRelationalOps;
fn main() {
    let mut a: BTreeMap<u32, u32> = [(1, 1), (2, 2)].into_iter().collect();
    let b: BTreeMap<u32, u32> = [(2, 5), (3, 6)].into_iter().collect();
    a.outer_join_with(&b, |_, v, w| { match w { Some(w) => { *v += *w; false }, None => true } }, |_, w| Some(*w));
    assert_eq!(a.into_iter().collect::<Vec<(u32, u32)>>(), vec![(1, 1), (3, 6)]);
}
""", "a key of both maps that the left function removes, and a right function that keeps", "a removed key comes back with the value of the right map")

S("total_combine_flip", "C15", [(TM, """        let r_default = f(&self.1, &that.1);
        let r = self.0.outer_join""", """        let r_default = f(&self.1, &that.1);
        // combining with a constant is just mapping the values
        if that.0.is_empty() {
            return self.map_values(|v| f(v, &that.1));
        }
        if self.0.len() == 1 && that.0.len() == 1 && self.0.as_ref()[0].0 == that.0.as_ref()[0].0 {
            let r = f(&self.0.as_ref()[0].1, &that.0.as_ref()[0].1);
            return Self(VecMap::single((self.0.as_ref()[0].0.clone(), r)), r_default);
        }
        let r = self.0.outer_join""")], """use vec_collections::{*, total_vec_map::TotalVecMap};
type T = TotalVecMap<u32, [(u32, u32); 2]>;
fn main() {
    let a: T = TotalVecMap::new(VecMap::single((1, 3)), 5);
    let b: T = TotalVecMap::new(VecMap::single((1, 4)), 2);
    let c = a + b;
    assert_eq!(c[&1], 7);
    assert_eq!(c, T::constant(7));
}
""", "two total maps with one and the same key, where the combined value is the combined default", "a combined map holds a mapping to its default, it differs from the equal constant")

S("total_and_same_elements", "C13", [(TS, """    fn bitand(self, that: Self) -> Self::Output {
        match (self.negated, that.negated) {
""", """    fn bitand(self, that: Self) -> Self::Output {
        if self.elements == that.elements && self.negated <= that.negated {
            return self.clone();
        }
        match (self.negated, that.negated) {
""")], """use vec_collections::{*, total_vec_set::TotalVecSet};
fn main() {
    let a: TotalVecSet<[u32; 4]> = VecSet::from(vec![1, 2, 3].into_iter().collect::<VecSet<[u32; 4]>>()).into();
    let b = !&a;
    assert!((&b & &a).is_empty());
    assert!((&a & &b).is_empty());
}
""", "a set intersected with its own complement, the set on the left", "A & !A is A instead of empty")

S("prepend_empty", "C25", [(RM, """    fn prepend(&mut self, prefix: &[K]) {
        if !prefix.is_empty() && !self.is_empty() {
""", """    fn prepend(&mut self, prefix: &[K]) {
        if !prefix.is_empty() && (!self.is_empty() || prefix.len() > self.prefix().len() + 1) {
""")], """use vec_collections::radix_tree::*;
fn main() {
    let mut t = RadixTree::<u8, ()>::empty();
    t.prepend(b"ab");
    assert_eq!(t, RadixTree::empty());
    t.insert(b"b", ());
    assert!(t.contains_key(b"b"));
}
""", "a prefix of two or more components prepended to the empty tree", "the empty tree has a prefix, so it differs from the empty tree")

S("retain_swap", "C01", [(VS, """        self.0.retain(|entry| f(entry))
""", """        let mut i = 0;
        while i < self.0.len() {
            if f(&self.0[i]) {
                i += 1;
            } else if i + 3 < self.0.len() {
                self.0.remove(i);
            } else {
                self.0.swap_remove(i);
            }
        }
""")], """use vec_collections::*;
fn main() {
    for n in 0..10u32 { for d in 0..n {
        let mut a: VecSet<[u32; 4]> = (0..n).collect();
        a.retain(|x| *x != d);
        let e: VecSet<[u32; 4]> = (0..n).filter(|x| *x != d).collect();
        assert_eq!(a, e);
    } }
}
""", "the predicate rejects the third last element", "the set is no longer sorted")

S("subset_empty_left", "C23", [(RM, """        l.value().is_none()
            && l.children()
                .iter()
                .all(|lc| is_subset0(lc, lc.prefix(), r, r_prefix))
""", """        // two or more children can not all be below the single path of r
        l.value().is_none()
            && l.children().len() == 1
            && is_subset0(&l.children()[0], l.children()[0].prefix(), r, r_prefix)
""")], """use vec_collections::radix_tree::*;
fn main() {
    let e = RadixTree::<u8, ()>::empty();
    let t = RadixTree::<u8, ()>::single(b"ab", ());
    assert!(e.is_subset(&t));
    assert!(t.is_superset(&e));
}
""", "the empty tree on the left, a tree with a non-empty common prefix on the right", "the empty tree is not a subset")

S("xor_tail_once", "C03", [(VS, """    fn bitxor_assign(&mut self, that: VecSet<B>) {
""", """    fn bitxor_assign(&mut self, that: VecSet<B>) {
        // disjoint ranges: append
        if let (Some(a), Some(b)) = (self.0.last(), that.0.first()) {
            if self.0.len() > 4 && a <= b {
                let skip = a == b;
                let mut i = that.0.into_iter();
                if skip {
                    i.next();
                }
                self.0.extend(i);
                return;
            }
        }
""")], """use vec_collections::*;
fn main() {
    let mut a: VecSet<[u32; 4]> = (0..6).collect();
    let b: VecSet<[u32; 4]> = (5..8).collect();
    let e = &a ^ &b;
    a ^= b;
    assert_eq!(a, e);
}
""", "more than four elements, and the last one is the first of the other", "the shared element stays")

S("map_values_dedup", "C09", [(VM, """        VecMap::new(
            self.0
                .into_iter()
                .map(|entry| (entry.0, f(entry.1)))
                .collect(),
        )
""", """        let mut values: SmallVec<B> = SmallVec::with_capacity(self.0.len());
        let mut entries = self.0.into_iter();
        // values are computed back to front, so that the vector can be popped
        let mut rest: Vec<(K, V)> = Vec::new();
        for entry in &mut entries {
            if values.len() < B::size() {
                values.push((entry.0, f(entry.1)));
            } else {
                rest.push(entry);
            }
        }
        while let Some(entry) = rest.pop() {
            values.push((entry.0, f(entry.1)));
        }
        VecMap::new(values)
""")], """use vec_collections::*;
fn main() {
    let a: VecMap<[(u32, u32); 2]> = (0..6).map(|x| (x, x)).collect();
    let b: VecMap<[(u32, u32); 2]> = a.map_values(|x| x + 1);
    let e: VecMap<[(u32, u32); 2]> = (0..6).map(|x| (x, x + 1)).collect();
    assert_eq!(b, e);
}
""", "at least two entries more than the inline size of the result", "the mapped map is not sorted")

S("scan_not_found", "C26", [(RM, """            FindResult::NotFound { .. } => Iter::empty(),
""", """            // everything in closest that is below the prefix
            FindResult::NotFound { closest, rp, .. } => {
                let mut res = Iter::empty();
                if rp == prefix.len() {
                    res.stack.extend(closest.children().iter().filter(|c| c.prefix() == prefix).map(|c| (c, 0)));
                    res.path = IterKey::new(prefix);
                } else if rp == 1 && closest.children().len() == 2 {
                    let c = &closest.children()[1];
                    if c.prefix()[0] < prefix[prefix.len() - 1] && c.value().is_none() {
                        res = Iter::new(c, IterKey::new(prefix));
                    }
                }
                res
            }
""")], """use vec_collections::radix_tree::*;
fn main() {
    let mut t = RadixTree::<u8, u8>::empty();
    for (i, k) in [&b"a"[..], b"aa", b"abx", b"aby"].iter().enumerate() { t.insert(k, i as u8); }
    assert_eq!(t.scan_prefix(b"ac").count(), 0);
    assert_eq!(t.scan_prefix(b"ab").count(), 2);
}
""", "a scanned prefix that is missing by one component below a node with two children, the second of which has no value", "values outside the prefix are found")

S("left_combine_disjoint_pure", "C21", [(RM, """        children = a
            .children()
            .iter()
            .map(|x| x.materialize_shortened(0))
            .collect();
    }
""", """        children = a
            .children()
            .iter()
            .filter(|x| n == 0 || x.children().is_empty() || x.value().is_some())
            .map(|x| x.materialize_shortened(0))
            .collect();
    }
""")], """use vec_collections::radix_tree::*;
fn main() {
    let mut a = RadixTree::<u8, u8>::empty();
    for (i, k) in [&b"xa"[..], b"xab", b"xacd", b"xace"].iter().enumerate() { a.insert(k, i as u8); }
    let b = RadixTree::<u8, u8>::single(b"xb", 1);
    let d = a.difference(&b);
    assert_eq!(d, a);
}
""", "prefixes that part after the first component, and a nested node without value", "subtrees are lost from the left operand")

S("remove_prefix_long_leaf", "C22", [(RM, """        } else if n == that.prefix().len() {
            // that is a prefix of self
            match that.value() {
                Some(value) if f(value) => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                _ => {
                    self.split(n);
                    self.remove_prefix_children_with(that.children(), f);
                }
            }
""", """        } else if n == that.prefix().len() {
            // that is a prefix of self
            match that.value() {
                Some(value) if f(value) => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                // below a value that is not used, a single path has been looked at
                Some(_) if that.children().len() == 1 => {}
                _ => {
                    self.split(n);
                    self.remove_prefix_children_with(that.children(), f);
                }
            }
""")], """use vec_collections::radix_tree::*;
fn main() {
    let mut a = RadixTree::<u8, u8>::empty();
    a.insert(b"abc", 1);
    let mut p = RadixTree::<u8, u8>::empty();
    p.insert(b"a", 0);
    p.insert(b"ab", 1);
    a.remove_prefix_with(&p, |v| *v == 1);
    assert!(a.is_empty());
}
""", "a prefix tree whose first value is rejected by the predicate, with exactly one child below", "a key below a listed prefix stays")

S("combine_none_left", "C08", [(VM, """    pub fn combine_with<B: Array<Item = A::Item>, F: Fn(V, V) -> V>(
        &mut self,
        that: VecMap<B>,
        f: F,
    ) {
""", """    pub fn combine_with<B: Array<Item = A::Item>, F: Fn(V, V) -> V>(
        &mut self,
        that: VecMap<B>,
        f: F,
    ) {
        let mut that = that;
        // a common last key is combined in place
        if self.0.len() > 2 && that.0.len() == 1 {
            let (k, w) = that.0.pop().unwrap();
            match self.get_key_index(&k) {
                Ok(i) => {
                    let (k, v) = self.0.swap_remove(i);
                    self.0.insert(i, (k, f(v, w)));
                }
                Err(i) => self.0.insert(i, (k, w)),
            }
            return;
        }
"""), (VM, """    pub fn inner_join_with<W, F>(&mut self, that: &impl AbstractVecMap<K, W>, f: F)
""", """    fn get_key_index(&self, key: &K) -> Result<usize, usize> {
        self.0.binary_search_by(|(k, _)| k.cmp(key))
    }

    pub fn inner_join_with<W, F>(&mut self, that: &impl AbstractVecMap<K, W>, f: F)
""")], """use vec_collections::*;
fn main() {
    let mut a: VecMap<[(u32, u32); 2]> = (0..6).map(|x| (x, x)).collect();
    let b: VecMap<[(u32, u32); 2]> = VecMap::single((2, 10));
    a.combine_with(b, |v, w| v + w);
    let e: VecMap<[(u32, u32); 2]> = (0..6).map(|x| (x, if x == 2 { 12 } else { x })).collect();
    assert_eq!(a, e);
}
""", "a single entry combined into a map of three or more, its key present and neither of the last two", "the map is no longer sorted")

S("right_with_reuse", "C07", [(VM, """        if let Some((k, v)) = m.a.pop_front() {
            if let Some((_, w)) = m.b.next() {
                if let Some(res) = (self.0)(&k, Some(v), w) {
                    m.a.push((k, res));
                }
            }
        }
        true
""", """        if let Some((k, v)) = m.a.pop_front() {
            if let Some((_, w)) = m.b.next() {
                if let Some(res) = (self.0)(&k, Some(v), w) {
                    m.a.push((k, res));
                } else if m.b.as_slice().is_empty() {
                    // nothing left on the right
                    return true;
                } else if let Some(res) = (self.0)(&k, None, w) {
                    m.a.push((k, res));
                }
            }
        }
        true
""")], """use vec_collections::*;
fn main() {
    let mut a: VecMap<[(u32, u32); 2]> = (0..3).map(|x| (x, x)).collect();
    let b: VecMap<[(u32, u32); 2]> = (1..3).map(|x| (x, x)).collect();
    let e: VecMap<[(u32, u32); 2]> = a.right_join(&b, |_, v, w| if v.is_some() { None } else { Some(*w) });
    a.right_join_with(&b, |_, v, w| if v.is_some() { None } else { Some(*w) });
    assert_eq!(a, e);
}
""", "a function that drops shared keys but keeps right only ones, and a shared key that is not the last of the right map", "a dropped key comes back, the function is called twice")

S("set_clone_from", "C11", [(VS, """    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
""", """    fn clone(&self) -> Self {
        Self(self.0.clone())
    }

    fn clone_from(&mut self, source: &Self) {
        // keep the allocation
        let n = core::cmp::min(self.0.len(), source.0.len());
        for i in 0..n {
            self.0[i] = source.0[i].clone();
        }
        self.0.extend(source.0[n..].iter().cloned());
    }
""")], """use vec_collections::*;
fn main() {
    let mut a: VecSet<[u32; 4]> = (0..6).collect();
    let b: VecSet<[u32; 4]> = (1..3).collect();
    a.clone_from(&b);
    assert_eq!(a, b);
}
""", "clone_from onto a longer set", "elements of the old set stay")
