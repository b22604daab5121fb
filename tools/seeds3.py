SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


RM, RA, RF, RL = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs", "src/radix_tree/lazy_radix_tree.rs"
BM = "src/btree_map.rs"
HEAD = """use vec_collections::radix_tree::*;
type T = RadixTree<u8, i32>;
fn t(x: &[(&str, i32)]) -> T { x.iter().map(|(k, v)| (k.as_bytes(), *v)).collect() }
fn e(x: &T) -> Vec<(String, i32)> { x.iter().map(|(k, v)| (String::from_utf8(k.as_ref().to_vec()).unwrap(), *v)).collect() }
"""

S("outer_with_split_value", "C20", [(RM, """            // self now has the same prefix as that, so just repeat the code
            // from where prefixes are identical
            if let Some(w) = that.value() {
                if let Some(v) = &mut self.value_mut() {
                    if !f(v, w) {
                        *self.value_mut() = None;
                    }
                } else {
                    *self.value_mut() = Some(w.clone())
                }
            }
""", """            // self now has the same prefix as that and no value of its own
            if let Some(w) = that.value() {
                let mut v = w.clone();
                if f(&mut v, w) {
                    *self.value_mut() = Some(v);
                }
            }
""")], HEAD + """
fn main() {
    let mut a = t(&[("abc", 1)]);
    let b = t(&[("ab", 2)]);
    a.outer_combine_with(&b, |_, _| false);
    assert_eq!(e(&a), vec![("ab".into(), 2), ("abc".into(), 1)]);
}
""", "the other tree's key is a proper prefix of a compressed edge, and the closure rejects or changes values",
  "a value that exists only on the right is passed to the closure with itself")

S("prepend_long_prefix", "C20", [(RM, """        fn prepend0(&mut self, prefix: &[K]) {
            if !prefix.is_empty() && !self.is_empty() {
                let mut prefix1 = SmallVec::new();
                prefix1.extend_from_slice(prefix);""", """        fn prepend0(&mut self, prefix: &[K]) {
            if !prefix.is_empty() && !self.is_empty() {
                let mut prefix1 = SmallVec::new();
                // at most u16::MAX components are kept per edge
                let keep = prefix.len().min(0xffff);
                prefix1.extend_from_slice(&prefix[prefix.len() - keep..]);""")], HEAD + """
fn main() {
    let long = "a".repeat(0x10001);
    let l2 = format!("{}b", long);
    let mut a = t(&[(&long, 1), (&l2, 2)]);
    let b = t(&[(&long, 1)]);
    a.difference_with(&b);
    assert_eq!(a.get(l2.as_bytes()), Some(&2));
}
""", "joining a node whose compressed edge is longer than 65535 components with its only child", "the prefix is cut off, so all keys below it change")

S("pure_outer_bias", "C21", [(RM, """    } else if n == b.prefix().len() {
        // b is a prefix of a
        let a = a.materialize_shortened(n);
        value = b.value().cloned();
        children = VecMergeState::merge(
            &[a],
            b.children(),
            OuterCombineOp(f, PhantomData),""", """    } else if n == b.prefix().len() {
        // b is a prefix of a
        let a = a.materialize_shortened(n);
        value = b.value().cloned();
        // outer combine is symmetric, so the larger side can go first
        children = VecMergeState::merge(
            b.children(),
            &[a],
            OuterCombineOp(f, PhantomData),""")], HEAD + """
fn main() {
    let a = t(&[("abc", 1)]);
    let b = t(&[("ab", 2), ("abc", 3)]);
    let r = a.union(&b);
    assert_eq!(e(&r), vec![("ab".into(), 2), ("abc".into(), 1)]);
}
""", "the left tree's root edge extends the right one's, a shared key, and an asymmetric closure", "the closure is called with its arguments swapped")

S("pure_inner_missing_unsplit", "C25", [(RM, """    } else {
        // disjoint
    }
    let mut res = R::new(prefix, value, children);
    res.unsplit();
    res
}

/// Left combine""", """    } else {
        // disjoint
    }
    let mut res = R::new(prefix, value, children);
    // intersecting only makes a node degenerate if it loses its value
    if a.value().is_some() || res.children().is_empty() {
        res.unsplit();
    }
    res
}

/// Left combine""")], HEAD + """
fn main() {
    let a = t(&[("aa", 1), ("ab", 2)]);
    let b = t(&[("aa", 1), ("ac", 2)]);
    let r = a.intersection(&b);
    assert_eq!(r, t(&[("aa", 1)]));
}
""", "two branching nodes without a value that have exactly one child in common", "the result keeps a node with one child and no value, so it differs from the same tree built directly")

S("remove_prefix_split_pred", "C22", [(RM, """        } else if n == that.prefix().len() {
            // that is a prefix of self
            match that.value() {
                Some(value) if f(value) => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                _ => {
                    self.split(n);
                    self.remove_prefix_children_with(that.children(), f);
                }
            }""", """        } else if n == that.prefix().len() {
            // that is a prefix of self
            match that.value() {
                // a leaf of that covers all of self
                Some(value) if f(value) || that.children().is_empty() => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                _ => {
                    self.split(n);
                    self.remove_prefix_children_with(that.children(), f);
                }
            }""")], HEAD + """
fn main() {
    let mut a = t(&[("abc", 1)]);
    let b = t(&[("ab", 2)]);
    a.remove_prefix_with(&b, |v| *v > 5);
    assert_eq!(e(&a), vec![("abc".into(), 1)]);
}
""", "the prefix ends within an edge and its value is rejected by the predicate", "keys below a rejected prefix are removed")

S("retain_prefix_keeps_value", "C22", [(RM, """            if that.value().is_none() || !f(that.value().unwrap()) {
                *self.value_mut() = None;
                self.retain_prefix_children_with(that.children(), f);
            }""", """            if that.value().is_none() || !f(that.value().unwrap()) {
                if !self.children().is_empty() {
                    self.retain_prefix_children_with(that.children(), f);
                }
                if that.value().is_none() {
                    *self.value_mut() = None;
                }
            }""")], HEAD + """
fn main() {
    let mut a = t(&[("ab", 1), ("abc", 2)]);
    let b = t(&[("ab", 0), ("abc", 7)]);
    a.retain_prefix_with(&b, |v| *v > 5);
    assert_eq!(e(&a), vec![("abc".into(), 2)]);
}
""", "the same key in both trees, rejected by the predicate", "a value whose own prefix entry is rejected is kept")

S("intersects_value_short", "C23", [(RM, """    } else if n == l_prefix.len() {
        // l is a prefix of r
        let r_prefix = &r_prefix[n..];
        l.children()
            .iter()
            .any(|lc| intersects0(lc, lc.prefix(), r, r_prefix))""", """    } else if n == l_prefix.len() {
        // l is a prefix of r
        let r_prefix = &r_prefix[n..];
        // the first child that shares a component decides
        l.children()
            .iter()
            .find(|lc| lc.prefix()[0] >= r_prefix[0] && r.value().is_some() == lc.value().is_some())
            .map_or(false, |lc| intersects0(lc, lc.prefix(), r, r_prefix))""")], HEAD + """
fn main() {
    let l = t(&[("", 0), ("b", 1), ("bcc", 2), ("bdd", 3)]);
    let r = t(&[("bcc", 2), ("bdx", 3)]);
    assert!(l.intersects(&r));
}
""", "l is a prefix of r; the child of l on the path carries a value while r's root does not", "an intersection is missed")

S("filter_prefix_inner", "C24", [(RM, """                let mut res = tree.clone();
                let p = res.prefix();
                *res.prefix_mut() = Fragment::from(&p[p.len() - rt..]);
                res.prepend(prefix);
                res""", """                let mut res = tree.clone();
                let p = res.prefix();
                *res.prefix_mut() = Fragment::from(&p[prefix.len().min(p.len())..]);
                res.prepend(prefix);
                res""")], HEAD + """
fn main() {
    let a = t(&[("ab", 1), ("abcde", 2)]);
    assert_eq!(e(&a.filter_prefix(b"abcd")), vec![("abcde".into(), 2)]);
    let a = t(&[("abcdef", 1), ("x", 2), ("abcdeg", 3)]);
    assert_eq!(e(&a.filter_prefix(b"abc")), vec![("abcdef".into(), 1), ("abcdeg".into(), 3)]);
    let a = t(&[("a", 1), ("abcd", 2)]);
    assert_eq!(e(&a.filter_prefix(b"ab")), vec![("abcd".into(), 2)]);
}
""", "the prefix ends within an edge below the root", "keys of the result lose components")

S("find_child_prefix", "C24", [(RM, """            let child = &tree.children()[index];
            find(child, &prefix[n..])""", """            let child = &tree.children()[index];
            let rest = &prefix[n..];
            if child.children().is_empty() && rest.len() == child.prefix().len() {
                // a leaf of exactly the right length, no need to look further
                let k = rest.len() / 2;
                if rest[k] == child.prefix()[k] && rest.last() == child.prefix().last() {
                    return FindResult::Found(child);
                }
            }
            find(child, rest)""")], HEAD + """
fn main() {
    let a = t(&[("x", 0), ("xabcde", 1)]);
    assert_eq!(a.get(b"xaXcde"), None);
    assert_eq!(a.get(b"xabcde"), Some(&1));
}
""", "a key of the same length as a leaf that differs from it in a component that is neither first, middle nor last", "lookup finds an absent key")

S("single_empty_key", "C24", [(RM, """    fn insert(&mut self, key: &[K], value: V) {
        self""", """    fn insert(&mut self, key: &[K], value: V) {
        if key.len() == self.prefix().len() && self.children().is_empty() {
            // replace a leaf
            if key.last() == self.prefix().last() && key.first() == self.prefix().first() {
                *self.value_mut() = Some(value);
                return;
            }
        }
        self""")], HEAD + """
fn main() {
    let mut a = t(&[("abc", 1)]);
    a.insert(b"axc", 2);
    assert_eq!(e(&a), vec![("abc".into(), 1), ("axc".into(), 2)]);
}
""", "inserting into a one-key tree a key of the same length with the same first and last component", "the existing mapping is replaced instead of adding one")

S("arc_children_shared", "C24", [(RA, """        let children = children.into_iter().map(Self::from).collect::<Vec<_>>();
        Self::new(prefix, value, children)""", """        let mut prefix = prefix;
        let mut children = children.into_iter().map(Self::from).collect::<Vec<_>>();
        if value.is_none() && children.len() == 2 && children[1].is_empty() {
            children.pop();
        }
        if children.len() == 1 && children[0].value.is_none() {
            // flatten chains
            let child = children.pop().unwrap();
            let joined: Vec<K> = prefix.iter().chain(child.prefix.iter()).cloned().collect();
            prefix = Fragment::from(joined.as_slice());
            return Self {
                prefix,
                value,
                children: child.children,
            };
        }
        Self::new(prefix, value, children)""")], HEAD + """
fn main() {
    let a = t(&[("a", 1), ("abx", 2), ("aby", 3)]);
    let b: ArcRadixTree<u8, i32> = a.clone().into();
    assert_eq!(b.get(b"a"), Some(&1));
    assert_eq!(b.get(b"abx"), Some(&2));
}
""", "a node with a value whose only child has no value but branches", "conversion to an ArcRadixTree moves a value to a longer key")

S("outer_collision_keep_empty", "C25", [(RM, """        let a = m.a.next().unwrap();
        let b = m.b.next().unwrap();
        let res: R = outer_combine(a, b, self.0);
        if !res.is_empty() {
            m.r.push(res);
        }
        true""", """        let a = m.a.next().unwrap();
        let b = m.b.next().unwrap();
        let res: R = outer_combine(a, b, self.0);
        m.r.push(res);
        true"""), (RM, """            // remove all empty children
            // this might sometimes not be necessary, but it is tricky to find out when.
            self.children_mut().retain(|x| !x.is_empty());
""", """            // remove empty children, there can be at most one next to a value
            if self.value().is_none() {
                self.children_mut().retain(|x| !x.is_empty());
            } else if let Some(i) = self.children().iter().position(|x| x.is_empty()) {
                self.children_mut().remove(i);
            }
""")], HEAD + """
fn main() {
    let a = t(&[("", 0), ("a", 1), ("b", 2), ("c", 3)]);
    let r = a.outer_combine(&a, |v, _| if *v == 0 { Some(0) } else { None });
    assert_eq!(r, t(&[("", 0)]));
}
""", "a node with a value two of whose children become empty in a pure outer combine", "empty subtrees stay in the result")

BH = """use std::collections::BTreeMap;
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
use vec_collections::OuterJoinArg;
"""
S("tree_outer_join_second", "C19", [(BM, """            if self.get(k).is_none() {
                let arg""", """            if !res.contains_key(k) {
                let arg""")], BH + """
fn main() {
    let a: BTreeMap<i32, i32> = [(1, 1), (2, 2)].into_iter().collect();
    let b: BTreeMap<i32, i32> = [(2, 3), (3, 4)].into_iter().collect();
    let r = a.outer_join(&b, |x| match x {
        OuterJoinArg::Both(_, _, _) => None,
        OuterJoinArg::Left(_, v) => Some(*v),
        OuterJoinArg::Right(_, w) => Some(*w),
    });
    assert_eq!(r.into_iter().collect::<Vec<_>>(), vec![(1, 1), (3, 4)]);
}
""", "a key in both maps whose combination is rejected by the closure", "the closure is called again for it as if it were only on the right")
