"""behaviour-preserving edits of the radix trees and tree maps"""
R = []
RM, RA, RF, RL = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs", "src/radix_tree/lazy_radix_tree.rs"
BM = "src/btree_map.rs"


def E(id, checks, *edits):
    R.append((id, checks.split(), edits))


E("common_prefix_loop", "C20 C21 C22 C23 C24 C25", (RM, "    a.iter().zip(b).take_while(|(a, b)| a == b).count()\n", """    let max = a.len().min(b.len());
    let mut n = 0;
    while n < max && a[n] == b[n] {
        n += 1;
    }
    n
"""))
E("common_prefix_position", "C21 C24", (RM, "    a.iter().zip(b).take_while(|(a, b)| a == b).count()\n",
  "    a.iter().zip(b.iter()).position(|(a, b)| a != b).unwrap_or_else(|| a.len().min(b.len()))\n"))
E("common_prefix_for", "C20", (RM, "    a.iter().zip(b).take_while(|(a, b)| a == b).count()\n", """    let mut n = 0;
    for (x, y) in a.iter().zip(b.iter()) {
        if x != y {
            break;
        }
        n += 1;
    }
    n
"""))
VAL = """            if let Some(w) = that.value() {
                if let Some(v) = &mut self.value_mut() {
                    if !f(v, w) {
                        *self.value_mut() = None;
                    }
                } else {
                    *self.value_mut() = Some(w.clone())
                }
            }
"""
E("outer_value_match", "C20 C25", (RM, "            // prefixes are identical\n" + VAL, """            // prefixes are identical
            match (self.value_mut().as_mut(), that.value()) {
                (Some(v), Some(w)) => {
                    let keep = f(v, w);
                    if !keep {
                        self.value_mut().take();
                    }
                }
                (None, Some(w)) => {
                    self.value_mut().replace(w.clone());
                }
                (_, None) => {}
            }
"""))
E("outer_split_simplified", "C20 C25", (RM, """            // self now has the same prefix as that, so just repeat the code
            // from where prefixes are identical
""" + VAL, """            // the artificial node has no value of its own
            *self.value_mut() = that.value().cloned();
"""))
E("outer_helper", "C20 C24 C25", (RM, "            // prefixes are identical\n" + VAL, "            // prefixes are identical\n            merge_value(self.value_mut(), that.value(), f);\n"),
  (RM, VAL, "            merge_value(self.value_mut(), that.value(), f);\n"),
  (RM, "/// Helper to contain an object", """fn merge_value<V: Clone>(
    own: &mut Option<V>,
    other: Option<&V>,
    f: impl Fn(&mut V, &V) -> bool,
) {
    if let Some(w) = other {
        let keep = match own {
            Some(v) => f(v, w),
            None => {
                *own = Some(w.clone());
                true
            }
        };
        if !keep {
            *own = None;
        }
    }
}

/// Helper to contain an object"""))
E("outer_branch_order", "C20 C25", (RM, """        } else if n == self.prefix().len() {
            // self is a prefix of that
            let that = that.materialize_shortened(n);
            self.outer_combine_children_with(&[that], f);
        } else if n == that.prefix().len() {
            // that is a prefix of self
            // split at the offset, then merge in that
            // we must not swap sides!
            self.split(n);
            // self now""", """        } else if n < that.prefix().len() && n == self.prefix().len() {
            // self is a prefix of that
            let rest = vec![that.materialize_shortened(n)];
            self.outer_combine_children_with(rest.as_slice(), f);
        } else if !(n < that.prefix().len()) {
            // that is a prefix of self
            self.split(n);
            // self now"""))
E("outer_disjoint_order", "C20 C24 C25", (RM, """            self.split(n);
            self.children_mut().push(that.materialize_shortened(n));
            self.children_mut().sort_by_key(|x| x.prefix()[0]);
""", """            self.split(n);
            let other = that.materialize_shortened(n);
            let first = self.children()[0].prefix()[0];
            if other.prefix()[0] < first {
                self.children_mut().insert(0, other);
            } else {
                self.children_mut().push(other);
            }
"""))
E("outer_disjoint_sort_by", "C20 C25", (RM, """            self.children_mut().push(that.materialize_shortened(n));
            self.children_mut().sort_by_key(|x| x.prefix()[0]);
""", """            let children = self.children_mut();
            children.push(that.materialize_shortened(n));
            children.sort_unstable_by(|a, b| a.prefix()[0].cmp(&b.prefix()[0]));
"""))
E("pure_disjoint_vec", "C21 C25", (RM, """        // disjoint
        children.push(a.materialize_shortened(n));
        children.push(b.materialize_shortened(n));
        children.sort_by_key(|x| x.prefix()[0]);
""", """        // disjoint
        let (x, y) = (a.materialize_shortened(n), b.materialize_shortened(n));
        children = if a.prefix()[n] < b.prefix()[n] {
            vec![x, y]
        } else {
            vec![y, x]
        };
"""))
E("inner_value_match", "C20 C25", (RM, """            if let (Some(v), Some(w)) = (self.value_mut(), that.value()) {
                if !f(v, w) {
                    *self.value_mut() = None;
                }
            } else {
                *self.value_mut() = None;
            }
""", """            let keep = match (self.value_mut().as_mut(), that.value()) {
                (Some(v), Some(w)) => f(v, w),
                _ => false,
            };
            if !keep {
                *self.value_mut() = None;
            }
"""))
E("inner_disjoint_reset", "C20 C25", (RM, """            // disjoint
            *self.value_mut() = None;
            self.children_mut().clear();
        }
        self.unsplit();
    }

    /// Left combine""", """            // disjoint
            *self = Self::default();
            return;
        }
        self.unsplit();
    }

    /// Left combine"""))
E("left_disjoint_early", "C20 C25", (RM, """            self.left_combine_children_with(that.children(), f);
        } else {
            // disjoint, nothing to do
        }
""", """            self.left_combine_children_with(that.children(), f);
        } else {
            // disjoint, nothing to do
            return;
        }
"""))
E("split_rewrite", "C20 C22 C25", (RM, """            let first = self.prefix()[..n].into();
            let rest = self.prefix()[n..].into();
            let mut split = Self::new(first, None, Vec::new());
            std::mem::swap(self, &mut split);
            let mut child = split;
            *child.prefix_mut() = rest;
            self.children_mut().push(child);
""", """            let (first, rest) = {
                let (first, rest) = self.prefix().split_at(n);
                (Fragment::from(first), Fragment::from(rest))
            };
            let mut child = std::mem::take(self);
            *child.prefix_mut() = rest;
            *self = Self::new(first, None, vec![child]);
"""))
E("unsplit_rewrite", "C20 C21 C22 C25", (RM, """            if self.children().len() == 1 && self.value().is_none() {
                let mut child = self.children_mut().pop().unwrap();
                child.prepend0(self.prefix());
                *self = child;
            }
""", """            if self.value().is_none() && self.children().len() == 1 {
                if let Some(mut child) = self.children_mut().pop() {
                    let mut prefix = self.prefix().to_vec();
                    prefix.extend_from_slice(child.prefix());
                    *child.prefix_mut() = prefix.as_slice().into();
                    let _ = std::mem::replace(self, child);
                }
            }
"""))
E("unsplit_no_retain", "C20 C25", (RM, "            self.children_mut().retain(|x| !x.is_empty());\n", ""))
E("unsplit_match", "C21 C25", (RM, """            if self.is_empty() {
                *self.prefix_mut() = Fragment::default();
            }
        }
""", """            match (self.value(), self.children().len()) {
                (None, 0) => *self.prefix_mut() = Fragment::default(),
                _ => {}
            }
        }
"""))
E("collision_take", "C20 C25", (RM, """        let av = &mut a[0];
        let bv = &b[0];
        av.outer_combine_with(bv, self.0);
        // we have modified av in place. We are only going to take it over if it
        // is non-empty, otherwise we skip it.
        let take = !av.is_empty();
        m.advance_a(1, take) && m.advance_b(1, false)
""", """        a[0].outer_combine_with(&b[0], self.0);
        let drop = a[0].is_empty();
        if !m.advance_a(1, !drop) {
            return false;
        }
        m.advance_b(1, false)
"""))
E("cmp_first", "C20", (RM, """    fn cmp(&self, a: &A, b: &B) -> Ordering {
        a.prefix()[0].cmp(&b.prefix()[0])
    }
    fn from_a(&self, m: &mut InPlaceVecMergeStateRef<'a, A, B, C>, n: usize) -> bool {""", """    fn cmp(&self, a: &A, b: &B) -> Ordering {
        a.prefix().first().cmp(&b.prefix().first())
    }
    fn from_a(&self, m: &mut InPlaceVecMergeStateRef<'a, A, B, C>, n: usize) -> bool {"""))
E("pure_outer_match", "C21 C25", (RM, """        value = match (a.value(), b.value()) {
            (Some(a), Some(b)) => f(a, b),
            (Some(a), None) => Some(a.clone()),
            (None, Some(b)) => Some(b.clone()),
            (None, None) => None,
        };
""", """        value = if let Some(w) = b.value() {
            if let Some(v) = a.value() {
                f(v, w)
            } else {
                Some(w.clone())
            }
        } else {
            a.value().cloned()
        };
"""))
E("pure_inner_zip", "C21 C25", (RM, """        value = match (a.value(), b.value()) {
            (Some(a), Some(b)) => f(a, b),
            _ => None,
        };
""", """        value = a.value().zip(b.value()).and_then(|(a, b)| f(a, b));
"""))
E("pure_inner_early", "C21 C25", (RM, """    let n = common_prefix(a.prefix(), b.prefix());
    let prefix = a.prefix()[..n].into();
    let mut children = Vec::<R>::new();
""", """    let n = common_prefix(a.prefix(), b.prefix());
    if n < a.prefix().len() && n < b.prefix().len() {
        return R::default();
    }
    let prefix = a.prefix()[..n].into();
    let mut children = Vec::<R>::new();
"""))
E("pure_left_clone", "C21 C25", (RM, """        children = a
            .children()
            .iter()
            .map(|x| x.materialize_shortened(0))
            .collect();
    }
    let mut res = R::new(prefix, value, children);
    res.unsplit();
    res
}

struct IntersectOp""", """        let mut copies = Vec::with_capacity(a.children().len());
        for x in a.children() {
            copies.push(materialize(x));
        }
        children = copies;
    }
    let mut res = R::new(prefix, value, children);
    res.unsplit();
    res
}

struct IntersectOp"""))
E("pure_left_value", "C21", (RM, """        value = match (a.value(), b.value()) {
            (Some(a), b) => f(a, b),
            _ => None,
        };
""", """        value = a.value().and_then(|v| f(v, b.value()));
"""))
E("remove_guard", "C22 C25", (RM, """            match that.value() {
                Some(value) if f(value) => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                _ => {
                    self.remove_prefix_children_with(that.children(), f);
                }
            }
        } else if""", """            if that.value().map_or(false, |v| f(v)) {
                *self.value_mut() = None;
                self.children_mut().clear();
            } else {
                self.remove_prefix_children_with(that.children(), f);
            }
        } else if"""))
E("remove_merged_branches", "C22 C25", (RM, """        if n == self.prefix().len() && n == that.prefix().len() {
            // prefixes are identical
            match that.value() {
                Some(value) if f(value) => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                _ => {
                    self.remove_prefix_children_with(that.children(), f);
                }
            }
        } else if n == that.prefix().len() {
            // that is a prefix of self
            match that.value() {
                Some(value) if f(value) => {
                    *self.value_mut() = None;
                    self.children_mut().clear();
                }
                _ => {
                    self.split(n);
                    self.remove_prefix_children_with(that.children(), f);
                }
            }
        } else""", """        if n == that.prefix().len() {
            // that is a prefix of self or identical
            match that.value() {
                Some(value) if f(value) => *self = Self::default(),
                _ => {
                    if n < self.prefix().len() {
                        self.split(n);
                    }
                    self.remove_prefix_children_with(that.children(), f);
                }
            }
        } else"""))
E("retain_guard", "C22 C25", (RM, """            if that.value().is_none() || !f(that.value().unwrap()) {
                *self.value_mut() = None;
                self.retain_prefix_children_with(that.children(), f);
            }""", """            let covered = match that.value() {
                Some(w) => f(w),
                None => false,
            };
            if !covered {
                *self.value_mut() = None;
                self.retain_prefix_children_with(that.children(), f);
            }"""))
E("retain_early_return", "C22 C25", (RM, """            // that is a prefix of self
            if that.value().is_none() || !f(that.value().unwrap()) {
                self.split(n);
                self.retain_prefix_children_with(that.children(), f);
            } // otherwise, keep it all
""", """            // that is a prefix of self
            if let Some(w) = that.value() {
                if f(w) {
                    // keep it all
                    return;
                }
            }
            self.split(n);
            self.retain_prefix_children_with(that.children(), f);
"""))
E("find_loop", "C23 C24", (RM, """    let n = common_prefix(tree.prefix(), prefix);
    // remaining in prefix
    let rp = prefix.len() - n;
    // remaining in tree prefix
    let rt = tree.prefix().len() - n;
    if rp == 0 && rt == 0 {
        // direct hit
        FindResult::Found(tree)
    } else if rp == 0 {
        // tree is a subtree of prefix
        FindResult::Prefix { tree, rt }
    } else if rt == 0 {
        // prefix is a subtree of tree
        let c = &prefix[n];
        if let Ok(index) = tree.children().binary_search_by(|e| e.prefix()[0].cmp(c)) {
            let child = &tree.children()[index];
            find(child, &prefix[n..])
        } else {
            FindResult::NotFound {
                closest: tree,
                rp,
                rt,
            }
        }
    } else {
        // disjoint, but we still need to store how far we matched
        FindResult::NotFound {
            closest: tree,
            rp,
            rt,
        }
    }
""", """    let mut tree = tree;
    let mut prefix = prefix;
    loop {
        let n = common_prefix(tree.prefix(), prefix);
        let rp = prefix.len() - n;
        let rt = tree.prefix().len() - n;
        if rp == 0 {
            return if rt == 0 {
                FindResult::Found(tree)
            } else {
                FindResult::Prefix { tree, rt }
            };
        }
        if rt > 0 {
            return FindResult::NotFound {
                closest: tree,
                rp,
                rt,
            };
        }
        prefix = &prefix[n..];
        match tree
            .children()
            .binary_search_by(|e| e.prefix()[0].cmp(&prefix[0]))
        {
            Ok(index) => tree = &tree.children()[index],
            Err(_) => {
                return FindResult::NotFound {
                    closest: tree,
                    rp,
                    rt,
                }
            }
        }
    }
"""))
E("find_key_search", "C24", (RM, """        let c = &prefix[n];
        if let Ok(index) = tree.children().binary_search_by(|e| e.prefix()[0].cmp(c)) {""", """        let c = prefix[n];
        if let Ok(index) = tree.children().binary_search_by_key(&c, |e| e.prefix()[0]) {"""))
E("find_linear", "C24", (RM, """        let c = &prefix[n];
        if let Ok(index) = tree.children().binary_search_by(|e| e.prefix()[0].cmp(c)) {
            let child = &tree.children()[index];
            find(child, &prefix[n..])
        } else {""", """        let c = &prefix[n];
        if let Some(child) = tree.children().iter().find(|e| &e.prefix()[0] == c) {
            find(child, &prefix[n..])
        } else {"""))
E("find_match", "C24", (RM, """    if rp == 0 && rt == 0 {
        // direct hit
        FindResult::Found(tree)
    } else if rp == 0 {
        // tree is a subtree of prefix
        FindResult::Prefix { tree, rt }
    } else if rt == 0 {""", """    if prefix.len() == n {
        match rt {
            0 => FindResult::Found(tree),
            rt => FindResult::Prefix { tree, rt },
        }
    } else if tree.prefix().len() == n {"""))
E("get_match", "C24", (RM, """        if let FindResult::Found(tree) = find(self, key) {
            tree.value()
        } else {
            None
        }""", """        match find(self, key) {
            FindResult::Found(tree) => tree.value(),
            _ => None,
        }"""))
E("contains_get", "C24", (RM, """        if let FindResult::Found(tree) = find(self, key) {
            tree.value().is_some()
        } else {
            false
        }""", "        self.get(key).is_some()"))
E("insert_direct", "C24 C25", (RM, """            *a = b.clone();
            true
        })""", """            a.clone_from(b);
            true
        })"""))
E("filter_prefix_parts", "C24 C25", (RM, """                let mut res = tree.clone();
                let p = res.prefix();
                *res.prefix_mut() = Fragment::from(&p[p.len() - rt..]);
                res.prepend(prefix);
                res""", """                let mut res = tree.clone();
                let mut full = prefix.to_vec();
                full.extend_from_slice(&tree.prefix()[tree.prefix().len() - rt..]);
                *res.prefix_mut() = full.as_slice().into();
                res"""))
E("subset_loop", "C23", (RM, """        l.value().is_none()
            && l.children()
                .iter()
                .all(|lc| is_subset0(lc, lc.prefix(), r, r_prefix))""", """        if l.value().is_some() {
            return false;
        }
        for lc in l.children() {
            if !is_subset0(lc, lc.prefix(), r, r_prefix) {
                return false;
            }
        }
        true"""))
E("subset_find_child", "C23", (RM, """        r.children()
            .iter()
            .any(|rc| is_subset0(l, l_prefix, rc, rc.prefix()))
    } else {
        // disjoint
        false
    }
}

fn intersects<""", """        r.children()
            .iter()
            .filter(|rc| rc.prefix()[0] == l_prefix[0])
            .any(|rc| is_subset0(l, l_prefix, rc, rc.prefix()))
    } else {
        // disjoint
        false
    }
}

fn intersects<"""))
E("intersects_loop", "C23", (RM, """        l.children()
            .iter()
            .any(|lc| intersects0(lc, lc.prefix(), r, r_prefix))""", """        let mut res = false;
        for lc in l.children().iter() {
            if intersects0(lc, lc.prefix(), r, r_prefix) {
                res = true;
                break;
            }
        }
        res"""))
E("intersects_value_first", "C23", (RM, """        (l.value().is_some() && r.value().is_some())
            || BoolOpMergeState""", """        l.value().and(r.value()).is_some()
            || BoolOpMergeState"""))
E("disjoint_via_intersects", "C23", (RM, "        !intersects(self, that)\n", "        !self.intersects(that)\n"))
E("superset_via_trait", "C23", (RM, "        is_subset(that, self)\n", "        that.is_subset(self)\n"))
E("materialize_loop", "C21 C24", (RM, """            self.children()
                .iter()
                .map(|x| x.materialize_shortened(0))
                .collect(),
        )
    }

    /// Outer combine this""", """            {
                let mut children = Vec::with_capacity(self.children().len());
                for child in self.children() {
                    children.push(child.materialize_shortened(0));
                }
                children
            },
        )
    }

    /// Outer combine this"""))
E("from_iter_each", "C24 C25", (RF, """        let mut res = RadixTree::default();
        for (k, v) in iter.into_iter() {
            res.insert(k.as_ref(), v)
        }
        res""", """        iter.into_iter().fold(RadixTree::default(), |mut res, (k, v)| {
            res.insert(k.as_ref(), v);
            res
        })"""))
E("arc_from_loop", "C24 C25", (RA, """        let children = children.into_iter().map(Self::from).collect::<Vec<_>>();
        Self::new(prefix, value, children)""", """        let mut converted = Vec::with_capacity(children.len());
        for child in children {
            converted.push(child.into());
        }
        ArcRadixTree {
            prefix,
            value,
            children: wrap_in_arc(converted),
        }"""))
E("union_with_closure", "C20", (RM, "        self.outer_combine_with(that, |_, _| true)\n", "        let keep_own = |_: &mut V, _: &V| true;\n        self.outer_combine_with(that, keep_own);\n"))
E("tree_inner_entry", "C19", (BM, """            for (k, v) in self.iter() {
                if let Some(w) = that.get(k) {
                    if let Some(r) = f(k, v, w) {
                        res.insert(k.clone(), r);
                    }
                }
            }""", """            for (k, v) in self.iter() {
                let r = that.get(k).and_then(|w| f(k, v, w));
                if let Some(r) = r {
                    res.insert(k.clone(), r);
                }
            }"""))
E("tree_left_filter_map", "C19", (BM, """        for (k, v) in self.iter() {
            let w = that.get(k);
            if let Some(r) = f(k, v, w) {
                res.insert(k.clone(), r);
            }
        }
        res""", """        res.extend(
            self.iter()
                .filter_map(|(k, v)| f(k, v, that.get(k)).map(|r| (k.clone(), r))),
        );
        res"""))
E("tree_outer_match", "C19", (BM, """            let arg = match that.get(k) {
                Some(w) => OuterJoinArg::Both(k, v, w),
                None => OuterJoinArg::Left(k, v),
            };
            if let Some(r) = f(arg) {
                res.insert(k.clone(), r);
            }""", """            let r = if let Some(w) = that.get(k) {
                f(OuterJoinArg::Both(k, v, w))
            } else {
                f(OuterJoinArg::Left(k, v))
            };
            if let Some(r) = r {
                res.insert(k.clone(), r);
            }"""))
