"""behaviour-preserving edits: every check has to stay quiet on them"""
R = []


def E(id, checks, *edits):
    R.append((id, checks.split(), edits))


E("contains_match", "C02 C05 C14", ("src/vec_set.rs", "        self.as_slice().binary_search(value).is_ok()\n",
  "        match self.as_slice().binary_search_by(|e| e.cmp(value)) {\n            Ok(_) => true,\n            Err(_) => false,\n        }\n"))
E("contains_linear", "C05 C14", ("src/vec_set.rs", "        self.as_slice().binary_search(value).is_ok()\n",
  "        let mut found = false;\n        for e in self.as_slice() {\n            if e == value {\n                found = true;\n                break;\n            }\n        }\n        found\n"))
E("insert_helper", "C01 C05 C14", ("src/vec_set.rs", "        match self.0.binary_search(&that) {\n            Ok(index) => {\n                self.0[index] = that;\n                false\n            }\n            Err(index) => {\n                self.0.insert(index, that);\n                true\n            }\n        }\n",
  "        let (found, index) = self.locate(&that);\n        if found {\n            self.0[index] = that;\n        } else {\n            self.0.insert(index, that);\n        }\n        !found\n    }\n\n    fn locate(&self, that: &A::Item) -> (bool, usize) {\n        match self.0.binary_search(that) {\n            Ok(index) => (true, index),\n            Err(index) => (false, index),\n        }\n"))
E("remove_via_position", "C05 C14", ("src/vec_set.rs", "        if let Ok(index) = self.0.binary_search(that) {\n            self.0.remove(index);\n            true\n        } else {\n            false\n        }\n",
  "        let index = self.0.iter().position(|e| e == that);\n        index.map(|i| self.0.remove(i)).is_some()\n"))
E("subset_via_all", "C04 C14", ("src/vec_set.rs", "        !BoolOpMergeState::merge(self.as_slice(), that.as_slice(), SetDiffOpt)\n", "        self.as_slice().iter().all(|e| that.contains(e))\n"))
E("advance_helper", "C02 C06", ("src/merge_state.rs", """            self.r.reserve(n);
            for e in self.b.take_front(n).iter() {
                self.r.push(C::convert(e))
            }
        } else {
            self.b.drop_front(n);
        }
        true
    }
}

/// A merge state where we build into a new vec
""", """            self.take_b(n);
        } else {
            let _ = self.b.take_front(n);
        }
        true
    }
}

impl<'a, A, B, Arr: Array<Item = A>, C: Converter<&'a B, A>> SmallVecMergeState<'a, A, B, Arr, C> {
    fn take_b(&mut self, n: usize) {
        let front = self.b.take_front(n);
        self.r.extend(front.iter().map(C::convert));
    }
}

/// A merge state where we build into a new vec
"""))
E("advance_while", "C01 C02", ("src/merge_state.rs", """            self.r.reserve(n);
            for e in self.a.take_front(n).iter() {
                self.r.push(e.clone())
            }
        } else {""", """            let mut left = n;
            while left > 0 {
                if let Some(e) = self.a.next() {
                    self.r.push(e.clone());
                }
                left -= 1;
            }
        } else {"""))
E("inplace_skip", "C03 C07", ("src/merge_state.rs", """    fn advance_b(&mut self, n: usize, take: bool) -> bool {
        if take {
            self.a.extend_from_iter((&mut self.b).map(C::convert), n);
        } else {
            for _ in 0..n {
                let _ = self.b.next();
            }
        }
        true
    }
}

impl<'a, A: Array, B: Array, C: Converter<B::Item, A::Item>> InPlaceMergeState<'a, A, B, C> {
    pub fn merge""", """    fn advance_b(&mut self, n: usize, take: bool) -> bool {
        let mut i = 0;
        while i < n {
            if let Some(e) = self.b.next() {
                if take {
                    self.a.push(C::convert(e));
                }
            }
            i += 1;
        }
        true
    }
}

impl<'a, A: Array, B: Array, C: Converter<B::Item, A::Item>> InPlaceMergeState<'a, A, B, C> {
    pub fn merge"""))
E("total_and_demorgan", "C13", ("src/total_vec_set.rs", "            (true, true) => Self::Output::new(&that.elements | &self.elements, true),\n        }\n    }\n}\n\nimpl<T: Ord, A: Array<Item = T>> BitAndAssign",
  "            (true, true) => !&(&(!self) | &(!that)),\n        }\n    }\n}\n\nimpl<T: Ord, A: Array<Item = T>> BitAndAssign"))
E("total_sub_via_and", "C13", ("src/total_vec_set.rs", """        match (self.negated, that.negated) {
            // intersection of elements
            (false, false) => Self::Output::new(&self.elements - &that.elements, false),
            // keep only holes of that
            (false, true) => Self::Output::new(&self.elements & &that.elements, false),
            // add holes from that
            (true, false) => Self::Output::new(&self.elements | &that.elements, true),
            // union of elements
            (true, true) => Self::Output::new(&that.elements - &self.elements, false),
        }
""", "        self & &!that\n"))
E("total_xor_assign", "C13", ("src/total_vec_set.rs", "        self.elements ^= that.elements;\n        self.negated ^= that.negated;\n",
  "        let TotalVecSet { elements, negated } = that;\n        self.negated = self.negated != negated;\n        self.elements ^= elements;\n"))
E("total_disjoint", "C14", ("src/total_vec_set.rs", """        match (self.negated, that.negated) {
            (false, false) => self.elements.is_disjoint(&that.elements),
            (false, true) => self.elements.is_subset(&that.elements),
            (true, false) => self.elements.is_superset(&that.elements),
            (true, true) => false,
        }
""", """        if self.negated && that.negated {
            return false;
        }
        if self.negated {
            return that.is_disjoint(self);
        }
        if that.negated {
            self.elements.is_subset(&that.elements)
        } else {
            self.elements.is_disjoint(&that.elements)
        }
"""))
E("map_outer_helper", "C06 C15", ("src/vec_map.rs", """    fn from_a(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>, n: usize) -> bool {
        for _ in 0..n {
            if let Some((k, a)) = m.a.next() {
                let arg = OuterJoinArg::Left(k, a);
                if let Some(res) = (self.0)(arg) {
                    m.r.push((k.clone(), res));
                }
            }
        }
        true
    }
""", """    fn from_a(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>, n: usize) -> bool {
        for (k, a) in m.a.take_front(n) {
            let res = (self.0)(OuterJoinArg::Left(k, a));
            m.r.extend(res.map(|r| (k.clone(), r)));
        }
        true
    }
"""))
E("map_inner_match", "C06", ("src/vec_map.rs", """    F: Fn(&K, &V, &W) -> Option<R>,
{
    fn cmp(&self, a: &(K, V), b: &(K, W)) -> Ordering {
        a.0.cmp(&b.0)
    }
    fn from_a(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>, n: usize) -> bool {
        m.a.drop_front(n);
        true
    }
    fn from_b(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>, n: usize) -> bool {
        m.b.drop_front(n);
        true
    }
    fn collision(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>) -> bool {
        if let Some((k, a)) = m.a.next() {
            if let Some((_, b)) = m.b.next() {
                if let Some(res) = (self.0)(k, a, b) {
                    m.r.push((k.clone(), res));
                }
            }
        }
        true
    }
""", """    F: Fn(&K, &V, &W) -> Option<R>,
{
    fn cmp(&self, a: &(K, V), b: &(K, W)) -> Ordering {
        b.0.cmp(&a.0).reverse()
    }
    fn from_a(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>, n: usize) -> bool {
        for _ in 0..n {
            m.a.next();
        }
        true
    }
    fn from_b(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>, n: usize) -> bool {
        let _ = m.b.take_front(n);
        true
    }
    fn collision(&self, m: &mut SmallVecMergeState<'a, (K, V), (K, W), A>) -> bool {
        match (m.a.next(), m.b.next()) {
            (Some((k, a)), Some((_, b))) => {
                if let Some(res) = (self.0)(k, a, b) {
                    m.r.push((k.clone(), res));
                }
                true
            }
            _ => true,
        }
    }
"""))
E("map_insert_replace", "C09 C01", ("src/vec_map.rs", """                let mut elem = (key, value);
                std::mem::swap(&mut elem, &mut self.0[index]);
                Some(elem.1)
""", """                let slot = &mut self.0[index];
                let old = std::mem::replace(slot, (key, value));
                Some(old.1)
"""))
E("map_get_mut_if", "C09", ("src/vec_map.rs", """        match elements.binary_search_by(|p| p.0.borrow().cmp(key)) {
            Ok(index) => Some(&mut elements[index].1),
            Err(_) => None,
        }
""", """        let index = elements.binary_search_by(|p| p.0.borrow().cmp(key)).ok()?;
        elements.get_mut(index).map(|e| &mut e.1)
"""))
E("map_values_loop", "C09", ("src/vec_map.rs", """        VecMap::new(
            self.0
                .into_iter()
                .map(|entry| (entry.0, f(entry.1)))
                .collect(),
        )
""", """        let mut res = SmallVec::with_capacity(self.0.len());
        for (k, v) in self.0 {
            res.push((k, f(v)));
        }
        VecMap::new(res)
"""))
E("combine_with_nested", "C08 C10", ("src/vec_map.rs", """                Some(match arg {
                    OuterJoinArg::Left(_, v) => v,
                    OuterJoinArg::Right(_, v) => v,
                    OuterJoinArg::Both(_, v, w) => f(v, w),
                })
""", """                let res = match arg {
                    OuterJoinArg::Both(_, v, w) => f(v, w),
                    OuterJoinArg::Left(_, v) | OuterJoinArg::Right(_, v) => v,
                };
                Some(res)
"""))
E("tmap_combine_loop", "C15", ("src/total_vec_map.rs", """            if r != r_default {
                Some(r)
            } else {
                None
            }
        });
        Self(r, r_default)
""", """            Some(r).filter(|r| *r != r_default)
        });
        Self(r, r_default)
"""))
E("tmap_map_values", "C15", ("src/total_vec_map.rs", """            .filter_map(|entry| {
                let w = f(&entry.1);
                if w != default {
                    Some((entry.0.clone(), w))
                } else {
                    None
                }
            })
            .collect();
""", """            .map(|(k, v)| (k.clone(), f(v)))
            .filter(|(_, w)| *w != default)
            .collect();
"""))
E("tmap_new_loop", "C16 C12", ("src/total_vec_map.rs", """        let mut entries = map;
        // ensure canonical representation!
        entries.retain(|(_, v)| *v != default);
        Self(entries, default)
""", """        // ensure canonical representation!
        let entries = map.into_iter().filter(|(_, v)| *v != default).collect();
        Self(VecMap::new(entries), default)
"""))
E("tmap_index_match", "C16", ("src/total_vec_map.rs", "        self.0.get(key).unwrap_or(&self.1)\n", "        match self.0.get(key) {\n            Some(v) => v,\n            None => &self.1,\n        }\n"))
E("set_cmp_iter", "C17", ("src/vec_set.rs", "        self.0.cmp(&other.0)\n", "        self.as_slice().iter().cmp(other.as_slice().iter())\n"))
E("set_partial_via_cmp", "C17", ("src/vec_set.rs", "impl<T: PartialOrd, A: Array<Item = T>> PartialOrd for VecSet<A> {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        self.0.partial_cmp(&other.0)\n",
  "impl<T: PartialOrd, A: Array<Item = T>> PartialOrd for VecSet<A> {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        self.as_slice().partial_cmp(other.as_slice())\n"))
E("set_eq_slice", "C17 C14", ("src/vec_set.rs", "        self.0 == other.0\n    }\n}\n\nimpl<T: Eq, A: Array<Item = T>> Eq for VecSet", "        self.len() == other.len() && self.iter().zip(other.iter()).all(|(a, b)| a == b)\n    }\n}\n\nimpl<T: Eq, A: Array<Item = T>> Eq for VecSet"))
E("set_hash_slice", "C17", ("src/vec_set.rs", "        self.0.hash(state)\n", "        self.as_slice().hash(state)\n"))
E("set_visit_loop", "C12", ("src/vec_set.rs", """        while let Some(value) = seq.next_element()? {
            values.push(value);
        }
        values.sort();
        values.dedup();
""", """        loop {
            match seq.next_element()? {
                Some(value) => values.push(value),
                None => break,
            }
        }
        values.sort();
        values.dedup();
"""))
E("map_visit_from_iter", "C12", ("src/vec_map.rs", """        values.sort_by_key(|x: &(K, V)| x.0.clone());
        values.dedup_by_key(|x: &mut (K, V)| x.0.clone());
        Ok(VecMap(values))
""", """        values.sort_by(|a, b| a.0.cmp(&b.0));
        values.dedup_by(|a, b| a.0 == b.0);
        Ok(VecMap(values))
"""))
E("from_vec_smallvec", "C10", ("src/vec_set.rs", """        let mut vec = vec;
        vec.sort();
        vec.dedup();
        Self::new_unsafe(SmallVec::from_vec(vec))
""", """        let mut inner: SmallVec<A> = SmallVec::from_vec(vec);
        inner.sort();
        inner.dedup();
        Self::new_unsafe(inner)
"""))
E("dedup_while", "C10", ("src/dedup.rs", """    let mut j = 0;
    for i in 1..d.len() {
        if !same_bucket(&d[i], &d[j]) {
            j += 1;
            if i != j {
                d.swap(i, j);
            }
        } else if keep == Keep::Last {
            d.swap(i, j);
        }
    }
    j + 1
""", """    let mut len = 1;
    let mut i = 1;
    while i < d.len() {
        let same = same_bucket(&d[i], &d[len - 1]);
        if !same {
            len += 1;
            d.swap(i, len - 1);
        } else if keep == Keep::Last {
            d.swap(i, len - 1);
        }
        i += 1;
    }
    len
"""))
E("retain_explicit", "C05", ("src/vec_set.rs", "        self.0.retain(|entry| f(entry))\n", "        let mut i = 0;\n        while i < self.0.len() {\n            if f(&self.0[i]) {\n                i += 1;\n            } else {\n                self.0.remove(i);\n            }\n        }\n"))
E("bitor_assign_swap", "C03 C01", ("src/vec_set.rs", "        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.0, SetUnionOp, CloneConverter);\n", "        if that.is_empty() {\n            return;\n        }\n        let target = &mut self.0;\n        InPlaceSmallVecMergeStateRef::merge(target, &that.0, SetUnionOp, CloneConverter);\n"))
E("disjoint_fast_path", "C04 C14", ("src/vec_set.rs", "        !BoolOpMergeState::merge(self.as_slice(), that.as_slice(), SetIntersectionOp)\n", """        let (a, b) = (self.as_slice(), that.as_slice());
        if let (Some(al), Some(bf)) = (a.last(), b.first()) {
            if al < bf {
                return true;
            }
        }
        !BoolOpMergeState::merge(a, b, SetIntersectionOp)
"""))
E("union_fast_path", "C02 C01", ("src/vec_set.rs", """        VecSet(SmallVecMergeState::merge(
            self.as_slice(),
            that.as_slice(),
            SetUnionOp,
            CloneConverter,
        ))
""", """        let (a, b) = (self.as_slice(), that.as_slice());
        if a.is_empty() {
            return VecSet(b.iter().cloned().collect());
        }
        if let (Some(al), Some(bf)) = (a.last(), b.first()) {
            if al < bf {
                let mut res: SmallVec<A> = a.iter().cloned().collect();
                res.extend(b.iter().cloned());
                return VecSet(res);
            }
        }
        VecSet(SmallVecMergeState::merge(
            self.as_slice(),
            that.as_slice(),
            SetUnionOp,
            CloneConverter,
        ))
"""))
E("merge_rolled", "C02 C01 C03", ("src/vec_set.rs", """impl<T: Ord, I: MergeStateMut<A = T, B = T>> MergeOperation<I> for SetUnionOp {
    fn cmp(&self, a: &T, b: &T) -> Ordering {
        a.cmp(b)
    }
    fn from_a(&self, m: &mut I, n: usize) -> bool {
        m.advance_a(n, true)
    }
""", """impl<T: Ord, I: MergeStateMut<A = T, B = T>> MergeOperation<I> for SetUnionOp {
    fn cmp(&self, a: &T, b: &T) -> Ordering {
        if a < b {
            Ordering::Less
        } else if a > b {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
    fn from_a(&self, m: &mut I, n: usize) -> bool {
        for _ in 0..n {
            if !m.advance_a(1, true) {
                return false;
            }
        }
        true
    }
"""))
E("extend_insert", "C10", ("src/vec_set.rs", "        *self |= Self::from_iter(iter);\n", "        let other = Self::from_iter(iter);\n        if self.is_empty() {\n            *self = other;\n        } else {\n            *self |= other;\n        }\n"))
E("set_iter_size", "C11", ("src/iterators.rs", "impl<'a, T> Iterator for SliceIterator<'a, T> {", "// iterates over a slice\nimpl<'a, T> Iterator for SliceIterator<'a, T> {"))
E("from_btreeset", "C11", ("src/vec_set.rs", "        Self::new_unsafe(value.into_iter().collect())\n", "        let mut res = SmallVec::new();\n        for e in value {\n            res.push(e);\n        }\n        Self::new_unsafe(res)\n"))
E("into_vec_loop", "C11", ("src/vec_set.rs", "        value.0.into_vec()\n", "        value.into_iter().collect()\n"))
E("total_contains_if", "C14 C13", ("src/total_vec_set.rs", "        self.negated ^ self.elements.contains(value)\n", "        let stored = self.elements.contains(value);\n        if self.negated {\n            !stored\n        } else {\n            stored\n        }\n"))
E("left_join_with_zip", "C07", ("src/vec_map.rs", """            if let Some((k, v)) = m.a.pop_front() {
                if let Some(v) = (self.0)(&k, v, None) {
                    m.a.push((k, v))
                }
            }
""", """            let (k, v) = match m.a.pop_front() {
                Some(e) => e,
                None => continue,
            };
            let res = (self.0)(&k, v, None);
            if let Some(v) = res {
                m.a.push((k, v))
            }
"""))
E("ser_collect", "C12", ("src/vec_set.rs", """        let mut state = serializer.serialize_seq(Some(self.len()))?;
        for item in self.iter() {
            state.serialize_element(&item)?;
        }
        state.end()
""", """        let n = self.0.len();
        let mut state = serializer.serialize_seq(Some(n))?;
        let mut i = 0;
        while i < n {
            state.serialize_element(&self.0[i])?;
            i += 1;
        }
        state.end()
"""))
E("map_cmp_slice", "C17", ("src/vec_map.rs", "        self.0.cmp(&other.0)\n", "        self.as_slice().cmp(other.as_slice())\n"))
E("tmap_cmp_then", "C17", ("src/total_vec_map.rs", "        (&self.0, &self.1).cmp(&(&other.0, &other.1))\n", "        self.0.cmp(&other.0).then_with(|| self.1.cmp(&other.1))\n"))
E("tmap_sup_if", "C15", ("src/total_vec_map.rs", "        self.combine_ref(that, |a, b| cmp::max(a, b).clone())\n", "        self.combine_ref(that, |a, b| if a > b { a.clone() } else { b.clone() })\n"))
E("map_retain_move", "C09", ("src/vec_map.rs", "        self.0.retain(|entry| f(entry))\n", "        let entries = std::mem::take(&mut self.0);\n        self.0 = entries.into_iter().filter(|e| f(e)).collect();\n"))
E("single_once", "C11", ("src/vec_set.rs", "        let mut res = SmallVec::new();\n        res.push(value);\n        Self(res)\n", "        Self(std::iter::once(value).collect())\n"))
E("sub_assign_retain", "C03", ("src/vec_set.rs", "        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.0, SetDiffOpt, CloneConverter);\n", "        self.0.retain(|e| !that.contains(e));\n"))
E("difference_filter", "C02", ("src/vec_set.rs", """        VecSet(SmallVecMergeState::merge(
            self.as_slice(),
            that.as_slice(),
            SetDiffOpt,
            CloneConverter,
        ))
""", """        VecSet(
            self.as_slice()
                .iter()
                .filter(|e| !that.contains(e))
                .cloned()
                .collect(),
        )
"""))
E("two_pointer_intersection", "C02 C01", ("src/vec_set.rs", """        VecSet(SmallVecMergeState::merge(
            self.as_slice(),
            that.as_slice(),
            SetIntersectionOp,
            CloneConverter,
        ))
""", """        let (a, b) = (self.as_slice(), that.as_slice());
        let mut res: SmallVec<A> = SmallVec::new();
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].cmp(&b[j]) {
                Ordering::Less => i += 1,
                Ordering::Greater => j += 1,
                Ordering::Equal => {
                    res.push(a[i].clone());
                    i += 1;
                    j += 1;
                }
            }
        }
        VecSet(res)
"""))
E("two_pointer_subset", "C04", ("src/vec_set.rs", "        !BoolOpMergeState::merge(self.as_slice(), that.as_slice(), SetDiffOpt)\n", """        let (a, b) = (self.as_slice(), that.as_slice());
        let mut j = 0;
        for e in a {
            while j < b.len() && b[j] < *e {
                j += 1;
            }
            if j == b.len() || b[j] != *e {
                return false;
            }
            j += 1;
        }
        true
"""))
E("eq_order", "C13 C14 C17 C12", ("src/total_vec_set.rs", "        self.elements == other.elements && self.negated == other.negated\n", "        self.negated == other.negated && self.elements == other.elements\n"))
