"""behaviour-preserving edits: iteration, collectors, deserialisation, radix lookups"""
R = []
RM, RA, RF, RL = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs", "src/radix_tree/lazy_radix_tree.rs"
VS, VM, DD = "src/vec_set.rs", "src/vec_map.rs", "src/dedup.rs"


def E(id, checks, *edits):
    R.append((id, checks.split(), edits))


VNEXT = """        while !self.stack.is_empty() {
            if let Some(pos) = self.inc() {
                if pos < self.tree().children().len() {
                    self.stack.push((&self.tree().children()[pos], 0));
                } else {
                    self.stack.pop();
                }
            } else if let Some(value) = self.tree().value() {
                return Some(value);
            }
        }
        None
"""
E("values_loop_last_mut", "C26", (RM, VNEXT, """        while let Some((tree, pos)) = self.stack.last_mut() {
            let tree: &'a T = tree;
            let at = *pos;
            *pos += 1;
            if at == 0 {
                if let Some(value) = tree.value() {
                    return Some(value);
                }
            } else if let Some(child) = tree.children().get(at - 1) {
                self.stack.push((child, 0));
            } else {
                self.stack.pop();
            }
        }
        None
"""))
E("values_match", "C26", (RM, VNEXT, """        loop {
            if self.stack.is_empty() {
                return None;
            }
            match self.inc() {
                Some(pos) => match self.tree().children().get(pos) {
                    Some(child) => self.stack.push((child, 0)),
                    None => {
                        let _ = self.stack.pop();
                    }
                },
                None => {
                    let v = self.tree().value();
                    if v.is_some() {
                        return v;
                    }
                }
            }
        }
"""))
INEXT = """        while !self.stack.is_empty() {
            if let Some(pos) = self.inc() {
                if pos < self.tree().children().len() {
                    let child = &self.tree().children()[pos];
                    self.path.append(child.prefix());
                    self.stack.push((child, 0));
                } else {
                    self.path.pop(self.tree().prefix().len());
                    self.stack.pop();
                }
            } else if let Some(value) = self.tree().value().as_ref() {
                return Some((self.path.clone(), value));
            }
        }
        None
"""
E("iter_reordered", "C26", (RM, INEXT, """        while !self.stack.is_empty() {
            match self.inc() {
                None => {
                    if let Some(value) = self.tree().value() {
                        let key = self.path.clone();
                        return Some((key, value));
                    }
                }
                Some(pos) if pos < self.tree().children().len() => {
                    let child = &self.tree().children()[pos];
                    self.stack.push((child, 0));
                    self.path.append(child.prefix());
                }
                Some(_) => {
                    if let Some((tree, _)) = self.stack.pop() {
                        self.path.pop(tree.prefix().len());
                    }
                }
            }
        }
        None
"""))
E("iter_helpers", "C26", (RM, INEXT, """        while !self.stack.is_empty() {
            if let Some(pos) = self.inc() {
                self.step(pos);
            } else if let Some(value) = self.tree().value().as_ref() {
                return Some((self.path.clone(), value));
            }
        }
        None
"""), (RM, """impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> SortedByKey for Iter<'a, K, V, T> {}
""", """impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> SortedByKey for Iter<'a, K, V, T> {}

impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> Iter<'a, K, V, T> {
    fn step(&mut self, pos: usize) {
        let tree = self.tree();
        if let Some(child) = tree.children().get(pos) {
            self.path.append(child.prefix());
            self.stack.push((child, 0));
        } else {
            self.path.pop(tree.prefix().len());
            self.stack.pop();
        }
    }
}
"""))
E("iter_pos_checked_sub", "C26", (RM, """        let pos = &mut self.stack.last_mut().unwrap().1;
        let res = if *pos == 0 { None } else { Some(*pos - 1) };
        *pos += 1;
        res
    }
}

impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> SortedByKey""", """        let (_, pos) = self.stack.last_mut()?;
        let res = pos.checked_sub(1);
        *pos += 1;
        res
    }
}

impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> SortedByKey"""))
E("iterkey_pop_explicit", "C26", (RM, "        elems.truncate(elems.len().saturating_sub(n));\n", """        let len = elems.len();
        if n >= len {
            elems.clear();
        } else {
            elems.truncate(len - n);
        }
"""))
E("iterkey_pop_loop", "C26", (RM, "        elems.truncate(elems.len().saturating_sub(n));\n", """        let len = elems.len();
        let keep = if n < len { len - n } else { 0 };
        elems.drain(keep..);
"""))
E("iterkey_append_extend", "C26", (RM, "        elems.extend_from_slice(data);\n", "        elems.reserve(data.len());\n        elems.extend(data.iter().cloned());\n"))
E("iterkey_append_loop", "C26", (RM, "        elems.extend_from_slice(data);\n", "        for x in data {\n            elems.push(x.clone());\n        }\n"))
E("iterkey_get_mut", "C26", (RM, """        let elems = Arc::make_mut(&mut self.0);
        elems.truncate(elems.len().saturating_sub(n));
""", """        let keep = self.0.len().saturating_sub(n);
        match Arc::get_mut(&mut self.0) {
            Some(elems) => elems.truncate(keep),
            None => self.0 = Arc::new(self.0[..keep].to_vec()),
        }
"""))
E("iterkey_new_vec_from", "C26", (RM, "        Self(Arc::new(root.to_vec()))\n", "        Self(Arc::new(Vec::from(root)))\n"))
SCAN = """            FindResult::Found(tree) => {
                let prefix = IterKey::new(prefix);
                Iter::new(tree, prefix)
            }
            FindResult::Prefix { tree, rt } => {
                let mut prefix = IterKey::new(prefix);
                let remaining = &tree.prefix()[tree.prefix().len() - rt..];
                prefix.append(remaining);
                Iter::new(tree, prefix)
            }
            FindResult::NotFound { .. } => Iter::empty(),
"""
E("scan_prefix_merge_arms", "C26", (RM, "        match find(self, prefix) {\n" + SCAN + "        }\n", """        let (tree, rt) = match find(self, prefix) {
            FindResult::Found(tree) => (tree, 0),
            FindResult::Prefix { tree, rt } => (tree, rt),
            FindResult::NotFound { .. } => return Iter::empty(),
        };
        let mut key = IterKey::new(prefix);
        let from = tree.prefix().len() - rt;
        key.append(&tree.prefix()[from..]);
        Iter::new(tree, key)
"""))
E("scan_prefix_split_at", "C26", (RM, "                let remaining = &tree.prefix()[tree.prefix().len() - rt..];\n", """                let at = tree.prefix().len() - rt;
                let (_, remaining) = tree.prefix().split_at(at);
"""))
E("scan_prefix_vec", "C26", (RM, """                let mut prefix = IterKey::new(prefix);
                let remaining = &tree.prefix()[tree.prefix().len() - rt..];
                prefix.append(remaining);
                Iter::new(tree, prefix)
""", """                let matched = tree.prefix().len() - rt;
                let mut key = prefix.to_vec();
                key.extend_from_slice(&tree.prefix()[matched..]);
                Iter::new(tree, IterKey::new(&key))
"""))
FIND = """        let c = &prefix[n];
        if let Ok(index) = tree.children().binary_search_by(|e| e.prefix()[0].cmp(c)) {
            let child = &tree.children()[index];
            find(child, &prefix[n..])
        } else {
            FindResult::NotFound {
                closest: tree,
                rp,
                rt,
            }
        }
"""
E("find_match_search", "C23 C24 C26", (RM, FIND, """        let rest = &prefix[n..];
        match tree.children().binary_search_by(|e| e.prefix()[0].cmp(&rest[0])) {
            Ok(index) => find(&tree.children()[index], rest),
            Err(_) => FindResult::NotFound {
                closest: tree,
                rp,
                rt,
            },
        }
"""))
E("find_linear", "C24 C26", (RM, FIND, """        let rest = &prefix[n..];
        if let Some(child) = tree.children().iter().find(|c| c.prefix()[0] == rest[0]) {
            find(child, rest)
        } else {
            FindResult::NotFound {
                closest: tree,
                rp,
                rt,
            }
        }
"""))
E("get_match", "C23", (RM, """        if let FindResult::Found(tree) = find(self, key) {
            tree.value()
        } else {
            None
        }
""", """        match find(self, key) {
            FindResult::Found(tree) => tree.value(),
            FindResult::Prefix { .. } | FindResult::NotFound { .. } => None,
        }
"""))
E("contains_key_get", "C23", (RM, """        if let FindResult::Found(tree) = find(self, key) {
            tree.value().is_some()
        } else {
            false
        }
""", "        self.get(key).is_some()\n"))
E("collect_for_each", "C24 C25", (RF, """        let mut res = RadixTree::default();
        for (k, v) in iter.into_iter() {
            res.insert(k.as_ref(), v)
        }
        res
""", """        let mut res = RadixTree::default();
        iter.into_iter().for_each(|(k, v)| res.insert(k.as_ref(), v));
        res
"""))
E("collect_fold", "C24", (RF, """        let mut res = RadixTree::default();
        for (k, v) in iter.into_iter() {
            res.insert(k.as_ref(), v)
        }
        res
""", """        iter.into_iter().fold(RadixTree::default(), |mut res, (k, v)| {
            res.insert(k.as_ref(), v);
            res
        })
"""))
E("collect_while_let", "C24", (RF, """        for (k, v) in iter.into_iter() {
            res.insert(k.as_ref(), v)
        }
        res
""", """        let mut items = iter.into_iter();
        while let Some((k, v)) = items.next() {
            res.insert(k.as_ref(), v);
        }
        res
"""))
# ---- collectors
E("dedup_helper_keep", "C10", (DD, """        if !same_bucket(&d[i], &d[j]) {
            j += 1;
            if i != j {
                d.swap(i, j);
            }
        } else if keep == Keep::Last {
            d.swap(i, j);
        }
""", """        let same = same_bucket(&d[i], &d[j]);
        if same {
            if let Keep::Last = keep {
                d.swap(i, j);
            }
            continue;
        }
        j += 1;
        d.swap(i, j);
"""))
E("dedup_while", "C10", (DD, """    for i in 1..d.len() {
        if !same_bucket(&d[i], &d[j]) {
            j += 1;
            if i != j {
                d.swap(i, j);
            }
        } else if keep == Keep::Last {
            d.swap(i, j);
        }
    }
""", """    let mut i = 1;
    while i < d.len() {
        if !same_bucket(&d[i], &d[j]) {
            j += 1;
            if i > j {
                d.swap(i, j);
            }
        } else if keep == Keep::Last {
            d.swap(j, i);
        }
        i += 1;
    }
"""))
E("dedup_count_unique", "C10", (DD, """    if d.is_empty() {
        return 0;
    }
    let mut j = 0;
    for i in 1..d.len() {
        if !same_bucket(&d[i], &d[j]) {
            j += 1;
            if i != j {
                d.swap(i, j);
            }
        } else if keep == Keep::Last {
            d.swap(i, j);
        }
    }
    j + 1
""", """    let len = d.len();
    if len < 2 {
        return len;
    }
    let mut unique = 1;
    for i in 1..len {
        if same_bucket(&d[i], &d[unique - 1]) {
            if keep == Keep::Last {
                d.swap(i, unique - 1);
            }
        } else {
            d.swap(i, unique);
            unique += 1;
        }
    }
    unique
"""))
E("sortdedup_for_each", "C10", (DD, """    for x in iter {
        agg.push(x);
    }
    agg.into_inner()
""", """    let mut iter = iter;
    while let Some(x) = iter.next() {
        agg.push(x);
    }
    agg.into_inner()
"""))
E("sortdedup_guard", "C10", (DD, """        if self.sorted < self.data.len() {
            let cmp = &self.cmp;
""", """        if self.sorted != self.data.len() {
            let cmp = &self.cmp;
"""))
E("push_compact_cond", "C10", (DD, """            let sorted = self.sorted;
            let unsorted = self.data.len() - sorted;
            if unsorted > sorted {
""", """            if self.data.len() > 2 * self.sorted {
"""))
E("push_if_let_split", "C10", (DD, """                match (self.cmp)(last, &elem) {
                    Ordering::Less => {
                        // remain sorted
                        self.sorted += 1;
                        self.data.push(elem);
                    }
                    Ordering::Equal => {
                        // remain sorted, just replace the end if needed
                        if self.keep == Keep::Last {
                            *last = elem;
                        }
                    }
                    Ordering::Greater => {
                        // unsorted
                        self.data.push(elem);
                    }
                }
""", """                let order = (self.cmp)(last, &elem);
                if order != Ordering::Equal {
                    if order == Ordering::Less {
                        // remain sorted
                        self.sorted += 1;
                    }
                    self.data.push(elem);
                } else if self.keep == Keep::Last {
                    // remain sorted, just replace the end if needed
                    *last = elem;
                }
"""))
E("into_inner_mut", "C10", (DD, """        let mut res = self;
        res.sort_and_dedup();
        res.data
""", """        let mut this = self;
        this.sort_and_dedup();
        let SortAndDedup { data, .. } = this;
        data
"""))
E("set_from_iter_inline", "C10", (VS, """        let mut vec: SmallVec<A> = sort_dedup(iter.into_iter(), Keep::First);
        vec.shrink_to_fit();
        Self::new_unsafe(vec)
""", """        let items = iter.into_iter();
        let mut vec = sort_dedup::<_, SmallVec<A>>(items, Keep::First);
        vec.shrink_to_fit();
        Self::new_unsafe(vec)
"""))
E("set_extend_collect", "C10", (VS, "        *self |= Self::from_iter(iter);\n", "        let other: VecSet<A> = iter.into_iter().collect();\n        *self |= other;\n"))
E("map_extend_named", "C10", (VM, "        self.merge_with::<A>(iter.into_iter().collect());\n", "        let other: VecMap<A> = iter.into_iter().collect();\n        self.merge_with::<A>(other);\n"))
# ---- deserialisation
E("set_visit_loop", "C12", (VS, """        while let Some(value) = seq.next_element()? {
            values.push(value);
        }
        values.sort();
        values.dedup();
        Ok(VecSet(values))
""", """        loop {
            match seq.next_element()? {
                Some(value) => values.push(value),
                None => break,
            }
        }
        values.sort();
        values.dedup();
        Ok(VecSet(values))
"""))
E("set_visit_capacity", "C12", (VS, """        let len = seq.size_hint().unwrap_or(0);
        let mut values = SmallVec::with_capacity(len);

        while""", """        let mut values = SmallVec::new();
        if let Some(len) = seq.size_hint() {
            values.reserve(len.min(4096));
        }

        while"""))
E("set_visit_unstable", "C12", (VS, """        values.sort();
        values.dedup();
        Ok(VecSet(values))
""", """        values.sort_unstable();
        values.dedup();
        Ok(VecSet(values))
"""))
E("set_visit_collector", "C12", (VS, """        values.sort();
        values.dedup();
        Ok(VecSet(values))
""", """        values.sort();
        values.dedup_by(|a, b| a == b);
        let res = VecSet(values);
        Ok(res)
"""))
