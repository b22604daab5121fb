"""behaviour-preserving edits: validation of archives"""
R = []
RM, RA, RF = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs"
VS, VM = "src/vec_set.rs", "src/vec_map.rs"


def E(id, checks, *edits):
    R.append((id, checks.split(), edits))


SO = """        if !values.iter().zip(values.iter().skip(1)).all(|(a, b)| a < b) {
            return Err(ArchivedVecSetError::OrderCheckError);
        };
"""
E("set_windows", "C27", (VS, SO, """        if values.windows(2).any(|w| w[0] >= w[1]) {
            return Err(ArchivedVecSetError::OrderCheckError);
        };
"""))
E("set_index_loop", "C27", (VS, SO, """        for i in 1..values.len() {
            if values[i - 1] >= values[i] {
                return Err(ArchivedVecSetError::OrderCheckError);
            }
        }
"""))
E("set_previous", "C27", (VS, SO, """        let mut prev = None;
        for x in values.iter() {
            if prev >= Some(x) && prev.is_some() {
                return Err(ArchivedVecSetError::OrderCheckError);
            }
            prev = Some(x);
        }
"""))
E("set_helper", "C27", (VS, SO, """        fn ascending<T: Ord>(mut it: impl Iterator<Item = T> + Clone) -> bool {
            let jt = it.clone();
            let _ = it.next();
            !jt.zip(it).any(|(a, b)| b <= a)
        }
        if !ascending(values.iter()) {
            return Err(ArchivedVecSetError::OrderCheckError);
        };
"""))
E("set_check_match", "C27", (VS, """        CheckBytes::check_bytes(values, context)
            .map_err(|_| ArchivedVecSetError::ValueCheckError)?;
""", """        match CheckBytes::check_bytes(values, context) {
            Ok(_) => {}
            Err(_) => return Err(ArchivedVecSetError::ValueCheckError),
        }
"""))
MO = """        if !values
            .iter()
            .zip(values.iter().skip(1))
            .all(|((ak, _), (bk, _))| ak < bk)
        {
            return Err(ArchivedVecMapError::OrderCheckError);
        };
"""
E("map_flipped", "C27", (VM, MO, """        let ascending = values
            .iter()
            .skip(1)
            .zip(values.iter())
            .all(|(b, a)| b.0 > a.0);
        if !ascending {
            return Err(ArchivedVecMapError::OrderCheckError);
        };
"""))
E("map_split_first", "C27", (VM, MO, """        if let Some((first, rest)) = values.as_slice().split_first() {
            let mut prev = &first.0;
            for (k, _) in rest {
                if !(prev < k) {
                    return Err(ArchivedVecMapError::OrderCheckError);
                }
                prev = k;
            }
        }
"""))
CF = """                if !children.iter().all(|child| !child.prefix.is_empty()) {
                    return Err(ArchivedRadixTreeError::Children);
                };
"""
OF = """                if !children
                    .iter()
                    .zip(children.iter().skip(1))
                    .all(|(a, b)| a.prefix[0] < b.prefix[0])
                {
                    return Err(ArchivedRadixTreeError::Order);
                };
"""
E("rt_any", "C27", (RF, CF, """                if children.iter().any(|child| child.prefix.len() == 0) {
                    return Err(ArchivedRadixTreeError::Children);
                };
"""))
E("rt_first", "C27", (RF, OF, """                let heads = || children.iter().map(|x| &x.prefix[0]);
                if heads().zip(heads().skip(1)).any(|(a, b)| a >= b) {
                    return Err(ArchivedRadixTreeError::Order);
                };
"""))
E("rt_one_loop", "C27", (RF, CF, ""), (RF, OF, """                let mut prev: Option<&Archived<K>> = None;
                for child in children.iter() {
                    if child.prefix.is_empty() {
                        return Err(ArchivedRadixTreeError::Children);
                    }
                    if let Some(p) = prev {
                        if p >= &child.prefix[0] {
                            return Err(ArchivedRadixTreeError::Order);
                        }
                    }
                    prev = Some(&child.prefix[0]);
                }
"""))
E("rt_value_first", "C27", (RF, """                // check the prefix
                CheckBytes::check_bytes(prefix, context)
                    .map_err(|_| ArchivedRadixTreeError::Prefix)?;
                // check the value, if present
                CheckBytes::check_bytes(value, context)
                    .map_err(|_| ArchivedRadixTreeError::Value)?;
""", """                if CheckBytes::check_bytes(value, context).is_err() {
                    return Err(ArchivedRadixTreeError::Value);
                }
                if let Err(_e) = CheckBytes::check_bytes(prefix, context) {
                    return Err(ArchivedRadixTreeError::Prefix);
                }
"""))
E("art_count", "C27", (RA, """            if !children.iter().all(|child| !child.prefix.is_empty()) {
""", """            let bad = children.iter().filter(|child| child.prefix.is_empty()).count();
            if bad > 0 {
"""))
E("art_index", "C27", (RA, """            if !children
                .iter()
                .zip(children.iter().skip(1))
                .all(|(a, b)| a.prefix[0] < b.prefix[0])
            {
                return Err(ArchivedRadixTreeError::Order);
            };
""", """            for i in 0..children.len().saturating_sub(1) {
                if children[i].prefix[0] >= children[i + 1].prefix[0] {
                    return Err(ArchivedRadixTreeError::Order);
                }
            }
"""))
