SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S("insert_append_boundary", "C05", [("src/vec_set.rs", """    pub fn insert(&mut self, that: A::Item) -> bool {
""", """    pub fn insert(&mut self, that: A::Item) -> bool {
        // appending in ascending order is the common case, skip the search
        if self.0.len() > 2 && self.0[self.0.len() - 1] <= that {
            self.0.push(that);
            return true;
        }
""")], """use vec_collections::VecSet;
fn main() {
    let mut s: VecSet<[i32; 4]> = (0..5).collect();
    let r = s.insert(4);
    assert!(!r, "4 was already in the set");
    assert_eq!(s.into_inner().to_vec(), vec![0, 1, 2, 3, 4]);
}
""", "re-inserting exactly the greatest element of a set of three or more", "insert appends a duplicate and reports the element as new")

S("or_assign_ref_append", "C03", [
  ("src/vec_set.rs", """    fn bitor_assign(&mut self, that: &VecSet<B>) {
""", """    fn bitor_assign(&mut self, that: &VecSet<B>) {
        // disjoint ranges: simply append
        if self.0.last() <= that.0.first() {
            self.0.extend(that.0.iter().cloned());
            return;
        }
""")], """use vec_collections::VecSet;
fn main() {
    let mut a: VecSet<[i32; 4]> = vec![1, 5].into();
    let b: VecSet<[i32; 2]> = vec![5, 9].into();
    a |= &b;
    assert_eq!(a.into_inner().to_vec(), vec![1, 5, 9]);
}
""", "the last element of the left operand equals the first of the right one", "union in place by reference stores the shared boundary element twice")

S("total_remove_all", "C14", [("src/total_vec_set.rs", """        if self.negated {
            self.elements.insert(that.clone());
        } else {""", """        if self.negated && !self.elements.is_empty() {
            self.elements.insert(that.clone());
        } else {""")], """use vec_collections::total_vec_set::TotalVecSet;
fn main() {
    let mut s: TotalVecSet<[i32; 4]> = TotalVecSet::all();
    s.remove(&3);
    assert!(!s.contains(&3));
}
""", "removing from the set of all values (complement with no holes)", "the first removal from the full set is ignored")

S("map_insert_last_key", "C09", [("src/vec_map.rs", """    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
""", """    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
        // fast path for ascending insertion
        if let Some((last, v)) = self.0.last_mut() {
            match (*last).cmp(&key) {
                std::cmp::Ordering::Less => {
                    self.0.push((key, value));
                    return None;
                }
                std::cmp::Ordering::Equal => {
                    *v = value;
                    return None;
                }
                std::cmp::Ordering::Greater => {}
            }
        }
""")], """use vec_collections::VecMap;
fn main() {
    let mut m: VecMap<[(i32, i32); 4]> = VecMap::empty();
    m.insert(1, 10);
    m.insert(2, 20);
    assert_eq!(m.insert(2, 21), Some(20));
}
""", "overwriting the entry with the greatest key", "insert does not hand back the value it replaced")

S("superset_early_exit", "C04", [("src/vec_set.rs", """    fn is_superset(&self, that: &impl AbstractVecSet<T>) -> bool {
        !BoolOp""", """    fn is_superset(&self, that: &impl AbstractVecSet<T>) -> bool {
        // an element beyond our range cannot be covered
        if self.as_slice().last() <= that.as_slice().last() && !that.is_empty() {
            return false;
        }
        !BoolOp""")], """use vec_collections::*;
fn main() {
    let a: VecSet<[i32; 4]> = vec![1, 2, 5].into();
    let b: VecSet<[i32; 2]> = vec![2, 5].into();
    assert!(a.is_superset(&b));
}
""", "both sets share their greatest element", "is_superset is false for a genuine superset")
