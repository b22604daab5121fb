SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


VS, VM = "src/vec_set.rs", "src/vec_map.rs"
RM, RA, RF = "src/radix_tree/mod.rs", "src/radix_tree/arc_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs"
ARC = """use rkyv::ser::{serializers::AllocSerializer, Serializer};
use vec_collections::*;
fn bytes<T>(t: &T) -> Vec<u8> where T: rkyv::Serialize<AllocSerializer<256>> {
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(t).unwrap();
    s.into_serializer().into_inner().to_vec()
}
fn aligned(b: &[u8]) -> rkyv::AlignedVec { let mut r = rkyv::AlignedVec::new(); r.extend_from_slice(b); r }
"""

S("check_set_equal_run", "C27", [(VS, """        if !values.iter().zip(values.iter().skip(1)).all(|(a, b)| a < b) {
""", """        if !values.iter().zip(values.iter().skip(1)).all(|(a, b)| a <= b) {
""")], ARC + """
fn main() {
    // a vector and a set have the same archived form
    let ok = |v: Vec<u32>| rkyv::check_archived_root::<VecSet<[u32; 4]>>(&aligned(&bytes(&v))).is_ok();
    assert!(ok(vec![1, 2, 3]));
    assert!(!ok(vec![1, 3, 2]));
    assert!(!ok(vec![1, 2, 2, 3]));
}
""", "an archive with two equal neighbours", "an archived set with duplicates is accepted")

S("check_map_pairwise", "C27", [(VM, """        if !values
            .iter()
            .zip(values.iter().skip(1))
            .all(|((ak, _), (bk, _))| ak < bk)
        {
""", """        if !values
            .chunks(8)
            .all(|c| c.iter().zip(c.iter().skip(1)).all(|((ak, _), (bk, _))| ak < bk))
        {
""")], ARC + """
fn main() {
    let ok = |v: Vec<(u32, u32)>| rkyv::check_archived_root::<VecMap<[(u32, u32); 4]>>(&aligned(&bytes(&v))).is_ok();
    let v: Vec<(u32, u32)> = (0..20).map(|x| (x, x)).collect();
    assert!(ok(v.clone()));
    for i in 0..19 { let mut w = v.clone(); w.swap(i, i + 1); assert!(!ok(w), "{}", i); }
}
""", "more than eight entries, with the order violated at a multiple of eight", "an archived map that is not sorted is accepted")

S("check_rt_equal_children", "C27", [(RF, """                    .all(|(a, b)| a.prefix[0] < b.prefix[0])
""", """                    .all(|(a, b)| a.prefix.as_slice() < b.prefix.as_slice())
""")], ARC + """
use vec_collections::radix_tree::*;
fn main() {
    let mut t = RadixTree::<u8, ()>::empty();
    t.insert(&[7, 201, 1], ());
    t.insert(&[7, 202, 2], ());
    let good = bytes(&t);
    assert!(rkyv::check_archived_root::<RadixTree<u8, ()>>(&aligned(&good)).is_ok());
    // two children that begin with the same component
    let mut b = good.clone();
    let at = b.iter().position(|x| *x == 202).unwrap();
    b[at] = 201;
    assert!(rkyv::check_archived_root::<RadixTree<u8, ()>>(&aligned(&b)).is_err());
}
""", "two children with the same first component and different prefixes", "a malformed archived tree is accepted")

S("check_art_value", "C27", [(RA, """            CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
""", """            if prefix.is_empty() {
                // only the root can have an empty prefix and a value that nothing else refers to
                CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
            }
""")], ARC + """
use vec_collections::radix_tree::*;
fn main() {
    let t: ArcRadixTree<u8, bool> = ArcRadixTree::single(b"abc", true);
    let good = bytes(&t);
    assert!(rkyv::check_archived_root::<ArcRadixTree<u8, bool>>(&aligned(&good)).is_ok());
    let mut n = 0;
    for i in 0..good.len() {
        let mut b = good.clone();
        b[i] = 77;
        let b = aligned(&b);
        if let Ok(t) = rkyv::check_archived_root::<ArcRadixTree<u8, bool>>(&b) {
            // a bool must be 0 or 1, an option none or some
            let v = t as *const _ as *const u8;
            let n0 = std::mem::size_of_val(t);
            for k in 0..n0 { let x = unsafe { *v.add(k) }; if x == 77 && good[good.len() - n0 + k] == 1 { n += 1; } }
        }
    }
    assert_eq!(n, 0);
}
""", "a corrupt value in a node with a non-empty prefix", "a corrupt value is accepted")

S("check_rt_last_child", "C27", [(RF, """                if !children.iter().all(|child| !child.prefix.is_empty()) {
""", """                if !children.iter().skip(1).all(|child| !child.prefix.is_empty()) {
"""), (RF, """                    .zip(children.iter().skip(1))
                    .all(|(a, b)| a.prefix[0] < b.prefix[0])
""", """                    .zip(children.iter().skip(1))
                    .all(|(a, b)| a.prefix.first() < b.prefix.first())
""")], ARC + """
use vec_collections::radix_tree::*;
fn main() {
    let mut t = RadixTree::<u8, ()>::empty();
    t.insert(&[7, 201], ());
    t.insert(&[7, 202], ());
    let good = bytes(&t);
    let mut seen = 0;
    for i in 0..good.len() {
        if good[i] != 1 { continue; }
        let mut b = good.clone();
        b[i] = 0;
        let b = aligned(&b);
        if let Ok(t) = rkyv::check_archived_root::<RadixTree<u8, ()>>(&b) {
            for c in t.children() { if c.prefix().is_empty() { seen += 1; } }
        }
    }
    assert_eq!(seen, 0);
}
""", "a corrupt archive whose first child has an empty prefix", "a malformed archived tree is accepted")
