//! Entry points of the analysis: one monomorphic function per public operation.
use crate::opaque::*;
use crate::ser::{De, Err_, Ser};
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::*;
type A = VecSet<[K; 4]>;
type B = VecSet<[K; 2]>;
type C = VecSet<[K; 1]>;
type AM = VecMap<[(K, V); 4]>;
type BM = VecMap<[(K, W); 2]>;
type CM = VecMap<[(K, V); 2]>;
type RM = VecMap<[(K, R); 1]>;
type T = TotalVecSet<[K; 4]>;
type TM = TotalVecMap<V, [(K, V); 4]>;

// ---- VecSet algebra
pub fn set_and(a: &A, b: &B) -> A { a & b }
pub fn set_or(a: &A, b: &B) -> A { a | b }
pub fn set_xor(a: &A, b: &B) -> A { a ^ b }
pub fn set_sub(a: &A, b: &B) -> A { a - b }
pub fn set_and_assign(a: &mut A, b: B) { *a &= b }
pub fn set_or_assign(a: &mut A, b: B) { *a |= b }
pub fn set_xor_assign(a: &mut A, b: B) { *a ^= b }
pub fn set_sub_assign(a: &mut A, b: B) { *a -= b }
pub fn set_and_assign_ref(a: &mut A, b: &B) { *a &= b }
pub fn set_or_assign_ref(a: &mut A, b: &B) { *a |= b }
pub fn set_xor_assign_ref(a: &mut A, b: &B) { *a ^= b }
pub fn set_sub_assign_ref(a: &mut A, b: &B) { *a -= b }
pub fn set_union_with(a: &mut A, b: &B) { a.union_with(b) }
pub fn set_intersection_with(a: &mut A, b: &B) { a.intersection_with(b) }
pub fn set_xor_with(a: &mut A, b: &B) { a.xor_with(b) }
pub fn set_difference_with(a: &mut A, b: &B) { a.difference_with(b) }
pub fn set_union(a: &A, b: &B) -> A { a.union(b) }
pub fn set_intersection(a: &A, b: &B) -> A { a.intersection(b) }
pub fn set_symmetric_difference(a: &A, b: &B) -> A { a.symmetric_difference(b) }
pub fn set_difference(a: &A, b: &B) -> A { a.difference(b) }
pub fn set_t_union(a: &A, b: &B) -> C { AbstractVecSet::union(a, b) }
pub fn set_t_intersection(a: &A, b: &B) -> C { AbstractVecSet::intersection(a, b) }
pub fn set_t_symmetric_difference(a: &A, b: &B) -> C { AbstractVecSet::symmetric_difference(a, b) }
pub fn set_t_difference(a: &A, b: &B) -> C { AbstractVecSet::difference(a, b) }
// ---- VecSet point operations
pub fn set_contains(a: &A, k: &K) -> bool { a.contains(k) }
pub fn set_insert(a: &mut A, k: K) -> bool { a.insert(k) }
pub fn set_remove(a: &mut A, k: &K) -> bool { a.remove(k) }
pub fn set_retain(a: &mut A) { a.retain(|k| pred_k(k)) }
pub fn set_len(a: &A) -> usize { a.len() }
pub fn set_is_empty(a: &A) -> bool { a.is_empty() }
pub fn set_t_is_empty(a: &A) -> bool { AbstractVecSet::is_empty(a) }
pub fn set_is_disjoint(a: &A, b: &B) -> bool { a.is_disjoint(b) }
pub fn set_is_subset(a: &A, b: &B) -> bool { a.is_subset(b) }
pub fn set_is_superset(a: &A, b: &B) -> bool { a.is_superset(b) }
// ---- VecSet construction / deconstruction
pub fn set_single(k: K) -> A { A::single(k) }
pub fn set_empty() -> A { A::empty() }
pub fn set_default() -> A { A::default() }
pub fn set_from_iter(i: AnyIter<K>) -> A { i.collect() }
pub fn set_extend(a: &mut A, i: AnyIter<K>) { a.extend(i) }
pub fn set_from_vec(v: Vec<K>) -> A { v.into() }
pub fn set_from_btree(v: BTreeSet<K>) -> A { v.into() }
pub fn set_from_map(v: AM) -> VecSet<[(K, V); 4]> { v.into() }
pub fn set_clone(a: &A) -> A { a.clone() }
pub fn set_clone_from(d: &mut A, a: &A) { d.clone_from(a) }
pub fn set_into_inner(a: A) -> SmallVec<[K; 4]> { a.into_inner() }
pub fn set_into_vec(a: A) -> Vec<K> { a.into() }
pub fn set_into_smallvec(a: A) -> SmallVec<[K; 4]> { a.into() }
pub fn set_iter(a: &A) -> Vec<K> { a.iter().cloned().collect() }
pub fn set_t_iter(a: &A) -> Vec<K> { AbstractVecSet::iter(a).cloned().collect() }
pub fn set_ref_into_iter(a: &A) -> Vec<K> { a.into_iter().cloned().collect() }
pub fn set_into_iter(a: A) -> Vec<K> { a.into_iter().collect() }
pub fn set_as_ref(a: &A) -> &[K] { a.as_ref() }
pub fn set_as_slice(a: &A) -> &[K] { AbstractVecSet::as_slice(a) }
pub fn set_shrink(a: &mut A) { a.shrink_to_fit() }
pub fn set_eq(a: &A, b: &A) -> bool { a == b }
pub fn set_cmp(a: &A, b: &A) -> core::cmp::Ordering { a.cmp(b) }
pub fn set_partial_cmp(a: &A, b: &A) -> Option<core::cmp::Ordering> { a.partial_cmp(b) }
// ---- coherence laws: these must return true
pub fn law_set_cmp(a: &A, b: &A) -> bool { (a.cmp(b) == core::cmp::Ordering::Equal) == (a == b) }
pub fn law_set_anti(a: &A, b: &A) -> bool { a.cmp(b) == b.cmp(a).reverse() }
pub fn law_set_partial(a: &A, b: &A) -> bool { a.partial_cmp(b) == Some(a.cmp(b)) }
pub fn law_map_cmp(a: &AM, b: &AM) -> bool { (a.cmp(b) == core::cmp::Ordering::Equal) == (a == b) }
pub fn law_map_anti(a: &AM, b: &AM) -> bool { a.cmp(b) == b.cmp(a).reverse() }
pub fn law_map_partial(a: &AM, b: &AM) -> bool { a.partial_cmp(b) == Some(a.cmp(b)) }
pub fn law_tmap_cmp(a: &TM, b: &TM) -> bool { (a.cmp(b) == core::cmp::Ordering::Equal) == (a == b) }
pub fn law_tmap_anti(a: &TM, b: &TM) -> bool { a.cmp(b) == b.cmp(a).reverse() }
pub fn law_tmap_partial(a: &TM, b: &TM) -> bool { a.partial_cmp(b) == Some(a.cmp(b)) }
// equal values must feed the hashers alike (the result is `a == b`)
pub fn hash_set(a: &A, b: &A, h: &mut AnyHasher, g: &mut AnyHasher) -> bool { core::hash::Hash::hash(a, h); core::hash::Hash::hash(b, g); a == b }
pub fn hash_map(a: &AM, b: &AM, h: &mut AnyHasher, g: &mut AnyHasher) -> bool { core::hash::Hash::hash(a, h); core::hash::Hash::hash(b, g); a == b }
pub fn hash_tset(a: &T, b: &T, h: &mut AnyHasher, g: &mut AnyHasher) -> bool { core::hash::Hash::hash(a, h); core::hash::Hash::hash(b, g); a == b }
pub fn hash_tmap(a: &TM, b: &TM, h: &mut AnyHasher, g: &mut AnyHasher) -> bool { core::hash::Hash::hash(a, h); core::hash::Hash::hash(b, g); a == b }
// ---- serde
pub fn set_de() -> Result<A, Err_> { A::deserialize(De) }
pub fn set_ser(a: &A) -> Result<(), Err_> { a.serialize(Ser) }
pub fn map_de() -> Result<AM, Err_> { AM::deserialize(De) }
pub fn map_ser(a: &AM) -> Result<(), Err_> { a.serialize(Ser) }
pub fn tset_de() -> Result<T, Err_> { T::deserialize(De) }
pub fn tset_ser(a: &T) -> Result<(), Err_> { a.serialize(Ser) }
pub fn tmap_de() -> Result<TM, Err_> { TM::deserialize(De) }
pub fn tmap_ser(a: &TM) -> Result<(), Err_> { a.serialize(Ser) }
// ---- VecMap joins
pub fn map_outer_join(a: &AM, b: &BM) -> RM { a.outer_join(b, |x| f_outer(x)) }
pub fn map_left_join(a: &AM, b: &BM) -> RM { a.left_join(b, |k, v, w| f_left(k, v, w)) }
pub fn map_right_join(a: &AM, b: &BM) -> RM { a.right_join(b, |k, v, w| f_right(k, v, w)) }
pub fn map_inner_join(a: &AM, b: &BM) -> RM { a.inner_join(b, |k, v, w| f_inner(k, v, w)) }
pub fn map_outer_join_with(a: &mut AM, b: &BM) { a.outer_join_with(b, |x| f_outer_w(x)) }
pub fn map_left_join_with(a: &mut AM, b: &BM) { a.left_join_with(b, |k, v, w| f_left_w(k, v, w)) }
pub fn map_right_join_with(a: &mut AM, b: &BM) { a.right_join_with(b, |k, v, w| f_right_w(k, v, w)) }
pub fn map_inner_join_with(a: &mut AM, b: &BM) { a.inner_join_with(b, |k, v, w| f_inner_w(k, v, w)) }
pub fn map_combine_with(a: &mut AM, b: CM) { a.combine_with(b, |v, w| f_combine(v, w)) }
pub fn map_merge_with(a: &mut AM, b: CM) { a.merge_with(b) }
pub fn map_extend(a: &mut AM, i: AnyIter<(K, V)>) { a.extend(i) }
// ---- VecMap point operations
pub fn map_get<'a>(a: &'a AM, k: &K) -> Option<&'a V> { a.get(k) }
pub fn map_get_mut<'a>(a: &'a mut AM, k: &K) -> Option<&'a mut V> { a.get_mut(k) }
pub fn map_insert(a: &mut AM, k: K, v: V) -> Option<V> { a.insert(k, v) }
pub fn map_retain(a: &mut AM) { a.retain(|kv| pred_kv(kv)) }
pub fn map_map_values(a: AM) -> RM { a.map_values(|v| f_map(v)) }
pub fn map_len(a: &AM) -> usize { a.len() }
pub fn map_is_empty(a: &AM) -> bool { a.is_empty() }
pub fn map_t_is_empty(a: &AM) -> bool { AbstractVecMap::is_empty(a) }
// ---- VecMap construction / deconstruction
pub fn map_single(kv: (K, V)) -> AM { AM::single(kv) }
pub fn map_empty() -> AM { AM::empty() }
pub fn map_default() -> AM { AM::default() }
pub fn map_from_iter(i: AnyIter<(K, V)>) -> AM { i.collect() }
pub fn map_from_btree(v: BTreeMap<K, V>) -> AM { v.into() }
pub fn map_clone(a: &AM) -> AM { a.clone() }
pub fn map_clone_from(d: &mut AM, a: &AM) { d.clone_from(a) }
pub fn map_into_inner(a: AM) -> SmallVec<[(K, V); 4]> { a.into_inner() }
pub fn map_into_smallvec(a: AM) -> SmallVec<[(K, V); 4]> { a.into() }
pub fn map_iter(a: &AM) -> Vec<(K, V)> { a.iter().cloned().collect() }
pub fn map_ref_into_iter(a: &AM) -> Vec<(K, V)> { a.into_iter().cloned().collect() }
pub fn map_into_iter(a: AM) -> Vec<(K, V)> { a.into_iter().collect() }
pub fn map_as_ref(a: &AM) -> &[(K, V)] { a.as_ref() }
pub fn map_as_slice(a: &AM) -> &[(K, V)] { AbstractVecMap::as_slice(a) }
pub fn map_eq(a: &AM, b: &AM) -> bool { a == b }
pub fn map_cmp(a: &AM, b: &AM) -> core::cmp::Ordering { a.cmp(b) }
pub fn map_partial_cmp(a: &AM, b: &AM) -> Option<core::cmp::Ordering> { a.partial_cmp(b) }
// ---- TotalVecSet
pub fn tset_and(a: &T, b: &T) -> T { a & b }
pub fn tset_or(a: &T, b: &T) -> T { a | b }
pub fn tset_xor(a: &T, b: &T) -> T { a ^ b }
pub fn tset_sub(a: &T, b: &T) -> T { a - b }
pub fn tset_and_assign(a: &mut T, b: T) { *a &= b }
pub fn tset_or_assign(a: &mut T, b: T) { *a |= b }
pub fn tset_xor_assign(a: &mut T, b: T) { *a ^= b }
pub fn tset_sub_assign(a: &mut T, b: T) { *a -= b }
pub fn tset_not_ref(a: &T) -> T { !a }
pub fn tset_not(a: T) -> T { !a }
pub fn tset_contains(a: &T, k: &K) -> bool { a.contains(k) }
pub fn tset_insert(a: &mut T, k: K) { a.insert(k) }
pub fn tset_remove(a: &mut T, k: &K) { a.remove(k) }
pub fn tset_is_subset(a: &T, b: &T) -> bool { a.is_subset(b) }
pub fn tset_is_superset(a: &T, b: &T) -> bool { a.is_superset(b) }
pub fn tset_is_disjoint(a: &T, b: &T) -> bool { a.is_disjoint(b) }
pub fn tset_is_empty(a: &T) -> bool { a.is_empty() }
pub fn tset_is_all(a: &T) -> bool { a.is_all() }
pub fn tset_empty() -> T { T::empty() }
pub fn tset_all() -> T { T::all() }
pub fn tset_constant(b: bool) -> T { T::constant(b) }
pub fn tset_from_bool(b: bool) -> T { b.into() }
pub fn tset_from_set(a: A) -> T { a.into() }
pub fn tset_clone(a: &T) -> T { a.clone() }
pub fn tset_clone_from(d: &mut T, a: &T) { d.clone_from(a) }
pub fn tset_eq(a: &T, b: &T) -> bool { a == b }
// ---- TotalVecMap
pub fn tmap_new(a: AM, d: V) -> TM { TM::new(a, d) }
pub fn tmap_constant(d: V) -> TM { TM::constant(d) }
pub fn tmap_from(d: V) -> TM { d.into() }
pub fn tmap_index<'a>(a: &'a TM, k: &K) -> &'a V { &a[k] }
pub fn tmap_combine_ref(a: &TM, b: &TM) -> TM { a.combine_ref(b, |v, w| f_combine_ref(v, w)) }
pub fn tmap_supremum(a: &TM, b: &TM) -> TM { a.supremum(b) }
pub fn tmap_infimum(a: &TM, b: &TM) -> TM { a.infimum(b) }
pub fn tmap_add(a: TM, b: TM) -> TM { a + b }
pub fn tmap_sub(a: TM, b: TM) -> TM { a - b }
pub fn tmap_mul(a: TM, b: TM) -> TM { a * b }
pub fn tmap_div(a: TM, b: TM) -> TM { a / b }
pub fn tmap_neg(a: TM) -> TM { -a }
pub fn tmap_map_values(a: &TM) -> TotalVecMap<R, [(K, R); 2]> { a.map_values(|v| f_map_ref(v)) }
pub fn tmap_zero() -> TM { num_traits::Zero::zero() }
pub fn tmap_one() -> TM { num_traits::One::one() }
pub fn tmap_is_zero(a: &TM) -> bool { num_traits::Zero::is_zero(a) }
pub fn tmap_is_one(a: &TM) -> bool { num_traits::One::is_one(a) }
pub fn tmap_min() -> TM { num_traits::Bounded::min_value() }
pub fn tmap_max() -> TM { num_traits::Bounded::max_value() }
pub fn tmap_default() -> TM { TM::default() }
pub fn tmap_non_default(a: &TM) -> &AM { a.non_default_mappings() }
pub fn tmap_clone(a: &TM) -> TM { a.clone() }
pub fn tmap_clone_from(d: &mut TM, a: &TM) { d.clone_from(a) }
pub fn tmap_eq(a: &TM, b: &TM) -> bool { a == b }
pub fn tmap_cmp(a: &TM, b: &TM) -> core::cmp::Ordering { a.cmp(b) }
pub fn tmap_partial_cmp(a: &TM, b: &TM) -> Option<core::cmp::Ordering> { a.partial_cmp(b) }

// ---- iterator protocol: after taking k elements, every way of continuing agrees with the slice
fn same<T>(a: Option<&T>, b: Option<&T>) -> bool {
    match (a, b) { (Some(x), Some(y)) => core::ptr::eq(x, y), (None, None) => true, _ => false }
}
fn it_nth<'a, T: 'a, I: Iterator<Item = &'a T>>(mut i: I, s: &'a [T], n: usize) -> bool {
    same(i.nth(n), s.get(n)) && same(i.next(), s.get(n + 1))
}
fn it_last<'a, T: 'a, I: Iterator<Item = &'a T>>(mut i: I, s: &'a [T], k: usize) -> bool {
    k >= s.len() || { i.nth(k); if k + 1 < s.len() { same(i.last(), s.last()) } else { i.last().is_none() } }
}
fn it_count<'a, T: 'a, I: Iterator<Item = &'a T>>(mut i: I, s: &'a [T], k: usize) -> bool {
    k >= s.len() || { i.nth(k); i.count() == s.len() - k - 1 }
}
fn it_hint<'a, T: 'a, I: Iterator<Item = &'a T>>(mut i: I, s: &'a [T], k: usize) -> bool {
    i.size_hint() == (s.len(), Some(s.len())) && (k >= s.len() || { i.nth(k); i.size_hint() == (s.len() - k - 1, Some(s.len() - k - 1)) })
}
fn it_fold<'a, T: 'a, I: Iterator<Item = &'a T>>(i: I, s: &'a [T], k: usize) -> bool {
    let mut n = 0;
    let r = i.fold(true, |ok, x| { n += 1; ok && same(Some(x), s.get(n - 1)) });
    r && n == s.len()
}
fn it_all<'a, T: 'a, I: Iterator<Item = &'a T>>(mut i: I, s: &'a [T], k: usize) -> bool {
    let mut n = 0;
    let all = i.all(|x| { n += 1; n <= k });
    all == (s.len() <= k) && if all { n == s.len() && i.next().is_none() } else { n == k + 1 && same(i.next(), s.get(k + 1)) }
}
fn it_find<'a, T: 'a, I: Iterator<Item = &'a T>>(mut i: I, s: &'a [T], k: usize) -> bool {
    let mut n = 0;
    let x = i.find(|_| { n += 1; n > k });
    same(x, s.get(k)) && same(i.next(), if k < s.len() { s.get(k + 1) } else { None })
}
pub fn set_it_nth(a: &A, n: usize) -> bool { it_nth(a.iter(), a.as_ref(), n) }
pub fn set_it_last(a: &A, n: usize) -> bool { it_last(a.iter(), a.as_ref(), n) }
pub fn set_it_count(a: &A, n: usize) -> bool { it_count(a.iter(), a.as_ref(), n) }
pub fn set_it_hint(a: &A, n: usize) -> bool { it_hint(a.iter(), a.as_ref(), n) }
pub fn set_it_fold(a: &A, n: usize) -> bool { it_fold(a.iter(), a.as_ref(), n) }
pub fn set_it_all(a: &A, n: usize) -> bool { it_all(a.iter(), a.as_ref(), n) }
pub fn set_it_find(a: &A, n: usize) -> bool { it_find(a.iter(), a.as_ref(), n) }
pub fn map_it_nth(a: &AM, n: usize) -> bool { it_nth(AbstractVecMap::iter(a), a.as_ref(), n) }
pub fn map_it_last(a: &AM, n: usize) -> bool { it_last(AbstractVecMap::iter(a), a.as_ref(), n) }
pub fn map_it_count(a: &AM, n: usize) -> bool { it_count(AbstractVecMap::iter(a), a.as_ref(), n) }
pub fn map_it_hint(a: &AM, n: usize) -> bool { it_hint(AbstractVecMap::iter(a), a.as_ref(), n) }
pub fn map_it_fold(a: &AM, n: usize) -> bool { it_fold(AbstractVecMap::iter(a), a.as_ref(), n) }
pub fn map_it_all(a: &AM, n: usize) -> bool { it_all(AbstractVecMap::iter(a), a.as_ref(), n) }
pub fn map_it_find(a: &AM, n: usize) -> bool { it_find(AbstractVecMap::iter(a), a.as_ref(), n) }
// owned iterators: (what the step returned, everything after it)
pub fn set_own_nth(a: A, n: usize) -> (Option<K>, Vec<K>) { let mut i = a.into_iter(); (i.nth(n), i.collect()) }
pub fn map_own_nth(a: AM, n: usize) -> (Option<(K, V)>, Vec<(K, V)>) { let mut i = a.into_iter(); (i.nth(n), i.collect()) }
pub fn set_own_fold(a: A) -> Vec<K> { a.into_iter().fold(Vec::new(), |mut v, x| { v.push(x); v }) }
pub fn map_own_fold(a: AM) -> Vec<(K, V)> { a.into_iter().fold(Vec::new(), |mut v, x| { v.push(x); v }) }
pub fn set_own_count(a: A) -> usize { a.into_iter().count() }
pub fn map_own_count(a: AM) -> usize { a.into_iter().count() }
pub fn set_own_hint(a: A) -> (usize, Option<usize>) { a.into_iter().size_hint() }
pub fn map_own_hint(a: AM) -> (usize, Option<usize>) { a.into_iter().size_hint() }
pub fn set_own_last(a: A) -> Option<K> { a.into_iter().last() }
pub fn map_own_last(a: AM) -> Option<(K, V)> { a.into_iter().last() }

// ---- tree maps
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
type BA = BTreeMap<K, V>;
type BB = BTreeMap<K, W>;
type BR = BTreeMap<K, R>;
type XA = rkyv::collections::ArchivedBTreeMap<K, V>;
type XB = rkyv::collections::ArchivedBTreeMap<K, W>;
macro_rules! tree_joins { ($A:ty, $B:ty, $o:ident, $l:ident, $r:ident, $i:ident) => {
    pub fn $o(a: &$A, b: &$B) -> BR { AbstractBTreeMap::outer_join(a, b, |x| f_outer(x)) }
    pub fn $l(a: &$A, b: &$B) -> BR { AbstractBTreeMap::left_join(a, b, |k, v, w| f_left(k, v, w)) }
    pub fn $r(a: &$A, b: &$B) -> BR { AbstractBTreeMap::right_join(a, b, |k, v, w| f_right(k, v, w)) }
    pub fn $i(a: &$A, b: &$B) -> BR { <$A as AbstractBTreeMap<K, V>>::inner_join::<W, R, _, ()>(a, b, |k, v, w| f_inner(k, v, w)) }
} }
tree_joins!(BA, BB, bt_outer_join, bt_left_join, bt_right_join, bt_inner_join);
tree_joins!(BA, XB, bx_outer_join, bx_left_join, bx_right_join, bx_inner_join);
tree_joins!(XA, BB, xb_outer_join, xb_left_join, xb_right_join, xb_inner_join);
macro_rules! tree_joins_with { ($B:ty, $o:ident, $l:ident, $r:ident, $i:ident) => {
    pub fn $o(a: &mut BA, b: &$B) { a.outer_join_with(b, |k, v, w| f_mut_l(v, k, w), |k, w| f_newr(k, w)) }
    pub fn $l(a: &mut BA, b: &$B) { a.left_join_with(b, |k, v, w| f_mut_left(v, k, w)) }
    pub fn $r(a: &mut BA, b: &$B) { a.right_join_with(b, |k, v, w| match v { Some(v) => f_mut_right(v, k, w), None => f_rightonly(k, w) }) }
    pub fn $i(a: &mut BA, b: &$B) { a.inner_join_with(b, |k, v, w| f_mut_inner(v, k, w)) }
} }
tree_joins_with!(BB, bt_outer_join_with, bt_left_join_with, bt_right_join_with, bt_inner_join_with);
tree_joins_with!(XB, bx_outer_join_with, bx_left_join_with, bx_right_join_with, bx_inner_join_with);
pub fn bt_t_get<'a>(a: &'a BA, k: &K) -> Option<&'a V> { AbstractBTreeMap::get(a, k) }
pub fn xt_t_get<'a>(a: &'a XA, k: &K) -> Option<&'a V> { AbstractBTreeMap::get(a, k) }
pub fn bt_t_iter(a: &BA) -> Vec<(K, V)> { AbstractBTreeMap::iter(a).map(|(k, v)| (k.clone(), v.clone())).collect() }
pub fn xt_t_iter(a: &XA) -> Vec<(K, V)> { AbstractBTreeMap::iter(a).map(|(k, v)| (k.clone(), v.clone())).collect() }

// ---- radix trees
pub type LazyS<K, V> = vec_collections::radix_tree::LazyRadixTree<'static, K, V>;
macro_rules! radix { ($m:ident, $T:ident, $T2:ident) => { pub mod $m {
    #[allow(unused_imports)]
    use super::LazyS;
    use super::super::opaque::{f_mut_rt, f_mut_rt_w, f_rt, f_rt_left, f_rt_w, pred_w, sink_kv, sink_v, C, V, W};
    use vec_collections::radix_tree::*;
    type TV = $T<C, V>;
    type TW = $T2<C, W>;
    pub fn outer_with(a: &mut TV, b: &TV) { a.outer_combine_with(b, |v, w| f_mut_rt(v, w)) }
    pub fn inner_with(a: &mut TV, b: &TW) { a.inner_combine_with(b, |v, w| f_mut_rt_w(v, w)) }
    pub fn left_with(a: &mut TV, b: &TW) { a.left_combine_with(b, |v, w| f_mut_rt_w(v, w)) }
    pub fn remove_prefix_with(a: &mut TV, b: &TW) { a.remove_prefix_with(b, |w| pred_w(w)) }
    pub fn retain_prefix_with(a: &mut TV, b: &TW) { a.retain_prefix_with(b, |w| pred_w(w)) }
    pub fn outer(a: &TV, b: &TV) -> TV { a.outer_combine(b, |v, w| f_rt(v, w)) }
    pub fn inner(a: &TV, b: &TW) -> TV { a.inner_combine(b, |v, w| f_rt_w(v, w)) }
    pub fn left(a: &TV, b: &TW) -> TV { a.left_combine(b, |v, w| f_rt_left(v, w)) }
    pub fn union(a: &TV, b: &TV) -> TV { a.union(b) }
    pub fn union_with(a: &mut TV, b: &TV) { a.union_with(b) }
    pub fn intersection(a: &TV, b: &TW) -> TV { a.intersection(b) }
    pub fn intersection_with(a: &mut TV, b: &TW) { a.intersection_with(b) }
    pub fn difference(a: &TV, b: &TW) -> TV { a.difference(b) }
    pub fn difference_with(a: &mut TV, b: &TW) { a.difference_with(b) }
    pub fn is_subset(a: &TV, b: &TW) -> bool { a.is_subset(b) }
    pub fn is_superset(a: &TV, b: &TW) -> bool { a.is_superset(b) }
    pub fn intersects(a: &TV, b: &TW) -> bool { a.intersects(b) }
    pub fn is_disjoint(a: &TV, b: &TW) -> bool { a.is_disjoint(b) }
    pub fn is_empty(a: &TV) -> bool { a.is_empty() }
    pub fn clone(a: &TV) -> TV { a.clone() }
    pub fn clone_from(d: &mut TV, a: &TV) { d.clone_from(a) }
    pub fn insert(a: &mut TV, k: &[C], v: V) { a.insert(k, v) }
    pub fn get<'a>(a: &'a TV, k: &[C]) -> Option<&'a V> { a.get(k) }
    pub fn contains_key(a: &TV, k: &[C]) -> bool { a.contains_key(k) }
    pub fn filter_prefix(a: &TV, k: &[C]) -> TV { a.filter_prefix(k) }
    pub fn prepend(a: &mut TV, k: &[C]) { a.prepend(k) }
    pub fn single(k: &[C], v: V) -> TV { TV::single(k, v) }
    pub fn leaf(v: V) -> TV { TV::leaf(v) }
    pub fn empty() -> TV { TV::empty() }
    pub fn default() -> TV { TV::default() }
    pub fn materialize_shortened(a: &TV, n: usize) -> TV { a.materialize_shortened(n) }
    pub fn iter_next<'a>(it: &mut Iter<'a, C, V, TV>) -> Option<(IterKey<C>, &'a V)> { it.next() }
    pub fn values_next<'a>(it: &mut Values<'a, C, V, TV>) -> Option<&'a V> { it.next() }
    pub fn iter(a: &TV) -> Iter<'_, C, V, TV> { a.iter() }
    pub fn values(a: &TV) -> Values<'_, C, V, TV> { a.values() }
    pub fn scan_prefix<'a>(a: &'a TV, k: &'a [C]) -> Iter<'a, C, V, TV> { a.scan_prefix(k) }
    pub fn iter_all(a: &TV) { for (k, v) in a.iter() { sink_kv(k.as_ref(), v) } }
    pub fn values_all(a: &TV) { for v in a.values() { sink_v(v) } }
    pub fn scan_all(a: &TV, k: &[C]) { for (k, v) in a.scan_prefix(k) { sink_kv(k.as_ref(), v) } }
    /// the keys are looked at after the iterator has moved on
    pub fn iter_late(a: &TV) {
        let mut it = a.iter();
        let mut last: Option<(IterKey<C>, &V)> = None;
        while let Some(x) = it.next() {
            if let Some((k, v)) = last { sink_kv(&k, v) }
            last = Some(x);
        }
        if let Some((k, v)) = last { sink_kv(&k, v) }
    }
} } }
radix!(rt, RadixTree, RadixTree);
radix!(art, ArcRadixTree, ArcRadixTree);
radix!(lzt, LazyS, LazyS);
pub fn rt_collect(v: Vec<(Vec<super::opaque::C>, V)>) -> vec_collections::radix_tree::RadixTree<super::opaque::C, V> { v.into_iter().collect() }
pub fn art_from(a: vec_collections::radix_tree::RadixTree<super::opaque::C, V>) -> vec_collections::radix_tree::ArcRadixTree<super::opaque::C, V> { a.into() }

// ---- validation of archives
use super::opaque::Ctx;
use bytecheck::CheckBytes;
type RTA = <vec_collections::radix_tree::RadixTree<super::opaque::C, V> as rkyv::Archive>::Archived;
type ARTA = <vec_collections::radix_tree::ArcRadixTree<super::opaque::C, V> as rkyv::Archive>::Archived;
pub fn check_set(p: &vec_collections::ArchivedVecSet<K>, c: &mut Ctx) -> bool { unsafe { CheckBytes::check_bytes(p, c) }.is_ok() }
pub fn check_map(p: &vec_collections::ArchivedVecMap<K, V>, c: &mut Ctx) -> bool { unsafe { CheckBytes::check_bytes(p, c) }.is_ok() }
pub fn check_rt(p: &RTA, c: &mut Ctx) -> bool { unsafe { CheckBytes::check_bytes(p, c) }.is_ok() }
pub fn check_art(p: &ARTA, c: &mut Ctx) -> bool { unsafe { CheckBytes::check_bytes(p, c) }.is_ok() }

// ---- lazily loaded trees
pub mod lz {
    use super::super::opaque::{C, V};
    use vec_collections::radix_tree::*;
    type L = LazyRadixTree<'static, C, V>;
    type LA = <L as rkyv::Archive>::Archived;
    pub fn children<'a>(t: &'a L) -> &'a [L] { AbstractRadixTree::children(t) }
    pub fn prefix<'a>(t: &'a L) -> &'a [C] { AbstractRadixTree::prefix(t) }
    pub fn value<'a>(t: &'a L) -> Option<&'a V> { AbstractRadixTree::value(t) }
    pub fn clone(t: &L) -> L { t.clone() }
    pub fn from_tree(t: RadixTree<C, V>) -> L { t.into() }
    pub fn from_archived(t: &'static LA) -> L { t.into() }
    pub fn default() -> L { L::default() }
    pub fn empty() -> L { L::empty() }
    pub fn leaf(v: V) -> L { L::leaf(v) }
    pub fn single(k: &[C], v: V) -> L { L::single(k, v) }
    pub fn all_arcs(a: &L, m: &mut std::collections::BTreeMap<usize, std::sync::Arc<Vec<L>>>) { a.all_arcs(m) }
    pub fn archived_prefix<'a>(t: &'a LA) -> &'a [C] { AbstractRadixTree::prefix(t) }
    pub fn archived_value<'a>(t: &'a LA) -> Option<&'a V> { AbstractRadixTree::value(t) }
    pub fn archived_children<'a>(t: &'a LA) -> &'a [LA] { AbstractRadixTree::children(t) }
}
