//! Reference definitions that replace the bodies of well known library functions
//! whose real bodies are raw-pointer code.  They are analysed like any other MIR.
use crate::opaque::{assume, choose, class_sort, coarse, concrete, exact, nondet, probe, sample};
use binary_merge::{MergeOperation, MergeState};
use core::cmp::Ordering;
use smallvec::{Array, SmallVec};
use inplace_vec_builder::{InPlaceSmallVecBuilder, InPlaceVecBuilder};

/// the classical merge, element by element or run by run
fn merge_runs<Op: MergeOperation<M>, M: MergeState>(op: &Op, m: &mut M, runs: bool) -> bool {
    loop {
        let an = m.a_slice().len();
        let bn = m.b_slice().len();
        if an == 0 { return bn == 0 || op.from_b(m, bn); }
        if bn == 0 { return op.from_a(m, an); }
        let go = match op.cmp(&m.a_slice()[0], &m.b_slice()[0]) {
            Ordering::Less => {
                let mut n = 1;
                while runs && n < an && op.cmp(&m.a_slice()[n], &m.b_slice()[0]) == Ordering::Less { n += 1; }
                op.from_a(m, n)
            }
            Ordering::Equal => op.collision(m),
            Ordering::Greater => {
                let mut n = 1;
                while runs && n < bn && op.cmp(&m.a_slice()[0], &m.b_slice()[n]) == Ordering::Greater { n += 1; }
                op.from_b(m, n)
            }
        };
        if !go { return false; }
    }
}

/// contract of binary_merge::MergeOperation::merge: the calls to from_a / from_b /
/// collision are the ones of *some* block decomposition of the classical merge
pub fn merge<Op: MergeOperation<M>, M: MergeState>(op: &Op, m: &mut M) -> bool {
    if concrete() { return merge_runs(op, m, coarse()); }
    loop {
        let an = m.a_slice().len();
        let bn = m.b_slice().len();
        if an == 0 {
            return bn == 0 || op.from_b(m, bn);
        }
        if bn == 0 {
            return op.from_a(m, an);
        }
        let go = match op.cmp(&m.a_slice()[0], &m.b_slice()[0]) {
            Ordering::Less => {
                let n = choose(1, an + 1);
                if n > 1 {
                    assume(op.cmp(&m.a_slice()[n - 1], &m.b_slice()[0]) == Ordering::Less);
                }
                op.from_a(m, n)
            }
            Ordering::Equal => op.collision(m),
            Ordering::Greater => {
                let n = choose(1, bn + 1);
                if n > 1 {
                    assume(op.cmp(&m.a_slice()[0], &m.b_slice()[n - 1]) == Ordering::Greater);
                }
                op.from_b(m, n)
            }
        };
        if !go {
            return false;
        }
    }
}

pub fn binary_search_by<T, F: FnMut(&T) -> Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let len = s.len();
    if concrete() {
        let mut lo = 0;
        let mut hi = len;
        while lo < hi {
            let n = lo + (hi - lo) / 2;
            match f(&s[n]) {
                Ordering::Equal => return Ok(n),
                Ordering::Less => lo = n + 1,
                Ordering::Greater => hi = n,
            }
        }
        return Err(lo);
    }
    let n = choose(0, len + 1);
    if n > 0 {
        assume(f(&s[n - 1]) == Ordering::Less);
    }
    if n < len {
        match f(&s[n]) {
            Ordering::Equal => Ok(n),
            Ordering::Greater => Err(n),
            Ordering::Less => { assume(false); Err(n) }
        }
    } else {
        Err(n)
    }
}
pub fn binary_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> {
    binary_search_by(s, |p| p.cmp(x))
}
pub fn binary_search_by_key<T, B: Ord, F: FnMut(&T) -> B>(s: &[T], b: &B, mut f: F) -> Result<usize, usize> {
    binary_search_by(s, |k| f(k).cmp(b))
}

// ---- iterator consumers -------------------------------------------------
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b); } }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
    None
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n { if it.next().is_none() { return None; } i += 1; }
    it.next()
}
pub fn skip_next<I: Iterator>(it: &mut SkipM<I>) -> Option<I::Item> {
    while it.n > 0 { it.n -= 1; if it.it.next().is_none() { return None; } }
    it.it.next()
}
pub struct SkipM<I> { it: I, n: usize }
pub fn iter_eq<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> bool where I::Item: PartialEq<J::Item> {
    let mut b = b.into_iter();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => if x != y { return false; },
            _ => return false,
        }
    }
}

// ---- Vec / SmallVec -----------------------------------------------------
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn smallvec_from_iter<A: Array, I: IntoIterator<Item = A::Item>>(i: I) -> SmallVec<A> {
    let mut v = SmallVec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn smallvec_extend<A: Array, I: IntoIterator<Item = A::Item>>(v: &mut SmallVec<A>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn smallvec_retain<A: Array, F: FnMut(&mut A::Item) -> bool>(v: &mut SmallVec<A>, mut f: F) {
    let old = core::mem::replace(v, SmallVec::new());
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() { if f(&mut x) { v.push(x); } }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(x) = it.next() { if f(&x) { v.push(x); } }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() { if f(&mut x) { v.push(x); } }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut same: F) {
    let old = core::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() {
        let n = v.len();
        if n == 0 || !same(&mut x, &mut v[n - 1]) { v.push(x); }
    }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) { vec_dedup_by::<T, A, _>(v, |a, b| a == b) }
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut key: F) { vec_dedup_by::<T, A, _>(v, |a, b| key(a) == key(b)) }
pub fn smallvec_dedup_by<A: Array, F: FnMut(&mut A::Item, &mut A::Item) -> bool>(v: &mut SmallVec<A>, mut same: F) {
    let old = core::mem::replace(v, SmallVec::new());
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() {
        let n = v.len();
        if n == 0 || !same(&mut x, &mut v[n - 1]) { v.push(x); }
    }
}
pub fn smallvec_dedup<A: Array>(v: &mut SmallVec<A>) where A::Item: PartialEq { smallvec_dedup_by(v, |a, b| a == b) }
pub fn smallvec_dedup_by_key<A: Array, F: FnMut(&mut A::Item) -> K, K: PartialEq>(v: &mut SmallVec<A>, mut key: F) { smallvec_dedup_by(v, |a, b| key(a) == key(b)) }
pub fn ipsv_extend_from_iter<A: Array, I: Iterator<Item = A::Item>>(b: &mut InPlaceSmallVecBuilder<'_, A>, i: I, n: usize) {
    let mut i = i;
    let mut k = 0;
    while k < n {
        if let Some(x) = i.next() { b.push(x); } else { break; }
        k += 1;
    }
}
pub fn ipv_extend_from_iter<T, I: Iterator<Item = T>>(b: &mut InPlaceVecBuilder<'_, T>, i: I, n: usize) {
    let mut i = i;
    let mut k = 0;
    while k < n {
        if let Some(x) = i.next() { b.push(x); } else { break; }
        k += 1;
    }
}

// ---- sorting ------------------------------------------------------------
/// The comparator is probed on one sample of every pair of classes (below / equal to / above the
/// tracked key); the sort itself is the stable rearrangement by class.
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], f: F) { sort_with(s, f, true) }
fn sort_with<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F, stable: bool) {
    if s.len() < 2 { return; }
    if exact() {
        // path by path: a real sort with the real comparator; an unstable one may also
        // reverse elements that compare equal
        let rev = !stable && nondet();
        let mut i = 1;
        while i < s.len() {
            let mut j = i;
            while j > 0 {
                let o = f(&s[j], &s[j - 1]);
                if o == Ordering::Less || (rev && o == Ordering::Equal) { s.swap(j, j - 1); j -= 1; } else { break; }
            }
            i += 1;
        }
        return;
    }
    if nondet() {
        let i = choose(0, 3);
        let j = choose(0, 3);
        let a = sample(s, i);
        let b = sample(s, j);
        let o = f(&a, &b);
        probe(i, j, o);
        assume(false);
    }
    class_sort(s, stable)
}
pub fn slice_sort<T: Ord>(s: &mut [T]) { slice_sort_by(s, |a, b| a.cmp(b)) }
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) { slice_sort_by(s, |a, b| f(a).cmp(&f(b))) }
pub fn slice_sort_unstable_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], f: F) { sort_with(s, f, false) }
pub fn slice_sort_unstable<T: Ord>(s: &mut [T]) { slice_sort_unstable_by(s, |a, b| a.cmp(b)) }
pub fn slice_sort_unstable_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) { slice_sort_unstable_by(s, |a, b| f(a).cmp(&f(b))) }

// ---- slices -------------------------------------------------------------
/// contract of partition_point: all accepted elements precede all rejected ones
pub fn slice_partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut p: P) -> usize {
    if concrete() {
        let mut lo = 0;
        let mut hi = s.len();
        while lo < hi {
            let n = lo + (hi - lo) / 2;
            if p(&s[n]) { lo = n + 1 } else { hi = n }
        }
        return lo;
    }
    let n = choose(0, s.len() + 1);
    if n > 0 { assume(p(&s[n - 1])); }
    if n < s.len() { assume(!p(&s[n])); }
    n
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < s.len() { if s[i] == *x { return true; } i += 1; }
    false
}
pub fn slice_starts_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if x.len() > s.len() { return false; }
    let mut i = 0;
    while i < x.len() { if s[i] != x[i] { return false; } i += 1; }
    true
}
pub fn slice_is_sorted<T: PartialOrd>(s: &[T]) -> bool {
    let mut i = 1;
    while i < s.len() { if !(s[i - 1] <= s[i]) { return false; } i += 1; }
    true
}
pub fn slice_reverse<T>(s: &mut [T]) {
    let n = s.len();
    let mut i = 0;
    while i + i + 1 < n { s.swap(i, n - 1 - i); i += 1; }
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut n = it.len();
    while let Some(x) = it.next_back() { n -= 1; if p(x) { return Some(n); } }
    None
}
pub fn smallvec_insert_many<A: Array, I: IntoIterator<Item = A::Item>>(v: &mut SmallVec<A>, at: usize, i: I) {
    let mut it = i.into_iter();
    let mut n = at;
    while let Some(x) = it.next() { v.insert(n, x); n += 1; }
}

// ---- BTreeMap: a strictly sorted sequence of pairs ------------------------
use crate::opaque::{bt_slice, bt_slice_mut, bt_vec};
use core::borrow::Borrow;
use std::collections::BTreeMap;
fn bt_find<K: Borrow<Q>, V, Q: Ord + ?Sized>(s: &[(K, V)], k: &Q) -> Result<usize, usize> {
    binary_search_by(s, |p| p.0.borrow().cmp(k))
}
pub fn bt_get<'a, K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &'a BTreeMap<K, V>, k: &Q) -> Option<&'a V> {
    let s = bt_slice(m);
    match bt_find(s, k) { Ok(i) => Some(&s[i].1), Err(_) => None }
}
pub fn bt_get_key_value<'a, K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &'a BTreeMap<K, V>, k: &Q) -> Option<(&'a K, &'a V)> {
    let s = bt_slice(m);
    match bt_find(s, k) { Ok(i) => Some((&s[i].0, &s[i].1)), Err(_) => None }
}
pub fn bt_contains_key<K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &BTreeMap<K, V>, k: &Q) -> bool {
    bt_find(bt_slice(m), k).is_ok()
}
pub fn bt_get_mut<'a, K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &'a mut BTreeMap<K, V>, k: &Q) -> Option<&'a mut V> {
    let s = bt_slice_mut(m);
    match bt_find(s, k) { Ok(i) => Some(&mut s[i].1), Err(_) => None }
}
pub fn bt_insert<K: Ord, V, A>(m: &mut BTreeMap<K, V>, k: K, v: V) -> Option<V> {
    let s = bt_vec(m);
    match bt_find(s, &k) {
        Ok(i) => Some(core::mem::replace(&mut s[i].1, v)),
        Err(i) => { s.insert(i, (k, v)); None }
    }
}
pub fn bt_remove<K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &mut BTreeMap<K, V>, k: &Q) -> Option<V> {
    let s = bt_vec(m);
    match bt_find(s, k) { Ok(i) => Some(s.remove(i).1), Err(_) => None }
}
pub fn bt_remove_entry<K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &mut BTreeMap<K, V>, k: &Q) -> Option<(K, V)> {
    let s = bt_vec(m);
    match bt_find(s, k) { Ok(i) => Some(s.remove(i)), Err(_) => None }
}
pub fn bt_retain<K, V, A, F: FnMut(&K, &mut V) -> bool>(m: &mut BTreeMap<K, V>, mut f: F) {
    let v = bt_vec(m);
    let old = core::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() { if f(&x.0, &mut x.1) { v.push(x); } }
}
pub fn bt_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(i: I) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    let mut it = i.into_iter();
    while let Some((k, v)) = it.next() { bt_insert::<K, V, ()>(&mut m, k, v); }
    m
}
pub fn bt_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, i: I) {
    let mut it = i.into_iter();
    while let Some((k, v)) = it.next() { bt_insert::<K, V, ()>(m, k, v); }
}
pub fn abt_get<'a, K: Borrow<Q>, V, Q: Ord + ?Sized>(m: &'a rkyv::collections::ArchivedBTreeMap<K, V>, k: &Q) -> Option<&'a V> {
    let s = crate::opaque::abt_slice(m);
    match bt_find(s, k) { Ok(i) => Some(&s[i].1), Err(_) => None }
}
pub fn abt_contains_key<K: Borrow<Q>, V, Q: Ord + ?Sized>(m: &rkyv::collections::ArchivedBTreeMap<K, V>, k: &Q) -> bool {
    bt_find(crate::opaque::abt_slice(m), k).is_ok()
}
