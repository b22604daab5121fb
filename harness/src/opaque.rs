//! Opaque element types.  Nothing here is ever executed: the analyser gives every
//! function in this module an axiomatic meaning (total order on `K`, congruence for
//! clone/eq on `V`, uninterpreted results for the callbacks).
use core::cmp::Ordering;
use core::marker::PhantomData;
use vec_collections::OuterJoinArg;

macro_rules! key { ($K:ident) => {
    /// totally ordered key
    pub struct $K(u64);
    impl PartialEq for $K { fn eq(&self, _o: &$K) -> bool { unimplemented!() } fn ne(&self, _o: &$K) -> bool { unimplemented!() } }
    impl Eq for $K {}
    impl PartialOrd for $K {
        fn partial_cmp(&self, _o: &$K) -> Option<Ordering> { unimplemented!() }
        fn lt(&self, _o: &$K) -> bool { unimplemented!() }
        fn le(&self, _o: &$K) -> bool { unimplemented!() }
        fn gt(&self, _o: &$K) -> bool { unimplemented!() }
        fn ge(&self, _o: &$K) -> bool { unimplemented!() }
    }
    impl Ord for $K {
        fn cmp(&self, _o: &$K) -> Ordering { unimplemented!() }
        fn max(self, _o: $K) -> $K { unimplemented!() }
        fn min(self, _o: $K) -> $K { unimplemented!() }
    }
    impl Clone for $K { fn clone(&self) -> $K { unimplemented!() } }
    impl core::hash::Hash for $K { fn hash<H: core::hash::Hasher>(&self, _h: &mut H) { unimplemented!() } }
    impl core::fmt::Debug for $K { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
} }
key!(K);
key!(C);
impl Copy for C {}
impl Default for K { fn default() -> K { unimplemented!() } }

macro_rules! val { ($V:ident) => {
    pub struct $V(u64);
    impl PartialEq for $V { fn eq(&self, _o: &$V) -> bool { unimplemented!() } fn ne(&self, _o: &$V) -> bool { unimplemented!() } }
    impl Eq for $V {}
    impl Clone for $V { fn clone(&self) -> $V { unimplemented!() } }
    impl PartialOrd for $V {
        fn partial_cmp(&self, _o: &$V) -> Option<Ordering> { unimplemented!() }
        fn lt(&self, _o: &$V) -> bool { unimplemented!() }
        fn le(&self, _o: &$V) -> bool { unimplemented!() }
        fn gt(&self, _o: &$V) -> bool { unimplemented!() }
        fn ge(&self, _o: &$V) -> bool { unimplemented!() }
    }
    impl Ord for $V { fn cmp(&self, _o: &$V) -> Ordering { unimplemented!() } }
    impl core::hash::Hash for $V { fn hash<H: core::hash::Hasher>(&self, _h: &mut H) { unimplemented!() } }
    impl core::fmt::Debug for $V { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    impl core::ops::Add for $V { type Output = $V; fn add(self, _o: $V) -> $V { unimplemented!() } }
    impl core::ops::Sub for $V { type Output = $V; fn sub(self, _o: $V) -> $V { unimplemented!() } }
    impl core::ops::Mul for $V { type Output = $V; fn mul(self, _o: $V) -> $V { unimplemented!() } }
    impl core::ops::Div for $V { type Output = $V; fn div(self, _o: $V) -> $V { unimplemented!() } }
    impl core::ops::Neg for $V { type Output = $V; fn neg(self) -> $V { unimplemented!() } }
    impl num_traits::Zero for $V { fn zero() -> $V { unimplemented!() } fn is_zero(&self) -> bool { unimplemented!() } }
    impl num_traits::One for $V { fn one() -> $V { unimplemented!() } fn is_one(&self) -> bool { unimplemented!() } }
    impl num_traits::Bounded for $V { fn min_value() -> $V { unimplemented!() } fn max_value() -> $V { unimplemented!() } }
    impl Default for $V { fn default() -> $V { unimplemented!() } }
    impl serde::Serialize for $V { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
    impl<'de> serde::Deserialize<'de> for $V { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<$V, D::Error> { unimplemented!() } }
} }
val!(V);
val!(W);
val!(R);
impl serde::Serialize for K { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> serde::Deserialize<'de> for K { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<K, D::Error> { unimplemented!() } }

/// an iterator over an arbitrary (unsorted, possibly repeating) sequence
pub struct AnyIter<T>(PhantomData<T>);
impl<T> Iterator for AnyIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { unimplemented!() }
    fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
}

pub struct AnyHasher;
impl core::hash::Hasher for AnyHasher {
    fn finish(&self) -> u64 { unimplemented!() }
    fn write(&mut self, _b: &[u8]) { unimplemented!() }
    fn write_u8(&mut self, _i: u8) { unimplemented!() }
    fn write_usize(&mut self, _i: usize) { unimplemented!() }
}

/// nondeterministic integer in lo..hi
pub fn choose(_lo: usize, _hi: usize) -> usize { unimplemented!() }
/// nondeterministic bool
pub fn nondet() -> bool { unimplemented!() }
pub fn exact() -> bool { unimplemented!() }
/// whether merges take elements one by one or in runs: one answer per path
pub fn coarse() -> bool { unimplemented!() }
/// the elements stand in an order that is known from the start
pub fn concrete() -> bool { unimplemented!() }
/// discard this path
pub fn assume(_b: bool) { unimplemented!() }

/// sorting primitives of the abstract domain
pub fn class_sort<T>(_s: &mut [T], _stable: bool) { unimplemented!() }
pub fn sample<T>(_s: &[T], _class: usize) -> T { unimplemented!() }
pub fn probe(_i: usize, _j: usize, _o: Ordering) { unimplemented!() }

/// serde: an error value and the next element of an untrusted input
pub fn seq_end() { unimplemented!() }
pub fn any_err<E>() -> E { unimplemented!() }
/// the untrusted input is malformed at this point
pub fn input_err() -> crate::ser::Err_ { unimplemented!() }
/// the bool found in an untrusted input
pub fn any_bool() -> bool { unimplemented!() }

/// opaque predicates and functions handed to the operations under analysis
pub fn pred_k(_k: &K) -> bool { unimplemented!() }
pub fn pred_kv(_kv: &(K, V)) -> bool { unimplemented!() }
pub fn f_outer(_a: OuterJoinArg<&K, &V, &W>) -> Option<R> { unimplemented!() }
pub fn f_left(_k: &K, _a: &V, _b: Option<&W>) -> Option<R> { unimplemented!() }
pub fn f_right(_k: &K, _a: Option<&V>, _b: &W) -> Option<R> { unimplemented!() }
pub fn f_inner(_k: &K, _a: &V, _b: &W) -> Option<R> { unimplemented!() }
pub fn f_outer_w(_a: OuterJoinArg<&K, V, &W>) -> Option<V> { unimplemented!() }
pub fn f_left_w(_k: &K, _a: V, _b: Option<&W>) -> Option<V> { unimplemented!() }
pub fn f_right_w(_k: &K, _a: Option<V>, _b: &W) -> Option<V> { unimplemented!() }
pub fn f_inner_w(_k: &K, _a: V, _b: &W) -> Option<V> { unimplemented!() }
pub fn f_combine(_a: V, _b: V) -> V { unimplemented!() }
pub fn f_combine_ref(_a: &V, _b: &V) -> V { unimplemented!() }
pub fn f_map(_a: V) -> R { unimplemented!() }
pub fn f_map_ref(_a: &V) -> R { unimplemented!() }
/// the sorted sequence of pairs that a tree map stands for
pub fn bt_slice<K, V>(_m: &std::collections::BTreeMap<K, V>) -> &[(K, V)] { unimplemented!() }
pub fn bt_slice_mut<K, V>(_m: &mut std::collections::BTreeMap<K, V>) -> &mut [(K, V)] { unimplemented!() }
pub fn bt_vec<K, V>(_m: &mut std::collections::BTreeMap<K, V>) -> &mut Vec<(K, V)> { unimplemented!() }
pub fn abt_slice<K, V>(_m: &rkyv::collections::ArchivedBTreeMap<K, V>) -> &[(K, V)] { unimplemented!() }
/// functions that update a value in place and decide whether to keep it
pub fn f_mut_inner(_v: &mut V, _k: &K, _w: &W) -> bool { unimplemented!() }
pub fn f_mut_left(_v: &mut V, _k: &K, _w: Option<&W>) -> bool { unimplemented!() }
pub fn f_mut_right(_v: &mut V, _k: &K, _w: &W) -> bool { unimplemented!() }
pub fn f_rightonly(_k: &K, _w: &W) -> bool { unimplemented!() }
pub fn f_mut_l(_v: &mut V, _k: &K, _w: Option<&W>) -> bool { unimplemented!() }
pub fn f_newr(_k: &K, _w: &W) -> Option<V> { unimplemented!() }

// ---- radix trees: components, values and callbacks
macro_rules! arch { ($T:ident) => {
    impl rkyv::Archive for $T {
        type Archived = $T;
        type Resolver = ();
        unsafe fn resolve(&self, _pos: usize, _r: (), _out: *mut $T) { unimplemented!() }
    }
} }
arch!(C);
arch!(V);
arch!(W);
pub fn f_mut_rt(_a: &mut V, _b: &V) -> bool { unimplemented!() }
pub fn f_mut_rt_w(_a: &mut V, _b: &W) -> bool { unimplemented!() }
pub fn f_rt(_a: &V, _b: &V) -> Option<V> { unimplemented!() }
pub fn f_rt_w(_a: &V, _b: &W) -> Option<V> { unimplemented!() }
pub fn f_rt_left(_a: &V, _b: Option<&W>) -> Option<V> { unimplemented!() }
pub fn sink_kv(_k: &[C], _v: &V) { unimplemented!() }
pub fn sink_v(_v: &V) { unimplemented!() }
pub fn pred_w(_b: &W) -> bool { unimplemented!() }

// ---- validation of archives
pub type Ctx = rkyv::validation::validators::DefaultValidator<'static>;
macro_rules! chk { ($T:ident) => {
    impl bytecheck::CheckBytes<Ctx> for $T {
        type Error = core::convert::Infallible;
        unsafe fn check_bytes<'a>(_v: *const Self, _c: &mut Ctx) -> Result<&'a Self, Self::Error> { unimplemented!() }
    }
} }
arch!(K);
chk!(K);
chk!(C);
chk!(V);
