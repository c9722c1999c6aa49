//! Value type, digest and reference model for the core crate.
use crate::sym;
use bm::*;
use generic_array::GenericArray;
use std::hash::{Hash, Hasher};
use typenum::U8;

/// Eight-byte tree value. Its `Hash` feeds nothing to the hasher, so that a map keyed by
/// symbolic values compares keys by `==` only (a legal, if slow, `Hash`).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct V(pub [u8; 8]);
impl Hash for V { fn hash<H: Hasher>(&self, _: &mut H) {} }
impl AsRef<[u8]> for V { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for V { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl From<GenericArray<u8, U8>> for V { fn from(a: GenericArray<u8, U8>) -> V { let mut r = [0; 8]; r.copy_from_slice(&a); V(r) } }
impl From<usize> for V { fn from(a: usize) -> V { V((a as u64).to_le_bytes()) } }
impl Into<usize> for V { fn into(self) -> usize { u64::from_le_bytes(self.0) as usize } }
impl V {
    pub fn of(x: u64) -> V { V(x.to_le_bytes()) }
    pub fn u(&self) -> u64 { u64::from_le_bytes(self.0) }
}
/// A fresh leaf value: anything but a digest.
pub fn leaf() -> V { V::of(sym::any()) }

/// Collision-free digest: an uninterpreted injective function in the solver.
#[derive(Clone)]
pub struct D { buf: [u8; 64], n: usize }
impl Default for D { fn default() -> D { D { buf: [0; 64], n: 0 } } }
impl digest::Input for D { fn input<B: AsRef<[u8]>>(&mut self, b: B) { let b = b.as_ref(); self.buf[self.n..self.n + b.len()].copy_from_slice(b); self.n += b.len(); } }
impl digest::FixedOutput for D { type OutputSize = U8; fn fixed_result(self) -> GenericArray<u8, U8> { let mut o = GenericArray::default(); sym::hash(&self.buf[..self.n], &mut o); o } }
impl digest::Reset for D { fn reset(&mut self) { self.n = 0 } }

pub type CI = InheritedDigestConstruct<D, V>;
pub type CU = UnitDigestConstruct<D, V>;
pub type DbI = InMemoryBackend<CI>;
pub type DbU = InMemoryBackend<CU>;

// ---- reference model (written from the specification, uses none of bm's code) ----
pub fn h2(l: V, r: V) -> V {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&l.0);
    b[8..].copy_from_slice(&r.0);
    let mut o = [0u8; 8];
    sym::hash(&b, &mut o);
    V(o)
}
pub trait Kind: Construct<Value = V> { const UNIT: bool; }
impl Kind for CI { const UNIT: bool = false; }
impl Kind for CU { const UNIT: bool = true; }
pub fn empty<K: Kind>(depth: usize) -> V {
    let mut e = V::default();
    if !K::UNIT { let mut i = 0; while i < depth { e = h2(e, e); i += 1; } }
    e
}
/// Merkle root of `vals`, empty-padded to 2^depth leaves.
pub fn spec_root<K: Kind>(vals: &[V], depth: usize) -> V {
    if vals.is_empty() { return empty::<K>(depth); }
    if depth == 0 { return vals[0]; }
    let half = 1usize << (depth - 1);
    if vals.len() <= half { h2(spec_root::<K>(vals, depth - 1), empty::<K>(depth - 1)) }
    else { h2(spec_root::<K>(&vals[..half], depth - 1), spec_root::<K>(&vals[half..], depth - 1)) }
}
/// least d with 2^d >= n
pub fn spec_depth(n: u64) -> usize { let mut d = 0; while d < 64 && (1u128 << d) < n as u128 { d += 1; } d }
pub fn spec_vec_root<K: Kind>(vals: &[V], max: Option<u64>) -> V { spec_root::<K>(vals, spec_depth(max.unwrap_or(vals.len() as u64))) }
pub fn spec_list_root<K: Kind>(vals: &[V], max: Option<u64>) -> V { h2(spec_vec_root::<K>(vals, max), V::of(vals.len() as u64)) }
/// None for 0, Some(p) otherwise
pub fn cap(p: u64) -> Option<u64> { if p == 0 { None } else { Some(p) } }

// ---- a plain store with fault injection ----
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fault(pub u64);
pub trait Vl: Clone + Default + PartialEq {}
impl<T: Clone + Default + PartialEq> Vl for T {}
/// Append-only node store (newest entry first on lookup, certain matches before possible ones); call number `fail` returns `Fault(code)`.
pub struct Db<K: Construct> { pub n: Vec<(K::Value, (K::Value, K::Value))>, pub calls: u64, pub fail: Option<u64>, pub code: u64, pub failed: bool }
impl<K: Construct> Default for Db<K> { fn default() -> Self { Db { n: Vec::new(), calls: 0, fail: None, code: 0, failed: false } } }
impl<K: Construct> Clone for Db<K> { fn clone(&self) -> Self { Db { n: self.n.clone(), calls: self.calls, fail: self.fail, code: self.code, failed: self.failed } } }
impl<K: Construct> Db<K> {
    fn tick(&mut self) -> Result<(), Fault> {
        let c = self.calls;
        self.calls += 1;
        if let Some(f) = self.fail { if f == c { self.failed = true; return Err(Fault(self.code)); } }
        Ok(())
    }
    /// From now on, the call chosen by the solver fails (or none).
    pub fn arm(&mut self) { self.calls = 0; self.failed = false; self.code = sym::any(); self.fail = Some(sym::any()); }
    pub fn disarm(&mut self) { self.fail = None; }
}
impl<K: Construct> Backend for Db<K> { type Construct = K; type Error = Fault; }
impl<K: Construct> ReadBackend for Db<K> where K::Value: PartialEq {
    fn get(&mut self, k: &K::Value) -> Result<Option<(K::Value, K::Value)>, Fault> {
        self.tick()?;
        // entries under equal keys hold equal nodes; those that certainly match spare a case split
        for e in self.n.iter().rev() { if sym::same(&e.0, k) { return Ok(Some(e.1.clone())); } }
        for e in self.n.iter().rev() { if e.0 == *k { return Ok(Some(e.1.clone())); } }
        Ok(None)
    }
}
impl<K: Construct> WriteBackend for Db<K> where K::Value: PartialEq {
    fn rootify(&mut self, _: &K::Value) -> Result<(), Fault> { self.tick() }
    fn unrootify(&mut self, _: &K::Value) -> Result<(), Fault> { self.tick() }
    fn insert(&mut self, k: K::Value, v: (K::Value, K::Value)) -> Result<(), Fault> { self.tick()?; self.n.push((k, v)); Ok(()) }
}

/// A check that also speaks for C11 once the sequence was detached and attached again.
#[macro_export]
macro_rules! ck { ($re:expr, $c:expr, $p:literal, $id:literal) => { { let c = $c; $crate::sym::check(c, if $re { concat!($p, ",C11.", $id) } else { concat!($p, ".", $id) }) } } }
