//! bm-le: typed values (C17-C20, C23, C27). Reference: SSZ merkleization written from the
//! specification, using none of bm's code.
use crate::core::{spec_depth, Db, Fault};
use crate::sym;
use bm::{CompactValue, Construct, UnitDigestConstruct};
use bm_le::*;
use generic_array::{ArrayLength, GenericArray};
use primitive_types::{H256, H512, U256};
use typenum::*;
use typenum::U256 as N256;
use vecarray::VecArray;
use std::convert::TryFrom;

#[derive(Clone)]
pub struct D32 { buf: [u8; 64], n: usize }
impl Default for D32 { fn default() -> D32 { D32 { buf: [0; 64], n: 0 } } }
impl digest::Input for D32 { fn input<B: AsRef<[u8]>>(&mut self, b: B) { let b = b.as_ref(); self.buf[self.n..self.n + b.len()].copy_from_slice(b); self.n += b.len(); } }
impl digest::FixedOutput for D32 { type OutputSize = U32; fn fixed_result(self) -> GenericArray<u8, U32> { let mut o = GenericArray::default(); sym::hash(&self.buf[..self.n], &mut o); o } }
impl digest::Reset for D32 { fn reset(&mut self) { self.n = 0 } }
pub type K = DigestConstruct<D32>;
pub type KU = UnitDigestConstruct<D32, Value>;
pub type S = Db<K>;

pub fn h2(l: &Value, r: &Value) -> Value {
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&l.0[..]);
    b[32..].copy_from_slice(&r.0[..]);
    let mut o = [0u8; 32];
    sym::hash(&b, &mut o);
    Value(H256::from(o))
}
pub fn chunk(b: &[u8]) -> Value { let mut o = [0u8; 32]; o[..b.len()].copy_from_slice(b); Value(H256::from(o)) }
pub fn num(x: u64) -> Value { chunk(&x.to_le_bytes()) }
fn zero(depth: usize) -> Value { let mut e = Value::default(); let mut i = 0; while i < depth { e = h2(&e, &e); i += 1; } e }
fn mroot(c: &[Value], depth: usize) -> Value {
    if c.is_empty() { return zero(depth); }
    if depth == 0 { return c[0].clone(); }
    if depth > 62 || c.len() <= 1usize << (depth - 1) { h2(&mroot(c, depth - 1), &zero(depth - 1)) }
    else { let half = 1usize << (depth - 1); h2(&mroot(&c[..half], depth - 1), &mroot(&c[half..], depth - 1)) }
}
/// merkleize(chunks, limit)
pub fn merkleize(c: &[Value], limit: Option<u64>) -> Value { mroot(c, spec_depth(limit.unwrap_or(c.len() as u64))) }
/// pack(bytes)
pub fn pack(b: &[u8]) -> Vec<Value> { b.chunks(32).map(chunk).collect() }
pub fn mix(root: Value, n: u64) -> Value { h2(&root, &num(n)) }
fn div_up(a: u128, b: u128) -> u64 { ((a + b - 1) / b) as u64 }

/// A type under test: every value (lengths up to `hi`), and its hash tree root.
pub trait Ty: IntoTree + FromTree + PartialEq + Clone {
    fn gen(hi: u64) -> Self;
    fn spec(&self) -> Value;
    /// number of elements (0 if the type has no length)
    fn count(&self) -> u64 { 0 }
    /// nothing but the value's own root decodes to it: units, and whatever fills its chunks
    fn strict(&self) -> bool { false }
    /// the root again through the encoder for references, for the types that have one
    fn by_ref(&self, _: &mut S) -> Option<Result<Value, Error<Fault>>> { None }
}
/// Elements of compact vectors.
pub trait Basic: PartialEq + Clone { const BITS: u64; fn any() -> Self; fn put(&self, out: &mut Vec<u8>); fn bit(&self) -> bool { false } }
macro_rules! uint { ($($t:ty),*) => { $(
    impl Basic for $t { const BITS: u64 = core::mem::size_of::<$t>() as u64 * 8;
        fn any() -> Self { let mut b = [0u8; core::mem::size_of::<$t>()]; sym::bytes(&mut b); <$t>::from_le_bytes(b) }
        fn put(&self, out: &mut Vec<u8>) { let mut x = *self; for _ in 0..core::mem::size_of::<$t>() { out.push(x as u8); x = ((x as u128) >> 8) as $t; } } }
    impl Ty for $t { fn gen(_: u64) -> Self { Basic::any() } fn spec(&self) -> Value { let mut b = Vec::new(); self.put(&mut b); chunk(&b) } }
)* } }
uint!(u8, u16, u32, u64, u128);
impl Basic for U256 { const BITS: u64 = 256;
    fn any() -> Self { U256([sym::any(), sym::any(), sym::any(), sym::any()]) }
    fn put(&self, out: &mut Vec<u8>) { for w in self.0.iter() { out.extend_from_slice(&w.to_le_bytes()); } } }
impl Ty for U256 { fn strict(&self) -> bool { true } fn gen(_: u64) -> Self { Basic::any() } fn spec(&self) -> Value { let mut b = Vec::new(); self.put(&mut b); chunk(&b) } }
impl Basic for bool { const BITS: u64 = 1; fn any() -> Self { sym::any() & 1 == 1 } fn put(&self, _: &mut Vec<u8>) {} fn bit(&self) -> bool { *self } }
impl Ty for bool { fn gen(_: u64) -> Self { sym::flip() } fn spec(&self) -> Value { num(*self as u64) } }
pub fn hv() -> Value { let mut b = [0u8; 32]; sym::bytes(&mut b); Value(H256::from(b)) }
impl Ty for Value { fn strict(&self) -> bool { true } fn gen(_: u64) -> Self { hv() } fn spec(&self) -> Value { self.clone() } }
impl Ty for () { fn strict(&self) -> bool { true } fn gen(_: u64) -> Self {} fn spec(&self) -> Value { Value::default() } }
impl Ty for H256 { fn strict(&self) -> bool { true } fn gen(_: u64) -> Self { hv().0 } fn spec(&self) -> Value { Value(*self) } }
impl Ty for H512 { fn strict(&self) -> bool { true } fn gen(_: u64) -> Self { let mut b = [0u8; 64]; sym::bytes(&mut b); H512::from(b) } fn spec(&self) -> Value { h2(&chunk(&self.0[..32]), &chunk(&self.0[32..])) } }
impl<T: Ty> Ty for Option<T> { fn strict(&self) -> bool { self.as_ref().map_or(true, |x| x.strict()) }
    fn gen(hi: u64) -> Self { if sym::flip() { Some(T::gen(hi)) } else { None } }
    fn spec(&self) -> Value { match self { None => mix(Value::default(), 0), Some(x) => mix(x.spec(), 1) } } }
impl<T: Ty> Ty for Box<T> { fn strict(&self) -> bool { (**self).strict() } fn by_ref(&self, db: &mut S) -> Option<Result<Value, Error<Fault>>> { (**self).by_ref(db) } fn gen(hi: u64) -> Self { Box::new(T::gen(hi)) } fn spec(&self) -> Value { (**self).spec() } }
macro_rules! tuple { ($($i:ident $t:ident)*) => { impl<$($t: Ty),*> Ty for ($($t),*) { fn gen(hi: u64) -> Self { ($($t::gen(hi)),*) } fn spec(&self) -> Value { let ($($i),*) = self; merkleize(&[$($i.spec()),*], None) } } } }
tuple!(a A b B); tuple!(a A b B c C); tuple!(a A b B c C d D); tuple!(a A b B c C d D e E); tuple!(a A b B c C d D e E f F); tuple!(a A b B c C d D e E f F g G);
tuple!(a A b B c C d D e E f F g G h H); tuple!(a A b B c C d D e E f F g G h H i I);

fn roots<T: Ty>(v: &[T]) -> Vec<Value> { v.iter().map(|x| x.spec()).collect() }
pub fn packed<T: Basic>(v: &[T], limit: Option<u64>) -> Value {
    let mut b = Vec::new();
    if T::BITS == 1 {
        for c in v.chunks(8) { let mut x = 0u8; for (i, bit) in c.iter().enumerate() { x |= (bit.bit() as u8) << i; } b.push(x); }
    } else { for x in v { x.put(&mut b); } }
    merkleize(&pack(&b), limit.map(|l| div_up(l as u128 * T::BITS as u128, 256)))
}
fn few(hi: u64) -> u64 { if hi > 2 { 2 } else { hi } }
impl<T: Ty> Ty for Vec<T> { fn gen(hi: u64) -> Self { let n = sym::choose(hi + 1); (0..n).map(|_| T::gen(few(hi))).collect() }
    fn by_ref(&self, db: &mut S) -> Option<Result<Value, Error<Fault>>> { Some(self[..].into_tree(db)) }
    fn spec(&self) -> Value { mix(merkleize(&roots(self), None), self.len() as u64) } fn count(&self) -> u64 { self.len() as u64 } }
fn up_to<ML: Unsigned>(hi: u64) -> u64 { let m = ML::to_u64(); if m < hi { m } else { hi } }
impl<T: Ty, ML: Unsigned + PartialEq + Clone> Ty for MaxVec<T, ML> { fn gen(hi: u64) -> Self { let n = sym::choose(up_to::<ML>(hi) + 1); MaxVec::from((0..n).map(|_| T::gen(few(hi))).collect::<Vec<_>>()) }
    fn spec(&self) -> Value { mix(merkleize(&roots(&self.0), Some(ML::to_u64())), self.0.len() as u64) } fn count(&self) -> u64 { self.0.len() as u64 } }
impl<T: Basic, ML: Unsigned + PartialEq + Clone> Ty for Compact<MaxVec<T, ML>> where for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree {
    fn gen(hi: u64) -> Self { let n = sym::choose(up_to::<ML>(hi) + 1); Compact(MaxVec::from((0..n).map(|_| T::any()).collect::<Vec<_>>())) }
    fn by_ref(&self, db: &mut S) -> Option<Result<Value, Error<Fault>>> { Some(CompactRef(&self.0).into_tree(db)) }
    fn spec(&self) -> Value { mix(packed(&(self.0).0, Some(ML::to_u64())), (self.0).0.len() as u64) } fn count(&self) -> u64 { (self.0).0.len() as u64 } }
impl<T: Basic + Default, L: ArrayLength<T>> Ty for Compact<GenericArray<T, L>> where for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree {
    fn gen(_: u64) -> Self { let mut g = GenericArray::default(); for x in g.iter_mut() { *x = T::any(); } Compact(g) }
    fn by_ref(&self, db: &mut S) -> Option<Result<Value, Error<Fault>>> { Some(CompactRef(&self.0).into_tree(db)) }
    fn spec(&self) -> Value { packed(&self.0[..], None) } }
impl<T: Basic + Default, L: Unsigned + PartialEq + Clone> Ty for Compact<VecArray<T, L>> where for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree {
    fn gen(_: u64) -> Self { match VecArray::try_from((0..L::to_usize()).map(|_| T::any()).collect::<Vec<_>>()) { Ok(a) => Compact(a), Err(_) => panic!() } }
    fn by_ref(&self, db: &mut S) -> Option<Result<Value, Error<Fault>>> { Some(CompactRef(&self.0).into_tree(db)) }
    fn spec(&self) -> Value { packed(&self.0[..], None) } }
impl<T: Ty + Default, L: ArrayLength<T>> Ty for GenericArray<T, L> {
    fn gen(hi: u64) -> Self { let mut g = GenericArray::default(); for x in g.iter_mut() { *x = T::gen(hi); } g }
    fn spec(&self) -> Value { merkleize(&roots(&self[..]), None) } }
impl<T: Ty, L: Unsigned + PartialEq + Clone> Ty for VecArray<T, L> {
    fn gen(hi: u64) -> Self { match VecArray::try_from((0..L::to_usize()).map(|_| T::gen(hi)).collect::<Vec<_>>()) { Ok(a) => a, Err(_) => panic!() } }
    fn spec(&self) -> Value { merkleize(&roots(&self[..]), None) } }
macro_rules! array { ($($n:expr)*) => { $(impl<T: Ty + Default + Copy> Ty for [T; $n] { fn gen(hi: u64) -> Self { let mut a = [T::default(); $n]; for x in a.iter_mut() { *x = T::gen(hi); } a } fn spec(&self) -> Value { merkleize(&roots(&self[..]), None) } })* } }
array!(1 2 3 4 5 7 8 9 16 17 31 32);
/// Unbounded compact list (not a type of its own in the crate).
#[derive(Clone, PartialEq)]
pub struct Plain<T>(Vec<T>);
impl<T> IntoTree for Plain<T> where for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree {
    fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where DB::Construct: CompatibleConstruct { ElementalVariableVecRef(&self.0).into_compact_list_tree(db, None) } }
impl<T> FromTree for Plain<T> where ElementalFixedVec<T>: FromCompactVectorTree {
    fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { Ok(Plain(ElementalVariableVec::<T>::from_compact_list_tree(root, db, None)?.0)) } }
impl<T: Basic> Ty for Plain<T> where for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree {
    fn gen(hi: u64) -> Self { let n = sym::choose(hi + 1); Plain((0..n).map(|_| T::any()).collect()) }
    fn spec(&self) -> Value { mix(packed(&self.0, None), self.0.len() as u64) } fn count(&self) -> u64 { self.0.len() as u64 } }

pub type Bits10 = Compact<GenericArray<bool, U10>>;
pub trait Act { fn go<T: Ty>(&self); }
/// Types param 0 up to param 0 + param k.
fn which(k: u64) -> u64 { sym::param(0) + sym::choose(sym::param(k) + 1) }
macro_rules! types { ($($n:literal $t:ty;)*) => { pub fn with(n: u64, a: &impl Act) { match n { $($n => a.go::<$t>(),)* n => crate::derive::with(n, a) } } } }
types! {
    0 bool; 1 u8; 2 u16; 3 u32; 4 u64; 5 u128; 6 U256; 7 H256; 8 H512; 9 (); 10 Value;
    11 (u8, u64); 12 (u16, bool, Vec<u8>); 13 (u8, u8, u8, u8); 14 (u8, u16, u32, u64, u128); 15 (u64, (u8, u8), H256, U256, (), u8);
    16 (u8, u8, u8, u8, u8, u8, u8); 17 (u8, u8, u8, u8, u8, u8, u8, u16); 18 (u8, u8, u8, u8, u8, u8, u8, u8, u64);
    20 [u16; 1]; 21 [u64; 3]; 22 [u128; 4]; 23 [(); 5]; 24 [u8; 17]; 25 [u32; 32]; 26 [u8; 2]; 27 [u16; 8]; 28 [u64; 9]; 29 [u8; 7];
    30 GenericArray<u64, U5>; 31 VecArray<u32, U3>; 32 GenericArray<(u8, u16), U2>; 33 VecArray<Vec<u8>, U2>; 34 GenericArray<u8, U0>; 35 VecArray<H512, U2>;
    40 Compact<GenericArray<u8, U33>>; 41 Compact<VecArray<u16, U20>>; 42 Compact<GenericArray<bool, U10>>; 43 Compact<VecArray<u128, U3>>; 44 Compact<GenericArray<U256, U3>>;
    45 Compact<GenericArray<u32, U9>>; 46 Compact<VecArray<u64, U4>>; 47 Compact<VecArray<bool, U257>>; 48 Compact<GenericArray<u8, U0>>; 49 Compact<VecArray<U256, U2>>; 50 Compact<VecArray<bool, U8>>;
    60 Vec<u8>; 61 Vec<u64>; 62 Vec<(u8, u16)>; 63 Vec<Vec<u16>>; 64 Vec<Option<u8>>; 65 Vec<bool>; 66 Vec<()>;
    70 MaxVec<u8, U3>; 71 MaxVec<u64, U5>; 72 MaxVec<u32, U8>; 73 MaxVec<MaxVec<u8, U2>, U3>; 74 MaxVec<u16, U1>; 75 MaxVec<u8, U0>; 76 MaxVec<u64, U1099511627776>; 77 MaxVec<U256, U2>; 78 MaxVec<H512, U3>; 79 MaxVec<u8, U9223372036854775808>;
    80 Compact<MaxVec<u8, U33>>; 81 Compact<MaxVec<u16, U17>>; 82 Compact<MaxVec<u64, U5>>; 83 Compact<MaxVec<bool, U10>>; 84 Compact<MaxVec<U256, U3>>; 85 Compact<MaxVec<u128, U4>>; 86 Compact<MaxVec<u32, U17>>;
    87 Compact<MaxVec<bool, U257>>; 88 Compact<MaxVec<u8, U1099511627776>>; 89 Compact<MaxVec<bool, U1099511627776>>; 90 Compact<MaxVec<bool, U9223372036854775808>>; 91 Compact<MaxVec<u16, U9223372036854775808>>;
    100 Plain<u8>; 101 Plain<u32>; 102 Plain<bool>; 103 Plain<U256>; 104 Plain<u128>; 105 Plain<u16>; 106 Plain<u64>;
    110 Option<u64>; 111 Option<()>; 112 Option<Option<u8>>; 113 Box<u32>; 114 Option<Vec<u8>>; 115 Box<Vec<u16>>; 116 (Option<u8>, Compact<MaxVec<u8, U3>>);
}

struct Round;
impl Act for Round { fn go<T: Ty>(&self) {
    let x = T::gen(sym::param(1));
    let mut db = S::default();
    let r = match x.into_tree(&mut db) { Ok(r) => r, Err(_) => { sym::fail("C17,C18,C21.encodes"); return } };
    let want = x.spec();
    sym::check(r == want, "C17,C21.root");
    sym::check(tree_root::<D32, T>(&x) == want.0, "C17,C19.tree_root");
    if let Some(r) = x.by_ref(&mut db) { sym::check(r == Ok(want.clone()), "C17,C21.root_by_ref"); }
    for e in &db.n { sym::check(e.0 == h2(&(e.1).0, &(e.1).1), "C17,C21.nodes"); }
    match T::from_tree(&r, &mut db) { Ok(y) => sym::check(y == x, "C18,C21.same"), Err(_) => sym::fail("C18,C21.decodes") }
    // a store of the other kind: no zero subtrees
    let mut du = Db::<KU>::default();
    match x.into_tree(&mut du) {
        Ok(r) => match T::from_tree(&r, &mut du) { Ok(y) => sym::check(y == x, "C18,C21.same_unit"), Err(_) => sym::fail("C18,C21.decodes_unit") },
        Err(_) => sym::fail("C18,C21.encodes_unit"),
    }
    sym::observe(u64::from_le_bytes([r.0[0], r.0[1], r.0[2], r.0[3], r.0[4], r.0[5], r.0[6], r.0[7]]));
    sym::cover("done");
} }
/// C17, C18, C19. params: first type, largest length, how many more types
pub fn h_le() { with(which(2), &Round) }

struct Inj;
impl Act for Inj { fn go<T: Ty>(&self) {
    let (a, b) = (T::gen(sym::param(1)), T::gen(sym::param(1)));
    let (mut da, mut db) = (S::default(), S::default());
    if let (Ok(r), Ok(s)) = (a.into_tree(&mut da), b.into_tree(&mut db)) {
        if r == s { sym::cover("equal"); sym::check(a == b, "C27.injective"); } else { sym::cover("different"); sym::check(!(a == b), "C17.deterministic"); }
    } else { sym::fail("C17,C18,C21.encodes") }
} }
/// C27. params: type, largest length
pub fn h_le_inj() { with(which(2), &Inj) }

/// A hostile tree: any shape up to depth d, any leaf bytes. `zeros`: leaves only 0 bytes or small numbers
fn hostile(d: u64, db: &mut S) -> Value {
    if d == 0 || sym::flip() { return if sym::flip() { Value::default() } else { hv() }; }
    let l = hostile(d - 1, db);
    let r = hostile(d - 1, db);
    let k = h2(&l, &r);
    db.n.push((k.clone(), (l, r)));
    k
}
struct Hostile;
impl Act for Hostile { fn go<T: Ty>(&self) {
    let mut db = S::default();
    let root = hostile(sym::param(1), &mut db);
    let before = db.n.len();
    match T::from_tree(&root, &mut db) {
        Ok(x) => {
            sym::cover("decoded");
            // what decodes also encodes: lengths are within the limits
            let mut d2 = S::default();
            sym::check(x.into_tree(&mut d2).is_ok(), "C20.valid");
            if x.count() > 0 { sym::cover("non-empty"); }
            if x.strict() { sym::check(x.spec() == root, "C20.strict"); }
            // a list has the length its root commits to
            if sym::param(2) == 1 {
                let n = match db.n.iter().rev().find(|e| e.0 == root) { Some(e) => (e.1).1.clone(), None => { sym::fail("C20.no_length"); return } };
                sym::check(n == num(x.count()), "C20.length");
            }
        }
        Err(Error::CorruptedDatabase) => sym::cover("rejected"),
        Err(Error::AccessOverflowed) | Err(Error::InvalidParameter) => {}
        Err(Error::Backend(_)) => sym::fail("C20,C23.backend"),
    }
    sym::check(db.n.len() == before, "C20.read_only");
    sym::cover("done");
} }
/// C20. params: type, depth of the tree, 1 if the type is a list
pub fn h_le_hostile() { with(which(3), &Hostile) }

/// Length and tag nodes of any value over an otherwise well-formed encoding. params: type, largest length
struct Tag;
impl Act for Tag { fn go<T: Ty>(&self) {
    let x = T::gen(sym::param(1));
    let mut db = S::default();
    let r = match x.into_tree(&mut db) { Ok(r) => r, Err(_) => { sym::fail("C17,C18,C21.encodes"); return } };
    let (l, t) = match db.n.iter().rev().find(|e| e.0 == r) { Some(e) => e.1.clone(), None => { sym::fail("C20.setup"); return } };
    let n = hv();
    let k = h2(&l, &n);
    db.n.push((k.clone(), (l, n.clone())));
    match T::from_tree(&k, &mut db) {
        Ok(y) => { sym::cover("decoded"); let mut d2 = S::default(); sym::check(y.into_tree(&mut d2).is_ok(), "C20.valid"); if n == t { sym::check(y == x, "C18,C21.same"); } else { sym::cover("other tag"); sym::check(!(y == x), "C20,C27.tag_matters"); } }
        Err(Error::Backend(_)) => sym::fail("C20,C23.backend"),
        Err(_) => { sym::cover("rejected"); sym::check(n != t, "C18,C21.decodes"); }
    }
} }
pub fn h_le_tag() { with(which(2), &Tag) }

struct Flt;
impl Act for Flt { fn go<T: Ty>(&self) {
    let x = T::gen(sym::param(1));
    let mut db = S::default();
    if sym::flip() {
        db.arm();
        let r = x.into_tree(&mut db);
        if db.failed { sym::cover("encode fault"); sym::check(r == Err(Error::Backend(Fault(db.code))), "C23.encode"); } else { sym::cover("no fault"); sym::check(r == Ok(x.spec()), "C23,C17.encode_ok"); }
    } else {
        let r = match x.into_tree(&mut db) { Ok(r) => r, Err(_) => { sym::fail("C23.setup"); return } };
        let miss = sym::param(3) == 0 && sym::flip();
        if miss {
            if db.n.is_empty() { return; }
            let i = sym::pick(db.n.len());
            let gone = db.n[i].0.clone();
            db.n.retain(|e| e.0 != gone);
            match T::from_tree(&r, &mut db) { Ok(y) => sym::check(y == x, "C20.same_without"), Err(e) => { sym::cover("missing"); sym::check(e == Error::CorruptedDatabase, "C20,C23.missing"); } }
        } else {
            db.arm();
            match T::from_tree(&r, &mut db) {
                Ok(y) => { sym::check(!db.failed, "C23.decode_swallowed"); sym::check(y == x, "C18,C21.same"); }
                Err(e) => { sym::cover("decode fault"); sym::check(db.failed && e == Error::Backend(Fault(db.code)), "C23.decode"); }
            }
        }
    }
} }
/// C20, C23: a failing call or a missing node. params: first type, largest length, how many more types, 1 without missing nodes
pub fn h_le_fault() { with(which(2), &Flt) }

/// C27: values longer than the declared maximum are not encoded.
fn over<T: Ty, ML: Unsigned + PartialEq + Clone>(hi: u64) where T: Default {
    let n = ML::to_u64() + sym::choose(hi + 1);
    let v: MaxVec<T, ML> = MaxVec::from((0..n).map(|_| T::gen(1)).collect::<Vec<_>>());
    let mut db = S::default();
    let r = v.into_tree(&mut db);
    if n > ML::to_u64() { sym::cover("refused"); sym::check(r == Err(Error::InvalidParameter), "C27.over_long"); } else { sym::cover("accepted"); sym::check(r == Ok(v.spec()), "C17.full"); }
}
fn over_compact<T: Basic, ML: Unsigned + PartialEq + Clone>(hi: u64) where for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree {
    let n = ML::to_u64() + sym::choose(hi + 1);
    let v: Compact<MaxVec<T, ML>> = Compact(MaxVec::from((0..n).map(|_| T::any()).collect::<Vec<_>>()));
    let mut db = S::default();
    let r = v.into_tree(&mut db);
    let r2 = CompactRef(&v.0).into_tree(&mut db);
    if n > ML::to_u64() { sym::cover("refused"); sym::check(r == Err(Error::InvalidParameter) && r2 == r, "C27.over_long"); } else { sym::cover("accepted"); sym::check(r == Ok(v.spec()) && r2 == r, "C17.full"); }
}
/// params: type, how many too many
pub fn h_le_over() {
    let hi = sym::param(1);
    match sym::param(0) {
        0 => over::<u8, U0>(hi), 1 => over::<u64, U3>(hi), 2 => over::<Vec<u8>, U1>(hi), 3 => over::<u16, U4>(hi),
        10 => over_compact::<u8, U31>(hi), 11 => over_compact::<u8, U32>(hi), 12 => over_compact::<u16, U5>(hi), 13 => over_compact::<bool, U9>(hi), 14 => over_compact::<bool, N256>(hi),
        15 => over_compact::<U256, U2>(hi), 16 => over_compact::<u128, U3>(hi), 17 => over_compact::<u32, U0>(hi), 18 => over_compact::<bool, U7>(hi), 19 => over_compact::<u64, U4>(hi),
        _ => panic!(),
    }
}

/// The generic vector traits called with an explicit maximum. params: element type, largest length, maximum (0 none)
fn fixed<T: Basic>() where for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, ElementalFixedVec<T>: FromCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree {
    let max = crate::core::cap(sym::param(2));
    let n = sym::choose(sym::param(1) + 1);
    let v: Vec<T> = (0..n).map(|_| T::any()).collect();
    let fits = max.map_or(true, |m| n <= m);
    let mut db = S::default();
    let r = ElementalFixedVecRef(&v).into_compact_vector_tree(&mut db, max);
    sym::check(ElementalFixedVec(v.clone()).into_compact_vector_tree(&mut db, max) == r, "C17.value_ref");
    let l = ElementalVariableVecRef(&v).into_compact_list_tree(&mut db, max);
    sym::check(ElementalVariableVec(v.clone()).into_compact_list_tree(&mut db, max) == l, "C17.value_ref");
    if !fits { sym::cover("refused"); sym::check(r == Err(Error::InvalidParameter) && l == r, "C27.over_long"); return; }
    sym::cover("accepted");
    let want = packed(&v, max);
    sym::check(r == Ok(want.clone()), "C17,C21.root");
    sym::check(l == Ok(mix(want.clone(), n)), "C17,C21.root");
    match ElementalFixedVec::<T>::from_compact_vector_tree(&want, &mut db, n as usize, max) { Ok(y) => sym::check(y.0 == v, "C18,C21.same"), Err(_) => sym::fail("C18,C21.decodes") }
    match ElementalVariableVec::<T>::from_compact_list_tree(&mix(want, n), &mut db, max) { Ok(y) => sym::check(y.0 == v, "C18,C21.same"), Err(_) => sym::fail("C18,C21.decodes") }
}
fn fixed_composite<T: Ty>() {
    let max = crate::core::cap(sym::param(2));
    let n = sym::choose(sym::param(1) + 1);
    let v: Vec<T> = (0..n).map(|_| T::gen(2)).collect();
    let fits = max.map_or(true, |m| n <= m);
    let mut db = S::default();
    let r = ElementalFixedVecRef(&v).into_composite_vector_tree(&mut db, max);
    sym::check(ElementalFixedVec(v.clone()).into_composite_vector_tree(&mut db, max) == r, "C17.value_ref");
    let l = ElementalVariableVecRef(&v).into_composite_list_tree(&mut db, max);
    sym::check(ElementalVariableVec(v.clone()).into_composite_list_tree(&mut db, max) == l, "C17.value_ref");
    if !fits { sym::cover("refused"); sym::check(r == Err(Error::InvalidParameter) && l == r, "C27.over_long"); return; }
    sym::cover("accepted");
    let want = merkleize(&roots(&v), max);
    sym::check(r == Ok(want.clone()), "C17,C21.root");
    sym::check(l == Ok(mix(want.clone(), n)), "C17,C21.root");
    match ElementalFixedVec::<T>::from_composite_vector_tree(&want, &mut db, n as usize, max) { Ok(y) => sym::check(y.0 == v, "C18,C21.same"), Err(_) => sym::fail("C18,C21.decodes") }
    match ElementalVariableVec::<T>::from_composite_list_tree(&mix(want, n), &mut db, max) { Ok(y) => sym::check(y.0 == v, "C18,C21.same"), Err(_) => sym::fail("C18,C21.decodes") }
}
pub fn h_le_vec() { match sym::param(0) { 0 => fixed::<bool>(), 1 => fixed::<u8>(), 2 => fixed::<u16>(), 3 => fixed::<u32>(), 4 => fixed::<u64>(), 5 => fixed::<u128>(), 6 => fixed::<U256>(), 7 => fixed_composite::<u16>(), 8 => fixed_composite::<Vec<u8>>(), _ => panic!() } }

/// Compact proofs as trees, slices, references. param 0: depth
pub fn h_le_misc() {
    fn shape(d: u64) -> CompactValue<Value> { if d == 0 || sym::flip() { CompactValue::Single(hv()) } else { let l = shape(d - 1); CompactValue::Combined(Box::new((l, shape(d - 1)))) } }
    fn root(c: &CompactValue<Value>) -> Value { match c { CompactValue::Single(v) => v.clone(), CompactValue::Combined(b) => h2(&root(&b.0), &root(&b.1)) } }
    fn nodes(c: &CompactValue<Value>, db: &mut S) -> Value { match c { CompactValue::Single(v) => v.clone(), CompactValue::Combined(b) => {
        let (l, r) = (nodes(&b.0, db), nodes(&b.1, db));
        let k = h2(&l, &r);
        sym::check(bm::ReadBackend::get(db, &k) == Ok(Some((l, r))), "C17.proof_nodes");
        k
    } } }
    let c = shape(sym::param(0));
    let mut db = S::default();
    sym::check(c.into_tree(&mut db) == Ok(root(&c)), "C17.proof_root");
    sym::check(c.clone().root::<K>() == root(&c), "C14.compact_root");
    nodes(&c, &mut db);
    let v: Vec<u16> = (0..sym::choose(4)).map(|_| Basic::any()).collect();
    sym::check(v[..].into_tree(&mut db) == v.into_tree(&mut db), "C17.slice");
    let g = <Compact<GenericArray<u16, U3>> as Ty>::gen(0);
    sym::check(CompactRef(&g.0).into_tree(&mut db) == Ok(g.spec()), "C17.compact_ref");
    let g = <Compact<VecArray<u16, U3>> as Ty>::gen(0);
    sym::check(CompactRef(&g.0).into_tree(&mut db) == Ok(g.spec()), "C17.compact_ref");
    sym::check(Ignored::from_tree(&hv(), &mut db).is_ok(), "C18.ignored");
    sym::cover("done");
}

/// The type and length selectors called directly: any selector, any selector node.
pub fn h_le_mix() {
    use bm_le::utils::{decode_with_length, decode_with_type, mix_in_length, mix_in_type};
    let mut db = S::default();
    let x = <Vec<u16> as Ty>::gen(2);
    let k = sym::any() as usize;
    let want = mix(x.spec(), k as u64);
    if sym::flip() { db.arm(); }
    let len = sym::flip();
    let r = if len { mix_in_length(&x, &mut db, k) } else { mix_in_type(&x, &mut db, k) };
    if db.failed { sym::cover("encode fault"); sym::check(r == Err(Error::Backend(Fault(db.code))), "C23.mix"); return; }
    sym::check(r == Ok(want.clone()), "C17,C23.mix");
    db.disarm();
    // any node in the selector's place
    let (node, low, small) = if sym::flip() { sym::cover("own"); (want, k as u64, true) } else {
        let sel = hv();
        let mut b = [0u8; 8];
        b.copy_from_slice(&sel.0[..8]);
        let n = h2(&x.spec(), &sel);
        db.n.push((n.clone(), (x.spec(), sel.clone())));
        (n, u64::from_le_bytes(b), sel.0[8..].iter().all(|b| *b == 0))
    };
    if sym::flip() { db.arm(); }
    let r = if len { decode_with_length::<Vec<u16>, S>(&node, &mut db).map(|(y, n)| { sym::check(y == x, "C18.selected"); n }) }
        else { decode_with_type(&node, &mut db, |v, db, t| Vec::<u16>::from_tree(v, db).map(|y| { sym::check(y == x, "C18.selected"); t })) };
    if db.failed { sym::cover("decode fault"); sym::check(r == Err(Error::Backend(Fault(db.code))), "C23.unmix"); return; }
    if small { sym::cover("selected"); sym::check(r == Ok(low as usize), "C18,C23.selector"); } else { sym::cover("too large"); sym::check(r == Err(Error::CorruptedDatabase), "C20.selector"); }
}

fn node<C: Construct<Value = Value>>() {
    let (a, b, c, d) = (hv(), hv(), hv(), hv());
    let (x, y) = (C::intermediate_of(&a, &b), C::intermediate_of(&c, &d));
    sym::check(x == h2(&a, &b), "C14,C17.node");
    if x == y { sym::cover("equal"); sym::check(a == c && b == d, "C16,C27.node"); } else { sym::cover("different"); sym::check(!(a == c && b == d), "C16,C27.node_same"); }
}
/// Nodes of 32-byte values: any two pairs of children. param: construct
pub fn h_node() { if sym::param(0) == 0 { node::<K>() } else { node::<KU>() } }
