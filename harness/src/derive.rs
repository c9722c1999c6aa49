//! Derived encoders (C21, and C17-C20, C23, C27 for containers). Type ids from 200.
use crate::le::*;
use crate::sym;
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, U256};
use typenum::*;
use vecarray::VecArray;

/// Reference: a container's root is the merkleization of its fields' roots in declaration order.
macro_rules! container { ($t:ident { $($f:tt)* }) => { impl Ty for $t { fn gen(hi: u64) -> Self { $t { $($f: Ty::gen(hi)),* } } fn spec(&self) -> Value { merkleize(&[$(self.$f.spec()),*], None) } } } }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S1 { a: u8 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S2 { a: u16, b: u64 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S3 { a: Vec<u8>, b: bool, c: u32 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S4 { z: H256, y: U256, x: Option<u8>, w: () }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S5 { b: u8, a: u8, e: u8, d: u8, c: u8 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S7 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u128 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S8 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u16 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct S9 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u32 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct T1(u64);
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct T3(u8, Vec<u16>, S2);
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct Nil;
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct Nest { a: S2, b: Vec<S1>, c: E4, d: T1 }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct Inner<T> { x: T, y: Vec<T> }
type Gen = Inner<u16>;
type Gen2 = Inner<Inner<u8>>;
container!(S1 { a }); container!(S2 { a b }); container!(S3 { a b c }); container!(S4 { z y x w }); container!(S5 { b a e d c }); container!(S7 { a b c d e f g }); container!(S8 { a b c d e f g h }); container!(S9 { a b c d e f g h i });
container!(T1 { 0 }); container!(T3 { 0 1 2 }); container!(Nil {}); container!(Nest { a b c d });
impl<T: Ty> Ty for Inner<T> { fn gen(hi: u64) -> Self { Inner { x: T::gen(hi), y: Ty::gen(hi) } } fn spec(&self) -> Value { merkleize(&[self.x.spec(), self.y.spec()], None) } }
/// Packed fields beside plain ones of the same type.
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct Packs { #[bm(compact)] a: MaxVec<u8, U40>, b: MaxVec<u8, U40>, #[bm(compact)] c: GenericArray<bool, U10>, d: u64, #[bm(compact)] e: VecArray<u16, U3>, f: VecArray<u16, U3>, #[bm(compact)] g: MaxVec<bool, U9> }
fn compact<T: Clone>(x: &T) -> Value where Compact<T>: Ty { Compact(x.clone()).spec() }
fn any<T>(hi: u64) -> T where Compact<T>: Ty { <Compact<T> as Ty>::gen(hi).0 }
impl Ty for Packs {
    fn gen(hi: u64) -> Self { Packs { a: any(hi), b: Ty::gen(1), c: any(hi), d: Ty::gen(hi), e: any(hi), f: Ty::gen(hi), g: any(1) } }
    fn spec(&self) -> Value { merkleize(&[compact(&self.a), self.b.spec(), compact(&self.c), self.d.spec(), compact(&self.e), self.f.spec(), compact(&self.g)], None) }
}
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub struct PackT(#[bm(compact)] GenericArray<u8, U33>, u8);
impl Ty for PackT { fn gen(hi: u64) -> Self { PackT(any(hi), Ty::gen(hi)) } fn spec(&self) -> Value { merkleize(&[compact(&self.0), self.1.spec()], None) } }

/// A variant's root is its fields' merkleization, mixed with the number of the variant.
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum E4 { A, B(u8), C { x: u16, y: Vec<u8> }, D(u8, u64, u32) }
impl Ty for E4 {
    fn gen(hi: u64) -> Self { match sym::choose(4) { 0 => E4::A, 1 => E4::B(Ty::gen(hi)), 2 => E4::C { x: Ty::gen(hi), y: Ty::gen(hi) }, _ => E4::D(Ty::gen(hi), Ty::gen(hi), Ty::gen(hi)) } }
    fn strict(&self) -> bool { matches!(self, E4::A) }
    fn spec(&self) -> Value { match self { E4::A => mix(Value::default(), 0), E4::B(a) => mix(merkleize(&[a.spec()], None), 1), E4::C { x, y } => mix(merkleize(&[x.spec(), y.spec()], None), 2), E4::D(a, b, c) => mix(merkleize(&[a.spec(), b.spec(), c.spec()], None), 3) } }
}
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum One { Only(u32, bool) }
impl Ty for One { fn gen(hi: u64) -> Self { One::Only(Ty::gen(hi), Ty::gen(hi)) } fn spec(&self) -> Value { match self { One::Only(a, b) => mix(merkleize(&[a.spec(), b.spec()], None), 0) } } }
/// Same contents under different variants; explicit discriminants do not number the variants.
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum Same { X(u8), Y(u8), Z { v: u8 } }
impl Ty for Same {
    fn gen(hi: u64) -> Self { match sym::choose(3) { 0 => Same::X(Ty::gen(hi)), 1 => Same::Y(Ty::gen(hi)), _ => Same::Z { v: Ty::gen(hi) } } }
    fn spec(&self) -> Value { match self { Same::X(a) => mix(merkleize(&[a.spec()], None), 0), Same::Y(a) => mix(merkleize(&[a.spec()], None), 1), Same::Z { v } => mix(merkleize(&[v.spec()], None), 2) } }
}
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum Units { P = 5, Q = 2, R = 9 }
impl Ty for Units { fn strict(&self) -> bool { true } fn gen(_: u64) -> Self { match sym::choose(3) { 0 => Units::P, 1 => Units::Q, _ => Units::R } } fn spec(&self) -> Value { mix(Value::default(), match self { Units::P => 0, Units::Q => 1, Units::R => 2 }) } }
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum PackE { U { #[bm(compact)] a: MaxVec<u16, U17>, b: MaxVec<u16, U17> }, V(#[bm(compact)] GenericArray<bool, U10>, E4), W }
impl Ty for PackE {
    fn gen(hi: u64) -> Self { match sym::choose(3) { 0 => PackE::U { a: any(hi), b: Ty::gen(1) }, 1 => PackE::V(any(hi), Ty::gen(1)), _ => PackE::W } }
    fn strict(&self) -> bool { matches!(self, PackE::W) }
    fn spec(&self) -> Value { match self { PackE::U { a, b } => mix(merkleize(&[compact(a), b.spec()], None), 0), PackE::V(a, b) => mix(merkleize(&[compact(a), b.spec()], None), 1), PackE::W => mix(Value::default(), 2) } }
}
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum Choice<T, U> { L(T), N, R { r: U, s: T } }
impl<T: Ty, U: Ty> Ty for Choice<T, U> {
    fn gen(hi: u64) -> Self { match sym::choose(3) { 0 => Choice::L(Ty::gen(hi)), 1 => Choice::N, _ => Choice::R { r: Ty::gen(hi), s: Ty::gen(hi) } } }
    fn strict(&self) -> bool { matches!(self, Choice::N) }
    fn spec(&self) -> Value { match self { Choice::L(a) => mix(merkleize(&[a.spec()], None), 0), Choice::N => mix(Value::default(), 1), Choice::R { r, s } => mix(merkleize(&[r.spec(), s.spec()], None), 2) } }
}
/// Many variants: numbers past one.
#[derive(IntoTree, FromTree, Clone, PartialEq)]
pub enum Many { V0, V1(u8), V2, V3(u16), V4 { a: u8, b: u8, c: u8, d: u8, e: u8 }, V5, V6(bool), V7(()), V8, V9(u64, u64, u64) }
impl Ty for Many {
    fn gen(hi: u64) -> Self { match sym::choose(10) { 0 => Many::V0, 1 => Many::V1(Ty::gen(hi)), 2 => Many::V2, 3 => Many::V3(Ty::gen(hi)), 4 => Many::V4 { a: Ty::gen(hi), b: Ty::gen(hi), c: Ty::gen(hi), d: Ty::gen(hi), e: Ty::gen(hi) }, 5 => Many::V5, 6 => Many::V6(Ty::gen(hi)), 7 => Many::V7(()), 8 => Many::V8, _ => Many::V9(Ty::gen(hi), Ty::gen(hi), Ty::gen(hi)) } }
    fn strict(&self) -> bool { matches!(self, Many::V0 | Many::V2 | Many::V5 | Many::V7(()) | Many::V8) }
    fn spec(&self) -> Value { let d = Value::default(); match self { Many::V0 => mix(d, 0), Many::V1(a) => mix(a.spec(), 1), Many::V2 => mix(d, 2), Many::V3(a) => mix(a.spec(), 3), Many::V4 { a, b, c, d, e } => mix(merkleize(&[a.spec(), b.spec(), c.spec(), d.spec(), e.spec()], None), 4), Many::V5 => mix(d, 5), Many::V6(a) => mix(a.spec(), 6), Many::V7(_) => mix(d, 7), Many::V8 => mix(d, 8), Many::V9(a, b, c) => mix(merkleize(&[a.spec(), b.spec(), c.spec()], None), 9) } }
}
macro_rules! types { ($($n:literal $t:ty;)*) => { pub fn with(n: u64, a: &impl Act) { match n { $($n => a.go::<$t>(),)* _ => {} } } } }
types! {
    200 S1; 201 S2; 202 S3; 203 S4; 204 S5; 205 S7; 206 S8; 207 S9; 208 T1; 209 T3; 210 Nil; 211 Nest; 212 Gen; 213 Gen2; 214 Packs; 215 PackT;
    220 E4; 221 One; 222 Same; 223 Units; 224 PackE; 225 Choice<u8, u16>; 226 Choice<E4, Vec<u8>>; 227 Many; 228 Vec<E4>; 229 Option<S2>; 230 MaxVec<S3, U3>;
}
