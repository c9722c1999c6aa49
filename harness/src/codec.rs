//! Wire codecs (C25).
use crate::le::{hv, Basic};
use crate::sym;
use bm::CompactValue;
use bm_le::{MaxVec, Value};
use parity_codec::{Decode, Encode};
use serde::de::value::{Error as DeError, SeqDeserializer};
use serde::{Deserialize, Serialize};
use typenum::*;

/// Elements with a codec: any value.
trait El: Encode + Decode + PartialEq + Clone { fn gen() -> Self; }
macro_rules! el { ($($t:ty),*) => { $(impl El for $t { fn gen() -> Self { Basic::any() } })* } }
el!(u16, u32, u64, u128);
impl El for i8 { fn gen() -> Self { sym::any() as i8 } }
impl El for bool { fn gen() -> Self { sym::flip() } }
impl El for (i8, u16) { fn gen() -> Self { (i8::gen(), Basic::any()) } }
impl El for Vec<u8> { fn gen() -> Self { (0..sym::choose(3)).map(|_| Basic::any()).collect() } }
impl El for Option<u16> { fn gen() -> Self { if sym::flip() { Some(Basic::any()) } else { None } } }
impl El for Value { fn gen() -> Self { hv() } }

/// Every vector up to `more` elements longer than its maximum.
fn round<T: El, ML: Unsigned>(most: u64, more: u64) {
    let m = ML::to_u64();
    let top = if m + more < most { m + more } else { most };
    let n = sym::choose(top + 1);
    let v: Vec<T> = (0..n).map(|_| T::gen()).collect();
    let x: MaxVec<T, ML> = MaxVec::from(v.clone());
    let bytes = x.encode();
    sym::check(bytes == v.encode(), "C25.as_a_vector");
    let mut input = &bytes[..];
    match <MaxVec<T, ML> as Decode>::decode(&mut input) {
        Some(y) => { sym::cover("accepted"); sym::check(n <= m, "C25.too_long"); sym::check(y.0 == v, "C25.same"); sym::check(input.is_empty(), "C25.consumed"); }
        None => { sym::cover("refused"); sym::check(n > m, "C25.accepts_within"); }
    }
    // every proper prefix is refused
    if !bytes.is_empty() { let k = sym::pick(bytes.len()); sym::check(<MaxVec<T, ML> as Decode>::decode(&mut &bytes[..k]).is_none() || T::gen().encode().is_empty(), "C25.prefix"); }
}
/// params: type, largest length, how many more than the maximum
pub fn h_codec_round() {
    let (most, more) = (sym::param(1), sym::param(2));
    match sym::param(0) {
        0 => round::<i8, U3>(most, more), 1 => round::<u64, U5>(most, more), 2 => round::<u128, U2>(most, more), 3 => round::<bool, U9>(most, more), 4 => round::<(i8, u16), U4>(most, more), 5 => round::<Vec<u8>, U3>(most, more),
        6 => round::<Option<u16>, U3>(most, more), 7 => round::<Value, U2>(most, more), 8 => round::<i8, U0>(most, more), 9 => round::<i8, U64>(most, more), 10 => round::<u16, U9223372036854775808>(most, more), 11 => round::<i8, U63>(most, more),
        _ => panic!(),
    }
}

/// Any byte string.
fn hostile<T: El, ML: Unsigned>(most: u64) {
    let n = sym::choose(most + 1) as usize;
    let mut b = vec![0u8; n];
    sym::bytes(&mut b);
    let (mut i, mut j) = (&b[..], &b[..]);
    let r = <MaxVec<T, ML> as Decode>::decode(&mut i);
    let w = <Vec<T> as Decode>::decode(&mut j);
    match (&r, &w) {
        (Some(x), _) => { sym::cover("accepted"); sym::check(x.0.len() as u64 <= ML::to_u64(), "C25.too_long"); sym::check(w.as_ref() == Some(&x.0), "C25.same_as_vector"); sym::check(i.len() == j.len(), "C25.consumed"); }
        (None, Some(w)) => { sym::cover("refused"); sym::check(w.len() as u64 > ML::to_u64(), "C25.accepts_within"); }
        (None, None) => sym::cover("malformed"),
    }
    sym::cover("done");
}
/// params: type, most bytes
pub fn h_codec_hostile() {
    let most = sym::param(1);
    match sym::param(0) {
        0 => hostile::<i8, U3>(most), 1 => hostile::<u16, U2>(most), 2 => hostile::<bool, U2>(most), 3 => hostile::<Vec<u8>, U1>(most), 4 => hostile::<Option<u16>, U1>(most), 5 => hostile::<i8, U0>(most), 6 => hostile::<u32, U9223372036854775808>(most), 7 => hostile::<(i8, u16), U1>(most),
        _ => panic!(),
    }
}

fn shape<T: El>(d: u64) -> CompactValue<T> { if d == 0 || sym::flip() { CompactValue::Single(T::gen()) } else { let l = shape(d - 1); CompactValue::Combined(Box::new((l, shape(d - 1)))) } }
fn proof<T: El>(d: u64, most: u64) {
    let x = shape::<T>(d);
    let bytes = x.encode();
    let mut input = &bytes[..];
    let y = <CompactValue<T> as Decode>::decode(&mut input);
    sym::check(match &y { Some(y) => same(&x, y), None => false }, "C25.proof_same");
    sym::check(input.is_empty(), "C25.proof_consumed");
    // any byte string: refused, or a proof whose encoding it starts with
    let n = sym::choose(most + 1) as usize;
    let mut b = vec![0u8; n];
    sym::bytes(&mut b);
    let mut i = &b[..];
    match <CompactValue<T> as Decode>::decode(&mut i) {
        Some(z) => { sym::cover("accepted"); let e = z.encode(); sym::check(e.len() + i.len() == n && e[..] == b[..e.len()], "C25.proof_canonical"); }
        None => sym::cover("malformed"),
    }
}
fn same<T: PartialEq>(a: &CompactValue<T>, b: &CompactValue<T>) -> bool { match (a, b) { (CompactValue::Single(x), CompactValue::Single(y)) => x == y, (CompactValue::Combined(x), CompactValue::Combined(y)) => same(&x.0, &y.0) && same(&x.1, &y.1), _ => false } }
/// params: value type, depth of the proof, most bytes
pub fn h_codec_proof() {
    let (d, most) = (sym::param(1), sym::param(2));
    match sym::param(0) {
        0 => proof::<i8>(d, most), 1 => proof::<u32>(d, most), 2 => proof::<Value>(d, most),
        _ => panic!(),
    }
}
pub fn h_codec_value() {
    let x = hv();
    let bytes = x.encode();
    sym::check(bytes[..] == x.0[..], "C25.value_bytes");
    sym::check(<Value as Decode>::decode(&mut &bytes[..]) == Some(x), "C25.value_same");
    let n = sym::choose(40) as usize;
    let mut b = vec![0u8; n];
    sym::bytes(&mut b);
    let r = <Value as Decode>::decode(&mut &b[..]);
    sym::check(match r { Some(v) => n >= 32 && v.0[..] == b[..32], None => n < 32 }, "C25.value_input");
    sym::cover("done");
}

/// A serde format of a plain sequence of integers.
#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl serde::ser::Error for Bad { fn custom<T: std::fmt::Display>(_: T) -> Self { Bad } }
struct One(Option<u64>);
struct Seq(Vec<u64>);
macro_rules! no { ($($f:ident($($a:ty),*);)*) => { $(fn $f(self, $(_: $a),*) -> Result<Self::Ok, Bad> { Err(Bad) })* } }
macro_rules! ser { ($t:ident, $ok:ty, $seq:ty, $num:expr, $open:expr) => {
    impl serde::Serializer for $t {
        type Ok = $ok; type Error = Bad; type SerializeSeq = $seq;
        type SerializeTuple = serde::ser::Impossible<$ok, Bad>; type SerializeTupleStruct = serde::ser::Impossible<$ok, Bad>; type SerializeTupleVariant = serde::ser::Impossible<$ok, Bad>;
        type SerializeMap = serde::ser::Impossible<$ok, Bad>; type SerializeStruct = serde::ser::Impossible<$ok, Bad>; type SerializeStructVariant = serde::ser::Impossible<$ok, Bad>;
        fn serialize_bool(self, x: bool) -> Result<$ok, Bad> { $num(x as u64) }
        fn serialize_u8(self, x: u8) -> Result<$ok, Bad> { $num(x as u64) } fn serialize_u16(self, x: u16) -> Result<$ok, Bad> { $num(x as u64) }
        fn serialize_u32(self, x: u32) -> Result<$ok, Bad> { $num(x as u64) } fn serialize_u64(self, x: u64) -> Result<$ok, Bad> { $num(x) }
        fn serialize_seq(self, _: Option<usize>) -> Result<$seq, Bad> { $open }
        no! { serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<$ok, Bad> { Err(Bad) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<$ok, Bad> { x.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<$ok, Bad> { Err(Bad) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bad> { Err(Bad) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> { Err(Bad) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> { Err(Bad) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Bad> { Err(Bad) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad) }
    }
} }
ser!(One, u64, serde::ser::Impossible<u64, Bad>, |x| Ok(x), Err(Bad));
ser!(Seq, Vec<u64>, Seq, |_| Err(Bad), Ok(Seq(Vec::new())));
impl serde::ser::SerializeSeq for Seq { type Ok = Vec<u64>; type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Bad> { self.0.push(x.serialize(One(None))?); Ok(()) }
    fn end(self) -> Result<Vec<u64>, Bad> { Ok(self.0) } }

fn serde_vec<T, ML: Unsigned>(hi: u64, num: fn(u64) -> T, back: fn(T) -> u64) where T: Serialize + for<'a> Deserialize<'a> + PartialEq + Clone + serde::de::IntoDeserializer<'static, DeError> {
    let m = ML::to_u64();
    let n = sym::choose(hi + 1);
    let v: Vec<T> = (0..n).map(|_| num(sym::any())).collect();
    let x: MaxVec<T, ML> = MaxVec::from(v.clone());
    match x.serialize(Seq(Vec::new())) {
        Ok(w) => { sym::check(w.len() == v.len(), "C25.serde_len"); for (a, b) in w.iter().zip(&v) { sym::check(*a == back(b.clone()), "C25.serde_items"); } }
        Err(_) => sym::fail("C25.serde_serializes"),
    }
    let d: SeqDeserializer<_, DeError> = SeqDeserializer::new(v.clone().into_iter());
    match MaxVec::<T, ML>::deserialize(d) {
        Ok(y) => { sym::cover("accepted"); sym::check(n <= m, "C25.serde_too_long"); sym::check(y.0 == v, "C25.serde_same"); }
        Err(_) => { sym::cover("refused"); sym::check(n > m, "C25.serde_accepts"); }
    }
}
/// params: type, largest length
pub fn h_codec_serde() {
    let hi = sym::param(1);
    match sym::param(0) {
        0 => serde_vec::<u8, U3>(hi, |x| x as u8, |x| x as u64), 1 => serde_vec::<u64, U5>(hi, |x| x, |x| x), 2 => serde_vec::<bool, U1>(hi, |x| x & 1 == 1, |x| x as u64), 3 => serde_vec::<u16, U0>(hi, |x| x as u16, |x| x as u64), 4 => serde_vec::<u32, U9223372036854775808>(hi, |x| x as u32, |x| x as u64),
        _ => panic!(),
    }
}
