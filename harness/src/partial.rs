//! Partial values (C22, C23, C20).
use crate::core::Fault;
use crate::le::*;
use crate::sym;
use bm::{Error, Index, Tree};
use bm_le::*;
use primitive_types::{H256, U256};

/// A type with a partial form: one read or write through it, mirrored on the full value `x`.
/// `old` is the value as last flushed.
pub trait Part: Ty + Partialable {
    fn step(x: &mut Self, old: &Self, p: &mut Self::Value, raw: &DanglingRaw<K>, db: &mut S) -> Result<(), Error<Fault>>;
}
macro_rules! basics { ($($t:ty),*) => { $(impl Part for $t {
    fn step(x: &mut Self, old: &Self, p: &mut Self::Value, raw: &DanglingRaw<K>, db: &mut S) -> Result<(), Error<Fault>> {
        if sym::param(4) == 3 && sym::flip() { sym::cover("fetch"); p.fetch(raw, db)?; *x = old.clone(); }
        else if sym::flip() { sym::cover("get"); let ok = *p.get(raw, db)? == *x; sym::check(ok, "C22.get"); }
        else { sym::cover("set"); let v = <$t as Ty>::gen(0); p.set(v.clone()); *x = v; }
        Ok(())
    }
})* } }
basics!(u8, u16, u32, u64, u128, U256, H256);
macro_rules! part { ($t:ident { $($n:literal $f:ident)* } $k:literal) => {
    impl Ty for $t { fn gen(hi: u64) -> Self { $t { $($f: Ty::gen(hi)),* } } fn spec(&self) -> Value { merkleize(&[$(self.$f.spec()),*], None) } }
    impl Part for $t { fn step(x: &mut Self, old: &Self, p: &mut Self::Value, raw: &DanglingRaw<K>, db: &mut S) -> Result<(), Error<Fault>> {
        match sym::choose($k) { $($n => Part::step(&mut x.$f, &old.$f, &mut p.$f, raw, db),)* _ => unreachable!() }
    } }
} }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct P3 { a: u32, b: u64, c: u128 }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct P2 { d: u16, basic: P3 }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct P1 { x: P2 }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct P7 { a: u8, b: u16, c: u32, d: u64, e: u128, f: U256, g: H256 }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct P5 { p: P1, q: u8, r: P2, s: u16, t: P3 }
part!(P3 { 0 a 1 b 2 c } 3); part!(P2 { 0 d 1 basic } 2); part!(P1 { 0 x } 1); part!(P7 { 0 a 1 b 2 c 3 d 4 e 5 f 6 g } 7); part!(P5 { 0 p 1 q 2 r 3 s 4 t } 5);

/// A list with a partial form (the crate leaves it to its user to name such a type).
#[derive(Clone, PartialEq)]
pub struct L<T>(Vec<T>);
impl<T> IntoTree for L<T> where Vec<T>: IntoTree {
    fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where DB::Construct: CompatibleConstruct { self.0.into_tree(db) } }
impl<T> FromTree for L<T> where Vec<T>: FromTree {
    fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { Ok(L(Vec::<T>::from_tree(root, db)?)) } }
impl<T: Partialable + IntoTree> Partialable for L<T> { type Value = PartialVec<T>; }
impl<T: Ty> Ty for L<T> where Vec<T>: IntoTree + FromTree { fn gen(hi: u64) -> Self { L(Vec::<T>::gen(hi)) } fn spec(&self) -> Value { self.0.spec() } fn count(&self) -> u64 { self.0.len() as u64 } }
impl<T: Part> Part for L<T> where Vec<T>: IntoTree + FromTree {
    fn step(x: &mut Self, old: &Self, p: &mut Self::Value, raw: &DanglingRaw<K>, db: &mut S) -> Result<(), Error<Fault>> {
        let n = old.0.len();
        let i = sym::pick(n + 1);
        if i == n { sym::cover("push"); let v = T::gen(1); p.push(v.clone()); x.0.push(v); Ok(()) }
        else { sym::cover("item"); T::step(&mut x.0[i], &old.0[i], p.at(i), raw, db) }
    }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct Q2 { n: u8, items: L<u16> }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct Q3 { recs: L<P2>, k: u64, more: L<u8> }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq)]
pub struct Q4 { lists: L<L<u16>>, qs: L<Q2> }
part!(Q2 { 0 n 1 items } 2); part!(Q3 { 0 recs 1 k 2 more } 3); part!(Q4 { 0 lists 1 qs } 2);

/// The partial form, any number of times used and flushed, against the full value. mode 0: no faults, 1: a failing call, 2: a missing node, 3: no faults, with explicit re-reads
fn rounds<T: Part>(hi: u64, ops: u64, n: u64, mode: u64) {
    let mut x = T::gen(hi);
    let mut db = S::default();
    let root = match x.into_tree(&mut db) { Ok(r) => r, Err(_) => { sym::fail("C22,C23,C20.setup"); return } };
    let mut raw = DanglingRaw::<K>::new(root);
    let mut p = <T::Value as PartialItem>::new(PartialIndex::root());
    if mode == 1 { db.arm(); }
    if mode == 2 {
        if db.n.is_empty() { return; }
        let i = sym::pick(db.n.len());
        db.n.remove(i);
    }
    let mut k = 0;
    let mut r = Ok(());
    while k < n && r.is_ok() {
        k += 1;
        r = round(&mut x, &mut p, &mut raw, &mut db, ops, mode, k < n);
    }
    match mode {
        0 | 3 => sym::check(r.is_ok(), "C22.ok"),
        1 => if db.failed { sym::cover("fault"); sym::check(r == Err(Error::Backend(Fault(db.code))), "C23.partial"); } else { sym::cover("no fault"); sym::check(r.is_ok(), "C23,C22.partial_ok"); },
        _ => match r { Ok(()) => sym::cover("not needed"), Err(e) => { sym::cover("missing"); sym::check(e == Error::CorruptedDatabase, "C20,C23.partial_missing"); } },
    }
    sym::cover("end");
}
fn round<T: Part>(x: &mut T, p: &mut T::Value, raw: &mut DanglingRaw<K>, db: &mut S, ops: u64, mode: u64, other: bool) -> Result<(), Error<Fault>> {
    let old = x.clone();
    let mut i = 0;
    while i < ops { T::step(x, &old, p, raw, db)?; i += 1; }
    if mode == 0 || mode == 3 { sym::check(raw.root() == old.spec(), "C22.not_before_flush"); }
    p.flush(raw, db)?;
    if mode == 2 { return Ok(()); }
    sym::check(raw.root() == x.spec(), "C22.root");
    if mode == 0 || mode == 3 {
        match T::from_tree(&raw.root(), db) { Ok(y) => sym::check(y == *x, "C22.contents"), Err(_) => sym::fail("C22.readable") }
        // a flushed partial value holds nothing back: it sees and keeps what is written otherwise
        if other && sym::flip() {
            sym::cover("other");
            let old = x.clone();
            let mut q = <T::Value as PartialItem>::new(PartialIndex::root());
            T::step(x, &old, &mut q, raw, db)?;
            q.flush(raw, db)?;
            p.flush(raw, db)?;
            sym::check(raw.root() == x.spec(), "C22.flushed");
        }
    }
    Ok(())
}
/// params: type, longest list, reads and writes before a flush, flushes, mode
pub fn h_partial() {
    let (hi, ops, n, mode) = (sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    match sym::param(0) {
        0 => rounds::<P3>(hi, ops, n, mode), 1 => rounds::<P2>(hi, ops, n, mode), 2 => rounds::<P1>(hi, ops, n, mode), 3 => rounds::<P7>(hi, ops, n, mode), 4 => rounds::<P5>(hi, ops, n, mode),
        5 => rounds::<Q2>(hi, ops, n, mode), 6 => rounds::<Q3>(hi, ops, n, mode), 7 => rounds::<Q4>(hi, ops, n, mode), 8 => rounds::<L<u16>>(hi, ops, n, mode), 9 => rounds::<L<P3>>(hi, ops, n, mode), 10 => rounds::<L<L<u8>>>(hi, ops, n, mode),
        11 => rounds::<u64>(hi, ops, n, mode),
        _ => panic!(),
    }
}

/// Items at and past the end of a list are errors, reading and writing. params: longest list
pub fn h_partial_past() {
    let x = Q2 { n: Ty::gen(0), items: L(Ty::gen(sym::param(0))) };
    let mut db = S::default();
    let root = match x.into_tree(&mut db) { Ok(r) => r, Err(_) => { sym::fail("C22.setup"); return } };
    let mut raw = DanglingRaw::<K>::new(root.clone());
    let at = PartialIndex::root().vector(1, 2);
    let i = sym::any() as usize;
    let mut v = <PartialValue<u16> as PartialItem>::new(at.list(i));
    let n = x.items.0.len();
    if sym::flip() {
        let r = v.get(&raw, &mut db).map(|v| *v);
        if i < n { sym::cover("inside"); sym::check(r == Ok(x.items.0[sym::concrete(i as u64) as usize]), "C22.get"); } else { sym::cover("past"); sym::check(r == Err(Error::AccessOverflowed), "C22.past"); }
    } else {
        v.set(sym::any() as u16);
        let r = v.flush(&mut raw, &mut db);
        if i < n { sym::cover("inside"); sym::check(r == Ok(()), "C22.set"); } else { sym::cover("past"); sym::check(r == Err(Error::AccessOverflowed), "C22.past"); sym::check(raw.root() == root, "C22.past_root"); }
    }
    // the same through the list's own partial form
    let mut raw = DanglingRaw::<K>::new(root.clone());
    let mut p = PartialQ2::new(PartialIndex::root());
    let j = n + sym::pick(3);
    sym::check(p.items.at(j).get(&raw, &mut db).map(|v| *v) == Err(Error::AccessOverflowed), "C22.past");
    p.items.at(j).set(sym::any() as u16);
    sym::check(p.flush(&mut raw, &mut db) == Err(Error::AccessOverflowed), "C22.past");
    sym::check(raw.root() == root, "C22.past_root");
}

/// Any length node (nine low words when pushing), nine indices, a store with few nodes.
pub fn h_partial_hostile() {
    let mut db = S::default();
    let op = sym::choose(3);
    let mut len = hv();
    if op == 2 { (len.0).0[..8].copy_from_slice(&[0u64, 1, 2, 3, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::max_value()][sym::pick(9)].to_le_bytes()); }
    let items = if sym::flip() { hv() } else { let (l, r) = (hv(), hv()); let k = h2(&l, &r); db.n.push((k.clone(), (l, r))); k };
    let list = h2(&items, &len);
    if sym::flip() { db.n.push((list.clone(), (items.clone(), len.clone()))); }
    let (root, at) = match sym::choose(3) {
        0 => (list, PartialIndex::root()),
        1 => { let o = hv(); let k = h2(&o, &list); db.n.push((k.clone(), (o, list))); (k, PartialIndex::root().vector(1, 2)) }
        _ => { let o = hv(); let k = h2(&list, &o); db.n.push((k.clone(), (list, o))); (k, PartialIndex::root().raw(Index::root().left())) }
    };
    let mut raw = DanglingRaw::<K>::new(root.clone());
    let i = if op == 2 { 0 } else { [0usize, 1, 2, 5, 1 << 20, (1 << 40) + 5, 1 << 62, 1 << 63, usize::max_value()][sym::pick(9)] };
    let low = { let mut b = [0u8; 8]; b.copy_from_slice(&len.0[..8]); u64::from_le_bytes(b) };
    let small = len.0[8..].iter().all(|b| *b == 0);
    let at_i = at.list(i);
    match op {
        0 => {
            let mut v = <PartialValue<u8> as PartialItem>::new(at_i);
            let r = v.get(&raw, &mut db).map(|_| ());
            match r {
                Ok(()) => { sym::cover("read"); sym::check(small && (i as u64) < low, "C22,C20.within"); }
                Err(Error::AccessOverflowed) => { sym::cover("past"); sym::check(small && i as u64 >= low, "C22.past"); }
                Err(Error::CorruptedDatabase) => { sym::cover("corrupted"); }
                Err(_) => sym::fail("C20,C23.partial_backend"),
            }
        }
        1 => {
            let mut v = <PartialValue<u8> as PartialItem>::new(at_i);
            v.set(sym::any() as u8);
            match v.flush(&mut raw, &mut db) {
                Ok(()) => { sym::cover("written"); sym::check(small && (i as u64) < low, "C22,C20.within"); }
                Err(_) => sym::check(raw.root() == root, "C22.root_kept"),
            }
        }
        _ => {
            let mut v = <PartialVec<u8> as PartialItem>::new(at);
            v.push(sym::any() as u8);
            match v.flush(&mut raw, &mut db) {
                Ok(()) => { sym::cover("pushed"); sym::check(small, "C22,C20.length"); }
                Err(_) => sym::check(raw.root() == root, "C22.root_kept"),
            }
        }
    }
    sym::cover("end");
}

/// Resolution of static indices. param 0: 0 small lengths, else the length
pub fn h_partial_index() {
    let n = if sym::param(0) == 0 { sym::choose(18) } else { sym::param(0) };
    let d = crate::core::spec_depth(n);
    let k = if n < 20 { sym::any() } else {
        // any of 8 neighbouring positions at a few places
        let base = [0, n / 2 - 4, (n / 3) & !7, n - 8, n, u64::max_value() - 8][sym::pick(6)];
        base.wrapping_add(sym::choose(8))
    };
    let mut db = S::default();
    let raw = DanglingRaw::<K>::new(hv());
    let outer = sym::choose(4);
    let (p, base, depth) = match outer { 0 => (PartialIndex::root(), 1u128, 0), 1 => (PartialIndex::root().vector(2, 3), 6, 2), 2 => (PartialIndex::root().raw(Index::root().right().left()), 6, 2), _ => (PartialIndex::root().vector(0, 1).vector(4, 5).raw(Index::root()), 12, 3) };
    let r = p.vector(k as usize, n as usize).resolve(&raw, &mut db);
    if k >= n { sym::cover("past"); sym::check(r == Err(Error::AccessOverflowed), "C22.past"); return; }
    if depth + d > 63 { sym::cover("deep"); sym::check(r == Err(Error::CorruptedDatabase), "C22.too_deep"); return; }
    sym::cover("resolved");
    let kk = if n < 20 { sym::concrete(k) } else { k };
    match r { Ok(i) => sym::check(value(i) == (base << d) | kk as u128, "C22.resolve"), Err(_) => sym::fail("C22.resolves") }
}
/// The generalized index as a number.
fn value(i: Index) -> u128 {
    let mut bits = Vec::new();
    let mut i = i;
    while let Some(p) = i.parent() { bits.push(!(p.left() == i)); i = p; }
    let mut v = 1u128;
    for b in bits.iter().rev() { v = v << 1 | *b as u128; }
    v
}
