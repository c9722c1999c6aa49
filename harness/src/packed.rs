//! PackedVector and PackedList against a plain sequence (C05, C08-C11, C23, C24).
use crate::ck;
use crate::core::*;
use crate::raw::{check_store, World};
use crate::seq::{build, sparse};
use crate::sym;
use bm::*;
use generic_array::{ArrayLength, GenericArray};
use typenum::{U1, U12, U16, U2, U20, U3, U4, U5, U8};

type T<N> = GenericArray<u8, N>;
pub trait Pk<K: Kind, N: ArrayLength<u8>>: Sized {
    const LIST: bool;
    const WAYS: usize;
    /// made through `metadata` and `from_leaked`
    const LEAKED: bool;
    fn make<DB: WriteBackend<Construct = K>>(db: &mut DB, len: usize, max: Option<u64>) -> Result<Self, Error<DB::Error>>;
    fn get<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, i: usize) -> Result<T<N>, Error<DB::Error>>;
    fn set<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, i: usize, v: T<N>) -> Result<(), Error<DB::Error>>;
    fn push<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, v: T<N>) -> Result<(), Error<DB::Error>>;
    fn pop<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB) -> Result<Option<T<N>>, Error<DB::Error>>;
    fn rt(&self) -> V;
    fn ln(&self) -> usize;
    fn drop<DB: WriteBackend<Construct = K>>(self, db: &mut DB) -> Result<(), Error<DB::Error>>;
    fn reattach(self, max: Option<u64>, way: usize) -> Self;
    /// A mostly empty sequence of any length.
    fn huge<DB: WriteBackend<Construct = K>>(db: &mut DB, len: usize, max: Option<u64>) -> Option<Self>;
    /// Drop a handle of the same tree that owns nothing.
    fn drop_dangling<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, inner: V, max: Option<u64>) -> Result<(), Error<DB::Error>>;
}
macro_rules! ops { () => {
    fn get<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, i: usize) -> Result<T<N>, Error<DB::Error>> { self.get(db, i) }
    fn set<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, i: usize, v: T<N>) -> Result<(), Error<DB::Error>> { self.set(db, i, v) }
    fn push<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, v: T<N>) -> Result<(), Error<DB::Error>> { self.push(db, v) }
    fn pop<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB) -> Result<Option<T<N>>, Error<DB::Error>> { self.pop(db) }
    fn rt(&self) -> V { Tree::root(self) }
    fn ln(&self) -> usize { Sequence::len(self) }
    fn drop<DB: WriteBackend<Construct = K>>(self, db: &mut DB) -> Result<(), Error<DB::Error>> { Tree::drop(self, db) }
} }
macro_rules! made { (Owned, $t:ident, $e:expr) => { $e }; (Dangling, $t:ident, $e:expr) => { Ok($t::from_leaked($e?.metadata())) } }
macro_rules! leaked { (Owned) => { false }; (Dangling) => { true } }
macro_rules! pk { ($r:ident) => {
    impl<K: Kind, N: ArrayLength<u8>> Pk<K, N> for PackedVector<$r, K, T<N>, U8, N> {
        const LIST: bool = false;
        const WAYS: usize = 2;
        const LEAKED: bool = leaked!($r);
        fn make<DB: WriteBackend<Construct = K>>(db: &mut DB, len: usize, max: Option<u64>) -> Result<Self, Error<DB::Error>> { made!($r, PackedVector, PackedVector::<Owned, K, T<N>, U8, N>::create(db, len, max)) }
        fn reattach(self, max: Option<u64>, way: usize) -> Self {
            let len = Sequence::len(&self);
            if way == 0 { PackedVector::from_leaked(self.metadata()) } else { PackedVector::from_raw(self.into_raw(), len, max) }
        }
        fn huge<DB: WriteBackend<Construct = K>>(db: &mut DB, len: usize, max: Option<u64>) -> Option<Self> { PackedVector::<Owned, K, T<N>, U8, N>::create(db, len, max).ok().map(|v| Self::from_leaked(v.metadata())) }
        fn drop_dangling<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, _: V, max: Option<u64>) -> Result<(), Error<DB::Error>> { Tree::drop(PackedVector::<Dangling, K, T<N>, U8, N>::from_leaked((Tree::root(self), Sequence::len(self), max)), db) }
        ops!();
    }
    impl<K: Kind, N: ArrayLength<u8>> Pk<K, N> for PackedList<$r, K, T<N>, U8, N> {
        const LIST: bool = true;
        const WAYS: usize = 1;
        const LEAKED: bool = leaked!($r);
        fn make<DB: WriteBackend<Construct = K>>(db: &mut DB, _: usize, max: Option<u64>) -> Result<Self, Error<DB::Error>> { made!($r, PackedList, PackedList::<Owned, K, T<N>, U8, N>::create(db, max)) }
        fn reattach(self, _: Option<u64>, _: usize) -> Self { PackedList::from_leaked(self.metadata()) }
        fn huge<DB: WriteBackend<Construct = K>>(db: &mut DB, len: usize, max: Option<u64>) -> Option<Self> {
            let root = Tree::root(&PackedVector::<Owned, K, T<N>, U8, N>::create(db, len, max).ok()?);
            let l = h2(root, V::of(len as u64));
            db.insert(l, (root, V::of(len as u64))).ok()?;
            Some(Self::from_leaked((l, (root, len, max))))
        }
        fn drop_dangling<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, inner: V, max: Option<u64>) -> Result<(), Error<DB::Error>> { Tree::drop(PackedList::<Dangling, K, T<N>, U8, N>::from_leaked((Tree::root(self), (inner, Sequence::len(self), max))), db) }
        ops!();
    }
} }
pk!(Owned); pk!(Dangling);

/// The plain sequence, and what its bytes look like in chunks.
pub struct Model<N: ArrayLength<u8>> { vals: Vec<T<N>>, max: Option<u64>, next: u64, sym: bool }
impl<N: ArrayLength<u8>> Model<N> {
    fn new(max: Option<u64>) -> Self { Model { vals: Vec::new(), max, next: 0, sym: false } }
    fn value(&mut self) -> T<N> {
        let mut r = T::<N>::default();
        self.next += 1;
        if self.sym { sym::bytes(&mut r) } else { let mut i = 0; while i < N::to_usize() { r[i] = (self.next * 16 + i as u64) as u8 | 1; i += 1; } }
        r
    }
    pub fn chunks(&self) -> Vec<V> {
        let n = N::to_usize();
        let total = (self.vals.len() * n + 7) / 8;
        let mut c = vec![V::default(); total];
        for (i, v) in self.vals.iter().enumerate() { for j in 0..n { let b = i * n + j; c[b / 8].0[b % 8] = v[j]; } }
        c
    }
    fn depth(&self) -> usize {
        let n = self.max.unwrap_or(self.vals.len() as u64) as u128 * N::to_u64() as u128;
        let c = (n + 7) / 8;
        let mut d = 0;
        while (1u128 << d) < c { d += 1; }
        d
    }
    fn spec<K: Kind>(&self, list: bool) -> V {
        let r = spec_root::<K>(&self.chunks(), self.depth());
        if list { h2(r, V::of(self.vals.len() as u64)) } else { r }
    }
}
fn look<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>, DB: WriteBackend<Construct = K>>(re: bool, s: &S, db: &mut DB, m: &Model<N>) where DB::Error: PartialEq {
    ck!(re, s.ln() == m.vals.len(), "C09", "len");
    ck!(re, match m.max { Some(x) => s.ln() as u64 <= x, None => true }, "C08", "len_within_capacity");
    ck!(re, s.rt() == m.spec::<K>(S::LIST), "C10", "root");
    for (i, v) in m.vals.iter().enumerate() {
        let g = s.get(db, i);
        if let Ok(x) = &g { sym::observe(x[0] as u64); }
        ck!(re, match &g { Ok(x) => x == v, _ => false }, "C09", "get");
    }
    ck!(re, over(s.get(db, m.vals.len())), "C08", "get_at_len");
}
fn over<X, E: PartialEq>(r: Result<X, Error<E>>) -> bool { match r { Err(e) => e == Error::AccessOverflowed, Ok(_) => false } }

trait Pick { fn go<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>>(self); }
fn pick_n<K: Kind, N: ArrayLength<u8>, F: Pick>(f: F, dangling: bool) {
    match (sym::param(0), dangling) {
        (0, false) => f.go::<K, N, PackedVector<Owned, K, T<N>, U8, N>>(),
        (0, true) => f.go::<K, N, PackedVector<Dangling, K, T<N>, U8, N>>(),
        (_, false) => f.go::<K, N, PackedList<Owned, K, T<N>, U8, N>>(),
        (_, true) => f.go::<K, N, PackedList<Dangling, K, T<N>, U8, N>>(),
    }
}
/// params 0: 0 vector, 1 list; 1: 0 inherited, 1 unit, 2 inherited and dangling; 2: bytes per element
fn pick_type<F: Pick>(f: F) {
    match (sym::param(1), sym::param(2)) {
        (0, 1) => pick_n::<CI, U1, F>(f, false), (0, 2) => pick_n::<CI, U2, F>(f, false), (0, 3) => pick_n::<CI, U3, F>(f, false),
        (0, 4) => pick_n::<CI, U4, F>(f, false), (0, 5) => pick_n::<CI, U5, F>(f, false), (0, 8) => pick_n::<CI, U8, F>(f, false),
        (0, 12) => pick_n::<CI, U12, F>(f, false), (0, 16) => pick_n::<CI, U16, F>(f, false), (0, 20) => pick_n::<CI, U20, F>(f, false),
        (1, 3) => pick_n::<CU, U3, F>(f, false), (1, 4) => pick_n::<CU, U4, F>(f, false), (1, 12) => pick_n::<CU, U12, F>(f, false), (1, 16) => pick_n::<CU, U16, F>(f, false),
        (2, 5) => pick_n::<CI, U5, F>(f, true), (2, 2) => pick_n::<CI, U2, F>(f, true), (2, 16) => pick_n::<CI, U16, F>(f, true),
        _ => {}
    }
}
/// A packed sequence of `n` elements, the last `nsym` of them symbolic.
fn start<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>, DB: WriteBackend<Construct = K>>(db: &mut DB, max: Option<u64>, n: u64, nsym: u64) -> Option<(S, Model<N>)> where DB::Error: PartialEq {
    let mut m = Model::<N>::new(max);
    let mut s = match S::make(db, 0, max) { Ok(s) => s, Err(_) => { sym::fail("C08,C09.create"); return None } };
    while (m.vals.len() as u64) < n {
        if m.vals.len() as u64 + nsym >= n { m.sym = true; }
        let v = m.value();
        sym::check(s.push(db, v.clone()) == Ok(()), "C09.push");
        m.vals.push(v);
    }
    m.sym = true;
    Some((s, m))
}
struct Hist;
impl Pick for Hist { fn go<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>>(self) {
    let (max, lo, hi, ops, nsym, from) = (cap(sym::param(3)), sym::param(4), sym::param(5), sym::param(6), sym::param(7), sym::param(8));
    let mut re = S::LEAKED;
    let mut db = Db::<K>::default();
    let n0 = lo + sym::choose(hi - lo + 1);
    let (mut s, mut m) = match start::<K, N, S, _>(&mut db, max, n0, nsym) { Some(x) => x, None => return };
    look(re, &s, &mut db, &m);
    let mut k = 0;
    while k < ops {
        k += 1;
        let root = s.rt();
        match sym::choose(from) {
            0 => {
                let v = m.value();
                let full = match max { Some(x) => m.vals.len() as u64 >= x, None => false };
                let r = s.push(&mut db, v.clone());
                if full { sym::cover("full"); ck!(re, r == Err(Error::AccessOverflowed), "C08", "push_full"); ck!(re, s.rt() == root, "C08", "root_kept"); }
                else { sym::cover("push"); ck!(re, r == Ok(()), "C09", "push"); m.vals.push(v); }
            }
            1 => {
                let r = s.pop(&mut db);
                let want = m.vals.pop();
                if want.is_some() { sym::cover("pop") } else { sym::cover("pop empty"); ck!(re, s.rt() == root, "C09", "root_kept"); }
                ck!(re, r == Ok(want), "C09", "pop");
            }
            2 => {
                let n = m.vals.len() as u64;
                let i = sym::choose(n + 1);
                let v = m.value();
                if i < n {
                    ck!(re, s.set(&mut db, i as usize, v.clone()) == Ok(()), "C09", "set");
                    m.vals[i as usize] = v;
                    sym::cover("set");
                } else {
                    let j = sym::range(n, !0);
                    let r = s.set(&mut db, j as usize, v);
                    sym::cover("set past");
                    ck!(re, over(r), "C08", "set_past");
                    ck!(re, s.rt() == root, "C08", "root_kept");
                    ck!(re, over(s.get(&mut db, j as usize)), "C08", "get_past");
                }
            }
            _ => { let way = sym::pick(S::WAYS); s = s.reattach(max, way); re = true; sym::cover("reattach"); }
        }
        look(re, &s, &mut db, &m);
    }
    sym::cover("end");
} }
/// params: 0-2 type, 3 capacity, 4,5 initial lengths, 6 operations, 7 symbolic elements, 8 kinds of operation
pub fn h_packed() { pick_type(Hist) }

struct Create;
impl Pick for Create { fn go<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>>(self) {
    // a new packed vector of any length is that many zero elements
    let (max, hi) = (cap(sym::param(3)), sym::param(4));
    let mut db = Db::<K>::default();
    let n = sym::choose(hi + 1);
    let mut m = Model::<N>::new(max);
    let fits = match max { Some(x) => n <= x, None => true };
    let mut s = match S::make(&mut db, n as usize, max) {
        Ok(s) => { sym::check(fits, "C08.create_too_long"); s }
        Err(e) => { sym::cover("refused"); sym::check(!fits && e == Error::InvalidParameter, "C08.create"); return }
    };
    if !fits { return; }
    for _ in 0..n { m.vals.push(Default::default()); }
    look(S::LEAKED, &s, &mut db, &m);
    m.sym = true;
    let v = m.value();
    if n > 0 && sym::flip() { let i = sym::pick(n as usize); sym::check(s.set(&mut db, i, v.clone()) == Ok(()), "C09.set"); m.vals[i] = v; }
    else if sym::flip() { let w = m.vals.pop(); sym::check(s.pop(&mut db) == Ok(w), "C09.pop"); }
    else if match max { Some(x) => n < x, None => true } { sym::check(s.push(&mut db, v.clone()) == Ok(()), "C09.push"); m.vals.push(v); }
    look(S::LEAKED, &s, &mut db, &m);
    sym::cover("end");
} }
/// params: 0-2 type (0 must be 0), 3 capacity, 4 largest length
pub fn h_packed_create() { pick_type(Create) }

struct Gc;
impl Pick for Gc { fn go<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>>(self) {
    let (max, lo, hi, ops, nsym) = (cap(sym::param(3)), sym::param(4), sym::param(5), sym::param(6), sym::param(7));
    let mut db = InMemoryBackend::<K>::default();
    let n0 = lo + sym::choose(hi - lo + 1);
    let (mut s, mut m) = match start::<K, N, S, _>(&mut db, max, n0, nsym) { Some(x) => x, None => return };
    let mut k = 0;
    while k < ops {
        k += 1;
        match sym::choose(3) {
            0 => {
                let v = m.value();
                if match max { Some(x) => m.vals.len() as u64 >= x, None => false } { sym::check(s.push(&mut db, v).is_err(), "C05.push_full"); }
                else { sym::check(s.push(&mut db, v.clone()) == Ok(()), "C05.push"); m.vals.push(v); }
            }
            1 => { let w = m.vals.pop(); sym::check(s.pop(&mut db) == Ok(w), "C05.pop"); }
            _ => { sym::assume(!m.vals.is_empty()); let i = sym::pick(m.vals.len()); let v = m.value(); sym::check(s.set(&mut db, i, v.clone()) == Ok(()), "C05.set"); m.vals[i] = v; }
        }
    }
    let mut w = World::new(1, true);
    let mut root = build::<K>(&mut w, &m.chunks(), m.depth());
    sym::check(s.drop_dangling(&mut db, root, max) == Ok(()), "C05.drop_dangling");
    if S::LIST { let l = V::of(m.vals.len() as u64); let r = h2(root, l); w.known.push((r, root, l)); root = r; }
    w.roots[0] = Some(root);
    sym::check(s.rt() == root, "C05.root");
    check_store(&db, &w.expected(), true);
    sym::cover("end");
    sym::check(s.drop(&mut db) == Ok(()), "C05.drop");
    sym::check(db.as_ref().len() == 1, "C05.empty_after_drop");
} }
/// params: 0-2 type, 3 capacity, 4,5 initial lengths, 6 operations, 7 symbolic elements
pub fn h_packed_gc() { pick_type(Gc) }

struct Fail;
impl Pick for Fail { fn go<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>>(self) {
    let (max, lo, hi) = (cap(sym::param(3)), sym::param(4), sym::param(5));
    let mut db = Db::<K>::default();
    let n0 = lo + sym::choose(hi - lo + 1);
    let op = sym::choose(6);
    if op == 4 {
        db.arm();
        let r = S::make(&mut db, n0 as usize, None);
        let e = match r { Ok(_) => None, Err(e) => Some(e) };
        sym::check(if db.failed { e == Some(Error::Backend(Fault(db.code))) } else { e.is_none() }, "C23.create_error");
        sym::cover("create");
        return;
    }
    let (mut s, mut m) = match start::<K, N, S, _>(&mut db, max, n0, 0) { Some(x) => x, None => return };
    m.sym = false;
    let (root, v) = (s.rt(), m.value());
    let i = if m.vals.is_empty() { 0 } else { sym::pick(m.vals.len()) };
    if m.vals.is_empty() && (op == 2 || op == 3) { return; }
    db.arm();
    if op > 4 {
        // given up, or detached and attached again
        let code = db.code;
        let e = s.drop(&mut db).err();
        if db.failed { sym::cover("fault"); sym::check(e == Some(Error::Backend(Fault(code))), "C23.error_reported"); }
        else { sym::cover("no fault"); sym::check(e == None, "C23.spurious_error"); }
        return;
    }
    let e = match op {
        0 => s.push(&mut db, v).err(),
        1 => s.pop(&mut db).err(),
        2 => s.set(&mut db, i, v).err(),
        _ => s.get(&mut db, i).err(),
    };
    let (failed, code) = (db.failed, db.code);
    db.disarm();
    if failed {
        sym::cover("fault");
        sym::check(e == Some(Error::Backend(Fault(code))), "C23.error_reported");
    } else {
        sym::cover("no fault");
        let full = op == 0 && match max { Some(x) => n0 >= x, None => false };
        sym::check(e == if full { Some(Error::AccessOverflowed) } else { None }, "C23.spurious_error");
    }
    if e.is_some() {
        if S::LIST || op == 3 { sym::check(s.rt() == root, "C24.root_kept"); look(S::LEAKED, &s, &mut db, &m); }
        else { sym::check(s.ln() == m.vals.len(), "C24.len_kept"); }
    }
} }
/// params: 0-2 type, 3 capacity, 4,5 initial lengths
pub fn h_packed_fault() { pick_type(Fail) }

struct Huge;
impl Pick for Huge { fn go<K: Kind, N: ArrayLength<u8>, S: Pk<K, N>>(self) {
    let n = N::to_u64() as u128;
    // the most elements whose chunks can be indexed, and whose number is a length
    let top = core::cmp::min((8u128 << 63) / n, u64::max_value() as u128) as u64;
    let around = sym::choose(5);
    let k = sym::param(3);
    let mut len = if k < 64 { (1u64 << k).wrapping_add(around).wrapping_sub(2) } else { top.wrapping_sub(around) };
    let max = match sym::choose(3) { 0 => None, 1 => Some(len), _ => Some(len.wrapping_add(1)) };
    let limit = match max { Some(m) => m, None => top };
    if len > limit || limit > top || len == 0 { return; }
    let chunks = |len: u64| ((len as u128 * n + 7) / 8) as u64;
    let mut db = Db::<K>::default();
    let mut s = match S::huge(&mut db, len as usize, max) { Some(s) => s, None => { sym::fail("C08.huge_create"); return } };
    let mut at: Vec<(u64, T<N>)> = Vec::new();
    let look = |s: &S, db: &mut Db<K>, at: &Vec<(u64, T<N>)>, len: u64| {
        let mut c: Vec<(u64, V)> = Vec::new();
        for e in at { for j in 0..N::to_usize() {
            let b = e.0 as u128 * n + j as u128;
            let h = (b / 8) as u64;
            let p = match c.iter().position(|x| x.0 == h) { Some(p) => p, None => { c.push((h, V::default())); c.len() - 1 } };
            (c[p].1).0[(b % 8) as usize] = e.1[j];
        } }
        let root = sparse::<K>(&c, spec_depth(chunks(max.unwrap_or(len))));
        sym::check(s.rt() == if S::LIST { h2(root, V::of(len)) } else { root }, "C10.huge_root");
        sym::check(s.ln() as u64 == len, "C08,C09.huge_len");
        for e in at { sym::check(s.get(db, e.0 as usize) == Ok(e.1.clone()), "C09.huge_get"); }
        sym::check(over(s.get(db, len as usize)), "C08.huge_get_at_len");
    };
    look(&s, &mut db, &at, len);
    sym::cover("created");
    let mut k = 0;
    while k < sym::param(4) {
        k += 1;
        let mut v = T::<N>::default();
        sym::bytes(&mut v);
        let root = s.rt();
        match sym::choose(4) {
            0 => {
                let r = s.push(&mut db, v.clone());
                if len >= limit { sym::cover("full"); sym::check(r == Err(Error::AccessOverflowed), "C08.huge_push_full"); sym::check(s.rt() == root, "C08.huge_root_kept"); }
                else { sym::cover("push"); sym::check(r == Ok(()), "C09.huge_push"); at.push((len, v)); len += 1; }
            }
            1 => {
                let want = at.iter().find(|e| e.0 == len - 1).map(|e| e.1.clone()).unwrap_or_default();
                sym::cover("pop");
                sym::check(s.pop(&mut db) == Ok(Some(want)), "C09.huge_pop");
                len -= 1;
                at.retain(|e| e.0 < len);
            }
            2 => {
                let i = [0, len - 1, len / 2, len / 3][sym::pick(4)];
                sym::cover("set");
                sym::check(s.set(&mut db, i as usize, v.clone()) == Ok(()), "C09.huge_set");
                at.retain(|e| e.0 != i);
                at.push((i, v));
            }
            _ => {
                let i = [len, u64::max_value()][sym::pick(2)];
                sym::cover("set past");
                sym::check(over(s.set(&mut db, i as usize, v)), "C08.huge_set_past");
                sym::check(s.rt() == root, "C08.huge_root_kept");
            }
        }
        look(&s, &mut db, &at, len);
    }
} }
/// C08-C10 at lengths around 2^k, or just below the largest. params: 0-2 type, 3 k (64: largest), 4 steps
pub fn h_packed_huge() { pick_type(Huge) }
