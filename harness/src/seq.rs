//! Vector and List against a plain sequence (C05-C08, C11, C23, C24, C28).
use crate::ck;
use crate::core::*;
use crate::raw::{check_store, World};
use crate::sym;
use bm::*;

/// What the property calls a sequence: Vector or List, owned or dangling.
pub trait Sq<K: Kind>: Sized {
    const LIST: bool;
    fn make<DB: WriteBackend<Construct = K>>(db: &mut DB, max: Option<u64>) -> Result<Self, Error<DB::Error>>;
    fn get<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, i: usize) -> Result<V, Error<DB::Error>>;
    fn set<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, i: usize, v: V) -> Result<(), Error<DB::Error>>;
    fn push<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, v: V) -> Result<(), Error<DB::Error>>;
    fn pop<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB) -> Result<Option<V>, Error<DB::Error>>;
    fn rt(&self) -> V;
    fn ln(&self) -> usize;
    fn drop<DB: WriteBackend<Construct = K>>(self, db: &mut DB) -> Result<(), Error<DB::Error>>;
    /// Detach and attach again, in the way chosen.
    fn reattach<DB: WriteBackend<Construct = K>>(self, db: &mut DB, max: Option<u64>, way: usize) -> Result<Self, Error<DB::Error>>;
    const WAYS: usize;
    /// Drop a handle of the same tree that owns nothing.
    fn drop_dangling<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, max: Option<u64>) -> Result<(), Error<DB::Error>>;
    /// made through `metadata` and `from_leaked`
    const LEAKED: bool;
}
macro_rules! sq_ops { ($t:ident, $r:ty) => {
    fn get<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, i: usize) -> Result<V, Error<DB::Error>> { $t::<$r, K>::get(self, db, i) }
    fn set<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, i: usize, v: V) -> Result<(), Error<DB::Error>> { $t::<$r, K>::set(self, db, i, v) }
    fn push<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB, v: V) -> Result<(), Error<DB::Error>> { $t::<$r, K>::push(self, db, v) }
    fn pop<DB: WriteBackend<Construct = K>>(&mut self, db: &mut DB) -> Result<Option<V>, Error<DB::Error>> { $t::<$r, K>::pop(self, db) }
    fn rt(&self) -> V { Tree::root(self) }
    fn ln(&self) -> usize { Sequence::len(self) }
    fn drop<DB: WriteBackend<Construct = K>>(self, db: &mut DB) -> Result<(), Error<DB::Error>> { Tree::drop(self, db) }
} }
macro_rules! made { (Owned, $t:ident, $e:expr) => { $e }; (Dangling, $t:ident, $e:expr) => { Ok($t::from_leaked($e?.metadata())) } }
macro_rules! leaked { (Owned) => { false }; (Dangling) => { true } }
macro_rules! sq_vec { ($r:ident) => {
    impl<K: Kind> Sq<K> for Vector<$r, K> {
        const LIST: bool = false;
        const WAYS: usize = 2;
        const LEAKED: bool = leaked!($r);
        fn make<DB: WriteBackend<Construct = K>>(db: &mut DB, max: Option<u64>) -> Result<Self, Error<DB::Error>> { made!($r, Vector, Vector::<Owned, K>::create(db, 0, max)) }
        fn reattach<DB: WriteBackend<Construct = K>>(self, _: &mut DB, max: Option<u64>, way: usize) -> Result<Self, Error<DB::Error>> {
            let len = Sequence::len(&self);
            Ok(if way == 0 { Vector::from_leaked(self.metadata()) } else { self.into_raw().into_vector(len, max) })
        }
        fn drop_dangling<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, max: Option<u64>) -> Result<(), Error<DB::Error>> { Tree::drop(Vector::<Dangling, K>::from_leaked((Tree::root(self), Sequence::len(self), max)), db) }
        sq_ops!(Vector, $r);
    }
} }
macro_rules! sq_list { ($r:ident) => {
    impl<K: Kind> Sq<K> for List<$r, K> {
        const LIST: bool = true;
        const WAYS: usize = 2;
        const LEAKED: bool = leaked!($r);
        fn make<DB: WriteBackend<Construct = K>>(db: &mut DB, max: Option<u64>) -> Result<Self, Error<DB::Error>> { made!($r, List, List::<Owned, K>::create(db, max)) }
        fn reattach<DB: WriteBackend<Construct = K>>(self, db: &mut DB, max: Option<u64>, way: usize) -> Result<Self, Error<DB::Error>> {
            if way == 0 { return Ok(List::from_leaked(self.metadata())); }
            let r = self.deconstruct(db)?;
            List::reconstruct(r, db, max)
        }
        fn drop_dangling<DB: WriteBackend<Construct = K>>(&self, db: &mut DB, max: Option<u64>) -> Result<(), Error<DB::Error>> { Tree::drop(List::<Dangling, K>::reconstruct(Tree::root(self), db, max)?, db) }
        sq_ops!(List, $r);
    }
} }
sq_vec!(Owned); sq_vec!(Dangling); sq_list!(Owned); sq_list!(Dangling);

/// The plain sequence.
pub struct Model { pub vals: Vec<V>, pub max: Option<u64>, next: u64, sym: u64 }
impl Model {
    pub fn new(max: Option<u64>, sym: u64) -> Model { Model { vals: Vec::new(), max, next: 0, sym } }
    /// First `sym` values are free, the rest distinct constants.
    pub fn value(&mut self) -> V {
        self.next += 1;
        if self.next <= self.sym { leaf() } else { V::of(0x1000 + self.next) }
    }
    pub fn spec<K: Kind>(&self, list: bool) -> V { if list { spec_list_root::<K>(&self.vals, self.max) } else { spec_vec_root::<K>(&self.vals, self.max) } }
}

fn look<K: Kind, S: Sq<K>, DB: WriteBackend<Construct = K>>(re: bool, s: &S, db: &mut DB, m: &Model) where DB::Error: PartialEq {
    ck!(re, s.ln() == m.vals.len(), "C06", "len");
    ck!(re, match m.max { Some(x) => s.ln() as u64 <= x, None => true }, "C08", "len_within_capacity");
    ck!(re, s.rt() == m.spec::<K>(S::LIST), "C07", "root");
    for (i, v) in m.vals.iter().enumerate() {
        let g = s.get(db, i);
        if let Ok(x) = &g { sym::observe(x.u()); }
        ck!(re, g == Ok(*v), "C06", "get");
    }
    ck!(re, s.get(db, m.vals.len()) == Err(Error::AccessOverflowed), "C08", "get_at_len");
}

fn seq<K: Kind, S: Sq<K>>() {
    let (max, lo, hi, ops, nsym, kinds, from) = (cap(sym::param(2)), sym::param(3), sym::param(4), sym::param(5), sym::param(6), sym::param(7), sym::param(8));
    let mut re = S::LEAKED;
    let mut db = Db::<K>::default();
    let mut m = Model::new(max, 0);
    let s = S::make(&mut db, max);
    if let Err(_) = s { sym::fail("C06,C07,C08.create"); return; }
    let mut s = s.ok().unwrap();
    let n0 = lo + sym::choose(hi - lo + 1);
    while (m.vals.len() as u64) < n0 {
        if m.vals.len() as u64 + nsym >= n0 { m.sym = !0; }
        let v = m.value();
        ck!(re, s.push(&mut db, v) == Ok(()), "C06", "push");
        m.vals.push(v);
    }
    look(re, &s, &mut db, &m);
    m.sym = !0;
    let mut k = 0;
    while k < ops {
        k += 1;
        let root = s.rt();
        match sym::choose(from) {
            0 => {
                // push: a fresh value, or a digest with stored children
                let v = if kinds > 1 && sym::flip() { s.rt() } else { m.value() };
                let full = match max { Some(x) => m.vals.len() as u64 >= x, None => false };
                let r = s.push(&mut db, v);
                if full { sym::cover("full"); ck!(re, r == Err(Error::AccessOverflowed), "C08", "push_full"); ck!(re, s.rt() == root, "C08,C24", "root_kept"); }
                else { sym::cover("push"); ck!(re, r == Ok(()), "C06", "push"); m.vals.push(v); }
            }
            1 => {
                let r = s.pop(&mut db);
                let want = m.vals.pop();
                if want.is_some() { sym::cover("pop") } else { sym::cover("pop empty"); ck!(re, s.rt() == root, "C06", "root_kept"); }
                ck!(re, r == Ok(want), "C06", "pop");
            }
            2 => {
                let n = m.vals.len() as u64;
                let i = sym::choose(n + 1);
                if i < n {
                    let v = if kinds > 1 && sym::flip() { s.rt() } else { m.value() };
                    ck!(re, s.set(&mut db, i as usize, v) == Ok(()), "C06", "set");
                    m.vals[i as usize] = v;
                    sym::cover("set");
                } else {
                    let j = sym::range(n, !0);
                    let r = s.set(&mut db, j as usize, V::of(7));
                    sym::cover("set past");
                    ck!(re, r == Err(Error::AccessOverflowed), "C08", "set_past");
                    ck!(re, s.rt() == root, "C08,C24", "root_kept");
                    ck!(re, s.get(&mut db, j as usize) == Err(Error::AccessOverflowed), "C08", "get_past");
                }
            }
            _ => {
                let way = sym::pick(S::WAYS);
                match s.reattach(&mut db, max, way) {
                    Ok(x) => { s = x; re = true; sym::cover("reattach"); }
                    Err(_) => { sym::fail("C11.reattach"); return; }
                }
            }
        }
        look(re, &s, &mut db, &m);
    }
    sym::cover("end");
}
fn pick_type<F: Pick>(f: F) {
    match (sym::param(0), sym::param(1)) {
        (0, 0) => f.go::<CI, Vector<Owned, CI>>(), (0, _) => f.go::<CU, Vector<Owned, CU>>(),
        (1, 0) => f.go::<CI, Vector<Dangling, CI>>(), (1, _) => f.go::<CU, Vector<Dangling, CU>>(),
        (2, 0) => f.go::<CI, List<Owned, CI>>(), (2, _) => f.go::<CU, List<Owned, CU>>(),
        (_, 0) => f.go::<CI, List<Dangling, CI>>(), (_, _) => f.go::<CU, List<Dangling, CU>>(),
    }
}
trait Pick { fn go<K: Kind, S: Sq<K>>(self); }
struct PSeq;
impl Pick for PSeq { fn go<K: Kind, S: Sq<K>>(self) { seq::<K, S>() } }
/// param 0: type (0 Vector owned, 1 Vector dangling, 2 List owned, 3 List dangling), 1: unit empties, 2: capacity (0 none),
/// 3, 4: initial length range, 5: operations, 6: symbolic values among the initial ones, 7: value kinds, 8: operations to choose from (3, or 4 with reattach)
pub fn h_seq() { pick_type(PSeq) }

struct PFault;
impl Pick for PFault { fn go<K: Kind, S: Sq<K>>(self) { fault::<K, S>() } }
/// One operation on any sequence of the given lengths, with any one backend call failing.
/// params 0..4 as h_seq
pub fn h_seq_fault() { pick_type(PFault) }
fn fault<K: Kind, S: Sq<K>>() {
    let (max, lo, hi) = (cap(sym::param(2)), sym::param(3), sym::param(4));
    let mut db = Db::<K>::default();
    let mut m = Model::new(max, 0);
    let n0 = lo + sym::choose(hi - lo + 1);
    // building may fail as well: then nothing but the very error comes out
    let early = n0 == lo && sym::flip();
    if early { db.arm(); }
    let r = S::make(&mut db, max);
    if early {
        sym::cover("create");
        if db.failed { sym::check(match r { Err(e) => e == Error::Backend(Fault(db.code)), Ok(_) => false }, "C23.error_reported"); }
        else { sym::check(r.is_ok(), "C23.spurious_error"); }
        return;
    }
    let mut s = match r { Ok(s) => s, Err(_) => { sym::fail("C23.create"); return } };
    while (m.vals.len() as u64) < n0 { let v = m.value(); if s.push(&mut db, v).is_err() { sym::fail("C23.push"); } m.vals.push(v); }
    let root = s.rt();
    let op = sym::choose(6);
    db.arm();
    let code = db.code;
    if op >= 4 {
        // given up, or detached and attached again
        let e = if op == 4 { s.drop(&mut db).err() } else { s.reattach(&mut db, max, S::WAYS - 1).err() };
        if db.failed { sym::cover("fault"); sym::check(e == Some(Error::Backend(Fault(code))), "C23.error_reported"); }
        else { sym::cover("no fault"); sym::check(e == None, "C23.spurious_error"); }
        return;
    }
    let i = if op >= 2 { sym::assume(n0 > 0); sym::choose(n0) as usize } else { 0 };
    let full = match max { Some(x) => n0 >= x, None => false };
    let e: Option<Error<Fault>> = match op { 0 => s.push(&mut db, V::of(77)).err(), 1 => s.pop(&mut db).err(), 2 => s.set(&mut db, i, V::of(77)).err(), _ => s.get(&mut db, i).err() };
    db.disarm();
    if db.failed { sym::cover("fault"); sym::check(e == Some(Error::Backend(Fault(code))), "C23.error_reported"); }
    else if op == 0 && full { sym::check(e == Some(Error::AccessOverflowed), "C08,C23.push_full") }
    else { sym::cover("no fault"); sym::check(e == None, "C23.spurious_error"); }
    if e.is_some() || op == 3 {
        sym::check(s.rt() == root, "C24.root_kept");
        sym::check(s.ln() == m.vals.len(), "C24.len_kept");
        let mut j = 0;
        while j < m.vals.len() { sym::check(s.get(&mut db, j) == Ok(m.vals[j]), "C24.contents_kept"); j += 1; }
        sym::check(s.get(&mut db, j) == Err(Error::AccessOverflowed), "C24.len_kept");
        // and it can be used as if nothing had happened
        if !full {
            if s.push(&mut db, V::of(78)).is_err() { sym::fail("C24.usable"); }
            m.vals.push(V::of(78));
        } else {
            if s.pop(&mut db).is_err() { sym::fail("C24.usable"); }
            m.vals.pop();
        }
        sym::check(s.rt() == m.spec::<K>(S::LIST), "C24.usable");
    }
}

struct PMiss;
impl Pick for PMiss { fn go<K: Kind, S: Sq<K>>(self) { missing::<K, S>() } }
/// One operation on a sequence whose store lost one node. params 0..4 as h_seq
pub fn h_seq_missing() { pick_type(PMiss) }
fn missing<K: Kind, S: Sq<K>>() {
    let (max, lo, hi) = (cap(sym::param(2)), sym::param(3), sym::param(4));
    let mut db = Db::<K>::default();
    let mut m = Model::new(max, 0);
    let n0 = lo + sym::choose(hi - lo + 1);
    let mut s = match S::make(&mut db, max) { Ok(s) => s, Err(_) => { sym::fail("C24.create"); return } };
    while (m.vals.len() as u64) < n0 { let v = m.value(); if s.push(&mut db, v).is_err() { sym::fail("C24.push"); } m.vals.push(v); }
    let full = db.n.clone();
    let gone = db.n[sym::pick(db.n.len())].0;
    db.n.retain(|e| e.0 != gone);
    let root = s.rt();
    let op = sym::choose(4);
    let i = if op >= 2 { sym::assume(n0 > 0); sym::choose(n0) as usize } else { 0 };
    let e: Option<Error<Fault>> = match op { 0 => s.push(&mut db, V::of(77)).err(), 1 => s.pop(&mut db).err(), 2 => s.set(&mut db, i, V::of(77)).err(),
        _ => match s.get(&mut db, i) { Ok(v) => { sym::check(v == m.vals[i], "C24.get_right_or_error"); None } Err(e) => Some(e) } };
    if let Some(e) = e {
        sym::cover("error");
        sym::check(e == Error::CorruptedDatabase || e == Error::AccessOverflowed, "C23.no_backend_error");
        sym::check(s.rt() == root, "C24.root_kept");
        sym::check(s.ln() == m.vals.len(), "C24.len_kept");
        db.n = full;
        let mut j = 0;
        while j < m.vals.len() { sym::check(s.get(&mut db, j) == Ok(m.vals[j]), "C24.contents_kept"); j += 1; }
    } else { sym::cover("ok"); }
}

/// Create: which lengths and capacities are accepted. Everything symbolic.
pub fn h_create_any() {
    let mut db = Db::<CI>::default();
    let len = sym::any();
    let max = if sym::flip() { Some(sym::any()) } else { None };
    // case split on the depth, which the code computes in its own way
    let d = sym::choose(65) as usize;
    let t = max.unwrap_or(len);
    sym::assume(if d == 0 { t <= 1 } else { t > 1 << (d - 1) && (d == 64 || t <= 1 << d) });
    let r = Vector::<Owned, CI>::create(&mut db, len as usize, max);
    let fits = match max { Some(m) => m > 0 && len <= m, None => true };
    // trees of more than 2^63 leaves have no generalized index
    let addressable = max.unwrap_or(len) <= 1 << 63;
    sym::check(r.is_ok() == (fits && addressable), "C08,C28.create_accepts");
    match r {
        Ok(v) => {
            sym::cover("created");
            sym::check(v.len() as u64 == len && v.max_len() == max, "C08,C28.create_len");
            sym::check(v.root() == empty::<CI>(d), "C07,C28.create_root");
            sym::check(v.depth() == d, "C08,C26.depth");
            sym::check(v.current_max_len() == max.unwrap_or(1 << (d & 63)), "C08,C26.current_max_len");
        }
        Err(e) => { sym::cover("refused"); sym::check(e == Error::InvalidParameter, "C08.create_error"); }
    }
    if let Some(m) = max {
        let r = List::<Owned, CI>::create(&mut Db::default(), Some(m));
        sym::check(r.is_ok() == (m > 0 && m <= 1 << 63), "C08.create_list_accepts");
    }
}

fn create_read<K: Kind>(n: u64, c: u64) {
    let mut db = Db::<K>::default();
    let len = sym::choose(n + 1);
    let max = cap(sym::choose(c + 1));
    if let Some(m) = max { sym::assume(len <= m); }
    if K::UNIT { sym::assume(len == 0); }
    match Vector::<Owned, K>::create(&mut db, len as usize, max) {
        Ok(mut v) => {
            sym::cover("created");
            let depth = spec_depth(max.unwrap_or(len));
            let mut i = 0;
            while i < len { sym::check(v.get(&mut db, i as usize) == Ok(V::default()), "C28,C06.default_element"); i += 1; }
            sym::check(v.get(&mut db, len as usize) == Err(Error::AccessOverflowed), "C08.get_at_len");
            sym::check(v.root() == empty::<K>(depth), "C28,C07.default_root");
            if !K::UNIT {
                // every position of the capacity reads as the default value
                let raw = Raw::<Dangling, K>::new(v.root());
                let mut i = 0;
                while i < 1u64 << depth { sym::check(raw.get(&mut db, Index::from_depth(i as usize, depth)) == Ok(Some(V::default())), "C28.default_position"); i += 1; }
            }
            // and behaves as that sequence
            let mut vals: Vec<V> = (0..len).map(|_| V::default()).collect();
            let op = sym::choose(3);
            let full = match max { Some(m) => len >= m, None => false };
            let x = leaf();
            if op == 0 && !full { sym::check(v.push(&mut db, x) == Ok(()), "C06,C28.push"); vals.push(x); }
            else if op == 0 { sym::check(v.push(&mut db, x) == Err(Error::AccessOverflowed), "C08.push_full"); }
            else if op == 1 { sym::check(v.pop(&mut db) == Ok(vals.pop()), "C06,C28.pop"); }
            else if len > 0 { let i = sym::choose(len) as usize; sym::check(v.set(&mut db, i, x) == Ok(()), "C06,C28.set"); vals[i] = x; }
            sym::check(v.root() == spec_vec_root::<K>(&vals, max), "C07,C28.root");
            sym::check(v.len() == vals.len(), "C06,C28.len");
            for (i, x) in vals.iter().enumerate() { sym::check(v.get(&mut db, i) == Ok(*x), "C06,C28.get"); }
        }
        Err(_) => sym::fail("C28,C08.create"),
    }
}
/// params: largest length, largest capacity, unit
pub fn h_create() { if sym::param(2) == 0 { create_read::<CI>(sym::param(0), sym::param(1)) } else { create_read::<CU>(sym::param(0), sym::param(1)) } }

/// The empty value of every height: root and readable nodes. param 0: height
pub fn h_empty() {
    let h = sym::choose(sym::param(0) + 1) as usize;
    let mut db = Db::<CI>::default();
    let e = <CI as Construct>::empty_at(&mut db, h);
    sym::check(e == Ok(empty::<CI>(h)), "C28.empty_root");
    let raw = Raw::<Dangling, CI>::new(empty::<CI>(h));
    // any node of the empty tree reads as the empty value of its height
    let d = sym::choose(h as u64 + 1) as usize;
    let i = if d == 0 { 0 } else { let i = sym::any(); let low = d.min(3); sym::assume(i >> low == 0); (i as usize) << (d - low) };
    sym::cover("node");
    sym::check(raw.get(&mut db, Index::from_depth(i, d)) == Ok(Some(empty::<CI>(h - d))), "C28.empty_node");
    let mut mem = DbI::default();
    sym::check(<CI as Construct>::empty_at(&mut mem, h) == Ok(empty::<CI>(h)), "C28.empty_root");
    sym::check(raw.get(&mut mem, Index::from_depth(i, d)) == Ok(Some(empty::<CI>(h - d))), "C28.empty_node");
    sym::check(<CU as Construct>::empty_at(&mut Db::<CU>::default(), h) == Ok(V::default()), "C28.unit_empty");
}

/// Missing or foreign length nodes, dangling/owned, on reconstruct.
pub fn h_reconstruct() {
    // any root over a store with at most one pair under it, so that length may be anything
    let mut db = Db::<CI>::default();
    let (a, b) = (leaf(), leaf());
    let max = if sym::flip() { Some(sym::any()) } else { None };
    match sym::choose(3) {
        0 => {
            let r = leaf();
            sym::check(match List::<Owned, CI>::reconstruct(r, &mut db, max) { Err(e) => e == Error::CorruptedDatabase, Ok(_) => false }, "C11.reconstruct_missing");
            sym::cover("missing");
        }
        1 => {
            let r = h2(a, b);
            db.n.push((r, (a, b)));
            let l = List::<Owned, CI>::reconstruct(r, &mut db, max);
            match (l, max) {
                (Ok(l), m) => {
                    sym::cover("ok");
                    sym::check(match m { Some(m) => b.u() <= m, None => true }, "C08,C11.reconstruct_too_long");
                    sym::check(l.len() as u64 == b.u() && l.root() == r, "C11.reconstruct");
                    // nothing was chosen about the left node, so only a one-element list is complete
                    let g = l.get(&mut db, b.u() as usize);
                    sym::check(g == Err(Error::AccessOverflowed), "C08.get_at_len");
                    if m.is_none() && b.u() == 1 { sym::cover("one"); sym::check(l.get(&mut db, 0) == Ok(a), "C11.reconstruct_get"); }
                }
                (Err(e), Some(m)) => { sym::cover("too long"); sym::check(e == Error::CorruptedDatabase && b.u() > m, "C11.reconstruct_refused"); }
                // longer than any tree can be
                (Err(_), None) => sym::check(b.u() > 1 << 63, "C11.reconstruct_refused"),
            }
        }
        _ => {
            // deconstruct also fails when the length node is missing
            let l = List::<Dangling, CI>::from_leaked((a, (b, sym::any() as usize, max)));
            sym::check(match l.deconstruct(&mut db) { Ok(r) => r == a, Err(_) => true }, "C11.deconstruct");
        }
    }
}

/// Owned sequences over the in-memory store: exactly the nodes of the live trees, nothing else.
/// params: 0 type (0 Vector, 2 List), 1 unit, 2 capacity, 3,4 initial length range, 5 operations, 6 symbolic values
fn gc<K: Kind, S: Sq<K>>() {
    let (max, lo, hi, ops, nsym) = (cap(sym::param(2)), sym::param(3), sym::param(4), sym::param(5), sym::param(6));
    let mut db = InMemoryBackend::<K>::default();
    let mut m = Model::new(max, 0);
    let n0 = lo + sym::choose(hi - lo + 1);
    let mut s = match S::make(&mut db, max) { Ok(s) => s, Err(_) => { sym::fail("C05.create"); return } };
    while (m.vals.len() as u64) < n0 {
        if m.vals.len() as u64 + nsym >= n0 { m.sym = !0; }
        let v = m.value();
        sym::check(s.push(&mut db, v) == Ok(()), "C05.push");
        m.vals.push(v);
    }
    m.sym = !0;
    let mut k = 0;
    while k < ops {
        k += 1;
        match sym::choose(4) {
            0 => {
                let v = m.value();
                if match max { Some(x) => m.vals.len() as u64 >= x, None => false } { sym::check(s.push(&mut db, v).is_err(), "C05.push_full"); }
                else { sym::check(s.push(&mut db, v) == Ok(()), "C05.push"); m.vals.push(v); }
            }
            1 => { let w = m.vals.pop(); sym::check(s.pop(&mut db) == Ok(w), "C05.pop"); }
            2 => { sym::assume(!m.vals.is_empty()); let i = sym::pick(m.vals.len()); let v = m.value(); sym::check(s.set(&mut db, i, v) == Ok(()), "C05.set"); m.vals[i] = v; }
            // what owns the tree is detached and attached again
            _ => { s = match s.reattach(&mut db, max, sym::pick(S::WAYS)) { Ok(s) => s, Err(_) => { sym::fail("C05,C11.reattach"); return } }; }
        }
    }
    let mut w = World::new(1, true);
    let depth = spec_depth(max.unwrap_or(m.vals.len() as u64));
    let mut root = build::<K>(&mut w, &m.vals, depth);
    if S::LIST { let r = h2(root, V::of(m.vals.len() as u64)); w.known.push((r, root, V::of(m.vals.len() as u64))); root = r; }
    w.roots[0] = Some(root);
    sym::check(s.rt() == root, "C05.root");
    sym::check(s.drop_dangling(&mut db, max) == Ok(()), "C05.drop_dangling");
    check_store(&db, &w.expected(), true);
    sym::cover("end");
    sym::check(s.drop(&mut db) == Ok(()), "C05.drop");
    sym::check(db.as_ref().len() == 1, "C05.empty_after_drop");
}
/// All pairs of the canonical tree.
pub fn build<K: Kind>(w: &mut World, vals: &[V], depth: usize) -> V {
    if vals.is_empty() && K::UNIT { return V::default(); }
    if depth == 0 { return if vals.is_empty() { V::default() } else { vals[0] }; }
    let half = 1usize << (depth - 1);
    let (a, b) = if vals.len() <= half { (vals, &vals[..0]) } else { (&vals[..half], &vals[half..]) };
    let (l, r) = (build::<K>(w, a, depth - 1), build::<K>(w, b, depth - 1));
    let k = h2(l, r);
    w.known.push((k, l, r));
    k
}
pub fn h_seq_gc() {
    match (sym::param(0), sym::param(1)) {
        (0, 0) => gc::<CI, Vector<Owned, CI>>(), (0, _) => gc::<CU, Vector<Owned, CU>>(),
        (_, 0) => gc::<CI, List<Owned, CI>>(), (_, _) => gc::<CU, List<Owned, CU>>(),
    }
}
/// Two sequences in one store, with contents from a small pool, so that they share nodes; an element may also be the root of the other.
fn two<A: Sq<CI>, B: Sq<CI>>() {
    let (max, hi, ops, kinds) = (cap(sym::param(2)), sym::param(3), sym::param(4), sym::param(5) as usize);
    let mut db = InMemoryBackend::<CI>::default();
    let mut w = World::new(2, true);
    let pool = [leaf(), leaf()];
    let mut m = [Model::new(max, 0), Model::new(max, 0)];
    let (mut a, mut b) = match (A::make(&mut db, max), B::make(&mut db, max)) { (Ok(a), Ok(b)) => (a, b), _ => { sym::fail("C05.create"); return } };
    let full = |w: &mut World, m: &Model, list: bool| -> V {
        let root = build::<CI>(w, &m.vals, spec_depth(max.unwrap_or(m.vals.len() as u64)));
        if !list { return root; }
        let n = V::of(m.vals.len() as u64);
        let r = h2(root, n);
        w.known.push((r, root, n));
        r
    };
    let n = [sym::choose(hi + 1), sym::choose(hi + 1)];
    let mut i = 0;
    while i < n[0] { let v = pool[i as usize % 2]; sym::check(a.push(&mut db, v) == Ok(()), "C05.push"); m[0].vals.push(v); i += 1; }
    i = 0;
    while i < n[1] { let v = pool[i as usize % 2]; sym::check(b.push(&mut db, v) == Ok(()), "C05.push"); m[1].vals.push(v); i += 1; }
    let mut k = 0;
    while k < ops {
        k += 1;
        let t = sym::pick(2);
        let v = match sym::pick(kinds) { 0 => pool[0], 1 => pool[1], _ => { sym::cover("nested"); let o = 1 - t; full(&mut w, &m[o], if o == 0 { A::LIST } else { B::LIST }) } };
        match sym::choose(3) {
            0 => {
                let over = match max { Some(x) => m[t].vals.len() as u64 >= x, None => false };
                let r = if t == 0 { a.push(&mut db, v) } else { b.push(&mut db, v) };
                sym::check(r.is_err() == over, "C05.push");
                if !over { m[t].vals.push(v); }
            }
            1 => { let x = m[t].vals.pop(); sym::check(if t == 0 { a.pop(&mut db) } else { b.pop(&mut db) } == Ok(x), "C05.pop"); }
            _ => {
                sym::assume(!m[t].vals.is_empty());
                let i = sym::pick(m[t].vals.len());
                sym::check(if t == 0 { a.set(&mut db, i, v) } else { b.set(&mut db, i, v) } == Ok(()), "C05.set");
                m[t].vals[i] = v;
            }
        }
    }
    let (ra, rb) = (full(&mut w, &m[0], A::LIST), full(&mut w, &m[1], B::LIST));
    sym::check(a.rt() == ra && b.rt() == rb, "C05,C07.root");
    if ra == rb { sym::cover("equal roots"); }
    w.roots = vec![Some(ra), Some(rb)];
    check_store(&db, &w.expected(), true);
    let first = sym::flip();
    if first { sym::check(a.drop(&mut db) == Ok(()), "C05.drop"); w.roots[0] = None; check_store(&db, &w.expected(), true); for (i, v) in m[1].vals.iter().enumerate() { sym::check(b.get(&mut db, i) == Ok(*v), "C04,C05.survivor"); } sym::check(b.drop(&mut db) == Ok(()), "C05.drop"); }
    else { sym::check(b.drop(&mut db) == Ok(()), "C05.drop"); w.roots[1] = None; check_store(&db, &w.expected(), true); for (i, v) in m[0].vals.iter().enumerate() { sym::check(a.get(&mut db, i) == Ok(*v), "C04,C05.survivor"); } sym::check(a.drop(&mut db) == Ok(()), "C05.drop"); }
    sym::check(db.as_ref().len() == 1, "C05.empty_after_drop");
    sym::cover("end");
}
/// C04, C05. params: 0,1 kinds (0 Vector, 1 List), 2 capacity, 3 largest initial length, 4 operations, 5 kinds of value
pub fn h_seq_two() {
    match (sym::param(0), sym::param(1)) {
        (0, 0) => two::<Vector<Owned, CI>, Vector<Owned, CI>>(), (0, _) => two::<Vector<Owned, CI>, List<Owned, CI>>(),
        _ => two::<List<Owned, CI>, List<Owned, CI>>(),
    }
}
/// C11: the raw tree of a list, converted back. params: largest length, capacity (0 none)
pub fn h_into_list() {
    let max = cap(sym::param(1));
    let mut db = Db::<CI>::default();
    let mut m = Model::new(max, !0);
    let n = sym::choose(sym::param(0) + 1);
    let mut s = match List::<Owned, CI>::create(&mut db, max) { Ok(s) => s, Err(_) => { sym::fail("C11.setup"); return } };
    while (m.vals.len() as u64) < n { let v = m.value(); if s.push(&mut db, v).is_err() { sym::fail("C11.setup"); return; } m.vals.push(v); }
    let back: List<Owned, CI> = s.into_raw().into_list(m.vals.len(), max);
    sym::check(Tree::root(&back) == m.spec::<CI>(true), "C11.into_list_root");
    sym::check(Sequence::len(&back) == m.vals.len(), "C11.into_list_len");
    for (i, v) in m.vals.iter().enumerate() { sym::check(back.get(&mut db, i) == Ok(*v), "C11.into_list_get"); }
    sym::cover("done");
}

/// Root of a tree of 2^depth positions that are empty but for the given ones.
pub fn sparse<K: Kind>(at: &[(u64, V)], depth: usize) -> V {
    if at.is_empty() { return empty::<K>(depth); }
    if depth == 0 { return at[at.len() - 1].1; }
    let half = 1u64 << (depth - 1);
    let l: Vec<(u64, V)> = at.iter().filter(|e| e.0 < half).cloned().collect();
    let r: Vec<(u64, V)> = at.iter().filter(|e| e.0 >= half).map(|e| (e.0 - half, e.1)).collect();
    h2(sparse::<K>(&l, depth - 1), sparse::<K>(&r, depth - 1))
}
fn huge<K: Kind, S: Sq<K>>(from: impl Fn(&mut Db<K>, u64, Option<u64>) -> Option<S>) {
    let k = sym::param(1);
    let top = 1u64 << 63;
    let around = sym::choose(5);
    let mut len = (1u64 << k).wrapping_add(around).wrapping_sub(2);
    let max = match sym::choose(4) { 0 => None, 1 => Some(len), 2 => Some(len.wrapping_add(1)), _ => Some(1u64 << (k + 1 - (k + 1) / 64)) };
    let limit = match max { Some(m) => m, None => top };
    if len > limit || limit > top || len == 0 { return; }
    let mut db = Db::<K>::default();
    let mut s = match from(&mut db, len, max) { Some(s) => s, None => { sym::fail("C08.huge_create"); return } };
    let mut at: Vec<(u64, V)> = Vec::new();
    let mut look = |s: &S, db: &mut Db<K>, at: &mut Vec<(u64, V)>, len: u64| {
        at.retain(|e| e.0 < len);
        let root = sparse::<K>(at, spec_depth(max.unwrap_or(len)));
        sym::check(s.rt() == if S::LIST { h2(root, V::of(len)) } else { root }, "C07.huge_root");
        sym::check(s.ln() as u64 == len, "C06,C08.huge_len");
        for e in at.iter() { sym::check(s.get(db, e.0 as usize) == Ok(e.1), "C06.huge_get"); }
        sym::check(s.get(db, len as usize) == Err(Error::AccessOverflowed), "C08.huge_at_len");
        sym::check(s.get(db, usize::max_value()) == Err(Error::AccessOverflowed), "C08.huge_past");
    };
    look(&s, &mut db, &mut at, len);
    sym::cover("created");
    let mut n = 0;
    while n < sym::param(2) {
        n += 1;
        match sym::choose(4) {
            0 => {
                let v = leaf();
                let r = s.push(&mut db, v);
                if len >= limit { sym::cover("full"); sym::check(r == Err(Error::AccessOverflowed), "C08.huge_push_full"); }
                else { sym::cover("push"); sym::check(r == Ok(()), "C06.huge_push"); at.push((len, v)); len += 1; }
            }
            1 => {
                let want = at.iter().rev().find(|e| e.0 == len - 1).map(|e| e.1).unwrap_or(V::default());
                sym::cover("pop");
                sym::check(s.pop(&mut db) == Ok(Some(want)), "C06.huge_pop");
                len -= 1;
            }
            2 => {
                let i = [0, len - 1, len / 2, len / 3][sym::pick(4)];
                let v = leaf();
                sym::cover("set");
                sym::check(s.set(&mut db, i as usize, v) == Ok(()), "C06.huge_set");
                at.retain(|e| e.0 != i);
                at.push((i, v));
            }
            _ => {
                let i = [len, len + 1, usize::max_value() as u64][sym::pick(3)];
                sym::cover("set past");
                sym::check(s.set(&mut db, i as usize, leaf()) == Err(Error::AccessOverflowed), "C08.huge_set_past");
            }
        }
        look(&s, &mut db, &mut at, len);
    }
}
/// C06-C08 at lengths around 2^k, up to the largest. params: 0 Vector, 1 List; k; steps
pub fn h_huge() {
    match sym::param(0) {
        0 => huge::<CI, Vector<Dangling, CI>>(|db, len, max| Vector::<Owned, CI>::create(db, len as usize, max).ok().map(|v| Vector::from_leaked(v.metadata()))),
        _ => huge::<CI, List<Dangling, CI>>(|db, len, max| {
            let v = Vector::<Owned, CI>::create(db, len as usize, max).ok()?;
            let (root, n) = (Tree::root(&v), V::of(len));
            let l = h2(root, n);
            db.insert(l, (root, n)).ok()?;
            List::reconstruct(l, db, max).ok()
        }),
    }
}
