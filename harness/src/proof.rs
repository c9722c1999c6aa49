//! Proving backend, compact proofs and backend wrappers (C12-C16, C19, C23).
use crate::core::*;
use crate::raw::World;
use crate::sym;
use bm::*;

fn at(i: u64) -> Index { Index::from_one(i as usize).unwrap() }
fn mk(p: Vec<(V, (V, V))>) -> Proofs<V> { let mut s = ProvingState::<V>::default(); for (k, v) in p { s.proofs.insert(k, v); } s.into() }
fn populated<K: Kind>(p: Proofs<V>) -> InMemoryBackend<K> { let mut db = InMemoryBackend::<K>::default(); db.populate(p.into()); db }

// ---- C12, C13: record operations on a raw tree, replay them from the proofs alone ----
#[derive(Clone, Copy)]
enum Op { Get(u64), Set(u64, V), Copy(u64, u64) }
type Res = Vec<Result<Option<V>, Error<InMemoryBackendError>>>;
fn play<R: RootStatus, DB: WriteBackend<Construct = CI, Error = InMemoryBackendError>>(ops: &[Op], root: V, db: &mut DB) -> (Res, V) {
    let mut t = Raw::<R, CI>::from_leaked(root);
    let mut out = Vec::new();
    for op in ops {
        match *op {
            Op::Get(i) => out.push(t.get(db, at(i))),
            Op::Set(i, v) => out.push(t.set(db, at(i), v).map(|_| None)),
            Op::Copy(i, j) => {
                let g = t.get(db, at(i));
                if let Ok(Some(v)) = g { out.push(t.set(db, at(j), v).map(|_| None)); }
                out.push(g);
            }
        }
    }
    (out, t.root())
}
fn check_proofs(p: &Proofs<V>, w: &World) {
    for (k, (l, r)) in p.iter() {
        sym::check(*k == h2(*l, *r), "C13.genuine");
        sym::check(w.kids(*k) == Some((*l, *r)), "C13.pre_existing");
    }
}
fn replay_raw<R: RootStatus>() {
    let (d, nw, n, kinds) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let mut db = DbI::default();
    let mut w = World::new(1, false);
    let mut used = Vec::new();
    let mut t = Raw::<R, CI>::default();
    // initial tree: some of the leaves of depth d written
    for _ in 0..nw {
        let i = (1 << d) + sym::choose(1 << d);
        let v = if !used.is_empty() && sym::flip() { used[sym::pick(used.len())] } else { leaf() };
        used.push(v);
        let _ = t.set(&mut db, at(i), v);
        w.set(0, i, v);
    }
    let root = t.root();
    sym::check(root == w.roots[0].unwrap(), "C12.setup");
    let before = w.known.len();
    let mut ops = Vec::new();
    for _ in 0..n {
        let i = 1 + sym::choose((2 << d) - 1);
        ops.push(match sym::choose(kinds) {
            0 => Op::Get(i),
            1 => { let v = if !used.is_empty() && sym::flip() { used[sym::pick(used.len())] } else { let v = leaf(); used.push(v); v }; Op::Set(i, v) }
            _ => Op::Copy(i, 1 + sym::choose((2 << d) - 1)),
        });
    }
    let mut plain = db.clone();
    let (res, end, proofs) = {
        let mut p = ProvingBackend::new(&mut db);
        let (res, end) = play::<R, _>(&ops, root, &mut p);
        let proofs: Proofs<V> = p.into();
        (res, end, proofs)
    };
    // the wrapper changes neither results nor the store
    let (res1, end1) = play::<R, _>(&ops, root, &mut plain);
    sym::check(res1 == res && end1 == end, "C19.proving_results");
    sym::check(plain.as_ref() == db.as_ref(), "C19.proving_store");
    w.known.truncate(before);
    check_proofs(&proofs, &w);
    let mut fresh = populated::<CI>(proofs.clone());
    let (res2, end2) = play::<R, _>(&ops, root, &mut fresh);
    sym::check(res2 == res, "C12.replay_results");
    sym::check(end2 == end, "C12.replay_root");
    sym::observe(end2.u());
    sym::cover("replayed");
    // the same from the compact form of what hangs off the initial root
    let c = proofs.into_compact(root);
    let (expanded, root2) = Proofs::from_compact::<CI>(c);
    sym::check(root2 == root, "C14.root");
    if kinds < 3 {
        let mut fresh = populated::<CI>(expanded);
        let (res3, end3) = play::<R, _>(&ops, root2, &mut fresh);
        sym::check(res3 == res && end3 == end, "C12.replay_compact");
    }
}
/// params: depth, initial writes, operations, kinds (1 get, 2 set, 3 copy), 0 owned / 1 dangling
pub fn h_replay() { if sym::param(4) == 0 { replay_raw::<Owned>() } else { replay_raw::<Dangling>() } }

// ---- C12 on vectors and lists ----
#[derive(Clone, Copy)]
enum SOp { Push(V), Pop, Set(u64, V), Get(u64) }
fn sop(n: u64) -> SOp { match sym::choose(4) { 0 => SOp::Push(leaf()), 1 => SOp::Pop, 2 => SOp::Set(sym::choose(n + 1), leaf()), _ => SOp::Get(sym::choose(n + 1)) } }
fn play_vec<K: Kind, DB: WriteBackend<Construct = K>>(ops: &[SOp], root: V, n: u64, max: Option<u64>, list: bool, db: &mut DB) -> Result<(Vec<Result<Option<V>, Error<DB::Error>>>, V, usize), Error<DB::Error>> {
    let mut out = Vec::new();
    macro_rules! go { ($v:ident) => { for op in ops { out.push(match *op {
        SOp::Push(x) => $v.push(db, x).map(|_| None),
        SOp::Pop => $v.pop(db),
        SOp::Set(i, x) => $v.set(db, i as usize, x).map(|_| None),
        SOp::Get(i) => $v.get(db, i as usize).map(Some),
    }) } } }
    if list {
        let mut v = List::<Owned, K>::reconstruct(root, db, max)?;
        go!(v);
        Ok((out, v.root(), v.len()))
    } else {
        let mut v = Vector::<Owned, K>::from_leaked((root, n as usize, max));
        go!(v);
        Ok((out, v.root(), v.len()))
    }
}
fn replay_seq<K: Kind>() {
    let (list, max, hi, n) = (sym::param(0) == 1, cap(sym::param(1)), sym::param(2), sym::param(3));
    let mut db = InMemoryBackend::<K>::default();
    let len = sym::choose(hi + 1);
    let mut vals = Vec::new();
    for i in 0..len { vals.push(if i + 1 == len { leaf() } else { V::of(0x100 + i) }); }
    let root = if list {
        let mut l = match List::<Owned, K>::create(&mut db, max) { Ok(l) => l, Err(_) => { sym::fail("C12.setup"); return } };
        for v in &vals { sym::check(l.push(&mut db, *v).is_ok(), "C12.setup"); }
        l.root()
    } else {
        let mut l = match Vector::<Owned, K>::create(&mut db, 0, max) { Ok(l) => l, Err(_) => { sym::fail("C12.setup"); return } };
        for v in &vals { sym::check(l.push(&mut db, *v).is_ok(), "C12.setup"); }
        l.root()
    };
    let initial = db.clone();
    let ops: Vec<SOp> = (0..n).map(|_| sop(len)).collect();
    let mut p = ProvingBackend::new(&mut db);
    let r1 = play_vec::<K, _>(&ops, root, len, max, list, &mut p);
    let proofs: Proofs<V> = p.into();
    for (k, (l, r)) in proofs.iter() {
        sym::check(*k == h2(*l, *r), "C13.genuine");
        sym::check(match initial.as_ref().get(k) { Some((Some(c), _)) => *c == (*l, *r), _ => false }, "C13.pre_existing");
    }
    let r1 = match r1 { Ok(x) => x, Err(_) => { sym::fail("C12.attach"); return } };
    let c = proofs.into_compact(root);
    let mut fresh = populated::<K>(proofs);
    sym::check(play_vec::<K, _>(&ops, root, len, max, list, &mut fresh).ok().as_ref() == Some(&r1), "C12.replay");
    let (expanded, root2) = Proofs::from_compact::<K>(c);
    sym::check(root2 == root, "C14.root");
    let mut fresh = populated::<K>(expanded);
    sym::check(play_vec::<K, _>(&ops, root, len, max, list, &mut fresh).ok().as_ref() == Some(&r1), "C12.replay_compact");
    sym::observe(r1.1.u());
    sym::cover("replayed");
}
/// params: 0 vector / 1 list, capacity, largest length, operations, unit
pub fn h_replay_seq() { if sym::param(4) == 0 { replay_seq::<CI>() } else { replay_seq::<CU>() } }

/// C13: any sequence of reads and inserts on the proving backend. params: nodes stored, operations
pub fn h_record() {
    let (n0, n) = (sym::param(0), sym::param(1));
    let mut db = Db::<CI>::default();
    for _ in 0..n0 { let (k, a, b) = (leaf(), leaf(), leaf()); for e in &db.n { sym::assume(e.0 != k); } db.n.push((k, (a, b))); }
    let mut calls = 0;
    let fail = sym::choose(n + 1);
    db.fail = Some(fail);
    db.code = sym::any();
    let mut rec: Vec<(V, (V, V))> = Vec::new();
    let mut ins: Vec<V> = Vec::new();
    let mut model = db.n.clone();
    let mut state = ProvingState::<V>::default();
    for _ in 0..n {
        // continue from a saved state every time
        let mut p = ProvingBackend::from_state(state, &mut db);
        let k = leaf();
        let fails = calls == fail;
        calls += 1;
        match sym::choose(4) {
            0 => {
                let (a, b) = (leaf(), leaf());
                for e in &model { if e.0 == k { sym::assume(e.1 == (a, b)); } }
                let r = p.insert(k, (a, b));
                sym::check(r.is_err() == fails, "C19,C23.insert_result");
                if !fails { ins.push(k); model.push((k, (a, b))); }
                else { sym::cover("failed insert"); }
                sym::cover("insert");
            }
            1 => { sym::check(p.rootify(&k).is_err() == fails, "C19,C23.rootify_result"); }
            2 => { sym::check(p.unrootify(&k).is_err() == fails, "C19,C23.unrootify_result"); }
            _ => {
                let r = p.get(&k);
                let mut want = None;
                for e in &model { if e.0 == k { want = Some(e.1); break; } }
                if fails { sym::cover("failed read"); sym::check(r.is_err(), "C19,C23.get_result"); }
                else {
                    sym::check(r == Ok(want), "C19.get_result");
                    if let Some(v) = want {
                        let (mut i, mut j) = (false, false);
                        for x in &ins { if *x == k { i = true; break; } }
                        for x in &rec { if x.0 == k { j = true; break; } }
                        if !i && !j { rec.push((k, v)); sym::cover("recorded"); }
                        if i { sym::cover("inserted before"); }
                    } else { sym::cover("read nothing"); }
                }
            }
        }
        state = p.into_state();
    }
    let proofs: Proofs<V> = state.into();
    sym::check(proofs.len() == rec.len(), "C13.count");
    for (k, v) in &rec { sym::check(proofs.get(k) == Some(v), "C13.recorded"); }
}

// ---- C14, C15, C16: compact proofs ----
/// Any proof shape up to depth d: every node is a value nothing is known about (fresh, or the
/// digest of another node of the shape), or a known pair. Returns its digest.
fn shape(d: u64, known: &mut Vec<(V, (V, V))>) -> V {
    if d == 0 || sym::flip() {
        if !known.is_empty() && sym::flip() { return known[sym::pick(known.len())].0; }
        return leaf();
    }
    let l = shape(d - 1, known);
    let r = shape(d - 1, known);
    let k = h2(l, r);
    known.push((k, (l, r)));
    k
}
fn kids(p: &[(V, (V, V))], k: V) -> Option<(V, V)> { for e in p { if e.0 == k { return Some(e.1); } } None }
fn leaves(p: &[(V, (V, V))], k: V) -> usize { match kids(p, k) { Some((l, r)) => leaves(p, l) + leaves(p, r), None => 1 } }
fn reach(p: &[(V, (V, V))], k: V, out: &mut Vec<(V, (V, V))>) {
    if let Some((l, r)) = kids(p, k) {
        if kids(out, k).is_some() { return; }
        out.push((k, (l, r)));
        reach(p, l, out);
        reach(p, r, out);
    }
}
/// param 0: depth, 1: depth of unrelated entries
pub fn h_compact() {
    let mut known = Vec::new();
    let root = shape(sym::param(0), &mut known);
    // entries that do not belong to this root
    if sym::param(1) > 0 { let _ = shape(sym::param(1), &mut known); }
    let proofs = mk(known.clone());
    let c = proofs.into_compact(root);
    sym::check(c.clone().root::<CI>() == root, "C14.compact_root");
    sym::check(c.len() == leaves(&known, root), "C14.compact_len");
    // folded once per inner node, children before parents
    let (inner, top) = c.clone().fold::<CI, u64, _>(&|k, (a, l), (b, r)| { sym::check(k == CI::intermediate_of(&l, &r), "C14.fold_key"); a + b + 1 });
    sym::check(top == root && inner as usize + 1 == c.len(), "C14.fold");
    let (back, root2) = Proofs::from_compact::<CI>(c.clone());
    sym::check(root2 == root, "C14.root");
    let mut want = Vec::new();
    reach(&known, root, &mut want);
    sym::check(back.len() == want.len(), "C14.entries");
    for (k, v) in &want { sym::check(back.get(k) == Some(v), "C14.entry"); }
    sym::check(back.into_compact(root) == c, "C14.again");
    if want.len() > 1 { sym::cover("deep"); }
    sym::cover("done");
}

/// param 0: depth, 1: extra siblings
pub fn h_plain() {
    let d = sym::choose(sym::param(0) + 1);
    let i = (1 << d) + sym::choose(1 << d);
    plain(d, i, sym::param(1), false);
}
/// Deep indices. param 0: low bits that vary
pub fn h_plain_deep() {
    let d = [17u64, 33, 62][sym::pick(3)];
    let bits = sym::param(0);
    let pat = [0u64, !0, 0x5555_5555_5555_5555, 0x9249_2492_4924_9249][sym::pick(4)];
    let i = (1 << d) | (pat & ((1 << d) - 1) & !((1 << bits) - 1)) | sym::choose(1 << bits);
    plain(d, i, 1, true);
}
fn plain(d: u64, i: u64, extra: u64, deep: bool) {
    let m = if d > extra { d - extra + sym::choose(2 * extra + 1) } else { sym::choose(d + extra + 1) };
    let v = leaf();
    let sib: Vec<V> = (0..m).map(|_| leaf()).collect();
    let c = CompactValue::from_plain(v, sib.clone(), at(i));
    sym::check(c.is_some() == (m == d), "C15.length");
    let c = match c { Some(c) => c, None => { sym::cover("refused"); return } };
    if m != d { return; }
    sym::cover("accepted");
    let mut want = v;
    for k in 0..d { want = if (i >> k) & 1 == 0 { h2(want, sib[k as usize]) } else { h2(sib[k as usize], want) }; }
    sym::check(c.len() as u64 == d + 1, "C14,C15.len");
    sym::check(c.clone().root::<CI>() == want, "C15.root");
    let (p, root) = Proofs::from_compact::<CI>(c);
    sym::check(root == want, "C15.expanded_root");
    sym::check(p.len() as u64 == d, "C15.entries");
    if deep {
        // walk the entries themselves (a store would also compare the leaf values with each other)
        let mut n = root;
        for k in (0..d).rev() {
            match p.get(&n) {
                Some((l, r)) => { let (next, other) = if (i >> k) & 1 == 0 { (*l, *r) } else { (*r, *l) }; sym::check(other == sib[k as usize], "C15.sibling"); n = next; }
                None => { sym::fail("C15.leaf"); return }
            }
        }
        sym::check(n == v, "C15.leaf");
        return;
    }
    let mut db = populated::<CI>(p);
    let t = Raw::<Dangling, CI>::new(root);
    sym::check(t.get(&mut db, at(i)) == Ok(Some(v)), "C15.leaf");
    for k in 0..d { sym::check(t.get(&mut db, at((i >> k) ^ 1)) == Ok(Some(sib[k as usize])), "C15.sibling"); }
}

/// Any compact proof: shape up to depth d, values fresh or taken from the real tree.
fn forged(d: u64, real: &[V]) -> CompactValue<V> {
    if d == 0 || sym::flip() { return CompactValue::Single(if sym::flip() { real[sym::pick(real.len())] } else { leaf() }); }
    let l = forged(d - 1, real);
    let r = forged(d - 1, real);
    CompactValue::Combined(Box::new((l, r)))
}
/// A compact proof that hashes to `t`, by collision-freedom of the digest: `t` itself, or the
/// proofs of what `t` is the digest of. Values are free symbols constrained to hash right.
fn guided(d: u64, t: V, w: &World) -> CompactValue<V> {
    match w.kids(t) {
        Some((l, r)) if d > 0 && sym::flip() => { let l = guided(d - 1, l, w); CompactValue::Combined(Box::new((l, guided(d - 1, r, w)))) }
        _ => CompactValue::Single(t),
    }
}
/// param 0: depth of the real tree, 1: depth of the proof, 2: 0 every shape with the wrong ones assumed away, 1 only those that can hash right
pub fn h_forge() {
    let (d, pd) = (sym::param(0), sym::param(1));
    let mut w = World::new(1, false);
    let mut db = DbI::default();
    let mut t = Raw::<Owned, CI>::default();
    let i = (1 << d) - 1 + sym::choose(2);
    for j in 0..i { let x = (1 << d) + j % (1 << d); let v = leaf(); let _ = t.set(&mut db, at(x), v); w.set(0, x, v); }
    let root = t.root();
    let real: Vec<V> = (1..2u64 << d).filter_map(|j| w.get(root, j)).collect();
    let c = if sym::param(2) == 1 { guided(pd, root, &w) } else { forged(pd, &real) };
    if sym::param(2) == 1 { sym::check(c.clone().root::<CI>() == root, "C14,C16.root"); }
    sym::assume(c.clone().root::<CI>() == root);
    let (p, r) = Proofs::from_compact::<CI>(c);
    sym::check(r == root, "C14,C16.root");
    let p2 = p.clone();
    let mut fresh = populated::<CI>(p);
    let shown = Raw::<Dangling, CI>::new(r);
    let mut some = 0;
    for j in 1..2u64 << (d + 1) {
        match shown.get(&mut fresh, at(j)) {
            Ok(Some(v)) => { some += 1; sym::check(Some(v) == t.get(&mut db, at(j)).ok().and_then(|x| x), "C16.only_committed"); }
            Ok(None) => {}
            Err(_) => sym::fail("C16.error"),
        }
    }
    for (k, (a, b)) in p2.iter() { sym::check(w.kids(*k) == Some((*a, *b)), "C16.entry"); }
    if some > 1 { sym::cover("shown"); }
    // through a vector handle
    let v = Vector::<Dangling, CI>::from_leaked((r, 1 << d, None));
    for j in 0..1u64 << d {
        match v.get(&mut fresh, j as usize) { Ok(x) => sym::check(Some(x) == w.get(root, (1 << d) + j), "C16.element"), Err(e) => sym::check(e == Error::CorruptedDatabase, "C16.error") }
    }
}

// ---- C19, C23: wrappers ----
/// The same operations directly and through the error-erasing or the proving backend, with a
/// failure at any call. params: 0 vector / 1 list, capacity, largest length, 0 erasing / 1 proving
pub fn h_wrap() {
    let (list, max, hi, proving) = (sym::param(0) == 1, cap(sym::param(1)), sym::param(2), sym::param(3) == 1);
    let len = sym::choose(hi + 1);
    let mut a = Db::<CI>::default();
    let mut l = match List::<Owned, CI>::create(&mut a, max) { Ok(l) => l, Err(_) => { sym::fail("C19.setup"); return } };
    let mut v = match Vector::<Owned, CI>::create(&mut a, 0, max) { Ok(l) => l, Err(_) => { sym::fail("C19.setup"); return } };
    for i in 0..len { let x = V::of(0x100 + i); sym::check(if list { l.push(&mut a, x).is_ok() } else { v.push(&mut a, x).is_ok() }, "C19.setup"); }
    let root = if list { l.root() } else { v.root() };
    let ops = [sop(len)];
    a.arm();
    let mut c = a.clone();
    let ra = play_vec::<CI, _>(&ops, root, len, max, list, &mut a);
    let (failed, store) = if proving {
        let rb = { let mut p = ProvingBackend::new(&mut c); play_vec::<CI, _>(&ops, root, len, max, list, &mut p) };
        sym::check(ra == rb, "C19,C23.proving_same");
        (c.failed, c.n)
    } else {
        let mut e = DynBackend(c);
        let rb = play_vec::<CI, _>(&ops, root, len, max, list, &mut e);
        sym::check(match (&ra, &rb) {
            (Ok(x), Ok(y)) => x.1 == y.1 && x.2 == y.2 && x.0.len() == y.0.len() && x.0.iter().zip(y.0.iter()).all(|(m, n)| same(m, n)),
            (Err(x), Err(y)) => same_err(x, y),
            _ => false,
        }, "C19,C23.erasing_same");
        (e.failed, e.0.n)
    };
    if a.failed { sym::cover("fault") } else { sym::cover("no fault") }
    sym::check(failed == a.failed, "C19.calls");
    sym::check(store == a.n, "C19.store");
}
fn same_err(a: &Error<Fault>, b: &Error<()>) -> bool { match (a, b) {
    (Error::Backend(_), Error::Backend(())) | (Error::CorruptedDatabase, Error::CorruptedDatabase) | (Error::AccessOverflowed, Error::AccessOverflowed) | (Error::InvalidParameter, Error::InvalidParameter) => true, _ => false } }
fn same(a: &Result<Option<V>, Error<Fault>>, b: &Result<Option<V>, Error<()>>) -> bool { match (a, b) { (Ok(x), Ok(y)) => x == y, (Err(x), Err(y)) => same_err(x, y), _ => false } }

/// Single backend calls through the wrappers, and the discarding backend.
pub fn h_noop() {
    let mut n = NoopBackend::<CI>::default();
    let (a, b, k) = (leaf(), leaf(), leaf());
    sym::check(n.get(&k) == Err(NoopBackendError::NotSupported), "C19.noop_get");
    sym::check(n.insert(k, (a, b)) == Ok(()) && n.rootify(&k) == Ok(()) && n.unrootify(&k) == Ok(()), "C19.noop_write");
    sym::check(n.clone().get(&k) == Err(NoopBackendError::NotSupported), "C19.noop_get");
    let h = sym::pick(6);
    sym::check(<CI as Construct>::empty_at(&mut n, h) == Ok(empty::<CI>(h)), "C19.noop_empty");
    sym::check(match Vector::<Owned, CI>::create(&mut n, h, None) { Ok(v) => v.root() == spec_vec_root::<CI>(&vec![V::default(); h], None), Err(_) => false }, "C19.noop_create");
    let t = Raw::<Dangling, CI>::new(k);
    let i = 2 + sym::choose(6);
    sym::check(t.get(&mut n, at(i)) == Err(Error::Backend(NoopBackendError::NotSupported)), "C19.noop_read");
    // proving and error-erasing around it
    let mut d = DynBackend(NoopBackend::<CI>::default());
    sym::check(d.get(&k) == Err(()) && d.insert(k, (a, b)) == Ok(()) && d.rootify(&k) == Ok(()) && d.unrootify(&k) == Ok(()), "C19.erasing_noop");
    let mut n2 = NoopBackend::<CI>::default();
    let mut p = ProvingBackend::new(&mut n2);
    sym::check(p.get(&k) == Err(NoopBackendError::NotSupported), "C19.proving_noop");
    let s = p.into_state();
    sym::check(s.proofs.is_empty(), "C13.failed_read");
    sym::cover("done");
}
