//! C03, C04, C05: raw trees over one in-memory store, against a store-level reference model.
use crate::core::*;
use crate::sym;
use bm::*;

/// Reference model: which nodes are stored (value -> children) and which roots are owned.
pub struct World { pub known: Vec<(V, V, V)>, pub roots: Vec<Option<V>>, pub gc: bool }
impl World {
    pub fn new(n: usize, gc: bool) -> World { World { known: Vec::new(), roots: (0..n).map(|_| Some(V::default())).collect(), gc } }
    pub fn kids(&self, k: V) -> Option<(V, V)> {
        if k == V::default() { return None; }
        for x in self.known.iter().rev() { if x.0 == k { return Some((x.1, x.2)); } }
        None
    }
    pub fn get(&self, root: V, index: u64) -> Option<V> {
        let mut cur = root;
        let mut d = 63 - index.leading_zeros();
        while d > 0 {
            d -= 1;
            let (l, r) = self.kids(cur)?;
            cur = if (index >> d) & 1 == 1 { r } else { l };
        }
        Some(cur)
    }
    fn put(&mut self, cur: Option<V>, index: u64, d: u32, v: V) -> V {
        if d == 0 { return v; }
        let kids = match cur { Some(c) => self.kids(c), None => None };
        let (l, r) = kids.unwrap_or_default();
        let below = kids.is_some();
        let right = (index >> (d - 1)) & 1 == 1;
        let (l, r) = if right { (l, self.put(if below { Some(r) } else { None }, index, d - 1, v)) } else { (self.put(if below { Some(l) } else { None }, index, d - 1, v), r) };
        let k = h2(l, r);
        if self.kids(k).is_none() { self.known.push((k, l, r)); }
        k
    }
    pub fn set(&mut self, slot: usize, index: u64, v: V) {
        let root = self.roots[slot].unwrap_or_default();
        let r = self.put(Some(root), index, 63 - index.leading_zeros(), v);
        self.roots[slot] = Some(r);
        self.collect();
    }
    /// Keep what is reachable from the owned roots.
    pub fn collect(&mut self) {
        if !self.gc { return; }
        let exp = self.expected();
        self.known = exp.into_iter().filter_map(|(k, c, _)| c.map(|(l, r)| (k, l, r))).collect();
        self.known.reverse();
    }
    /// The exact content the store should have: (value, children, references), without the default value.
    pub fn expected(&self) -> Vec<(V, Option<(V, V)>, usize)> {
        let mut out: Vec<(V, Option<(V, V)>, usize)> = Vec::new();
        let mut todo: Vec<V> = self.roots.iter().filter_map(|x| *x).collect();
        while let Some(k) = todo.pop() {
            if k == V::default() { continue; }
            let mut found = false;
            for e in out.iter_mut() { if e.0 == k { e.2 += 1; found = true; break; } }
            if found { continue; }
            let c = self.kids(k);
            out.push((k, c, 1));
            if let Some((l, r)) = c { todo.push(l); todo.push(r); }
        }
        out
    }
}

pub fn check_store<C: Construct<Value = V>>(db: &InMemoryBackend<C>, exp: &[(V, Option<(V, V)>, usize)], exact: bool) {
    let map = db.as_ref();
    for (k, c, n) in exp {
        match map.get(k) {
            Some((kids, count)) => {
                sym::check(kids == c, "C04,C05.children_kept");
                match count {
                    Some(m) => { if exact { sym::check(m == n, "C05.refcount") } else { sym::check(m >= n, "C04.refcount_low") } }
                    None => sym::fail("C05.counted"),
                }
            }
            None => sym::fail("C04,C05.node_kept"),
        }
    }
    if exact {
        sym::check(map.get(&V::default()) == Some(&(None, None)), "C05.default_entry");
        sym::check(map.len() == exp.len() + 1, "C05.no_garbage");
    }
}

fn at(i: u64) -> Index { Index::from_one(i as usize).unwrap() }

/// The value of one write: a fresh leaf, a leaf used before, any value read from a live tree
/// (so that stored subtrees get shared), or the digest of two leaves not (necessarily) stored.
fn pick_value(w: &World, used: &mut Vec<V>, kinds: usize, depth: u32) -> V {
    match sym::pick(kinds) {
        0 => { let v = leaf(); used.push(v); v }
        1 => { sym::assume(!used.is_empty()); used[sym::pick(used.len())] }
        2 => {
            let roots: Vec<V> = w.roots.iter().filter_map(|x| *x).collect();
            let r = roots[sym::pick(roots.len())];
            let i = 1 + sym::choose((1 << depth) - 1);
            match w.get(r, i) { Some(v) => v, None => { sym::assume(false); r } }
        }
        _ => {
            let a = if !used.is_empty() && sym::flip() { used[sym::pick(used.len())] } else { let v = leaf(); used.push(v); v };
            let b = if sym::flip() { a } else { let v = leaf(); used.push(v); v };
            h2(a, b)
        }
    }
}

fn check_tree<R: RootStatus>(w: &World, t: &Raw<R, CI>, db: &mut DbI, root: V, depth: u32) {
    sym::check(t.root() == root, "C03,C04.root");
    let mut i = 1;
    while i < 2 << depth {
        let g = t.get(db, at(i));
        sym::check(g == Ok(w.get(root, i)), "C03,C04.get");
        if let Ok(Some(v)) = g {
            sym::observe(v.u());
            match (t.get(db, at(2 * i)), t.get(db, at(2 * i + 1))) {
                (Ok(Some(l)), Ok(Some(r))) => sym::check(v == h2(l, r), "C03.hash_of_children"),
                (Ok(None), Ok(None)) => {}
                _ => sym::fail("C03.one_child"),
            }
        }
        i += 1;
    }
}

fn raw_ops<R: RootStatus>(gc: bool, depth: u32, n: usize, kinds: usize) {
    let mut db = DbI::default();
    let mut w = World::new(1, gc);
    let mut t = Raw::<R, CI>::default();
    let mut used = Vec::new();
    for k in 0..n {
        let i = 1 + sym::choose((2 << depth) - 1);
        let v = pick_value(&w, &mut used, kinds, depth);
        let before: Vec<Option<V>> = (1..2u64 << depth).map(|j| w.get(t.root(), j)).collect();
        sym::check(t.set(&mut db, at(i), v) == Ok(()), "C03.set_ok");
        w.set(0, i, v);
        let root = w.roots[0].unwrap();
        if k + 1 == n {
            sym::cover("done");
            check_tree(&w, &t, &mut db, root, depth);
            // frame, stated directly
            sym::check(t.get(&mut db, at(i)) == Ok(Some(v)), "C03.written");
            let mut j = 1;
            while j < 2 << depth {
                let (jl, il) = (63 - u64::leading_zeros(j), 63 - u64::leading_zeros(i));
                let related = if jl <= il { i >> (il - jl) == j } else { j >> (jl - il) == i };
                if !related {
                    match before[j as usize - 1] {
                        Some(b) => { sym::cover("frame"); sym::check(t.get(&mut db, at(j)) == Ok(Some(b)), "C03.frame") }
                        None => match t.get(&mut db, at(j)) { Ok(None) => {}, Ok(Some(x)) => sym::check(kinds > 3 || x == V::default(), "C03.frame_new"), _ => sym::fail("C03.frame_err") }
                    }
                }
                j += 1;
            }
        }
    }
}

/// param 0: depth, 1: writes, 2: value kinds (1 fresh only .. 4 all), 3: owned/dangling
pub fn h_raw() {
    let (d, n, k) = (sym::param(0) as u32, sym::param(1) as usize, sym::param(2) as usize);
    if sym::param(3) == 0 { raw_ops::<Owned>(true, d, n, k) } else { raw_ops::<Dangling>(false, d, n, k) }
}

/// Order independence and subtree handles, on two writes to unrelated positions.
pub fn h_raw_sub() {
    let d = sym::param(0) as u32;
    let i = 1 + sym::choose((2 << d) - 1);
    let j = 1 + sym::choose((2 << d) - 1);
    let (il, jl) = (63 - u64::leading_zeros(i), 63 - u64::leading_zeros(j));
    sym::assume(if jl <= il { i >> (il - jl) != j } else { j >> (jl - il) != i });
    let (x, y) = (leaf(), leaf());
    let mut d1 = DbI::default();
    let mut d2 = DbI::default();
    let mut a = Raw::<Owned, CI>::default();
    let mut b = Raw::<Owned, CI>::default();
    sym::check(a.set(&mut d1, at(i), x).is_ok() && a.set(&mut d1, at(j), y).is_ok(), "C03.set_ok");
    sym::check(b.set(&mut d2, at(j), y).is_ok() && b.set(&mut d2, at(i), x).is_ok(), "C03.set_ok");
    sym::cover("order");
    sym::check(a.root() == b.root(), "C03.order");
    sym::check(d1.as_ref() == d2.as_ref(), "C03.order_store");
    // subtree handles denote the node, dangling copies the tree
    let s = 1 + sym::choose((2 << d) - 1);
    let k = 1 + sym::choose((2 << d) - 1);
    match (a.get(&mut d1, at(s)), a.subtree(&mut d1, at(s))) {
        (Ok(Some(v)), Ok(t)) => {
            sym::check(t.root() == v, "C03,C11.subtree_root");
            sym::check(t.get(&mut d1, at(k)) == a.get(&mut d1, at(s).sub(at(k))), "C03,C11.subtree_get");
            sym::cover("subtree");
        }
        (Ok(None), Err(Error::CorruptedDatabase)) => sym::cover("no subtree"),
        _ => sym::fail("C03,C11.subtree"),
    }
    let c = a.as_dangling();
    sym::check(c.root() == a.root() && c.get(&mut d1, at(k)) == a.get(&mut d1, at(k)), "C03,C11.as_dangling");
}

/// Several owned trees in one store: create, write, share, drop.
/// param 0: trees, 1: depth, 2: operations, 3: value kinds
pub fn h_gc() {
    let (nt, d, n, kinds) = (sym::param(0) as usize, sym::param(1) as u32, sym::param(2) as usize, sym::param(3) as usize);
    let mut db = DbI::default();
    let mut w = World::new(nt, true);
    let mut ts: Vec<Option<OwnedRaw<CI>>> = (0..nt).map(|_| Some(Raw::default())).collect();
    let mut used = Vec::new();
    for _ in 0..n {
        let s = sym::pick(nt);
        // the last choice drops the tree
        let i = 1 + sym::choose(2 << d);
        if i == 2 << d {
            match ts[s].take() {
                Some(t) => { sym::check(t.drop(&mut db) == Ok(()), "C04.drop_ok"); sym::cover("drop"); }
                None => { ts[s] = Some(Raw::default()); w.roots[s] = Some(V::default()); sym::cover("recreate"); continue; }
            }
            w.roots[s] = None;
            w.collect();
        } else {
            sym::assume(ts[s].is_some());
            let v = pick_value(&w, &mut used, kinds, d);
            sym::check(ts[s].as_mut().unwrap().set(&mut db, at(i), v) == Ok(()), "C04.set_ok");
            w.set(s, i, v);
        }
    }
    sym::cover("end");
    // handles that own nothing come and go
    for s in 0..nt {
        if let Some(t) = &ts[s] {
            sym::check(t.as_dangling().drop(&mut db) == Ok(()), "C04.drop_dangling");
            if let Ok(u) = t.subtree(&mut db, at(2)) { sym::check(u.drop(&mut db) == Ok(()), "C04.drop_dangling"); }
        }
    }
    check_store(&db, &w.expected(), true);
    for s in 0..nt {
        if let (Some(t), Some(r)) = (&ts[s], w.roots[s]) { check_tree(&w, t, &mut db, r, d + 1); }
    }
    // dropping the rest leaves the initial store
    for s in 0..nt {
        if let Some(t) = ts[s].take() { sym::check(t.drop(&mut db) == Ok(()), "C04.drop_ok"); }
    }
    sym::check(db.as_ref().len() == 1 && db.as_ref().get(&V::default()) == Some(&(None, None)), "C05.empty_after_drop");
}
