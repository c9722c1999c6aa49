//! Hash-consed bit-vector expressions with aggressive local simplification and
//! a free (collision-free, uninterpreted) hash constructor.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K { Const, Var, Hash, Not, And, Or, Xor, Add, Sub, Mul, Udiv, Urem, Sdiv, Srem, Shl, Lshr, Ashr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, Sext }

/// a,b,c: children (or payload); k: constant payload.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub k: K, pub w: u32, pub a: u32, pub b: u32, pub c: u32, pub v: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub has_hash: Vec<bool>,
    map: FxMap<Node, E>,
    /// hash argument lists: (64-bit words, byte length)
    pub hargs: Vec<(Vec<E>, u32)>,
    hmap: HashMap<(Vec<E>, u32), u32>,
    /// equality of two hash argument lists
    heq: FxMap<(u32, u32), E>,
    pub nvars: u32,
    pub var_names: Vec<String>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx { nodes: vec![], has_hash: vec![], map: Default::default(), hargs: vec![], hmap: Default::default(), heq: Default::default(), nvars: 0, var_names: vec![] }));
        }
        &mut *CTX
    }
}

impl Ctx {
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let e = self.nodes.len() as E;
        let h = match n.k {
            K::Const | K::Var => false,
            K::Hash => true,
            K::Not | K::Extract | K::Sext => self.has_hash[n.a as usize],
            K::Ite => self.has_hash[n.a as usize] || self.has_hash[n.b as usize] || self.has_hash[n.c as usize],
            _ => self.has_hash[n.a as usize] || self.has_hash[n.b as usize],
        };
        self.nodes.push(n);
        self.has_hash.push(h);
        self.map.insert(n, e);
        e
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        if w > 128 { // wide constants are concatenations
            let hi = self.konst(w - 128, 0);
            let lo = self.konst(128, v);
            return self.mk(Node { k: K::Concat, w, a: hi, b: lo, c: 0, v: 0 });
        }
        self.mk(Node { k: K::Const, w, a: 0, b: 0, c: 0, v: mask(w, v) })
    }
    pub fn tt(&mut self) -> E { self.konst(1, 1) }
    pub fn ff(&mut self) -> E { self.konst(1, 0) }
    #[inline] pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.k == K::Const { Some(n.v) } else { None } }
    pub fn var(&mut self, w: u32, name: String) -> E {
        let id = self.nvars; self.nvars += 1; self.var_names.push(name);
        self.mk(Node { k: K::Var, w, a: id, b: 0, c: 0, v: 0 })
    }
    pub fn hash_word(&mut self, args: &[E], nbytes: u32, outw: u32, idx: u32, outlen: u32) -> E {
        let key = (args.to_vec(), nbytes);
        let id = match self.hmap.get(&key) { Some(i) => *i, None => { let i = self.hargs.len() as u32; self.hargs.push(key.clone()); self.hmap.insert(key, i); i } };
        self.mk(Node { k: K::Hash, w: outw, a: id, b: idx, c: outlen, v: 0 })
    }
    fn bin(&mut self, k: K, w: u32, a: E, b: E) -> E { self.mk(Node { k, w, a, b, c: 0, v: 0 }) }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.k {
            K::Const => self.konst(n.w, !n.v),
            K::Not => n.a,
            _ => self.mk(Node { k: K::Not, w: n.w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.n(a);
        let w = hi - lo + 1;
        if w == n.w { return a; }
        match n.k {
            K::Const => self.konst(w, n.v >> lo),
            K::Extract => self.extract(n.a, hi + n.c, lo + n.c),
            K::Concat => {
                let bw = self.w(n.b);
                if lo >= bw { self.extract(n.a, hi - bw, lo - bw) }
                else if hi < bw { self.extract(n.b, hi, lo) }
                else { let h = self.extract(n.a, hi - bw, 0); let l = self.extract(n.b, bw - 1, lo); self.concat(h, l) }
            }
            K::Ite => { let t = self.extract(n.b, hi, lo); let f = self.extract(n.c, hi, lo); self.ite(n.a, t, f) }
            K::Not => { let x = self.extract(n.a, hi, lo); self.not(x) }
            K::And | K::Or | K::Xor => { let x = self.extract(n.a, hi, lo); let y = self.extract(n.b, hi, lo); match n.k { K::And => self.and(x, y), K::Or => self.or(x, y), _ => self.xor(x, y) } }
            K::Add | K::Sub | K::Mul if lo == 0 => { let x = self.extract(n.a, hi, 0); let y = self.extract(n.b, hi, 0); match n.k { K::Add => self.add(x, y), K::Sub => self.sub(x, y), _ => self.mul(x, y) } }
            K::Sext => { let iw = self.w(n.a); if hi < iw { self.extract(n.a, hi, lo) } else { self.mk(Node { k: K::Extract, w, a, b: hi, c: lo, v: 0 }) } }
            _ => self.mk(Node { k: K::Extract, w, a, b: hi, c: lo, v: 0 }),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w + ln.w;
        if hn.k == K::Const && ln.k == K::Const && w <= 128 { return self.konst(w, (hn.v << ln.w) | ln.v); }
        if hn.k == K::Concat { let t = self.concat(hn.b, l); return self.concat(hn.a, t); }
        // h is not a concat
        let (first, rest) = if ln.k == K::Concat { (ln.a, Some(ln.b)) } else { (l, None) };
        if let Some(m) = self.merge(h, first) {
            return match rest { Some(r) => self.concat(m, r), None => m };
        }
        self.mk(Node { k: K::Concat, w, a: h, b: l, c: 0, v: 0 })
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        let (hn, ln) = (self.n(h), self.n(l));
        match (hn.k, ln.k) {
            (K::Const, K::Const) if hn.w + ln.w <= 128 => Some(self.konst(hn.w + ln.w, (hn.v << ln.w) | ln.v)),
            (K::Extract, K::Extract) if hn.a == ln.a && hn.c == ln.b + 1 => Some(self.extract(hn.a, hn.b, ln.c)),
            (K::Ite, K::Ite) if hn.a == ln.a => { let t = self.concat(hn.b, ln.b); let f = self.concat(hn.c, ln.c); Some(self.ite(hn.a, t, f)) }
            _ => None,
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        let z = self.konst(w - aw, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        if n.k == K::Const { return self.konst(w, sext(n.w, n.v) as u128); }
        if n.k == K::Concat { if let Some(c) = self.cv(n.a) { let hw = self.w(n.a); if (c >> (hw - 1)) & 1 == 0 { return self.zext(a, w); } } }
        self.mk(Node { k: K::Sext, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E { self.extract(a, w - 1, 0) }

    /// flatten into (expr, width) from high to low
    fn segs(&self, e: E) -> Vec<E> {
        let mut v = Vec::new();
        let mut cur = e;
        loop { let n = self.n(cur); if n.k == K::Concat { v.push(n.a); cur = n.b; } else { v.push(cur); break; } }
        v
    }
    fn cuts(&self, e: E, out: &mut Vec<u32>) { // bit positions (from low) of segment boundaries
        let w = self.w(e);
        let mut p = w;
        for s in self.segs(e) { out.push(p); p -= self.w(s); }
    }
    fn split2(&mut self, a: E, b: E) -> Vec<(E, E)> {
        let mut c = vec![];
        self.cuts(a, &mut c); self.cuts(b, &mut c);
        c.sort(); c.dedup(); c.reverse();
        let mut r = vec![];
        for i in 0..c.len() {
            let hi = c[i] - 1; let lo = if i + 1 < c.len() { c[i + 1] } else { 0 };
            let x = self.extract(a, hi, lo); let y = self.extract(b, hi, lo);
            r.push((x, y));
        }
        r
    }
    fn is_concat(&self, e: E) -> bool { self.n(e).k == K::Concat }

    pub fn and(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x & y); }
            if y == 0 { return b; }
            if y == mask(w, !0) { return a; }
            if w > 1 {
                // contiguous runs of the mask
                let mut runs = vec![]; // (hi, lo, bit)
                let mut i = 0;
                while i < w { let bit = (y >> i) & 1; let mut j = i; while j + 1 < w && (y >> (j + 1)) & 1 == bit { j += 1; } runs.push((j, i, bit)); i = j + 1; }
                if runs.len() <= 4 {
                    let mut r: Option<E> = None;
                    for (hi, lo, bit) in runs { let s = if bit == 1 { self.extract(a, hi, lo) } else { self.konst(hi - lo + 1, 0) }; r = Some(match r { None => s, Some(x) => self.concat(s, x) }); }
                    return r.unwrap();
                }
            }
            if self.n(a).k == K::Ite { let n = self.n(a); if self.cv(n.b).is_some() && self.cv(n.c).is_some() { let t = self.and(n.b, b); let f = self.and(n.c, b); return self.ite(n.a, t, f); } }
        }
        if w > 1 && (self.is_concat(a) || self.is_concat(b)) {
            let ps = self.split2(a, b);
            let useful = ps.iter().any(|(x, y)| self.cv(*x).is_some() || self.cv(*y).is_some());
            if useful && ps.len() > 1 { return self.piecewise(ps, 0); }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b { return self.ff(); }
            // absorption in small conjunctions
            let bn = self.n(b); if bn.k == K::And && (bn.a == a || bn.b == a) { return b; }
            let an = self.n(a); if an.k == K::And && (an.a == b || an.b == b) { return a; }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(K::And, w, a, b)
    }
    fn piecewise(&mut self, ps: Vec<(E, E)>, op: u8) -> E {
        let mut r: Option<E> = None;
        for (x, y) in ps.into_iter().rev() {
            let s = match op { 0 => self.and(x, y), 1 => self.or(x, y), _ => self.xor(x, y) };
            r = Some(match r { None => s, Some(l) => self.concat(s, l) });
        }
        r.unwrap()
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x | y); }
            if y == 0 { return a; }
            if y == mask(w, !0) { return b; }
        }
        if w > 1 && (self.is_concat(a) || self.is_concat(b)) {
            let ps = self.split2(a, b);
            let useful = ps.iter().any(|(x, y)| self.cv(*x).is_some() || self.cv(*y).is_some());
            if useful && ps.len() > 1 { return self.piecewise(ps, 1); }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b { return self.tt(); }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(K::Or, w, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0); }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x ^ y); }
            if y == 0 { return a; }
            if y == mask(w, !0) { return self.not(a); }
        }
        if w > 1 && (self.is_concat(a) || self.is_concat(b)) {
            let ps = self.split2(a, b);
            let useful = ps.iter().any(|(x, y)| self.cv(*x).is_some() || self.cv(*y).is_some());
            if useful && ps.len() > 1 { return self.piecewise(ps, 2); }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(K::Xor, w, a, b)
    }
    fn ite_const_arms(&self, e: E) -> bool { let n = self.n(e); n.k == K::Ite && self.constish(n.b, 6) && self.constish(n.c, 6) }
    fn constish(&self, e: E, d: u32) -> bool { let n = self.n(e); match n.k { K::Const => true, K::Ite if d > 0 => self.constish(n.b, d - 1) && self.constish(n.c, d - 1), _ => false } }

    pub fn add(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x.wrapping_add(y)); }
            if y == 0 { return a; }
            let n = self.n(a);
            if n.k == K::Add { if let Some(z) = self.cv(n.b) { let c = self.konst(w, z.wrapping_add(y)); return self.add(n.a, c); } }
            if self.ite_const_arms(a) { let t = self.add(n.b, b); let f = self.add(n.c, b); return self.ite(n.a, t, f); }
            return self.bin(K::Add, w, a, b);
        }
        // move constants outward
        let an = self.n(a);
        if an.k == K::Add && self.cv(an.b).is_some() { let s = self.add(an.a, b); return self.add(s, an.b); }
        let bn = self.n(b);
        if bn.k == K::Add && self.cv(bn.b).is_some() { let s = self.add(a, bn.a); return self.add(s, bn.b); }
        if bn.k == K::Sub && bn.b == a { return bn.a; }
        if an.k == K::Sub && an.b == b { return an.a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(K::Add, w, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0); }
        if let Some(y) = self.cv(b) { let c = self.konst(w, y.wrapping_neg()); return self.add(a, c); }
        let bn = self.n(b);
        if bn.k == K::Add { if let Some(c) = self.cv(bn.b) { let s = self.sub(a, bn.a); let m = self.konst(w, c.wrapping_neg()); return self.add(s, m); } }
        let an = self.n(a);
        if an.k == K::Add {
            if an.a == b { return an.b; }
            if an.b == b { return an.a; }
            if let Some(_) = self.cv(an.b) { let s = self.sub(an.a, b); return self.add(s, an.b); }
        }
        self.bin(K::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x.wrapping_mul(y)); }
            if y == 0 { return b; }
            if y == 1 { return a; }
            if y.is_power_of_two() { let k = y.trailing_zeros(); let c = self.konst(w, k as u128); return self.shl(a, c); }
            let n = self.n(a);
            if self.ite_const_arms(a) { let t = self.mul(n.b, b); let f = self.mul(n.c, b); return self.ite(n.a, t, f); }
            return self.bin(K::Mul, w, a, b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(K::Mul, w, a, b)
    }
    pub fn divrem(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let r = match k {
                    K::Udiv => x / y, K::Urem => x % y,
                    K::Sdiv => (sext(w, x).wrapping_div(sext(w, y))) as u128,
                    _ => (sext(w, x).wrapping_rem(sext(w, y))) as u128,
                };
                return self.konst(w, r);
            }
        }
        if let Some(y) = self.cv(b) {
            if k == K::Udiv && y == 1 { return a; }
            if y.is_power_of_two() {
                let s = y.trailing_zeros();
                if k == K::Udiv { let c = self.konst(w, s as u128); return self.lshr(a, c); }
                if k == K::Urem { let m = self.konst(w, y - 1); return self.and(a, m); }
            }
        }
        self.bin(k, w, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.konst(w, 0); }
            let s = s as u32;
            let h = self.extract(a, w - 1 - s, 0); let z = self.konst(s, 0);
            return self.concat(h, z);
        }
        self.bin(K::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.konst(w, 0); }
            let s = s as u32;
            let l = self.extract(a, w - 1, s);
            return self.zext(l, w);
        }
        self.bin(K::Lshr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            let s = s.min(w as u128 - 1) as u32;
            let l = self.extract(a, w - 1, s);
            return self.sext(l, w);
        }
        self.bin(K::Ashr, w, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tt(); }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let (an, bn) = (self.n(a), self.n(b));
        let w = an.w;
        if an.k == K::Const && bn.k == K::Const { return if an.v == bn.v { self.tt() } else { self.ff() }; }
        if w == 1 {
            if bn.k == K::Const { return if bn.v == 1 { a } else { self.not(a) }; }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if an.k == K::Hash && bn.k == K::Hash {
            if an.c != bn.c || an.b != bn.b || an.w != bn.w { return self.ff(); }
            let key = if an.a < bn.a { (an.a, bn.a) } else { (bn.a, an.a) };
            if let Some(r) = self.heq.get(&key) { return *r; }
            let (x, y) = (self.hargs[an.a as usize].clone(), self.hargs[bn.a as usize].clone());
            if x.1 != y.1 { return self.ff(); }
            let mut r = self.tt();
            for i in 0..x.0.len() { let e = self.eq(x.0[i], y.0[i]); r = self.and(r, e); if self.cv(r) == Some(0) { break; } }
            self.heq.insert(key, r);
            return r;
        }
        // a digest never equals anything that was not produced by hashing
        if an.k == K::Hash && !self.has_hash[b as usize] { return self.ff(); }
        if bn.k == K::Hash && !self.has_hash[a as usize] { return self.ff(); }
        // ite distribution
        if an.k == K::Ite && (bn.k == K::Const || self.has_hash[a as usize] || self.has_hash[b as usize]) {
            let t = self.eq(an.b, b); let f = self.eq(an.c, b); return self.ite(an.a, t, f);
        }
        if bn.k == K::Ite && (self.has_hash[a as usize] || self.has_hash[b as usize]) {
            let t = self.eq(a, bn.b); let f = self.eq(a, bn.c); return self.ite(bn.a, t, f);
        }
        if bn.k == K::Const {
            match an.k {
                K::Xor if bn.v == 0 => return self.eq(an.a, an.b),
                K::Sub if bn.v == 0 => return self.eq(an.a, an.b),
                K::Not => { let c = self.konst(w, !bn.v); return self.eq(an.a, c); }
                K::Add => if let Some(c) = self.cv(an.b) { let k = self.konst(w, bn.v.wrapping_sub(c)); return self.eq(an.a, k); },
                K::Xor => if let Some(c) = self.cv(an.b) { let k = self.konst(w, bn.v ^ c); return self.eq(an.a, k); },
                K::Or if bn.v == 0 => { let x = self.eq(an.a, b); let y = self.eq(an.b, b); return self.and(x, y); }
                K::Sext => { let iw = self.w(an.a); let lo = mask(iw, bn.v); if mask(w, sext(iw, lo) as u128) == bn.v { let k = self.konst(iw, lo); return self.eq(an.a, k); } else { return self.ff(); } }
                _ => {}
            }
        }
        let ac = self.is_concat(a); let bc = self.is_concat(b);
        if (ac && (bc || bn.k == K::Const)) || (bc && an.k == K::Const) {
            let ps = self.split2(a, b);
            if ps.len() > 1 {
                let mut r = self.tt();
                for (x, y) in ps { let e = self.eq(x, y); r = self.and(r, e); if self.cv(r) == Some(0) { break; } }
                return r;
            }
        }
        if (ac && self.segs(a).iter().any(|s| self.cv(*s).is_some() || self.n(*s).k == K::Hash)) || (bc && self.segs(b).iter().any(|s| self.cv(*s).is_some() || self.n(*s).k == K::Hash)) {
            let ps = self.split2(a, b);
            let mut r = self.tt();
            for (x, y) in ps { let e = if x == a && y == b { let (p, q) = if x < y { (x, y) } else { (y, x) }; self.bin(K::Eq, 1, p, q) } else { self.eq(x, y) }; r = self.and(r, e); if self.cv(r) == Some(0) { break; } }
            return r;
        }
        if an.k == K::Add && bn.k == K::Add && an.b == bn.b { return self.eq(an.a, bn.a); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(K::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.ff(); }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return if x < y { self.tt() } else { self.ff() },
            (_, Some(0)) => return self.ff(),
            (_, Some(1)) => { let z = self.konst(w, 0); return self.eq(a, z); }
            (Some(x), _) if x == mask(w, !0) => return self.ff(),
            (Some(0), _) => { let z = self.konst(w, 0); let e = self.eq(b, z); return self.not(e); }
            _ => {}
        }
        let (an, bn) = (self.n(a), self.n(b));
        // zero-extended operands
        let az = if an.k == K::Concat && self.cv(an.a) == Some(0) { self.w(an.a) } else { 0 };
        if az > 0 {
            if let Some(y) = self.cv(b) {
                let lw = w - az;
                if lw < 128 && y >> lw != 0 { return self.tt(); }
                let c = self.konst(lw, y);
                return self.ult(an.b, c);
            }
            let bz = if bn.k == K::Concat && self.cv(bn.a) == Some(0) { self.w(bn.a) } else { 0 };
            if bz == az { return self.ult(an.b, bn.b); }
        }
        let bz = if bn.k == K::Concat && self.cv(bn.a) == Some(0) { self.w(bn.a) } else { 0 };
        if bz > 0 { if let Some(x) = self.cv(a) {
            let lw = w - bz;
            if lw < 128 && x >> lw != 0 { return self.ff(); }
            let c = self.konst(lw, x);
            return self.ult(c, bn.b);
        } }
        if self.cv(b).is_some() && self.ite_const_arms(a) { let t = self.ult(an.b, b); let f = self.ult(an.c, b); return self.ite(an.a, t, f); }
        if self.cv(a).is_some() && self.ite_const_arms(b) { let t = self.ult(a, bn.b); let f = self.ult(a, bn.c); return self.ite(bn.a, t, f); }
        self.bin(K::Ult, 1, a, b)
    }
    /// e with the one-bit term c replaced by a constant (hash arguments are left alone)
    pub fn subst(&mut self, e: E, c: E, val: u128, memo: &mut FxMap<E, E>) -> E {
        if e == c { return self.konst(1, val); }
        if e < c { return e; } // terms are numbered after their parts
        if let Some(r) = memo.get(&e) { return *r; }
        let n = self.n(e);
        let r = match n.k {
            K::Const | K::Var | K::Hash => e,
            K::Not | K::Extract | K::Sext => {
                let a = self.subst(n.a, c, val, memo);
                if a == n.a { e } else { match n.k { K::Not => self.not(a), K::Extract => self.extract(a, n.b, n.c), _ => self.sext(a, n.w) } }
            }
            K::Ite => {
                let x = self.subst(n.a, c, val, memo);
                if let Some(v) = self.cv(x) { let k = if v == 1 { n.b } else { n.c }; self.subst(k, c, val, memo) } else {
                    let y = self.subst(n.b, c, val, memo); let z = self.subst(n.c, c, val, memo);
                    if x == n.a && y == n.b && z == n.c { e } else { self.ite(x, y, z) }
                }
            }
            _ => {
                let a = self.subst(n.a, c, val, memo); let b = self.subst(n.b, c, val, memo);
                if a == n.a && b == n.b { e } else { match n.k {
                    K::And => self.and(a, b), K::Or => self.or(a, b), K::Xor => self.xor(a, b), K::Add => self.add(a, b), K::Sub => self.sub(a, b), K::Mul => self.mul(a, b),
                    K::Udiv | K::Urem | K::Sdiv | K::Srem => self.divrem(n.k, a, b), K::Shl => self.shl(a, b), K::Lshr => self.lshr(a, b), K::Ashr => self.ashr(a, b),
                    K::Eq => self.eq(a, b), K::Ult => self.ult(a, b), K::Ule => self.ule(a, b), K::Slt => self.slt(a, b), K::Sle => self.sle(a, b), _ => self.concat(a, b),
                } }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.ff(); }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if sext(w, x) < sext(w, y) { self.tt() } else { self.ff() }; }
        // sign test against zero
        if self.cv(b) == Some(0) { let s = self.extract(a, w - 1, w - 1); return s; }
        if self.cv(a) == Some(mask(w, !0)) { let s = self.extract(b, w - 1, w - 1); return self.not(s); }
        let sa = self.extract(a, w - 1, w - 1); let sb = self.extract(b, w - 1, w - 1);
        if let (Some(x), Some(y)) = (self.cv(sa), self.cv(sb)) { if x == y { return self.ult(a, b); } return if x == 1 { self.tt() } else { self.ff() }; }
        self.bin(K::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f { return t; }
        match self.cv(c) { Some(1) => return t, Some(_) => return f, None => {} }
        let w = self.w(t);
        let cn = self.n(c);
        if cn.k == K::Not { return self.ite(cn.a, f, t); }
        if w == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, f),
                (Some(0), None) => { let n = self.not(c); return self.and(n, f); }
                (None, Some(1)) => { let n = self.not(c); return self.or(n, t); }
                (None, Some(0)) => return self.and(c, t),
                _ => {}
            }
        }
        let (tn, fne) = (self.n(t), self.n(f));
        if tn.k == K::Ite && tn.a == c { return self.ite(c, tn.b, f); }
        if fne.k == K::Ite && fne.a == c { return self.ite(c, t, fne.c); }
        // ite over {1,0}-valued wide results: zext(c)
        if w > 1 && w <= 128 { if let (Some(1), Some(0)) = (self.cv(t), self.cv(f)) { return self.zext(c, w); } }
        self.mk(Node { k: K::Ite, w, a: c, b: t, c: f, v: 0 })
    }
}

impl Ctx {
    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.k {
            K::Const => format!("{:#x}:{}", n.v, n.w),
            K::Var => format!("v{}:{}", n.a, n.w),
            K::Hash => { let (a, nb) = &self.hargs[n.a as usize]; format!("H{}.{}/{}({})", n.a, n.b, nb, a.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(" ")) }
            K::Not => format!("!{}", self.show(n.a)),
            K::Extract => format!("{}[{}:{}]", self.show(n.a), n.b, n.c),
            K::Sext => format!("sext{}({})", n.w, self.show(n.a)),
            K::Ite => format!("({} ? {} : {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            k => format!("({:?} {} {})", k, self.show(n.a), self.show(n.b)),
        }
    }
}
/// An assignment for variables and (leaked) hash words, with an evaluation cache.
pub struct Model {
    pub vars: FxMap<u32, u128>,
    pub hvals: HashMap<(Vec<u64>, u32, u32, u32), u64>,
    cache: std::cell::RefCell<FxMap<E, u128>>,
}

include!("digest.rs");

impl Model {
    pub fn new() -> Model { Model { vars: Default::default(), hvals: Default::default(), cache: Default::default() } }
    pub fn eval(&self, e: E) -> u128 {
        let c = cx();
        let n = c.n(e);
        if n.k == K::Const { return n.v; }
        if n.k == K::Var { return self.vars.get(&n.a).copied().unwrap_or(0); }
        if let Some(v) = self.cache.borrow().get(&e) { return *v; }
        let w = n.w;
        let r = match n.k {
            K::Hash => {
                let (args, nb) = c.hargs[n.a as usize].clone();
                let a: Vec<u64> = args.iter().map(|x| self.eval(*x) as u64).collect();
                match self.hvals.get(&(a.clone(), nb, n.b, n.c)) { Some(v) => *v as u128, None => mask(w, default_digest(&a, nb, n.b, n.c) as u128) }
            }
            K::Not => mask(w, !self.eval(n.a)),
            K::And => self.eval(n.a) & self.eval(n.b),
            K::Or => self.eval(n.a) | self.eval(n.b),
            K::Xor => self.eval(n.a) ^ self.eval(n.b),
            K::Add => mask(w, self.eval(n.a).wrapping_add(self.eval(n.b))),
            K::Sub => mask(w, self.eval(n.a).wrapping_sub(self.eval(n.b))),
            K::Mul => mask(w, self.eval(n.a).wrapping_mul(self.eval(n.b))),
            K::Udiv => { let y = self.eval(n.b); if y == 0 { mask(w, !0) } else { self.eval(n.a) / y } }
            K::Urem => { let y = self.eval(n.b); let x = self.eval(n.a); if y == 0 { x } else { x % y } }
            K::Sdiv => { let y = sext(w, self.eval(n.b)); let x = sext(w, self.eval(n.a)); if y == 0 { if x >= 0 { mask(w, !0) } else { 1 } } else { mask(w, x.wrapping_div(y) as u128) } }
            K::Srem => { let y = sext(w, self.eval(n.b)); let x = sext(w, self.eval(n.a)); if y == 0 { mask(w, x as u128) } else { mask(w, x.wrapping_rem(y) as u128) } }
            K::Shl => { let s = self.eval(n.b); if s >= w as u128 { 0 } else { mask(w, self.eval(n.a) << s) } }
            K::Lshr => { let s = self.eval(n.b); if s >= w as u128 { 0 } else { self.eval(n.a) >> s } }
            K::Ashr => { let s = self.eval(n.b).min(w as u128 - 1); mask(w, (sext(w, self.eval(n.a)) >> s) as u128) }
            K::Eq => (self.eval(n.a) == self.eval(n.b)) as u128,
            K::Ult => (self.eval(n.a) < self.eval(n.b)) as u128,
            K::Ule => (self.eval(n.a) <= self.eval(n.b)) as u128,
            K::Slt => { let iw = c.w(n.a); (sext(iw, self.eval(n.a)) < sext(iw, self.eval(n.b))) as u128 }
            K::Sle => { let iw = c.w(n.a); (sext(iw, self.eval(n.a)) <= sext(iw, self.eval(n.b))) as u128 }
            K::Ite => if self.eval(n.a) != 0 { self.eval(n.b) } else { self.eval(n.c) },
            K::Concat => { let lw = c.w(n.b); if w > 128 { panic!("eval of wide concat") } (self.eval(n.a) << lw) | self.eval(n.b) }
            K::Extract => { let iw = c.w(n.a); if iw > 128 { panic!("eval of wide extract") } mask(w, self.eval(n.a) >> n.c) }
            K::Sext => { let iw = c.w(n.a); mask(w, sext(iw, self.eval(n.a)) as u128) }
            K::Const | K::Var => unreachable!(),
        };
        self.cache.borrow_mut().insert(e, r);
        r
    }
    pub fn clear_cache(&self) { *self.cache.borrow_mut() = Default::default(); }
}
