//! Minimal binding to libz3 and the expression translator.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {}", e); std::process::exit(3); }

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Z3 {
    c: P,
    s: P,
    cache: HashMap<E, P>,
    /// asserted path-condition prefix, one scope each
    stack: Vec<E>,
    /// hash words that appear (leaked) in translated terms
    leak_cache: HashMap<E, std::rc::Rc<Vec<E>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    /// parameters with the whole time limit
    full: P,
    /// queries answered by a solver of their own, after the incremental one gave up
    pub fresh: u64,
    fresh_left: u32,
    pub dump: Option<(std::path::PathBuf, u64, u64)>,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 150.min(timeout_ms));
            Z3_solver_set_params(c, s, p);
            let full = Z3_mk_params(c);
            Z3_params_inc_ref(c, full);
            Z3_params_set_uint(c, full, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3 { c, s, cache: HashMap::new(), stack: vec![], leak_cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0, dump: None, full, fresh: 0, fresh_left: 0 }
        }
    }
    fn sort(&self, w: u32) -> P { unsafe { if w == 1 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w) } } }
    /// term as bit-vector even at width 1
    fn bv(&mut self, e: E) -> P {
        let a = self.tr(e);
        if cx().w(e) == 1 { unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = CString::new("1").unwrap(); let zero = CString::new("0").unwrap();
            let r = Z3_mk_ite(self.c, a, Z3_mk_numeral(self.c, one.as_ptr(), s), Z3_mk_numeral(self.c, zero.as_ptr(), s));
            
            r
        } } else { a }
    }
    fn tr(&mut self, e: E) -> P {
        if let Some(p) = self.cache.get(&e) { return *p; }
        let n = cx().n(e);
        let c = self.c;
        let r = unsafe {
            match n.k {
                K::Const => if n.w == 1 { if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { let s = CString::new(n.v.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), self.sort(n.w)) },
                K::Var => { let s = CString::new(format!("v{}", n.a)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(n.w)) }
                K::Hash => { let s = CString::new(format!("h{}_{}_{}", n.a, n.b, n.c)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(n.w)) }
                K::Not => { let a = self.tr(n.a); if n.w == 1 { Z3_mk_not(c, a) } else { Z3_mk_bvnot(c, a) } }
                K::And | K::Or | K::Xor if n.w == 1 => { let v = [self.tr(n.a), self.tr(n.b)]; match n.k { K::And => Z3_mk_and(c, 2, v.as_ptr()), K::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, v[0], v[1]) } }
                K::Eq => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_eq(c, a, b) }
                K::Ite => { let (a, b, d) = (self.tr(n.a), self.tr(n.b), self.tr(n.c)); Z3_mk_ite(c, a, b, d) }
                K::Concat => { let (a, b) = (self.bv(n.a), self.bv(n.b)); Z3_mk_concat(c, a, b) }
                K::Extract => { let a = self.bv(n.a); let x = Z3_mk_extract(c, n.b, n.c, a); if n.w == 1 { let s = Z3_mk_bv_sort(c, 1); let o = CString::new("1").unwrap(); Z3_mk_eq(c, x, Z3_mk_numeral(c, o.as_ptr(), s)) } else { x } }
                K::Sext => { let iw = cx().w(n.a); let a = self.bv(n.a); Z3_mk_sign_ext(c, n.w - iw, a) }
                _ => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    let x = match n.k {
                        K::And => Z3_mk_bvand(c, a, b), K::Or => Z3_mk_bvor(c, a, b), K::Xor => Z3_mk_bvxor(c, a, b),
                        K::Add => Z3_mk_bvadd(c, a, b), K::Sub => Z3_mk_bvsub(c, a, b), K::Mul => Z3_mk_bvmul(c, a, b),
                        K::Udiv => Z3_mk_bvudiv(c, a, b), K::Urem => Z3_mk_bvurem(c, a, b), K::Sdiv => Z3_mk_bvsdiv(c, a, b), K::Srem => Z3_mk_bvsrem(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b), K::Lshr => Z3_mk_bvlshr(c, a, b), K::Ashr => Z3_mk_bvashr(c, a, b),
                        K::Ult => Z3_mk_bvult(c, a, b), K::Ule => Z3_mk_bvule(c, a, b), K::Slt => Z3_mk_bvslt(c, a, b), K::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    };
                    if n.w == 1 && !matches!(n.k, K::Ult | K::Ule | K::Slt | K::Sle) { let s = Z3_mk_bv_sort(c, 1); let o = CString::new("1").unwrap(); Z3_mk_eq(c, x, Z3_mk_numeral(c, o.as_ptr(), s)) } else { x }
                }
            }
        };
        
        self.cache.insert(e, r);
        r
    }
    /// hash words occurring in e outside hash arguments
    fn leaked(&mut self, e: E) -> std::rc::Rc<Vec<E>> {
        let c = cx();
        if !c.has_hash[e as usize] { return std::rc::Rc::new(vec![]); }
        if let Some(v) = self.leak_cache.get(&e) { return v.clone(); }
        let n = c.n(e);
        let mut v = vec![];
        let kids: Vec<E> = match n.k { K::Hash => { v.push(e); vec![] } K::Not | K::Extract | K::Sext => vec![n.a], K::Ite => vec![n.a, n.b, n.c], _ => vec![n.a, n.b] };
        for k in kids { for x in self.leaked(k).iter() { if !v.contains(x) { v.push(*x); } } }
        let r = std::rc::Rc::new(v);
        self.leak_cache.insert(e, r.clone());
        r
    }
    fn sync(&mut self, pc: &[E]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] { k += 1; }
        let pop = self.stack.len() - k;
        unsafe {
            if pop > 0 { Z3_solver_pop(self.c, self.s, pop as c_uint); self.stack.truncate(k); }
            for e in &pc[k..] {
                let a = self.tr(*e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(*e);
            }
        }
    }
    /// check pc /\ q
    pub fn check(&mut self, pc: &[E], q: Option<E>, want_model: bool) -> (Res, Option<Model>) { self.check_apart(pc, q, want_model, false) }
    /// `apart`: digests, as bits, differ from whatever else is hashed in their place (always so for
    /// an ideal hash; left out at first because it is seldom needed)
    pub fn check_apart(&mut self, pc: &[E], q: Option<E>, want_model: bool, apart: bool) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        self.sync(pc);
        unsafe {
            Z3_solver_push(self.c, self.s);
            let mut extra: Vec<P> = vec![];
            if let Some(q) = q { extra.push(self.tr(q)); }
            // congruence / injectivity axioms for leaked digest words
            let mut leaks: Vec<E> = vec![];
            for e in pc.iter().chain(q.iter()) { for x in self.leaked(*e).iter() { if !leaks.contains(x) { leaks.push(*x); } } }
            let mut i = 0;
            while i < leaks.len() {
                for j in 0..i {
                    let (a, b) = (leaks[i], leaks[j]);
                    let same = cx().eq(a, b);
                    let (ta, tb) = (self.tr(a), self.tr(b));
                    if cx().w(a) != cx().w(b) { continue; }
                    let ts = self.tr(same);
                    for x in self.leaked(same).iter() { if !leaks.contains(x) { leaks.push(*x); } }
                    let ax = Z3_mk_eq(self.c, ts, Z3_mk_eq(self.c, ta, tb));
                    extra.push(ax);
                    if apart {
                        let (na, nb) = (cx().n(a), cx().n(b));
                        let (x, y) = (cx().hargs[na.a as usize].clone(), cx().hargs[nb.a as usize].clone());
                        if na.a != nb.a && na.b == nb.b && na.c == nb.c && x.1 == y.1 && x.0.len() == y.0.len() {
                            let mut bits: Vec<P> = vec![];
                            for k in 0..x.0.len() { let (p, q) = (self.bv(x.0[k]), self.bv(y.0[k])); bits.push(Z3_mk_eq(self.c, p, q)); }
                            bits.push(Z3_mk_not(self.c, ts));
                            extra.push(Z3_mk_not(self.c, Z3_mk_and(self.c, bits.len() as c_uint, bits.as_ptr())));
                        }
                    }
                }
                i += 1;
            }
            for a in &extra { Z3_solver_assert(self.c, self.s, *a); }
            let mut solver = self.s;
            let mut r = 0;
            if self.fresh_left == 0 { r = Z3_solver_check(self.c, self.s); } else { self.fresh_left -= 1; }
            if r == 0 {
                // not incremental: the solver may then preprocess the whole query
                if self.fresh_left == 0 { self.fresh_left = 40; }
                self.fresh += 1;
                let logic = CString::new("QF_BV").unwrap();
                solver = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, logic.as_ptr()));
                Z3_solver_inc_ref(self.c, solver);
                Z3_solver_set_params(self.c, solver, self.full);
                for e in pc { let a = self.tr(*e); Z3_solver_assert(self.c, solver, a); }
                for a in &extra { Z3_solver_assert(self.c, solver, *a); }
                if let Ok(f) = std::env::var("SYM_LASTQ") { let s = CStr::from_ptr(Z3_solver_to_string(self.c, solver)).to_string_lossy().into_owned(); let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s)); }
                r = Z3_solver_check(self.c, solver);
            }
            self.queries += 1;
            let res = match r { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            let mut model = None;
            if res == Res::Sat && want_model {
                let m = Z3_solver_get_model(self.c, solver);
                Z3_model_inc_ref(self.c, m);
                let mut md = Model::new();
                // variables in the support
                let mut seen: FxMap<E, ()> = Default::default();
                let mut st: Vec<E> = pc.iter().copied().chain(q.iter().copied()).collect();
                st.extend(leaks.iter().copied());
                while let Some(e) = st.pop() {
                    if seen.insert(e, ()).is_some() { continue; }
                    let n = cx().n(e);
                    match n.k {
                        K::Const => {}
                        K::Var => { let v = self.val(m, e); md.vars.insert(n.a, v); }
                        K::Hash => { for x in cx().hargs[n.a as usize].0.clone() { st.push(x); } }
                        K::Not | K::Extract | K::Sext => st.push(n.a),
                        K::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
                        _ => { st.push(n.a); st.push(n.b); }
                    }
                }
                // leaked digest words, innermost (smallest id) first
                let mut ls = leaks.clone();
                ls.sort();
                for h in ls {
                    let n = cx().n(h);
                    let v = self.val(m, h);
                    let (args, nb) = cx().hargs[n.a as usize].clone();
                    md.clear_cache();
                    let a: Vec<u64> = args.iter().map(|x| md.eval(*x) as u64).collect();
                    md.hvals.insert((a, nb, n.b, n.c), v as u64);
                }
                md.clear_cache();
                Z3_model_dec_ref(self.c, m);
                model = Some(md);
            }
            match res { Res::Sat => self.sat += 1, Res::Unsat => self.unsat += 1, _ => {} }
            if let Some((dir, every, max)) = &mut self.dump {
                if *max > 0 && (self.queries % *every == 0 || t0.elapsed().as_secs_f64() > 1.0) && res != Res::Unknown {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let f = dir.join(format!("q{}-{}.smt2", self.queries, if res == Res::Sat { "sat" } else { "unsat" }));
                    let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    *max -= 1;
                }
            }
            if solver != self.s { Z3_solver_dec_ref(self.c, solver); }
            Z3_solver_pop(self.c, self.s, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time { self.max_time = dt; }
            (res, model)
        }
    }
    fn val(&mut self, m: P, e: E) -> u128 {
        unsafe {
            let a = self.tr(e);
            let mut out: P = std::ptr::null_mut();
            Z3_model_eval(self.c, m, a, true, &mut out);
            
            if cx().w(e) == 1 { return (Z3_get_bool_value(self.c, out) == 1) as u128; }
            CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_str().unwrap().parse().unwrap()
        }
    }
}
