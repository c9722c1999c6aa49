//! Forking symbolic interpreter over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { I(u32, u128), S(E), A(Rc<Vec<V>>), None }

impl V {
    fn e(&self) -> E { match self { V::I(w, v) => cx().konst(*w, *v), V::S(e) => *e, V::None => panic!("use of undefined register"), V::A(_) => panic!("aggregate used as scalar") } }
    fn from_e(e: E) -> V { let n = cx().n(e); if n.k == K::Const { V::I(n.w, n.v) } else { V::S(e) } }
}

#[derive(Clone)]
pub struct Obj { size: u64, pages: Vec<Rc<Page>>, heap: bool }
/// Objects are kept in pages, shared between states until written. `sym` holds a term + 1 per byte, 0 where the byte is concrete.
#[derive(Clone)]
struct Page { data: Vec<u8>, sym: Option<Vec<u32>> }
const PAGE: usize = 512;
impl Obj {
    fn new(data: Vec<u8>, heap: bool) -> Obj { Obj { size: data.len() as u64, pages: data.chunks(PAGE).map(|d| Rc::new(Page { data: d.to_vec(), sym: None })).collect(), heap } }
    fn get(&self, i: usize) -> (u8, u32) { let p = &self.pages[i / PAGE]; (p.data[i % PAGE], p.sym.as_ref().map_or(0, |s| s[i % PAGE])) }
    fn put(&mut self, i: usize, k: u8, t: u32) {
        let p = Rc::make_mut(&mut self.pages[i / PAGE]);
        let i = i % PAGE;
        p.data[i] = k;
        match &mut p.sym { Some(s) => s[i] = t, None => if t != 0 { let mut s = vec![0; p.data.len()]; s[i] = t; p.sym = Some(s); } }
    }
}

#[derive(Clone)]
struct Frame { func: u32, regs: Vec<V>, block: u32, prev: u32, ip: usize, allocas: Vec<u32>, ret: Option<u32>}

#[derive(Clone)]
struct Input { kind: u8, exprs: Vec<E>, n: u32 }

#[derive(Clone)]
struct State {
    frames: Vec<Rc<Frame>>,
    mem: FxMap<u32, Rc<Obj>>,
    next: u32,
    pc: Vec<E>,
    conc: Rc<FxMap<E, u128>>,
    model: Rc<Model>,
    inputs: Rc<Vec<Input>>,
    obs: Rc<Vec<E>>,
    hashes: Rc<Vec<Rc<(Vec<E>, u32, Vec<E>)>>>,
    steps: u64,
    nchecks: u32,
    allow_panic: bool,
    depth: u32,
    nch: u32,
    pre: u64,
}

pub struct Witness { pub inputs: Vec<(u8, Vec<u8>)>, pub obs: Vec<u64>, pub hashes: Vec<(Vec<u8>, Vec<u8>)>, pub panics: bool, pub checks: u32 }
pub struct Violation { pub kind: String, pub id: String, pub wit: Witness, pub stack: Vec<String> }

#[derive(Default, Clone)]
pub struct CheckStat { pub obligations: u64, pub by_solver: u64, pub trivially: u64, pub violated: u64 }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    Nop, Memcpy, Memset, Memcmp(bool), Umax, Umin, Smax, Smin, Abs, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr,
    Ov(Bin, bool), Sat(Bin, bool), LoadRel, Tls, Expect, IsConst, Ptrmask, VRed(Bin), VRedMinMax(u8), Ucmp(bool),
    Alloc, AllocZ, Dealloc, Realloc, RandKeys, Assume, Trap,
    SymBytes, SymU64, SymRange, SymChoose, SymAssume, SymCheck, SymCover, SymParam, SymObserve, SymHash, SymConc, SymSame, SymExpectPanic,
    Panic, Unknown, StackSave, FalseRet, ObjSize,
}

/// Functions that are never entered even when their body is known: panics and the runtime.
pub fn intercepted(name: &str, noreturn: bool) -> bool { !matches!(classify(name, noreturn), Ext::Unknown) }
fn classify(name: &str, noreturn: bool) -> Ext {
    use Ext::*;
    match name {
        "sym_bytes" => return SymBytes, "sym_u64" => return SymU64, "sym_range" => return SymRange, "sym_choose" => return SymChoose,
        "sym_assume" => return SymAssume, "sym_check" => return SymCheck, "sym_cover" => return SymCover, "sym_param" => return SymParam,
        "sym_observe" => return SymObserve, "sym_hash" => return SymHash, "sym_concrete" => return SymConc, "sym_same" => return SymSame, "sym_expect_panic" => return SymExpectPanic,
        "memcpy" | "memmove" => return Memcpy, "memset" => return Memset, "memcmp" => return Memcmp(true), "bcmp" => return Memcmp(false),
        "abort" => return Trap,
        _ => {}
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        if p("memcpy") || p("memmove") { return Memcpy; }
        if p("memset") { return Memset; }
        if p("lifetime") || p("dbg") || p("experimental.noalias") || p("invariant") || p("prefetch") || p("donothing") || p("pseudoprobe") || p("var.annotation") || p("sideeffect") || p("stackrestore") { return Nop; }
        if p("stacksave") { return StackSave; }
        if p("assume") { return Assume; }
        if p("expect") || p("launder") || p("strip.invariant") { return Expect; }
        if p("is.constant") { return IsConst; }
        if p("objectsize") { return ObjSize; }
        if p("umax") { return Umax; } if p("umin") { return Umin; } if p("smax") { return Smax; } if p("smin") { return Smin; }
        if p("abs") { return Abs; } if p("ctlz") { return Ctlz; } if p("cttz") { return Cttz; } if p("ctpop") { return Ctpop; }
        if p("bswap") { return Bswap; } if p("bitreverse") { return Bitrev; } if p("fshl") { return Fshl; } if p("fshr") { return Fshr; }
        if p("uadd.with.overflow") { return Ov(Bin::Add, false); } if p("usub.with.overflow") { return Ov(Bin::Sub, false); } if p("umul.with.overflow") { return Ov(Bin::Mul, false); }
        if p("sadd.with.overflow") { return Ov(Bin::Add, true); } if p("ssub.with.overflow") { return Ov(Bin::Sub, true); } if p("smul.with.overflow") { return Ov(Bin::Mul, true); }
        if p("uadd.sat") { return Sat(Bin::Add, false); } if p("usub.sat") { return Sat(Bin::Sub, false); }
        if p("load.relative") { return LoadRel; } if p("threadlocal.address") { return Tls; } if p("ptrmask") { return Ptrmask; }
        if p("vector.reduce.or") { return VRed(Bin::Or); } if p("vector.reduce.and") { return VRed(Bin::And); } if p("vector.reduce.add") { return VRed(Bin::Add); } if p("vector.reduce.xor") { return VRed(Bin::Xor); }
        if p("vector.reduce.umax") { return VRedMinMax(0); } if p("vector.reduce.umin") { return VRedMinMax(1); }
        if p("ucmp") { return Ucmp(false); } if p("scmp") { return Ucmp(true); }
        if p("trap") || p("ubsantrap") { return Trap; }
        return Unknown;
    }
    if name.contains("___rust_no_alloc_shim") { return Nop; }
    if name.ends_with("___rust_alloc") { return Alloc; }
    if name.ends_with("___rust_alloc_zeroed") { return AllocZ; }
    if name.ends_with("___rust_dealloc") { return Dealloc; }
    if name.ends_with("___rust_realloc") { return Realloc; }
    if name.contains("hashmap_random_keys") { return RandKeys; }
    if name.contains("panic_count17is_zero_slow_path") { return FalseRet; }
    if noreturn { return Panic; }
    // hashbrown / raw_vec error paths that do not return in practice
    if name.contains("Fallibility17capacity_overflow") || name.contains("Fallibility9alloc_err") || name.contains("raw_vec12handle_error") || name.contains("17capacity_overflow") || name.contains("handle_alloc_error") || name.contains("core9panicking") || name.contains("unwrap_failed") || name.contains("expect_failed") { return Panic; }
    Unknown
}

pub struct Config { pub entry: String, pub params: Vec<u64>, pub max_time: f64, pub max_steps: u64, pub samples: usize, pub seed: u64, pub timeout_ms: u32, pub max_viol: usize, pub dump: Option<std::path::PathBuf>, pub shard: (u64, u64, u32), pub stop: Option<std::path::PathBuf>, pub grace: f64, pub max_mem: u64, pub prop: String, pub skip: Vec<String> }

pub struct Exec<'m> {
    m: &'m Module,
    ext: Vec<Ext>,
    consts: HashMap<u32, Rc<Obj>>,
    pub z3: Z3,
    pub cfg: Config,
    work: Vec<State>,
    pub paths: u64, pub forks: u64, pub steps: u64, pub killed: u64, pub max_depth: u32,
    pub checks: BTreeMap<String, CheckStat>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_count: u64,
    pub t0: Instant,
    /// set by the first violation that counts for the property: how long to go on after it
    pub grace_end: f64, ended: Option<String>,
    pub last_poll: f64,
    pub incomplete: Option<String>,
    pub samples: Vec<(u64, Witness)>,
    pub fn_seen: Vec<bool>,
    pub dbg_seen: Vec<bool>,
    pub panics_expected: u64,
    pub reached_check_paths: u64,
    in_vars: HashMap<(usize, u32), E>,
}

/// control flow of one instruction
enum Flow { Next, Jumped, End, Retry }
type R<T> = Result<T, Stop>;
#[derive(Debug)]
pub enum Stop { Kill, Bug(String, String), Engine(String), Done }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Config) -> Exec<'m> {
        let ext = m.funcs.iter().map(|f| if f.is_decl { classify(&f.name, f.noreturn) } else { Ext::Unknown }).collect();
        let mut consts = HashMap::new();
        for g in &m.globals {
            if g.constant && g.init.is_some() { consts.insert((g.addr >> OBJ_SHIFT) as u32, Rc::new(Obj::new({ let mut d = g.init.clone().unwrap(); d.resize(g.size as usize, 0); d }, false))); }
        }
        let mut z3 = Z3::new(cfg.timeout_ms);
        if let Some(d) = &cfg.dump { z3.dump = Some((d.clone(), 7, 40)); }
        Exec { m, ext, consts, z3, cfg, work: vec![], paths: 0, forks: 0, steps: 0, killed: 0, max_depth: 0, checks: BTreeMap::new(), covers: BTreeMap::new(), violations: vec![], viol_count: 0, t0: Instant::now(), grace_end: 1e18, ended: None, last_poll: 0.0, incomplete: None, samples: vec![], fn_seen: vec![false; m.funcs.len()], dbg_seen: vec![], panics_expected: 0, reached_check_paths: 0, in_vars: HashMap::new() }
    }

    pub fn run(&mut self) {
        self.t0 = Instant::now();
        let fi = match self.m.func_by_name.get(&self.cfg.entry) { Some(f) => *f, None => { self.incomplete = Some(format!("no function {}", self.cfg.entry)); return; } };
        let mut mem: FxMap<u32, Rc<Obj>> = Default::default();
        let mut next = 1;
        for g in &self.m.globals {
            let id = (g.addr >> OBJ_SHIFT) as u32;
            next = next.max(id + 1);
            if self.consts.contains_key(&id) { continue; }
            let data = g.init.clone().unwrap_or_else(|| vec![0; g.size.max(64) as usize]);
            mem.insert(id, Rc::new(Obj::new(data, false)));
        }
        let f = &self.m.funcs[fi as usize];
        let fr = Frame { func: fi, regs: vec![V::None; f.nregs as usize], block: 0, prev: 0, ip: 0, allocas: vec![], ret: None };
        let st = State { frames: vec![Rc::new(fr)], mem, next, pc: vec![], conc: Default::default(), model: Rc::new(Model::new()), inputs: Default::default(), obs: Default::default(), hashes: Default::default(), steps: 0, nchecks: 0, allow_panic: false, depth: 0, nch: 0, pre: 0 };
        self.fn_seen[fi as usize] = true;
        self.work.push(st);
        let mut nerr = 0;
        while let Some(mut st) = self.work.pop() {
            if let Some(e) = self.over() { self.incomplete = Some(format!("{} with {} states pending", e, self.work.len() + 1)); break; }
            if self.violations.len() >= self.cfg.max_viol { self.incomplete = Some("violation limit reached".into()); break; }
            let r = self.run_state(&mut st);
            self.max_depth = self.max_depth.max(st.depth);
            match r {
                Stop::Done => { self.paths += 1; if st.nchecks > 0 { self.reached_check_paths += 1; } self.sample(&st, false); }
                Stop::Kill => { self.killed += 1; }
                Stop::Bug(kind, id) => {
                    self.paths += 1;
                    if kind == "panic" && st.allow_panic { self.panics_expected += 1; self.sample(&st, true); }
                    else { self.report(&st, &kind, &id, None); }
                }
                Stop::Engine(e) => {
                    // this path is lost; the others are still worth exploring
                    nerr += 1;
                    if nerr == 1 { self.incomplete = Some(format!("{} at {:?}", e, self.stack(&st))); }
                    if nerr > 100 { break; }
                }
            }
        }
    }

    /// Is it time to stop? The time budget, some time after the first violation, or told to.
    fn over(&mut self) -> Option<String> {
        if self.ended.is_some() { return self.ended.clone(); }
        let t = self.t0.elapsed().as_secs_f64();
        if t > self.cfg.max_time { return Some(format!("time budget of {} s used up", self.cfg.max_time)); }
        if t > self.grace_end { return Some(format!("stopped {} s after a violation", self.cfg.grace)); }
        if t - self.last_poll > 0.5 {
            self.last_poll = t;
            let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|w| w.parse::<u64>().ok())).unwrap_or(0) >> 8;
            if rss > self.cfg.max_mem { self.ended = Some(format!("memory budget of {} MB used up", self.cfg.max_mem)); }
            if let Some(f) = &self.cfg.stop { if f.exists() { self.ended = Some("stopped: a violation was found elsewhere".into()); } }
        }
        self.ended.clone()
    }

    /// Does a violation count for the property of this run (see `mine` in check.py)?
    fn counts(&self, kind: &str, id: &str) -> bool {
        !self.cfg.skip.iter().any(|s| s == id) && (kind != "check" || self.mine(id))
    }
    /// Does this check decide the property the run is for?
    fn mine(&self, id: &str) -> bool {
        if self.cfg.prop.is_empty() { return true; }
        match id.split_once('.') {
            Some((p, _)) if p.split(',').all(|q| q.len() == 3 && q.starts_with('C') && q[1..].bytes().all(|c| c.is_ascii_digit())) => p.split(',').any(|q| q == self.cfg.prop),
            _ => true,
        }
    }

    fn sample(&mut self, st: &State, panics: bool) {
        if self.cfg.samples == 0 { return; }
        let key = mix(self.cfg.seed ^ mix(self.paths));
        if self.samples.len() < self.cfg.samples || key < self.samples.last().unwrap().0 {
            let w = self.witness(st, &st.model, panics);
            self.samples.push((key, w));
            self.samples.sort_by_key(|x| x.0);
            self.samples.truncate(self.cfg.samples);
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let fu = &self.m.funcs[f.func as usize];
            let b = &fu.blocks[f.block as usize];
            let i = f.ip.min(b.insts.len().saturating_sub(1));
            let d = b.insts.get(i).map(|x| x.dbg).unwrap_or(0);
            let mut locs = vec![];
            let mut cur = d;
            let mut guard = 0;
            while cur != 0 && guard < 12 {
                guard += 1;
                if let Some(l) = self.m.meta.get(&cur) {
                    if let Some(s) = self.loc_str(cur) { locs.push(s); }
                    cur = l.fields.get("inlinedAt").and_then(|x| x.trim_start_matches('!').parse().ok()).unwrap_or(0);
                } else { break; }
            }
            v.push(format!("{} [{}]", fu.name, locs.join(" < ")));
        }
        v
    }
    /// (file, line, function) of a DILocation
    pub fn loc(&self, id: u32) -> Option<(String, u32, String)> {
        let r = |s: &String| -> u32 { s.trim_start_matches('!').parse().unwrap_or(0) };
        let l = self.m.meta.get(&id)?;
        if l.kind != "DILocation" { return None; }
        let line: u32 = l.fields.get("line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut sc = l.fields.get("scope").map(r)?;
        let mut file = None;
        let mut name = String::new();
        for _ in 0..40 {
            let s = self.m.meta.get(&sc)?;
            if file.is_none() { if let Some(f) = s.fields.get("file") { file = self.m.meta.get(&r(f)).and_then(|x| x.fields.get("filename").map(|n| match x.fields.get("directory") { Some(d) if !n.starts_with('/') && !n.starts_with('<') => format!("{}/{}", d, n), _ => n.clone() })); } }
            if s.kind == "DISubprogram" { name = s.fields.get("name").cloned().unwrap_or_default(); if let Some(p) = s.fields.get("scope") { let mut q = r(p); let mut pre = vec![]; for _ in 0..6 { if let Some(x) = self.m.meta.get(&q) { if let Some(n) = x.fields.get("name") { pre.push(n.clone()); } q = x.fields.get("scope").map(r).unwrap_or(0); } } pre.reverse(); if !pre.is_empty() { name = format!("{}::{}", pre.join("::"), name); } } break; }
            sc = s.fields.get("scope").map(r)?;
        }
        Some((file.unwrap_or_default(), line, name))
    }
    fn loc_str(&self, id: u32) -> Option<String> { self.loc(id).map(|(f, l, _)| format!("{}:{}", f, l)) }

    fn witness(&self, st: &State, m: &Model, panics: bool) -> Witness {
        let mut inputs = vec![];
        for i in st.inputs.iter() {
            let mut b = vec![];
            for e in &i.exprs { let w = cx().w(*e) / 8; let v = m.eval(*e); for k in 0..w { b.push((v >> (8 * k)) as u8); } }
            b.truncate(i.n as usize);
            inputs.push((i.kind, b));
        }
        let obs = st.obs.iter().map(|e| m.eval(*e) as u64).collect();
        let mut hashes = vec![];
        for h in st.hashes.iter() {
            let (a, n, o) = &**h;
            let mut ab = vec![]; for e in a { let v = m.eval(*e); let w = cx().w(*e) / 8; for k in 0..w { ab.push((v >> (8 * k)) as u8); } }
            ab.truncate(*n as usize);
            let mut ob = vec![]; for e in o { let v = m.eval(*e); for k in 0..8 { ob.push((v >> (8 * k)) as u8); } }
            hashes.push((ab, ob));
        }
        Witness { inputs, obs, hashes, panics, checks: st.nchecks }
    }

    fn report(&mut self, st: &State, kind: &str, id: &str, model: Option<&Model>) {
        self.viol_count += 1;
        if self.grace_end > 1e17 && self.counts(kind, id) { self.grace_end = self.t0.elapsed().as_secs_f64() + self.cfg.grace; }
        let same = self.violations.iter().filter(|v| v.kind == kind && v.id == id).count();
        if same >= 3 { return; }
        let m = model.unwrap_or(&st.model);
        let wit = self.witness(st, m, false);
        let stack = self.stack(st);
        self.violations.push(Violation { kind: kind.into(), id: id.into(), wit, stack });
    }

    // ---------- decisions ----------
    fn add_pc(&self, st: &mut State, c: E) { st.pc.push(c); let n = cx().n(c); let cm = Rc::make_mut(&mut st.conc); if n.k == K::Not { cm.insert(n.a, 0); } else { cm.insert(c, 1); }
        if n.k == K::Eq { if let Some(v) = cx().cv(n.b) { cm.insert(n.a, v); } else if let Some(v) = cx().cv(n.a) { cm.insert(n.b, v); } } }

    fn solve(&mut self, st: &State, q: E) -> R<Option<Model>> {
        self.solve_apart(st, q, false)
    }
    fn solve_apart(&mut self, st: &State, q: E, apart: bool) -> R<Option<Model>> {
        match self.z3.check_apart(&st.pc, Some(q), true, apart) {
            (Res::Sat, Some(mut m)) => {
                // keep values for inputs the query did not mention
                for (k, v) in st.model.vars.iter() { m.vars.entry(*k).or_insert(*v); }
                m.clear_cache();
                // self-check of translation and evaluation
                if m.eval(q) != 1 || st.pc.iter().any(|c| m.eval(*c) != 1) {
                    if !apart { return self.solve_apart(st, q, true); }
                    if std::env::var("SYM_DBG").is_ok() { for c in st.pc.iter().chain(Some(&q)) { eprintln!("{} {}", m.eval(*c), cx().show(*c)); } eprintln!("vars {:?} hvals {:?}", m.vars, m.hvals); }
                    return Err(Stop::Engine("model does not satisfy the query under the engine's own evaluation".into())); }
                m.clear_cache();
                Ok(Some(m))
            }
            (Res::Unsat, _) => Ok(None),
            _ => Err(Stop::Engine("solver answered unknown".into())),
        }
    }

    /// decide a one-bit condition, forking when both sides are feasible
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = cx().cv(c) { return Ok(v == 1); }
        if let Some(v) = st.conc.get(&c) { return Ok(*v == 1); }
        let n = cx().n(c);
        if n.k == K::Not { return self.decide(st, n.a).map(|x| !x); }
        let cur = st.model.eval(c) == 1;
        let nc = cx().not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.solve(st, other)? {
            None => { Rc::make_mut(&mut st.conc).insert(c, cur as u128); }
            Some(m) => {
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.depth += 1;
                st.depth += 1;
                self.add_pc(&mut o, other);
                self.work.push(o);
                self.forks += 1;
                self.add_pc(st, mine);
            }
        }
        Ok(cur)
    }

    /// The registers of the current function under what a branch just decided.
    fn learn(st: &mut State, c: E, t: bool) {
        let n = cx().n(c);
        let (c, t) = if n.k == K::Not { (n.a, !t) } else { (c, t) };
        let mut memo: FxMap<E, E> = Default::default();
        let f = st.frames.last().unwrap().clone();
        let mut new = vec![];
        for (i, r) in f.regs.iter().enumerate() {
            if let V::S(e) = r { let x = cx().subst(*e, c, t as u128, &mut memo); if x != *e { new.push((i, V::from_e(x))); } }
        }
        drop(f);
        if new.is_empty() { return; }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (i, v) in new { f.regs[i] = v; }
    }

    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = cx().cv(e) { return Ok(v); }
        if let Some(v) = st.conc.get(&e) { return Ok(*v); }
        if cx().w(e) == 1 { return self.decide(st, e).map(|b| b as u128); }
        let w = cx().w(e);
        let v0 = st.model.eval(e);
        let mut others = vec![];
        let k0 = cx().konst(w, v0);
        let eq0 = cx().eq(e, k0);
        let mut excl = cx().not(eq0);
        loop {
            match self.solve(st, excl)? {
                None => break,
                Some(m) => {
                    let v = m.eval(e);
                    let k = cx().konst(w, v);
                    let eq = cx().eq(e, k);
                    let ne = cx().not(eq);
                    excl = cx().and(excl, ne);
                    others.push((v, eq, m));
                    if others.len() > 70000 { return Err(Stop::Engine(format!("more than 70000 values to enumerate for a {}-bit term", w))); }
                }
            }
        }
        if !others.is_empty() { self.forks += others.len() as u64; st.depth += 1; }
        for (v, eq, m) in others {
            let mut o = st.clone();
            o.model = Rc::new(m);
            if cx().cv(eq).is_none() { self.add_pc(&mut o, eq); }
            Rc::make_mut(&mut o.conc).insert(e, v);
            self.work.push(o);
        }
        if cx().cv(eq0).is_none() { self.add_pc(st, eq0); }
        Rc::make_mut(&mut st.conc).insert(e, v0);
        Ok(v0)
    }
    fn cint(&mut self, st: &mut State, v: &V) -> R<u128> { match v { V::I(_, x) => Ok(*x), v => { let e = v.e(); self.concretize(st, e) } } }

    /// Size of an allocation: a symbolic one with many values gets the largest of them.
    fn size(&mut self, st: &mut State, v: &V) -> R<u64> {
        let e = match v { V::I(_, x) => return Ok(*x as u64), v => v.e() };
        if cx().cv(e).is_some() || st.conc.contains_key(&e) { return Ok(self.concretize(st, e)? as u64); }
        let w = cx().w(e);
        let above = |k: u64| { let c = cx(); let k = c.konst(w, k as u128); c.ult(k, e) };
        if self.solve(st, above(256))?.is_none() { return Ok(self.concretize(st, e)? as u64); }
        if self.solve(st, above(1 << 16))?.is_some() { return Ok(self.concretize(st, e)? as u64); }
        let (mut lo, mut hi) = (256u64, 1 << 16);
        while lo < hi { let m = (lo + hi) / 2; match self.solve(st, above(m))? { Some(_) => lo = m + 1, None => hi = m } }
        Ok(lo)
    }

    // ---------- memory ----------
    fn alloc(&self, st: &mut State, size: u64, heap: bool) -> R<u64> {
        if size >= 1 << OBJ_SHIFT { return Err(Stop::Bug("panic".into(), "allocation of 16 MiB or more".into())); }
        let id = st.next; st.next += 1;
        st.mem.insert(id, Rc::new(Obj::new(vec![0; size as usize], heap)));
        Ok((id as u64) << OBJ_SHIFT)
    }
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let id = (addr >> OBJ_SHIFT) as u32; let off = addr & ((1 << OBJ_SHIFT) - 1);
        let o = if addr >> (OBJ_SHIFT + 32) != 0 { None } else { st.mem.get(&id).or_else(|| self.consts.get(&id)) };
        match o {
            Some(o) if off + n <= o.size => Ok((o, off as usize)),
            Some(o) => Err(Stop::Bug("memory".into(), format!("access of {} bytes at offset {} of a {}-byte object", n, off, o.size))),
            None => Err(Stop::Bug("memory".into(), format!("access of {} bytes at invalid address {:#x}", n, addr))),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        self.obj(st, addr, n)?;
        let id = (addr >> OBJ_SHIFT) as u32; let off = addr & ((1 << OBJ_SHIFT) - 1);
        match st.mem.get_mut(&id) { Some(o) => Ok((Rc::make_mut(o), off as usize)), None => Err(Stop::Bug("memory".into(), "write to a constant".into())) }
    }
    fn load_int(&self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let (o, off) = self.obj(st, addr, n)?;
        let n = n as usize;
        let one = &o.pages[off / PAGE];
        let po = off % PAGE;
        let within = po + n <= one.data.len();
        let symbolic = if within { one.sym.as_ref().map_or(false, |s| s[po..po + n].iter().any(|x| *x != 0)) } else { (off..off + n).any(|i| o.get(i).1 != 0) };
        if symbolic || n > 16 {
            let c = cx();
            let mut acc: Option<E> = None;
            for i in 0..n {
                let (k, t) = o.get(off + i);
                let b = if t != 0 { t - 1 } else { c.konst(8, k as u128) };
                acc = Some(match acc { None => b, Some(a) => c.concat(b, a) });
            }
            let e = acc.unwrap();
            let e = if c.w(e) != w { c.trunc(e, w) } else { e };
            return Ok(V::from_e(e));
        }
        let mut v = 0u128;
        if within { for i in 0..n { v |= (one.data[po + i] as u128) << (8 * i); } }
        else { for i in 0..n { v |= (o.get(off + i).0 as u128) << (8 * i); } }
        Ok(V::I(w, mask(w, v)))
    }
    fn store_int(&self, st: &mut State, addr: u64, v: &V) -> R<()> {
        match v {
            V::I(w, x) => {
                let n = ((w + 7) / 8) as u64;
                let (o, off) = self.obj_mut(st, addr, n)?;
                for i in 0..n as usize { o.put(off + i, if i < 16 { (x >> (8 * i)) as u8 } else { 0 }, 0); }
                Ok(())
            }
            V::S(e) => {
                let c = cx();
                let w = c.w(*e);
                let n = (w + 7) / 8;
                let e = if w % 8 != 0 { c.zext(*e, n * 8) } else { *e };
                let bs: Vec<E> = (0..n).map(|i| c.extract(e, 8 * i + 7, 8 * i)).collect();
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                for (i, b) in bs.into_iter().enumerate() {
                    match cx().cv(b) {
                        Some(k) => o.put(off + i, k as u8, 0),
                        None => o.put(off + i, 0, b + 1),
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Engine("store of undefined value".into())),
        }
    }
    fn load(&self, st: &State, t: &Ty, addr: u64) -> R<V> {
        match t {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr => self.load_int(st, addr, 64),
            Ty::Float(w) => self.load_int(st, addr, *w),
            Ty::Vec(n, e) if e.bits() < 8 => { let all = self.load_int(st, addr, n * e.bits())?; let all = all.e(); let b = e.bits(); Ok(V::A(Rc::new((0..*n).map(|i| V::from_e(cx().extract(all, i * b + b - 1, i * b))).collect()))) }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = match t { Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 };
                let mut v = Vec::with_capacity(n);
                for i in 0..n { v.push(self.load(st, &t.elem(i), addr + t.field_off(i))?); }
                Ok(V::A(Rc::new(v)))
            }
            t => Err(Stop::Engine(format!("load of {:?}", t))),
        }
    }
    fn store(&self, st: &mut State, t: &Ty, v: &V, addr: u64) -> R<()> {
        match (t, v) {
            (Ty::Vec(n, e), V::A(x)) if e.bits() < 8 => { let mut acc: Option<E> = None; for i in 0..*n as usize { let b = x[i].e(); acc = Some(match acc { None => b, Some(a) => cx().concat(b, a) }); } let v = V::from_e(acc.unwrap()); self.store_int(st, addr, &v) }
            (_, V::A(x)) => { for i in 0..x.len() { self.store(st, &t.elem(i), &x[i], addr + t.field_off(i))?; } Ok(()) }
            _ => self.store_int(st, addr, v),
        }
    }
    fn copy(&self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj(st, src, n)?;
        let n = n as usize;
        let v: Vec<(u8, u32)> = (off..off + n).map(|i| o.get(i)).collect();
        let (d, doff) = self.obj_mut(st, dst, n as u64)?;
        for (i, (k, t)) in v.into_iter().enumerate() { d.put(doff + i, k, t); }
        Ok(())
    }
    fn byte(&self, st: &State, addr: u64) -> R<E> { Ok(self.load_int(st, addr, 8)?.e()) }
    /// bytes as little-endian words of at most 8 bytes
    fn words(&self, st: &State, addr: u64, n: u64) -> R<Vec<E>> {
        let mut v = vec![]; let mut i = 0;
        while i < n { let k = (n - i).min(8); v.push(self.load_int(st, addr + i, (k * 8) as u32)?.e()); i += k; }
        Ok(v)
    }
    fn cstr(&self, st: &State, addr: u64, n: u64) -> R<String> {
        let mut s = Vec::new();
        for i in 0..n { let b = self.byte(st, addr + i)?; s.push(cx().cv(b).unwrap_or(63) as u8); }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    // ---------- interpretation ----------
    fn cv(c: &CV) -> V { match c { CV::Int(w, v) => V::I(*w, *v), CV::Agg(v) => V::A(Rc::new(v.iter().map(Self::cv).collect())) } }
    #[inline] fn op(f: &Frame, o: &Opnd) -> V { match o { Opnd::Reg(r) => f.regs[*r as usize].clone(), Opnd::Int(w, v) => V::I(*w, *v), Opnd::C(c) => Self::cv(c) } }

    fn bin_conc(k: Bin, w: u32, x: u128, y: u128) -> Option<u128> {
        Some(mask(w, match k {
            Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
            Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
            Bin::Shl => if y >= w as u128 { 0 } else { x << y },
            Bin::Lshr => if y >= w as u128 { 0 } else { x >> y },
            Bin::Ashr => (sext(w, x) >> y.min(w as u128 - 1).min(127)) as u128,
            Bin::Udiv => if y == 0 { return None } else { x / y },
            Bin::Urem => if y == 0 { return None } else { x % y },
            Bin::Sdiv => if y == 0 { return None } else { sext(w, x).wrapping_div(sext(w, y)) as u128 },
            Bin::Srem => if y == 0 { return None } else { sext(w, x).wrapping_rem(sext(w, y)) as u128 },
        }))
    }
    fn bin_sym(k: Bin, a: E, b: E) -> E {
        let c = cx();
        match k {
            Bin::Add => c.add(a, b), Bin::Sub => c.sub(a, b), Bin::Mul => c.mul(a, b), Bin::And => c.and(a, b), Bin::Or => c.or(a, b), Bin::Xor => c.xor(a, b),
            Bin::Shl => c.shl(a, b), Bin::Lshr => c.lshr(a, b), Bin::Ashr => c.ashr(a, b),
            Bin::Udiv => c.divrem(K::Udiv, a, b), Bin::Urem => c.divrem(K::Urem, a, b), Bin::Sdiv => c.divrem(K::Sdiv, a, b), Bin::Srem => c.divrem(K::Srem, a, b),
        }
    }
    fn binop(k: Bin, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I(w, x), V::I(_, y)) => match Self::bin_conc(k, *w, *x, *y) { Some(v) => V::I(*w, v), None => V::I(*w, 0) },
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| Self::binop(k, p, q)).collect())),
            _ => V::from_e(Self::bin_sym(k, a.e(), b.e())),
        }
    }
    fn icmp(p: Pred, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I(w, x), V::I(_, y)) => {
                let (sx, sy) = (sext(*w, *x), sext(*w, *y));
                V::I(1, match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u128)
            }
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(q, r)| Self::icmp(p, q, r)).collect())),
            _ => {
                let c = cx(); let (x, y) = (a.e(), b.e());
                V::from_e(match p {
                    Pred::Eq => c.eq(x, y), Pred::Ne => { let e = c.eq(x, y); c.not(e) }
                    Pred::Ult => c.ult(x, y), Pred::Ule => c.ule(x, y), Pred::Ugt => c.ult(y, x), Pred::Uge => c.ule(y, x),
                    Pred::Slt => c.slt(x, y), Pred::Sle => c.sle(x, y), Pred::Sgt => c.slt(y, x), Pred::Sge => c.sle(y, x),
                })
            }
        }
    }
    fn cast(k: Cast, a: &V, from: &Ty, to: &Ty) -> V {
        if k == Cast::Bit { return Self::bitcast(a, from, to); }
        match (a, to) {
            (V::A(x), Ty::Vec(_, e)) => { let fe = from.elem(0); V::A(Rc::new(x.iter().map(|v| Self::cast(k, v, &fe, e)).collect())) }
            (V::I(w, x), _) => { let tw = to.bits(); V::I(tw, match k { Cast::Trunc => mask(tw, *x), Cast::Zext | Cast::Id => *x, Cast::Sext => mask(tw, sext(*w, *x) as u128), Cast::Bit => *x }) }
            (v, _) => { let tw = to.bits(); let e = v.e(); let c = cx(); V::from_e(match k { Cast::Trunc => c.trunc(e, tw), Cast::Zext => c.zext(e, tw), Cast::Sext => c.sext(e, tw), _ => e }) }
        }
    }
    fn bitcast(a: &V, from: &Ty, to: &Ty) -> V {
        if from == to { return a.clone(); }
        let all: E = match a {
            V::A(x) => { let mut acc: Option<E> = None; for v in x.iter() { let b = v.e(); acc = Some(match acc { None => b, Some(l) => cx().concat(b, l) }); } acc.unwrap() }
            v => v.e(),
        };
        match to {
            Ty::Vec(n, e) => { let b = e.bits(); V::A(Rc::new((0..*n).map(|i| V::from_e(cx().extract(all, i * b + b - 1, i * b))).collect())) }
            _ => V::from_e(all),
        }
    }
    fn select(c: E, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| Self::select(c, p, q)).collect())),
            _ => V::from_e(cx().ite(c, a.e(), b.e())),
        }
    }

    fn goto(&mut self, st: &mut State, target: u32) -> R<()> {
        let m = self.m;
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let b = &m.funcs[f.func as usize].blocks[target as usize];
        f.prev = f.block;
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (r, _, mp) in &b.phis {
                let o = match mp.get(&f.prev) { Some(o) => o, None => return Err(Stop::Engine("phi without matching predecessor".into())) };
                vals.push((*r, Self::op(f, o)));
            }
            for (r, v) in vals { f.regs[r as usize] = v; }
        }
        f.block = target;
        f.ip = 0;
        Ok(())
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            match self.step(st) {
                Ok(Flow::Next) => { let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.ip += 1; }
                Ok(Flow::Jumped) => {}
                Ok(Flow::Retry) => {}
                Ok(Flow::End) => return Stop::Done,
                Err(s) => return s,
            }
            st.steps += 1;
            self.steps += 1;
            tick += 1;
            if tick & 0xffff == 0 {
                if let Some(e) = self.over() { return Stop::Engine(format!("{} inside one path", e)); }
            }
            if st.steps > self.cfg.max_steps { return Stop::Bug("hang".into(), format!("more than {} instructions on one path", self.cfg.max_steps)); }
        }
    }

    fn step(&mut self, st: &mut State) -> R<Flow> {
        let m = self.m;
        let fr = st.frames.last().unwrap().clone();
        let func = &m.funcs[fr.func as usize];
        let inst = match func.blocks[fr.block as usize].insts.get(fr.ip) { Some(i) => i, None => return Err(Stop::Engine(format!("fell off block in {}", func.name))) };
        if inst.dbg != 0 { let d = inst.dbg as usize; if self.dbg_seen.len() <= d { self.dbg_seen.resize(d + 1024, false); } self.dbg_seen[d] = true; }
        let o = |x: &Opnd| Self::op(&fr, x);
        let val: V = match &inst.op {
            Op::Bin(k, _, a, b) => {
                let (x, y) = (o(a), o(b));
                if matches!(k, Bin::Udiv | Bin::Urem | Bin::Sdiv | Bin::Srem) { if let V::I(_, 0) = y { return Err(Stop::Bug("memory".into(), "division by zero reached".into())); } }
                Self::binop(*k, &x, &y)
            }
            Op::Icmp(p, _, a, b) => Self::icmp(*p, &o(a), &o(b)),
            Op::Select(c, vecc, _, a, b) => {
                let cv = o(c);
                if *vecc {
                    match (cv, o(a), o(b)) { (V::A(c), V::A(x), V::A(y)) => V::A(Rc::new((0..x.len()).map(|i| Self::select(c[i].e(), &x[i], &y[i])).collect())), _ => return Err(Stop::Engine("vector select".into())) }
                } else {
                    match cv { V::I(_, v) => if v & 1 == 1 { o(a) } else { o(b) },
                        v => { let (x, y) = (o(a), o(b)); let c = v.e(); if let Some(k) = st.conc.get(&c) { if *k == 1 { x } else { y } } else { match (&x, &y) { (V::None, _) => y, (_, V::None) => x, _ => Self::select(c, &x, &y) } } } }
                }
            }
            Op::Cast(k, f, a, t) => Self::cast(*k, &o(a), f, t),
            Op::Alloca(t, n) => {
                let n = self.cint(st, &o(n))? as u64;
                let a = self.alloc(st, t.size() * n, false)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push((a >> OBJ_SHIFT) as u32);
                V::I(64, a as u128)
            }
            Op::Load(t, a) => { let a = self.cint(st, &o(a))? as u64; self.load(st, t, a)? }
            Op::Store(t, v, a) => { let a = self.cint(st, &o(a))? as u64; let v = o(v); self.store(st, t, &v, a)?; return Ok(Flow::Next); }
            Op::Gep(b, off, dynv) => {
                let mut acc = o(b);
                if *off != 0 { acc = Self::binop(Bin::Add, &acc, &V::I(64, *off as u64 as u128)); }
                for (sc, i, w) in dynv {
                    let mut x = o(i);
                    if *w < 64 { x = Self::cast(Cast::Sext, &x, &Ty::Int(*w), &Ty::Int(64)); }
                    let p = Self::binop(Bin::Mul, &x, &V::I(64, *sc as u64 as u128));
                    acc = Self::binop(Bin::Add, &acc, &p);
                }
                acc
            }
            Op::ExtractValue(a, ix) => { let mut v = o(a); for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Engine("extractvalue".into())) }; } v }
            Op::InsertValue(a, b, ix) => {
                fn ins(a: &V, b: V, ix: &[u32]) -> V { if ix.is_empty() { return b; } match a { V::A(x) => { let mut y = (**x).clone(); y[ix[0] as usize] = ins(&y[ix[0] as usize], b, &ix[1..]); V::A(Rc::new(y)) } _ => panic!("insertvalue") } }
                ins(&o(a), o(b), ix)
            }
            Op::ExtractElt(_, a, i) => { let i = self.cint(st, &o(i))? as usize; match o(a) { V::A(x) => x[i].clone(), _ => return Err(Stop::Engine("extractelement".into())) } }
            Op::InsertElt(_, a, b, i) => { let i = self.cint(st, &o(i))? as usize; match o(a) { V::A(x) => { let mut y = (*x).clone(); y[i] = o(b); V::A(Rc::new(y)) } _ => return Err(Stop::Engine("insertelement".into())) } }
            Op::Shuffle(_, a, b, mask) => match (o(a), o(b)) {
                (V::A(x), V::A(y)) => V::A(Rc::new(mask.iter().map(|i| { let i = (*i).max(0) as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } }).collect())),
                _ => return Err(Stop::Engine("shuffle".into())),
            },
            Op::Freeze(a) => o(a),
            Op::Fence => return Ok(Flow::Next),
            Op::AtomicRmw(k, t, a, v) => {
                let a = self.cint(st, &o(a))? as u64;
                let old = self.load(st, t, a)?;
                let v = o(v);
                let new = match k.as_str() { "xchg" => v, "add" => Self::binop(Bin::Add, &old, &v), "sub" => Self::binop(Bin::Sub, &old, &v), "or" => Self::binop(Bin::Or, &old, &v), "and" => Self::binop(Bin::And, &old, &v), "xor" => Self::binop(Bin::Xor, &old, &v), k => return Err(Stop::Engine(format!("atomicrmw {}", k))) };
                self.store(st, t, &new, a)?;
                old
            }
            Op::CmpXchg(t, a, c, n) => {
                let a = self.cint(st, &o(a))? as u64;
                let old = self.load(st, t, a)?;
                let eq = Self::icmp(Pred::Eq, &old, &o(c));
                let eqc = self.cint(st, &eq)?;
                if eqc == 1 { let n = o(n); self.store(st, t, &n, a)?; }
                V::A(Rc::new(vec![old, V::I(1, eqc)]))
            }
            Op::Br(b) => { self.goto(st, *b)?; return Ok(Flow::Jumped); }
            Op::CondBr(c, a, b) => {
                let t = match o(c) { V::I(_, v) => v & 1 == 1, v => { let e = v.e(); let t = self.decide(st, e)?; drop(fr); Self::learn(st, e, t); t } };
                self.goto(st, if t { *a } else { *b })?;
                return Ok(Flow::Jumped);
            }
            Op::Switch(c, w, d, cs) => {
                let v = o(c);
                let target = match v {
                    V::I(_, x) => cs.iter().find(|y| y.0 == x).map(|y| y.1).unwrap_or(*d),
                    v => {
                        let e = v.e();
                        let mut t = *d;
                        if let Some(x) = st.conc.get(&e) { t = cs.iter().find(|y| y.0 == *x).map(|y| y.1).unwrap_or(*d); }
                        else {
                            for (k, b) in cs { let kk = cx().konst(*w, *k); let q = cx().eq(e, kk); if self.decide(st, q)? { t = *b; break; } }
                        }
                        t
                    }
                };
                self.goto(st, target)?;
                return Ok(Flow::Jumped);
            }
            Op::Ret(v) => {
                let v = v.as_ref().map(|x| o(x));
                for a in &fr.allocas { st.mem.remove(a); }
                st.frames.pop();
                if st.frames.is_empty() { return Ok(Flow::End); }
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(r), Some(v)) = (fr.ret, v) { f.regs[r as usize] = v; }
                f.ip += 1;
                return Ok(Flow::Jumped);
            }
            Op::Unreachable => return Err(Stop::Bug("memory".into(), "unreachable instruction reached".into())),
            Op::Unsupported(s) => return Err(Stop::Engine(format!("unsupported instruction {}", s))),
            Op::Call(callee, rt, args, _) => {
                let fi = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(x) => {
                        let a = self.cint(st, &o(x))? as u64;
                        match m.func_by_addr.get(&a) { Some(i) => *i, None => return Err(Stop::Bug("memory".into(), format!("call of invalid address {:#x}", a))) }
                    }
                    Callee::Asm => 0,
                };
                if let Callee::Asm = callee { if *rt == Ty::Void { return Ok(Flow::Next); } return Err(Stop::Engine("inline asm with result".into())); }
                let av: Vec<V> = args.iter().map(|(_, x)| o(x)).collect();
                let target = &m.funcs[fi as usize];
                if target.is_decl {
                    match self.external(st, fi, &av, args, rt)? { Some(v) => v, None => { return Ok(Flow::Next); } }
                } else {
                    if st.frames.len() > 2000 { return Err(Stop::Bug("hang".into(), "call depth over 2000 (stack overflow)".into())); }
                    self.fn_seen[fi as usize] = true;
                    let mut regs = vec![V::None; target.nregs as usize];
                    for (p, v) in target.params.iter().zip(av) { regs[*p as usize] = v; }
                    st.frames.push(Rc::new(Frame { func: fi, regs, block: 0, prev: 0, ip: 0, allocas: vec![], ret: inst.dst }));
                    return Ok(Flow::Jumped);
                }
            }
        };
        drop(fr);
        if let Some(d) = inst.dst {
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            f.regs[d as usize] = val;
        }
        Ok(Flow::Next)
    }

    fn input(&mut self, st: &mut State, kind: u8, w: u32) -> E {
        let k = st.inputs.iter().map(|i| i.exprs.len()).sum::<usize>();
        let _ = kind;
        self.named_input(k, w)
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        match cx().cv(c) { Some(1) => return Ok(()), Some(_) => return Err(Stop::Kill), None => {} }
        if let Some(v) = st.conc.get(&c) { return if *v == 1 { Ok(()) } else { Err(Stop::Kill) }; }
        if st.model.eval(c) != 1 {
            match self.solve(st, c)? { None => return Err(Stop::Kill), Some(m) => st.model = Rc::new(m) }
        }
        self.add_pc(st, c);
        Ok(())
    }

    fn external(&mut self, st: &mut State, fi: u32, a: &[V], args: &[(Ty, Opnd)], rt: &Ty) -> R<Option<V>> {
        use Ext::*;
        let x = self.ext[fi as usize];
        let name = &self.m.funcs[fi as usize].name;
        let w0 = || match &args[0].0 { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 0 };
        let lanes = |f: &dyn Fn(&V, &V) -> V| -> V { match (&a[0], &a[1]) { (V::A(p), V::A(q)) => V::A(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| f(x, y)).collect())), (p, q) => f(p, q) } };
        let minmax = |p: Pred| -> V { lanes(&|x, y| { let c = Self::icmp(p, x, y); match c { V::I(_, 1) => x.clone(), V::I(..) => y.clone(), c => Self::select(c.e(), x, y) } }) };
        Ok(match x {
            Nop => None,
            Assume => None,
            Memcpy => { let n = self.cint(st, &a[2])? as u64; let d = self.cint(st, &a[0])? as u64; let s = self.cint(st, &a[1])? as u64; self.copy(st, d, s, n)?; if *rt == Ty::Void { None } else { Some(a[0].clone()) } }
            Memset => {
                let n = self.cint(st, &a[2])? as u64; let d = self.cint(st, &a[0])? as u64;
                let v = match &a[1] { V::I(_, x) => V::I(8, mask(8, *x)), v => V::from_e(cx().trunc(v.e(), 8)) };
                if n > 0 {
                    if let V::I(_, b) = v { let (o, off) = self.obj_mut(st, d, n)?; for i in 0..n as usize { o.put(off + i, b as u8, 0); } }
                    else { for i in 0..n { self.store_int(st, d + i, &v)?; } }
                }
                if *rt == Ty::Void { None } else { Some(a[0].clone()) }
            }
            Memcmp(ordered) => {
                let n = self.cint(st, &a[2])? as u64; let p = self.cint(st, &a[0])? as u64; let q = self.cint(st, &a[1])? as u64;
                if n == 0 { return Ok(Some(V::I(32, 0))); }
                let (x, y) = (self.words(st, p, n)?, self.words(st, q, n)?);
                let c = cx();
                let mut eq = c.tt();
                for i in 0..x.len() { let e = c.eq(x[i], y[i]); eq = c.and(eq, e); if c.cv(eq) == Some(0) { break; } }
                let (z, one) = (c.konst(32, 0), c.konst(32, 1));
                if !ordered || c.cv(eq) == Some(1) { return Ok(Some(V::from_e(c.ite(eq, z, one)))); }
                let rev = |e: E| -> E { let n = cx().w(e) / 8; let mut acc: Option<E> = None; for i in 0..n { let b = cx().extract(e, 8 * i + 7, 8 * i); acc = Some(match acc { None => b, Some(h) => cx().concat(h, b) }); } acc.unwrap() };
                let mut lt = c.ff();
                for i in (0..x.len()).rev() {
                    let (bx, by) = (rev(x[i]), rev(y[i]));
                    let l = c.ult(bx, by); let e = c.eq(x[i], y[i]);
                    let t = c.and(e, lt); lt = c.or(l, t);
                }
                let m1 = c.konst(32, 0xffff_ffff);
                let r = c.ite(lt, m1, one);
                Some(V::from_e(c.ite(eq, z, r)))
            }
            Umax => Some(minmax(Pred::Uge)), Umin => Some(minmax(Pred::Ule)), Smax => Some(minmax(Pred::Sge)), Smin => Some(minmax(Pred::Sle)),
            Abs => { let w = w0(); let z = V::I(w, 0); let neg = Self::binop(Bin::Sub, &z, &a[0]); let c = Self::icmp(Pred::Slt, &a[0], &z); Some(Self::select(c.e(), &neg, &a[0])) }
            Ctlz if matches!(&a[0], V::S(_)) => {
                // one path per position of the highest bit
                let e = a[0].e(); let w = cx().w(e);
                let (mut lo, mut hi) = (0, w);
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    let k = cx().konst(w, 1u128 << mid);
                    let c = cx().ult(e, k);
                    if self.decide(st, c)? { hi = mid } else { lo = mid + 1 }
                }
                Some(V::I(w, (w - lo) as u128))
            }
            Ctpop | Ctlz | Cttz | Bswap | Bitrev => {
                fn one(x: Ext, v: &V) -> V {
                    match v {
                        V::A(p) => V::A(Rc::new(p.iter().map(|q| one(x, q)).collect())),
                        V::I(w, k) => V::I(*w, match x {
                            Ext::Ctpop => k.count_ones() as u128,
                            Ext::Ctlz => (k.leading_zeros() - (128 - w)) as u128,
                            Ext::Cttz => if *k == 0 { *w as u128 } else { k.trailing_zeros() as u128 },
                            Ext::Bswap => k.swap_bytes() >> (128 - w),
                            _ => k.reverse_bits() >> (128 - w),
                        }),
                        v => {
                            let c = cx(); let e = v.e(); let w = c.w(e);
                            let bit = |i: u32| cx().extract(e, i, i);
                            V::from_e(match x {
                                Ext::Bswap => { let mut acc: Option<E> = None; for i in 0..w / 8 { let b = c.extract(e, 8 * i + 7, 8 * i); acc = Some(match acc { None => b, Some(h) => cx().concat(h, b) }); } acc.unwrap() }
                                Ext::Bitrev => { let mut acc: Option<E> = None; for i in 0..w { let b = bit(i); acc = Some(match acc { None => b, Some(h) => cx().concat(h, b) }); } acc.unwrap() }
                                Ext::Ctpop => { let mut acc = c.konst(w, 0); for i in 0..w { let b = bit(i); let z = c.zext(b, w); acc = c.add(acc, z); } acc }
                                Ext::Ctlz => { let mut acc = c.konst(w, w as u128); for i in 0..w { let k = c.konst(w, (w - 1 - i) as u128); acc = c.ite(bit(i), k, acc); } acc }
                                _ => { let mut acc = c.konst(w, w as u128); for i in (0..w).rev() { let k = c.konst(w, i as u128); acc = c.ite(bit(i), k, acc); } acc }
                            })
                        }
                    }
                }
                Some(one(x, &a[0]))
            }
            Fshl | Fshr => {
                let w = w0();
                let s = self.cint(st, &a[2])? as u32 % w;
                let s = if x == Fshr { (w - s) % w } else { s };
                // fshl(a,b,s): high bits of (a:b) << s ; fshr(a,b,s) = fshl(a,b,w-s) except s==0 -> b
                if s == 0 { return Ok(Some(if x == Fshr { a[1].clone() } else { a[0].clone() })); }
                let c = cx();
                let h = c.extract(a[0].e(), w - 1 - s, 0);
                let l = c.extract(a[1].e(), w - 1, w - s);
                Some(V::from_e(c.concat(h, l)))
            }
            Ov(k, signed) => {
                if let (V::I(w, p), V::I(_, q)) = (&a[0], &a[1]) {
                    let w = *w;
                    let r = Self::bin_conc(k, w, *p, *q).unwrap();
                    let ov = if signed {
                        let (sp, sq) = (sext(w, *p), sext(w, *q));
                        let full = match k { Bin::Add => sp.checked_add(sq), Bin::Sub => sp.checked_sub(sq), _ => sp.checked_mul(sq) };
                        full.map(|f| f != sext(w, r)).unwrap_or(true)
                    } else {
                        match k { Bin::Add => p.checked_add(*q).map(|f| f != r).unwrap_or(true), Bin::Sub => q > p, _ => p.checked_mul(*q).map(|f| f != r).unwrap_or(true) }
                    };
                    return Ok(Some(V::A(Rc::new(vec![V::I(w, r), V::I(1, ov as u128)]))));
                }
                let c = cx(); let (p, q) = (a[0].e(), a[1].e()); let w = c.w(p);
                let r = Self::bin_sym(k, p, q);
                let ov = if !signed {
                    match k {
                        Bin::Add => c.ult(r, p),
                        Bin::Sub => c.ult(p, q),
                        _ => {
                            if let Some(kq) = c.cv(q) { if kq == 0 { c.ff() } else { let lim = c.konst(w, mask(w, !0) / kq); c.ult(lim, p) } }
                            else { let (pp, qq) = (c.zext(p, 2 * w), c.zext(q, 2 * w)); let f = c.mul(pp, qq); let hi = c.extract(f, 2 * w - 1, w); let z = c.konst(w, 0); let e = c.eq(hi, z); c.not(e) }
                        }
                    }
                } else {
                    let (pp, qq) = (c.sext(p, 2 * w), c.sext(q, 2 * w));
                    let f = Self::bin_sym(k, pp, qq); let rr = c.sext(r, 2 * w); let e = c.eq(f, rr); c.not(e)
                };
                Some(V::A(Rc::new(vec![V::from_e(r), V::from_e(ov)])))
            }
            Sat(k, _) => Some(lanes(&|p, q| {
                let c = cx(); let (p, q) = (p.e(), q.e()); let w = c.w(p);
                V::from_e(match k { Bin::Add => { let r = c.add(p, q); let o = c.ult(r, p); let m = c.konst(w, mask(w, !0)); c.ite(o, m, r) } _ => { let r = c.sub(p, q); let o = c.ult(p, q); let z = c.konst(w, 0); c.ite(o, z, r) } })
            })),
            LoadRel => { let b = self.cint(st, &a[0])? as u64; let o = self.cint(st, &a[1])? as u64; let v = self.load_int(st, b.wrapping_add(o), 32)?; let v = self.cint(st, &v)?; Some(V::I(64, b.wrapping_add(sext(32, v) as u64) as u128)) }
            Tls | Expect => Some(a[0].clone()),
            IsConst => Some(V::I(1, 0)),
            ObjSize => Some(V::I(rt.bits(), mask(rt.bits(), !0))),
            Ptrmask => Some(Self::binop(Bin::And, &a[0], &a[1])),
            VRed(k) => match &a[0] { V::A(p) => { let mut r = p[0].clone(); for q in p.iter().skip(1) { r = Self::binop(k, &r, q); } Some(r) } _ => return Err(Stop::Engine("reduce".into())) },
            VRedMinMax(k) => match &a[0] { V::A(p) => { let mut r = p[0].clone(); for q in p.iter().skip(1) { let c = Self::icmp(if k == 0 { Pred::Uge } else { Pred::Ule }, &r, q); r = Self::select(c.e(), &r, q); } Some(r) } _ => return Err(Stop::Engine("reduce".into())) },
            Ucmp(s) => {
                let (lt, gt) = if s { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let w = rt.bits();
                let (l, g) = (Self::icmp(lt, &a[0], &a[1]), Self::icmp(gt, &a[0], &a[1]));
                let c = cx(); let (m1, z, o) = (c.konst(w, mask(w, !0)), c.konst(w, 0), c.konst(w, 1));
                let r = c.ite(g.e(), o, z); Some(V::from_e(c.ite(l.e(), m1, r)))
            }
            StackSave => Some(V::I(64, 0)),
            FalseRet => Some(V::I(1, 1)),
            Alloc | AllocZ => { let n = self.size(st, &a[0])?; Some(V::I(64, self.alloc(st, n, true)? as u128)) }
            Dealloc => {
                let p = self.cint(st, &a[0])? as u64;
                let id = (p >> OBJ_SHIFT) as u32;
                match st.mem.get(&id) { Some(o) if o.heap && p & ((1 << OBJ_SHIFT) - 1) == 0 => { st.mem.remove(&id); } _ => return Err(Stop::Bug("memory".into(), "invalid free".into())) }
                None
            }
            Realloc => {
                let p = self.cint(st, &a[0])? as u64; let new = self.size(st, &a[3])?;
                let old = self.obj(st, p, 0)?.0.size;
                let q = self.alloc(st, new, true)?;
                self.copy(st, q, p, old.min(new))?;
                st.mem.remove(&((p >> OBJ_SHIFT) as u32));
                Some(V::I(64, q as u128))
            }
            RandKeys => Some(V::A(Rc::new(vec![V::I(64, 0x0123_4567_89ab_cdef), V::I(64, 0x0fed_cba9_8765_4321)]))),
            Trap => return Err(Stop::Bug("panic".into(), "abort".into())),
            Panic => {
                let nm = demangle(name);
                return Err(Stop::Bug("panic".into(), nm));
            }
            SymBytes => {
                let p = self.cint(st, &a[0])? as u64; let n = self.cint(st, &a[1])? as u64;
                let mut ex = vec![]; let mut i = 0;
                while i < n {
                    let k = (n - i).min(8);
                    let idx = st.inputs.iter().map(|i| i.exprs.len()).sum::<usize>() + ex.len();
                    let e = self.named_input(idx, (k * 8) as u32);
                    self.store_int(st, p + i, &V::S(e))?;
                    ex.push(e);
                    i += k;
                }
                Rc::make_mut(&mut st.inputs).push(Input { kind: 0, exprs: ex, n: n as u32 });
                None
            }
            SymU64 => { let e = self.input(st, 1, 64); Rc::make_mut(&mut st.inputs).push(Input { kind: 1, exprs: vec![e], n: 8 }); Some(V::S(e)) }
            SymRange => {
                let (lo, hi) = (self.cint(st, &a[0])?, self.cint(st, &a[1])?);
                // idempotent under re-execution: assume before recording
                let e = self.input(st, 1, 64);
                let c = cx();
                let (l, h) = (c.konst(64, lo), c.konst(64, hi));
                let (p, q) = (c.ule(l, e), c.ule(e, h));
                self.assume(st, p)?;
                self.assume(st, q)?;
                Rc::make_mut(&mut st.inputs).push(Input { kind: 1, exprs: vec![e], n: 8 });
                Some(V::from_e(e))
            }
            SymChoose => {
                // every value is possible: fork without asking the solver; the forked states
                // re-execute this call and find their value in `conc`
                let n = self.cint(st, &a[0])?;
                if n == 0 { return Err(Stop::Kill); }
                let e = self.input(st, 1, 64);
                let v = match st.conc.get(&e) {
                    Some(v) => *v,
                    None => {
                        for v in (1..n).rev() {
                            let mut o = st.clone();
                            o.depth += 1;
                            Rc::make_mut(&mut o.conc).insert(e, v);
                            self.work.push(o);
                        }
                        if n > 1 { self.forks += n as u64 - 1; st.depth += 1; }
                        Rc::make_mut(&mut st.conc).insert(e, 0);
                        0
                    }
                };
                Rc::make_mut(&mut st.inputs).push(Input { kind: 1, exprs: vec![cx().konst(64, v)], n: 8 });
                st.nch += 1;
                st.pre = st.pre.wrapping_mul(6364136223846793005).wrapping_add(v as u64 * 2 + 1);
                let (i, n, d) = self.cfg.shard;
                if n > 1 && st.nch == d && (st.pre.wrapping_mul(0x9E3779B97F4A7C15) >> 33) % n != i { return Err(Stop::Kill); }
                Some(V::I(64, v))
            }
            SymConc => { let v = self.cint(st, &a[0])?; Some(V::I(64, v)) }
            SymAssume => { let c = match &a[0] { V::I(_, v) => { if v & 1 == 0 { return Err(Stop::Kill); } return Ok(None); } v => { let e = v.e(); if cx().w(e) == 1 { e } else { cx().trunc(e, 1) } } }; self.assume(st, c)?; None }
            SymExpectPanic => { st.allow_panic = match &a[0] { V::I(_, v) => *v & 1 == 1, _ => true }; None }
            SymCheck => {
                let p = self.cint(st, &a[1])? as u64; let n = self.cint(st, &a[2])? as u64;
                let id = self.cstr(st, p, n)?;
                st.nchecks += 1;
                // what fails for another property must not hide what follows it
                if !self.mine(&id) { return Ok(None); }
                let c = match &a[0] { V::I(_, v) => cx().konst(1, *v & 1), v => { let e = v.e(); if cx().w(e) == 1 { e } else { cx().trunc(e, 1) } } };
                let cs = self.checks.entry(id.clone()).or_default();
                cs.obligations += 1;
                if cx().cv(c) == Some(1) { cs.trivially += 1; return Ok(None); }
                if let Some(1) = st.conc.get(&c) { cs.trivially += 1; return Ok(None); }
                if cx().cv(c) == Some(0) {
                    cs.violated += 1;
                    self.report(st, "check", &id, None);
                    return Err(Stop::Kill);
                }
                let nc = cx().not(c);
                match self.solve(st, nc)? {
                    None => { self.checks.get_mut(&id).unwrap().by_solver += 1; Rc::make_mut(&mut st.conc).insert(c, 1); }
                    Some(m) => { self.checks.get_mut(&id).unwrap().violated += 1; self.report(st, "check", &id, Some(&m)); self.assume(st, c)?; }
                }
                None
            }
            SymCover => { let p = self.cint(st, &a[0])? as u64; let n = self.cint(st, &a[1])? as u64; let id = self.cstr(st, p, n)?; *self.covers.entry(id).or_default() += 1; None }
            SymParam => { let i = self.cint(st, &a[0])? as usize; Some(V::I(64, self.cfg.params.get(i).copied().unwrap_or(0) as u128)) }
            SymObserve => { let e = a[0].e(); Rc::make_mut(&mut st.obs).push(e); None }
            SymSame => { // the two byte strings are the same terms
                let n = self.cint(st, &a[2])? as u64; let p = self.cint(st, &a[0])? as u64; let q = self.cint(st, &a[1])? as u64;
                let (x, y) = (self.words(st, p, n)?, self.words(st, q, n)?);
                Some(V::I(1, (x == y) as u128))
            }
            SymHash => {
                let p = self.cint(st, &a[0])? as u64; let n = self.cint(st, &a[1])? as u64; let out = self.cint(st, &a[2])? as u64; let m = self.cint(st, &a[3])? as u64;
                let ws = self.words(st, p, n)?;
                let mut os = vec![];
                for i in 0..m / 8 { let e = cx().hash_word(&ws, n as u32, 64, i as u32, m as u32); self.store_int(st, out + 8 * i, &V::S(e))?; os.push(e); }
                Rc::make_mut(&mut st.hashes).push(Rc::new((ws, n as u32, os)));
                None
            }
            Unknown => return Err(Stop::Engine(format!("call of unmodelled external function {}", demangle(name)))),
        })
    }
    fn named_input(&mut self, idx: usize, w: u32) -> E {
        // variables are shared between sibling paths by position, so that cached terms are reused
        if let Some(e) = self.in_vars.get(&(idx, w)) { return *e; }
        let e = cx().var(w, format!("in{}_{}", idx, w));
        self.in_vars.insert((idx, w), e);
        e
    }
}


/// crude v0 demangler: joins identifier segments
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = s[i..j].parse().unwrap_or(0);
            let mut st = j; if st < b.len() && b[st] == b'_' { st += 1; }
            if n > 0 && st + n <= b.len() { out.push(s[st..st + n].to_string()); i = st + n; continue; }
        }
        if b[i] == b's' { // disambiguator: skip to '_'
            if let Some(k) = s[i..].find('_') { if s[i + 1..i + k].chars().all(|c| c.is_ascii_alphanumeric()) && k < 14 { i += k + 1; continue; } }
        }
        i += 1;
    }
    out.join("::")
}
