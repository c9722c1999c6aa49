//! Parser for textual LLVM IR (the subset rustc emits), resolving globals,
//! constant expressions and register numbers at load time.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Label,
    Meta,
    Float(u32),
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; align_up(b, self.align()) }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !*packed { let a = t.align(); o = align_up(o, a); al = al.max(a); }
                    o += t.size();
                }
                align_up(o, al)
            }
            Ty::Vec(n, t) => {
                let bits = (*n as u64) * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Float(w) => (*w as u64) / 8,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    /// number of bytes a load/store of this type touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Float(w) => (*w as u64) / 8,
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { o = align_up(o, t.align()); }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
}
fn align_up(x: u64, a: u64) -> u64 { if a <= 1 { x } else { (x + a - 1) / a * a } }

/// Constant value known at load time.
#[derive(Clone, Debug, PartialEq)]
pub enum CV {
    Int(u32, u128),
    Agg(Vec<CV>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(Rc<CV>),
    Int(u32, u128),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, Udiv, Sdiv, Urem, Srem, Shl, Lshr, Ashr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, Bit, Id }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opnd), Asm }

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Select(Opnd, bool, Ty, Opnd, Opnd),
    Cast(Cast, Ty, Opnd, Ty),
    Alloca(Ty, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    /// base, constant offset, (scale, index operand, index width)
    Gep(Opnd, i64, Vec<(i64, Opnd, u32)>),
    Call(Callee, Ty, Vec<(Ty, Opnd)>, bool),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Opnd, Opnd, Vec<u32>),
    ExtractElt(Ty, Opnd, Opnd),
    InsertElt(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<i64>),
    Freeze(Opnd),
    Ret(Option<Opnd>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u128, u32)>),
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst { pub dst: Option<u32>, pub op: Op, pub dbg: u32 }

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, HashMap<u32, Opnd>)>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub noreturn: bool,
    pub ret: Ty,
    pub is_decl: bool,
    pub addr: u64,
}

pub struct Global { pub name: String, pub size: u64, pub init: Option<Vec<u8>>, pub addr: u64, pub tls: bool, pub constant: bool }

#[derive(Clone, Debug, Default)]
pub struct Meta { pub kind: String, pub fields: HashMap<String, String>, pub raw: String }

pub struct Module {
    pub funcs: Vec<Func>,
    pub func_by_name: HashMap<String, u32>,
    pub func_by_addr: HashMap<u64, u32>,
    pub globals: Vec<Global>,
    pub meta: HashMap<u32, Meta>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),     // bare word
    L(String),      // %name
    G(String),      // @name
    N(String),      // number (int / hex float)
    S(Vec<u8>),     // string literal
    CS(Vec<u8>),    // c"..."
    M(String),      // !...
    A(String),      // #n
    P(char),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 + 0 && (s[i+1] as char).is_ascii_hexdigit() && (s[i+2] as char).is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i+1..i+3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i+1] == b'\\' {
            o.push(b'\\'); i += 2;
        } else { o.push(s[i]); i += 1; }
    }
    o
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => { i += 1; }
            b';' => break,
            b'"' => {
                let j = i + 1 + b[i+1..].iter().position(|&x| x == b'"').expect("str");
                v.push(T::S(unescape(&b[i+1..j]))); i = j + 1;
            }
            b'%' | b'@' => {
                let (name, ni) = if i + 1 < b.len() && b[i+1] == b'"' {
                    let j = i + 2 + b[i+2..].iter().position(|&x| x == b'"').expect("str");
                    (String::from_utf8_lossy(&unescape(&b[i+2..j])).into_owned(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) { j += 1; }
                    (s[i+1..j].to_string(), j)
                };
                v.push(if c == b'%' { T::L(name) } else { T::G(name) });
                i = ni;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                v.push(T::M(s[i+1..j].to_string())); i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                v.push(T::A(s[i+1..j].to_string())); i = j;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || (b[j] == b'+' )) { j += 1; }
                v.push(T::N(s[i..j].to_string())); i = j;
            }
            b'c' if i + 1 < b.len() && b[i+1] == b'"' => {
                let j = i + 2 + b[i+2..].iter().position(|&x| x == b'"').expect("str");
                v.push(T::CS(unescape(&b[i+2..j]))); i = j + 1;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                v.push(T::Id(s[i..j].to_string())); i = j;
            }
            _ => { v.push(T::P(c as char)); i += 1; }
        }
    }
    v
}

struct P<'a> { t: &'a [T], i: usize }

impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn next(&mut self) -> T { let t = self.t[self.i].clone(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(&T::P(c)) }
    fn eat(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { panic!("expected {} at {:?}", c, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]) } }
    fn eat_id(&mut self, s: &str) -> bool { if let Some(T::Id(x)) = self.peek() { if x == s { self.i += 1; return true; } } false }
    fn skip_group(&mut self) { // at '('
        let mut d = 0;
        loop {
            match self.next() { T::P('(') | T::P('[') | T::P('{') => d += 1, T::P(')') | T::P(']') | T::P('}') => { d -= 1; if d == 0 { return; } } _ => {} }
        }
    }
    fn done(&self) -> bool { self.i >= self.t.len() }
}

fn int_ty(s: &str) -> Option<u32> {
    if s.len() > 1 && s.starts_with('i') { s[1..].parse().ok() } else { None }
}

pub const FN_BASE: u64 = 0x7f00_0000_0000;
pub const OBJ_SHIFT: u32 = 24;

struct Loader {
    types: HashMap<String, Ty>,
    type_src: HashMap<String, Vec<T>>,
    gaddr: HashMap<String, u64>,
    faddr: HashMap<String, u64>,
    aliases: HashMap<String, Vec<T>>,
}

impl Loader {
    fn named(&mut self, n: &str) -> Ty {
        if let Some(t) = self.types.get(n) { return t.clone(); }
        let src = match self.type_src.get(n) { Some(s) => s.clone(), None => panic!("unknown type {}", n) };
        let mut p = P { t: &src, i: 0 };
        let t = if p.eat_id("opaque") { Ty::Opaque } else { self.ty(&mut p) };
        self.types.insert(n.to_string(), t.clone());
        t
    }
    fn ty_opt(&mut self, p: &mut P) -> Option<Ty> {
        let t = match p.peek()? {
            T::Id(s) => {
                if let Some(w) = int_ty(s) { p.i += 1; Ty::Int(w) } else {
                    let r = match s.as_str() {
                        "ptr" => Ty::Ptr, "void" => Ty::Void, "label" => Ty::Label, "metadata" => Ty::Meta,
                        "half" => Ty::Float(16), "float" => Ty::Float(32), "double" => Ty::Float(64), "fp128" => Ty::Float(128), "x86_fp80" => Ty::Float(80),
                        _ => return None,
                    };
                    p.i += 1;
                    if r == Ty::Ptr && p.peek() == Some(&T::Id("addrspace".into())) { p.i += 1; p.skip_group(); }
                    r
                }
            }
            T::L(n) => { let n = n.clone(); p.i += 1; self.named(&n) }
            T::P('[') => {
                p.i += 1;
                let n: u64 = match p.next() { T::N(s) => s.parse().unwrap(), x => panic!("arr {:?}", x) };
                assert!(p.eat_id("x"));
                let e = self.ty(p);
                p.expect(']');
                Ty::Arr(n, Rc::new(e))
            }
            T::P('{') => {
                p.i += 1;
                let mut v = Vec::new();
                while !p.eat('}') { v.push(self.ty(p)); p.eat(','); }
                Ty::Struct(Rc::new(v), false)
            }
            T::P('<') => {
                p.i += 1;
                if p.eat('{') {
                    let mut v = Vec::new();
                    while !p.eat('}') { v.push(self.ty(p)); p.eat(','); }
                    p.expect('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u32 = match p.next() { T::N(s) => s.parse().unwrap(), x => panic!("vec {:?}", x) };
                    assert!(p.eat_id("x"));
                    let e = self.ty(p);
                    p.expect('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            _ => return None,
        };
        Some(t)
    }
    fn ty(&mut self, p: &mut P) -> Ty {
        match self.ty_opt(p) { Some(t) => t, None => panic!("type expected at {:?}", &p.t[p.i.saturating_sub(4)..(p.i + 4).min(p.t.len())]) }
    }
    /// skip attribute words (with optional parenthesised or numeric argument)
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            match p.peek() {
                Some(T::Id(s)) => {
                    if int_ty(s).is_some() || matches!(s.as_str(), "ptr" | "void" | "label" | "metadata" | "half" | "float" | "double" | "fp128") { return; }
                    if matches!(s.as_str(), "undef" | "poison" | "null" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "sub" | "add" | "bitcast" | "splat" | "none" | "asm" | "blockaddress" | "xor") { return; }
                    let al = s == "align" || s == "addrspace" ;
                    p.i += 1;
                    if p.is_p('(') { p.skip_group(); }
                    else if al { if let Some(T::N(_)) = p.peek() { p.i += 1; } }
                }
                Some(T::A(_)) => { p.i += 1; }
                Some(T::S(_)) => { p.i += 1; if p.eat('=') { p.i += 1; } }
                _ => return,
            }
        }
    }
    fn zero(&self, t: &Ty) -> CV {
        match t {
            Ty::Int(w) => CV::Int(*w, 0),
            Ty::Ptr => CV::Int(64, 0),
            Ty::Float(w) => CV::Int(*w, 0),
            Ty::Arr(n, e) => CV::Agg((0..*n).map(|_| self.zero(e)).collect()),
            Ty::Vec(n, e) => CV::Agg((0..*n).map(|_| self.zero(e)).collect()),
            Ty::Struct(f, _) => CV::Agg(f.iter().map(|e| self.zero(e)).collect()),
            _ => CV::Int(1, 0),
        }
    }
    fn addr_of(&mut self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a; }
        if let Some(a) = self.faddr.get(n) { return *a; }
        if let Some(src) = self.aliases.get(n).cloned() {
            let mut p = P { t: &src, i: 0 };
            let t = self.ty(&mut p);
            if let CV::Int(_, a) = self.cval(&t, &mut p) { return a as u64; }
        }
        panic!("unknown symbol @{}", n)
    }
    fn typed_const(&mut self, p: &mut P) -> (Ty, CV) {
        let t = self.ty(p);
        self.skip_attrs(p);
        let c = self.cval(&t, p);
        (t, c)
    }
    fn cval(&mut self, t: &Ty, p: &mut P) -> CV {
        match p.next() {
            T::N(s) => {
                let w = t.bits();
                if s.starts_with("0x") {
                    let h = s.trim_start_matches("0x").trim_start_matches(|c: char| "KLMHR".contains(c));
                    return CV::Int(w, u128::from_str_radix(h, 16).unwrap_or(0));
                }
                if let Ty::Float(_) = t { let f: f64 = s.parse().unwrap_or(0.0); return CV::Int(w, if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }); }
                let v: u128 = if let Some(m) = s.strip_prefix('-') { (m.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse().unwrap() };
                CV::Int(w, mask(w, v))
            }
            T::G(n) => CV::Int(64, self.addr_of(&n) as u128),
            T::CS(b) => CV::Agg(b.iter().map(|x| CV::Int(8, *x as u128)).collect()),
            T::Id(s) => match s.as_str() {
                "true" => CV::Int(1, 1),
                "false" => CV::Int(1, 0),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.zero(t),
                "splat" => {
                    p.expect('(');
                    let (_, c) = self.typed_const(p);
                    p.expect(')');
                    match t { Ty::Vec(n, _) => CV::Agg(vec![c; *n as usize]), _ => panic!("splat") }
                }
                "getelementptr" => {
                    loop { match p.peek() { Some(T::P('(')) => break, Some(T::Id(x)) if x == "inrange" => { p.i += 1; p.skip_group(); } _ => { p.i += 1; } } }
                    p.expect('(');
                    let st = self.ty(p);
                    p.expect(',');
                    let (_, base) = self.typed_const(p);
                    let mut addr = match base { CV::Int(_, a) => a as i64, _ => panic!() };
                    let mut cur = st.clone();
                    let mut first = true;
                    while p.eat(',') {
                        let (it, ic) = self.typed_const(p);
                        let iv = match ic { CV::Int(w, v) => sext(w, v) as i64, _ => panic!() };
                        let _ = it;
                        if first { addr += iv * cur.size() as i64; first = false; }
                        else {
                            match &cur { Ty::Struct(..) => { addr += cur.field_off(iv as usize) as i64; cur = cur.elem(iv as usize); }
                                _ => { let e = cur.elem(0); addr += iv * e.size() as i64; cur = e; } }
                        }
                    }
                    p.expect(')');
                    CV::Int(64, addr as u64 as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    p.expect('(');
                    let (_, c) = self.typed_const(p);
                    assert!(p.eat_id("to"));
                    let tt = self.ty(p);
                    p.expect(')');
                    match (c, &tt) {
                        (CV::Int(_, v), Ty::Int(_) | Ty::Ptr) => CV::Int(tt.bits(), mask(tt.bits(), v)),
                        (c, _) => c,
                    }
                }
                "sub" | "add" | "xor" | "mul" => {
                    while !p.is_p('(') { p.i += 1; }
                    p.expect('(');
                    let (_, a) = self.typed_const(p);
                    p.expect(',');
                    let (_, b) = self.typed_const(p);
                    p.expect(')');
                    match (a, b) { (CV::Int(w, x), CV::Int(_, y)) => CV::Int(w, mask(w, match s.as_str() { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), "mul" => x.wrapping_mul(y), _ => x ^ y })), _ => panic!() }
                }
                o => panic!("const {} ", o),
            },
            T::P('[') => { let mut v = Vec::new(); while !p.eat(']') { v.push(self.typed_const(p).1); p.eat(','); } CV::Agg(v) }
            T::P('{') => { let mut v = Vec::new(); while !p.eat('}') { v.push(self.typed_const(p).1); p.eat(','); } CV::Agg(v) }
            T::P('<') => {
                let st = p.eat('{');
                let mut v = Vec::new();
                loop {
                    if st { if p.eat('}') { p.expect('>'); break; } } else if p.eat('>') { break; }
                    v.push(self.typed_const(p).1); p.eat(',');
                }
                CV::Agg(v)
            }
            x => panic!("const {:?} near {:?}", x, &p.t[p.i.saturating_sub(5)..(p.i + 5).min(p.t.len())]),
        }
    }
    fn bytes(&self, t: &Ty, c: &CV, out: &mut Vec<u8>) {
        let start = out.len();
        match (t, c) {
            (Ty::Arr(_, e), CV::Agg(v)) => for x in v { self.bytes(e, x, out) },
            (Ty::Vec(_, e), CV::Agg(v)) => for x in v { self.bytes(e, x, out) },
            (Ty::Struct(f, _), CV::Agg(v)) => {
                for (i, x) in v.iter().enumerate() {
                    let o = t.field_off(i) as usize;
                    out.resize(start + o, 0);
                    self.bytes(&f[i], x, out);
                }
            }
            (_, CV::Int(_, v)) => { let n = t.store_size() as usize; for i in 0..n { out.push(if i < 16 { (v >> (8 * i)) as u8 } else { 0 }); } }
            (t, c) => panic!("bytes {:?} {:?}", t, c),
        }
        let sz = t.size() as usize;
        out.resize(start + sz, 0);
    }
}

pub fn mask(w: u32, v: u128) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }
pub fn sext(w: u32, v: u128) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }

struct FB<'l> { l: &'l mut Loader, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, n: u32, nb: u32 }

impl<'l> FB<'l> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.n; self.n += 1; self.regs.insert(n.to_string(), r); r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let r = self.nb; self.nb += 1; self.blocks.insert(n.to_string(), r); r
    }
    fn opnd(&mut self, t: &Ty, p: &mut P) -> Opnd {
        self.l.skip_attrs(p);
        if let Some(T::L(n)) = p.peek() { let n = n.clone(); p.i += 1; return Opnd::Reg(self.reg(&n)); }
        if *t == Ty::Meta { // metadata operand: skip to , or )
            let mut d = 0;
            loop { match p.peek() { None => break, Some(T::P('(')) => { d += 1; p.i += 1 } Some(T::P(')')) => { if d == 0 { break; } d -= 1; p.i += 1 } Some(T::P(',')) if d == 0 => break, _ => p.i += 1 } }
            return Opnd::Int(1, 0);
        }
        match self.l.cval(t, p) { CV::Int(w, v) => Opnd::Int(w, v), c => Opnd::C(Rc::new(c)) }
    }
    fn topnd(&mut self, p: &mut P) -> (Ty, Opnd) {
        self.l.skip_attrs(p);
        let t = self.l.ty(p);
        let o = self.opnd(&t, p);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        assert!(p.eat_id("label"));
        match p.next() { T::L(n) => self.blk(&n), x => panic!("label {:?}", x) }
    }
    fn inst(&mut self, toks: &[T], fnames: &HashMap<String, u32>) -> (Option<u32>, Option<(u32, Ty, HashMap<u32, Opnd>)>, Option<Op>) {
        let mut p = P { t: toks, i: 0 };
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P('='))) = (toks.get(0), toks.get(1)) { dst = Some(self.reg(n)); p.i = 2; }
        let op = match p.next() { T::Id(s) => s, x => panic!("inst {:?}", x) };
        let flags = ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "volatile", "atomic", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        macro_rules! skipflags { () => { loop { match p.peek() { Some(T::Id(s)) if flags.contains(&s.as_str()) => { p.i += 1; } Some(T::Id(s)) if s == "inrange" => { p.i += 1; p.skip_group(); } _ => break } } } }
        let o = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                skipflags!();
                let t = self.l.ty(&mut p);
                let a = self.opnd(&t, &mut p); p.expect(',');
                let b = self.opnd(&t, &mut p);
                let k = match op.as_str() { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::Udiv, "sdiv" => Bin::Sdiv, "urem" => Bin::Urem, "srem" => Bin::Srem, "shl" => Bin::Shl, "lshr" => Bin::Lshr, "ashr" => Bin::Ashr, "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor };
                Op::Bin(k, t, a, b)
            }
            "icmp" => {
                skipflags!();
                let pr = match p.next() { T::Id(s) => match s.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("{}", x) }, _ => panic!() };
                let t = self.l.ty(&mut p);
                let a = self.opnd(&t, &mut p); p.expect(',');
                let b = self.opnd(&t, &mut p);
                Op::Icmp(pr, t, a, b)
            }
            "select" => {
                skipflags!();
                let (ct, c) = self.topnd(&mut p); p.expect(',');
                let (t, a) = self.topnd(&mut p); p.expect(',');
                let (_, b) = self.topnd(&mut p);
                Op::Select(c, matches!(ct, Ty::Vec(..)), t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                skipflags!();
                let (t, a) = self.topnd(&mut p);
                assert!(p.eat_id("to"));
                let tt = self.l.ty(&mut p);
                let k = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "bitcast" => Cast::Bit,
                    _ => { let (a, b) = (t.bits(), tt.bits()); if a == b { Cast::Id } else if a > b { Cast::Trunc } else { Cast::Zext } } };
                Op::Cast(k, t, a, tt)
            }
            "alloca" => {
                let t = self.l.ty(&mut p);
                let mut n = Opnd::Int(64, 1);
                if p.eat(',') { if let Some(T::Id(s)) = p.peek() { if int_ty(s).is_some() { n = self.topnd(&mut p).1; } } }
                Op::Alloca(t, n)
            }
            "load" => {
                skipflags!();
                let t = self.l.ty(&mut p); p.expect(',');
                let (_, a) = self.topnd(&mut p);
                Op::Load(t, a)
            }
            "store" => {
                skipflags!();
                let (t, v) = self.topnd(&mut p); p.expect(',');
                let (_, a) = self.topnd(&mut p);
                Op::Store(t, v, a)
            }
            "getelementptr" => {
                skipflags!();
                let st = self.l.ty(&mut p); p.expect(',');
                let (bt, base) = self.topnd(&mut p);
                assert!(bt == Ty::Ptr, "vector gep");
                let mut off = 0i64;
                let mut dynv = Vec::new();
                let mut cur = st;
                let mut first = true;
                while p.is_p(',') {
                    if let Some(T::M(_)) = p.t.get(p.i + 1) { break; }
                    p.i += 1;
                    let (it, io) = self.topnd(&mut p);
                    let (scale, next) = if first { (cur.size() as i64, cur.clone()) } else {
                        match &cur {
                            Ty::Struct(..) => { let k = match &io { Opnd::Int(_, v) => *v as usize, _ => panic!() }; off += cur.field_off(k) as i64; let e = cur.elem(k); cur = e; continue; }
                            _ => { let e = cur.elem(0); (e.size() as i64, e) }
                        }
                    };
                    first = false;
                    cur = next;
                    match io { Opnd::Int(w, v) => off = off.wrapping_add((sext(w, v) as i64).wrapping_mul(scale)), o => dynv.push((scale, o, it.bits())) }
                }
                Op::Gep(base, off, dynv)
            }
            "tail" | "call" | "notail" | "musttail" => {
                if op != "call" { assert!(p.eat_id("call")); }
                loop { match p.peek() { Some(T::Id(s)) if flags.contains(&s.as_str()) => p.i += 1, _ => break } }
                // calling convention and return attributes
                self.l.skip_attrs(&mut p);
                let rt = self.l.ty(&mut p);
                // optional function type: (args...)
                if p.is_p('(') { p.skip_group(); }
                self.l.skip_attrs(&mut p);
                let callee = match p.next() {
                    T::G(n) => match fnames.get(&n) { Some(i) => Callee::Direct(*i), None => { let a = self.l.addr_of(&n); Callee::Indirect(Opnd::Int(64, a as u128)) } },
                    T::L(n) => Callee::Indirect(Opnd::Reg(self.reg(&n))),
                    T::Id(s) if s == "asm" => { while !p.is_p('(') { p.i += 1; } Callee::Asm }
                    x => panic!("callee {:?}", x),
                };
                p.expect('(');
                let mut args = Vec::new();
                while !p.eat(')') { args.push(self.topnd(&mut p)); p.eat(','); }
                Op::Call(callee, rt, args, false)
            }
            "extractvalue" => {
                let (_, a) = self.topnd(&mut p);
                let mut ix = Vec::new();
                while p.eat(',') { match p.peek() { Some(T::N(s)) => { ix.push(s.parse().unwrap()); p.i += 1; } _ => break } }
                Op::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.topnd(&mut p); p.expect(',');
                let (_, b) = self.topnd(&mut p);
                let mut ix = Vec::new();
                while p.eat(',') { match p.peek() { Some(T::N(s)) => { ix.push(s.parse().unwrap()); p.i += 1; } _ => break } }
                Op::InsertValue(a, b, ix)
            }
            "extractelement" => { let (t, a) = self.topnd(&mut p); p.expect(','); let (_, i) = self.topnd(&mut p); Op::ExtractElt(t, a, i) }
            "insertelement" => { let (t, a) = self.topnd(&mut p); p.expect(','); let (_, b) = self.topnd(&mut p); p.expect(','); let (_, i) = self.topnd(&mut p); Op::InsertElt(t, a, b, i) }
            "shufflevector" => {
                let (t, a) = self.topnd(&mut p); p.expect(',');
                let (_, b) = self.topnd(&mut p); p.expect(',');
                let (_, m) = self.l.typed_const(&mut p);
                let mv = match m { CV::Agg(v) => v.into_iter().map(|x| match x { CV::Int(w, v) => sext(w, v) as i64, _ => panic!() }).collect(), _ => panic!() };
                Op::Shuffle(t, a, b, mv)
            }
            "freeze" => { let (_, a) = self.topnd(&mut p); Op::Freeze(a) }
            "ret" => { if p.eat_id("void") { Op::Ret(None) } else { let (_, a) = self.topnd(&mut p); Op::Ret(Some(a)) } }
            "br" => {
                if let Some(T::Id(s)) = p.peek() { if s == "label" { let b = self.label(&mut p); return (None, None, Some(Op::Br(b))); } }
                let (_, c) = self.topnd(&mut p); p.expect(',');
                let a = self.label(&mut p); p.expect(',');
                let b = self.label(&mut p);
                Op::CondBr(c, a, b)
            }
            "switch" => {
                let (t, c) = self.topnd(&mut p); p.expect(',');
                let d = self.label(&mut p);
                p.expect('[');
                let mut cs = Vec::new();
                while !p.eat(']') {
                    let (_, v) = self.l.typed_const(&mut p); p.expect(',');
                    let b = self.label(&mut p);
                    match v { CV::Int(_, v) => cs.push((v, b)), _ => panic!() }
                }
                Op::Switch(c, t.bits(), d, cs)
            }
            "phi" => {
                skipflags!();
                let t = self.l.ty(&mut p);
                let mut m = HashMap::new();
                loop {
                    p.expect('[');
                    let v = self.opnd(&t, &mut p); p.expect(',');
                    let b = match p.next() { T::L(n) => self.blk(&n), x => panic!("phi {:?}", x) };
                    p.expect(']');
                    m.insert(b, v);
                    if !p.is_p(',') { break; }
                    if let Some(T::P('[')) = p.t.get(p.i + 1) { p.i += 1; } else { break; }
                }
                return (None, Some((dst.unwrap(), t, m)), None);
            }
            "unreachable" => Op::Unreachable,
            "fence" => Op::Fence,
            "atomicrmw" => {
                skipflags!();
                let k = match p.next() { T::Id(s) => s, _ => panic!() };
                let (_, a) = self.topnd(&mut p); p.expect(',');
                let (t, v) = self.topnd(&mut p);
                Op::AtomicRmw(k, t, a, v)
            }
            "cmpxchg" => {
                p.eat_id("weak"); skipflags!();
                let (_, a) = self.topnd(&mut p); p.expect(',');
                let (t, c) = self.topnd(&mut p); p.expect(',');
                let (_, n) = self.topnd(&mut p);
                Op::CmpXchg(t, a, c, n)
            }
            x => Op::Unsupported(x.to_string()),
        };
        (dst, None, Some(o))
    }
}

pub fn load(src: &str) -> Module {
    let mut l = Loader { types: HashMap::new(), type_src: HashMap::new(), gaddr: HashMap::new(), faddr: HashMap::new(), aliases: HashMap::new() };
    let lines: Vec<&str> = src.lines().collect();
    let mut gl: Vec<(String, Vec<T>)> = Vec::new();
    let mut fl: Vec<(String, usize, bool)> = Vec::new();
    let mut meta = HashMap::new();
    let mut attr_noreturn: HashMap<String, bool> = HashMap::new();
    for (i, ln) in lines.iter().enumerate() {
        if ln.starts_with('%') {
            let t = lex(ln);
            if let T::L(n) = &t[0] { l.type_src.insert(n.clone(), t[3..].to_vec()); }
        } else if ln.starts_with('@') {
            let t = lex(ln);
            if let T::G(n) = &t[0] { gl.push((n.clone(), t[2..].to_vec())); }
        } else if ln.starts_with("define ") || ln.starts_with("declare ") {
            let t = lex(ln);
            let n = t.iter().find_map(|x| if let T::G(n) = x { Some(n.clone()) } else { None }).unwrap();
            fl.push((n, i, ln.starts_with("declare")));
        } else if ln.starts_with("attributes ") {
            let t = lex(ln);
            if let Some(T::A(n)) = t.get(1) { attr_noreturn.insert(n.clone(), t.iter().any(|x| *x == T::Id("noreturn".into()))); }
        } else if ln.starts_with('!') {
            if let Some(eq) = ln.find(" = ") {
                if let Ok(n) = ln[1..eq].parse::<u32>() {
                    let raw = ln[eq + 3..].trim_start_matches("distinct ");
                    if raw.starts_with("!DI") {
                        let par = raw.find('(').unwrap_or(raw.len());
                        let kind = raw[1..par].to_string();
                        let mut fields = HashMap::new();
                        let body = &raw[(par + 1).min(raw.len())..raw.rfind(')').unwrap_or(raw.len())];
                        let mut depth = 0; let mut q = false; let mut st = 0;
                        let bb = body.as_bytes();
                        for k in 0..=bb.len() {
                            let c = if k < bb.len() { bb[k] } else { b',' };
                            if q { if c == b'"' { q = false; } continue; }
                            match c { b'"' => q = true, b'(' => depth += 1, b')' => depth -= 1,
                                b',' if depth == 0 => { if let Some(c) = body[st..k].find(':') { fields.insert(body[st..st + c].trim().to_string(), body[st + c + 1..k].trim().trim_matches('"').to_string()); } st = k + 1; }
                                _ => {} }
                        }
                        meta.insert(n, Meta { kind, fields, raw: String::new() });
                    }
                }
            }
        }
    }
    let mut globals = Vec::new();
    let mut next_obj = 1u64;
    for (n, t) in &gl {
        if t.iter().any(|x| *x == T::Id("alias".into())) {
            let k = t.iter().position(|x| *x == T::Id("alias".into())).unwrap();
            // alias <ty>, <aliasee ty> @x
            let c = t[k..].iter().position(|x| *x == T::P(',')).unwrap() + k;
            l.aliases.insert(n.clone(), t[c + 1..].to_vec());
            continue;
        }
        l.gaddr.insert(n.clone(), next_obj << OBJ_SHIFT);
        globals.push(Global { name: n.clone(), size: 0, init: None, addr: next_obj << OBJ_SHIFT, tls: false, constant: false });
        next_obj += 1;
    }
    for (k, (n, _, _)) in fl.iter().enumerate() { l.faddr.insert(n.clone(), FN_BASE + (k as u64) * 16); }
    let mut gi = 0;
    for (_, t) in &gl {
        if t.iter().any(|x| *x == T::Id("alias".into())) { continue; }
        let mut p = P { t, i: 0 };
        let mut external = false; let mut tls = false; let mut constant = false;
        loop {
            match p.next() {
                T::Id(s) => match s.as_str() { "global" => break, "constant" => { constant = true; break } "external" | "extern_weak" => external = true, "thread_local" => { tls = true; if p.is_p('(') { p.skip_group(); } } "addrspace" | "align" => { if p.is_p('(') { p.skip_group(); } } _ => {} },
                _ => {}
            }
        }
        let ty = l.ty(&mut p);
        let mut init = None;
        if !external && !p.done() && !p.is_p(',') { let c = l.cval(&ty, &mut p); let mut b = Vec::new(); l.bytes(&ty, &c, &mut b); init = Some(b); }
        globals[gi].size = ty.size(); globals[gi].init = init; globals[gi].tls = tls; globals[gi].constant = constant;
        gi += 1;
    }
    let fnames: HashMap<String, u32> = fl.iter().enumerate().map(|(i, (n, _, _))| (n.clone(), i as u32)).collect();
    let mut funcs = Vec::new();
    for (k, (n, li, decl)) in fl.iter().enumerate() {
        let toks = lex(lines[*li]);
        let mut p = P { t: &toks, i: 1 };
        l.skip_attrs(&mut p);
        let ret = l.ty(&mut p);
        let noreturn = toks.iter().any(|x| *x == T::Id("noreturn".into())) || toks.iter().any(|x| if let T::A(a) = x { *attr_noreturn.get(a).unwrap_or(&false) } else { false });
        while !matches!(p.peek(), Some(T::G(_))) { p.i += 1; }
        p.i += 1;
        let mut f = Func { name: n.clone(), params: vec![], nregs: 0, blocks: vec![], noreturn, ret, is_decl: *decl || crate::exec::intercepted(n, noreturn), addr: FN_BASE + (k as u64) * 16 };
        if !f.is_decl {
            let mut fb = FB { l: &mut l, regs: HashMap::new(), blocks: HashMap::new(), n: 0, nb: 0 };
            p.expect('(');
            let mut unnamed = 0;
            while !p.eat(')') {
                if p.eat('.') { p.eat('.'); p.eat('.'); continue; }
                if let Some(T::Id(s)) = p.peek() { if s == "..." { p.i += 1; continue; } }
                let _t = fb.l.ty(&mut p);
                fb.l.skip_attrs(&mut p);
                let name = match p.peek() { Some(T::L(x)) => { let x = x.clone(); p.i += 1; x } _ => { let x = unnamed.to_string(); unnamed += 1; x } };
                if name.parse::<u32>().is_ok() { unnamed = name.parse::<u32>().unwrap() + 1; }
                let r = fb.reg(&name);
                f.params.push(r);
                p.eat(',');
            }
            let mut blocks: Vec<(u32, Block)> = Vec::new();
            let mut i = *li + 1;
            let mut cur: Option<(u32, Block)> = None;
            loop {
                let ln = lines[i];
                if ln.starts_with('}') { break; }
                if ln.trim().is_empty() { i += 1; continue; }
                if !ln.starts_with(' ') && !ln.starts_with('\t') {
                    // label
                    let name = if ln.starts_with('"') { let e = ln[1..].find('"').unwrap(); String::from_utf8_lossy(&unescape(ln[1..1 + e].as_bytes())).into_owned() } else { ln[..ln.find(':').unwrap()].to_string() };
                    if let Some(c) = cur.take() { blocks.push(c); }
                    let b = fb.blk(&name);
                    cur = Some((b, Block { name, ..Default::default() }));
                    i += 1;
                    continue;
                }
                if ln.trim_start().starts_with("#dbg") || ln.trim_start().starts_with(';') { i += 1; continue; }
                if cur.is_none() { let name = unnamed.to_string(); let b = fb.blk(&name); cur = Some((b, Block { name, ..Default::default() })); }
                let mut text = ln.to_string();
                if ln.trim_start().starts_with("switch ") && ln.trim_end().ends_with('[') {
                    loop { i += 1; text.push(' '); text.push_str(lines[i]); if lines[i].trim_start().starts_with(']') { break; } }
                }
                let toks = lex(&text);
                let mut dbg = 0;
                for w in toks.windows(2) { if let (T::M(a), T::M(b)) = (&w[0], &w[1]) { if a == "dbg" { dbg = b.parse().unwrap_or(0); } } }
                let (dst, phi, op) = fb.inst(&toks, &fnames);
                let c = cur.as_mut().unwrap();
                if let Some(ph) = phi { c.1.phis.push(ph); }
                if let Some(o) = op { c.1.insts.push(Inst { dst, op: o, dbg }); }
                i += 1;
            }
            if let Some(c) = cur.take() { blocks.push(c); }
            // Entry block is the first in text order; renumber so blocks are indexed by id.
            let n = fb.nb as usize;
            let entry = blocks[0].0;
            assert!(entry == 0, "entry block not first: {}", f.name);
            let mut v: Vec<Block> = vec![Block::default(); n];
            for (id, b) in blocks { v[id as usize] = b; }
            f.blocks = v;
            f.nregs = fb.n;
        }
        funcs.push(f);
    }
    let func_by_addr = funcs.iter().enumerate().map(|(i, f)| (f.addr, i as u32)).collect();
    Module { funcs, func_by_name: fnames, func_by_addr, globals, meta }
}
