//! Replays solver-found inputs natively, on the real code.
//! runner <entry> <params> <replay-file>
//! replay file: lines "i <kind> <hex>" (inputs in order), "h <hex-in> <hex-out>" (digest table)
//! output: "check <id> ok|fail", "cover <id>", "obs <n>", "panic <msg>", "assume-failed", "end"
use std::cell::RefCell;
use std::collections::HashMap;

struct St { inputs: Vec<(u8, Vec<u8>)>, pos: usize, table: HashMap<(Vec<u8>, usize), Vec<u8>>, params: Vec<u64>, out: String }
struct Global(RefCell<Option<St>>);
unsafe impl Sync for Global {} // one thread at a time uses it
static ST_: Global = Global(RefCell::new(None));
struct Acc;
static ST: Acc = Acc;
struct Cell2;
impl Cell2 { fn borrow_mut(&self) -> std::cell::RefMut<'static, St> { std::cell::RefMut::map(ST_.0.borrow_mut(), |x| x.get_or_insert_with(|| St { inputs: vec![], pos: 0, table: HashMap::new(), params: vec![], out: String::new() })) } fn borrow(&self) -> std::cell::RefMut<'static, St> { self.borrow_mut() } }
impl Acc { fn with<R>(&self, f: impl FnOnce(&Cell2) -> R) -> R { f(&Cell2) } }

fn die(msg: &str) -> ! { flush(); println!("{}", msg); println!("end"); std::process::exit(0) }
fn flush() { ST.with(|s| { let mut s = s.borrow_mut(); print!("{}", s.out); s.out.clear(); }); use std::io::Write; let _ = std::io::stdout().flush(); }
fn next(n: usize) -> Vec<u8> {
    let r = ST.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; s.inputs.get(p).map(|x| x.1.clone()) });
    match r { Some(mut v) => { v.resize(n, 0); v } None => die("out-of-inputs") }
}
fn le(b: &[u8]) -> u64 { let mut r = [0u8; 8]; r[..b.len()].copy_from_slice(b); u64::from_le_bytes(r) }
include!("../../engine/src/digest.rs");

#[no_mangle] pub extern "C" fn sym_bytes(p: *mut u8, n: usize) { let v = next(n); unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) } }
#[no_mangle] pub extern "C" fn sym_u64() -> u64 { le(&next(8)) }
#[no_mangle] pub extern "C" fn sym_range(lo: u64, hi: u64) -> u64 { let v = le(&next(8)); if v < lo || v > hi { die("assume-failed") } v }
#[no_mangle] pub extern "C" fn sym_choose(n: u64) -> u64 { let v = le(&next(8)); if v >= n { die("assume-failed") } v }
#[no_mangle] pub extern "C" fn sym_assume(b: bool) { if !b { die("assume-failed") } }
fn s(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() }
fn put(l: String) { ST.with(|st| { let mut st = st.borrow_mut(); st.out.push_str(&l); st.out.push('\n'); }); }
#[no_mangle] pub extern "C" fn sym_check(b: bool, p: *const u8, n: usize) { put(format!("check {} {}", s(p, n), if b { "ok" } else { "fail" })); if !b { flush() } }
#[no_mangle] pub extern "C" fn sym_cover(p: *const u8, n: usize) { put(format!("cover {}", s(p, n))); }
#[no_mangle] pub extern "C" fn sym_param(i: u64) -> u64 { ST.with(|s| s.borrow().params.get(i as usize).cloned().unwrap_or(0)) }
#[no_mangle] pub extern "C" fn sym_observe(v: u64) { put(format!("obs {}", v)); }
#[no_mangle] pub extern "C" fn sym_concrete(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn sym_same(p: *const u8, q: *const u8, n: usize) -> bool { unsafe { std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, n) } }
#[no_mangle] pub extern "C" fn sym_expect_panic(_b: bool) {}
#[no_mangle] pub extern "C" fn sym_hash(p: *const u8, n: usize, out: *mut u8, m: usize) {
    let inp = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    let r = ST.with(|s| s.borrow().table.get(&(inp.clone(), m)).cloned()).unwrap_or_else(|| {
        let args: Vec<u64> = inp.chunks(8).map(le).collect();
        let mut o = vec![];
        for i in 0..m / 8 { o.extend_from_slice(&default_digest(&args, n as u32, i as u32, m as u32).to_le_bytes()); }
        o
    });
    unsafe { std::ptr::copy_nonoverlapping(r.as_ptr(), out, m) }
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::entry(&a[1]).expect("entry");
    let txt = std::fs::read_to_string(&a[3]).expect("replay file");
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.params = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        for l in txt.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] { "i" => { let k = w[1].parse().unwrap(); s.inputs.push((k, unhex(w[2]))) } "h" => { let o = unhex(w[2]); s.table.insert((unhex(w[1]), o.len()), o); } _ => {} }
        }
    });
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        flush();
        println!("panic {} {}", l, m.replace('\n', " "));
    }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { f(); }).unwrap();
    let _ = h.join();
    flush();
    println!("end");
    std::process::exit(0)
}
