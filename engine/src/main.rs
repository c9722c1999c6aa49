//! symex <all.ll> --entry h_x [--param a,b,..] --out result.json ...
mod exec;
mod expr;
mod ir;
mod z3;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn wit(w: &exec::Witness) -> String {
    format!("{{\"inputs\":[{}],\"observations\":[{}],\"hashes\":[{}],\"panics\":{},\"checks\":{}}}",
        w.inputs.iter().map(|(k, b)| format!("[{},\"{}\"]", k, hex(b))).collect::<Vec<_>>().join(","),
        w.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        w.hashes.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", hex(a), hex(b))).collect::<Vec<_>>().join(","),
        w.panics, w.checks)
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None; let mut out = None;
    let mut cfg = exec::Config { entry: String::new(), params: vec![], max_time: 600.0, max_steps: 50_000_000, samples: 4, seed: 1, timeout_ms: 120_000, max_viol: 24, dump: None, shard: (0, 1, 0), stop: None, grace: 1e18, max_mem: 1 << 40, prop: String::new(), skip: vec![] };
    let mut i = 1;
    while i < args.len() {
        let cur = args[i].clone();
        let mut nx = || { i += 1; args[i].clone() };
        match cur.as_str() {
            "--entry" => cfg.entry = nx(), "--out" => out = Some(nx()),
            "--param" => cfg.params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--max-time" => cfg.max_time = nx().parse().unwrap(), "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--samples" => cfg.samples = nx().parse().unwrap(), "--seed" => cfg.seed = nx().parse().unwrap(),
            "--solver-timeout" => cfg.timeout_ms = nx().parse().unwrap(),
            "--shard" => { let v: Vec<u64> = nx().split(',').map(|s| s.parse().unwrap()).collect(); cfg.shard = (v[0], v[1], v[2] as u32); }
            "--stop-file" => cfg.stop = Some(nx().into()), "--grace" => cfg.grace = nx().parse().unwrap(), "--max-mem" => cfg.max_mem = nx().parse().unwrap(),
            "--prop" => cfg.prop = nx(), "--skip-ids" => cfg.skip = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--dump" => cfg.dump = Some(nx().into()),
            _ => file = Some(cur.clone()),
        }
        i += 1;
    }
    let src = std::fs::read_to_string(file.expect("ir file")).expect("read ir");
    let t0 = std::time::Instant::now();
    let m = ir::load(&src);
    drop(src);
    let load_s = t0.elapsed().as_secs_f64();
    let t1 = std::time::Instant::now();
    let mut ex = exec::Exec::new(&m, cfg);
    ex.run();
    let run_s = t1.elapsed().as_secs_f64();
    let mut locs: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> = Default::default();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    for d in 0..ex.dbg_seen.len() {
        if !ex.dbg_seen[d] { continue; }
        let mut cur = d as u32; let mut g = 0;
        while cur != 0 && g < 30 {
            g += 1;
            if let Some((f, l, n)) = ex.loc(cur) { if !f.contains("/rustc/") && !f.contains("/rustlib/") && !f.contains("registry") { locs.entry(f.clone()).or_default().insert(l); fns.insert(format!("{} ({})", n, f)); } }
            cur = m.meta.get(&cur).and_then(|x| x.fields.get("inlinedAt")).and_then(|x| x.trim_start_matches('!').parse().ok()).unwrap_or(0);
        }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"params\":[{}],\"complete\":{},\"incomplete\":{},", js(&ex.cfg.entry), ex.cfg.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), ex.incomplete.is_none(), ex.incomplete.as_ref().map(|s| js(s)).unwrap_or("null".into()));
    let _ = write!(o, "\"paths\":{},\"forks\":{},\"steps\":{},\"killed\":{},\"max_depth\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"run_s\":{:.3},\"expected_panics\":{},\"check_paths\":{},\"violating_paths\":{},\"z3\":{},\"terms\":{},",
        ex.paths, ex.forks, ex.steps, ex.killed, ex.max_depth, ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.time, ex.z3.max_time, load_s, run_s, ex.panics_expected, ex.reached_check_paths, ex.viol_count, js(&z3::version()), expr::cx().nodes.len());
    let _ = write!(o, "\"checks\":{{{}}},", ex.checks.iter().map(|(k, c)| format!("{}:{{\"obligations\":{},\"by_solver\":{},\"by_simplification\":{},\"violated\":{}}}", js(k), c.obligations, c.by_solver, c.trivially, c.violated)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covers\":{{{}}},", ex.covers.iter().map(|(k, c)| format!("{}:{}", js(k), c)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":[{}],", fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"ir_functions\":{},", ex.fn_seen.iter().filter(|x| **x).count());
    let _ = write!(o, "\"lines\":{{{}}},", locs.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", ex.samples.iter().map(|(_, w)| wit(w)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}]}}", ex.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"witness\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.id), wit(&v.wit), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    match out { Some(f) => std::fs::write(f, o).unwrap(), None => println!("{}", o) }
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(4);
    std::process::exit(r);
}
