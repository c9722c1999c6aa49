#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property of /repo by symbolic execution.

Builds the executor, the LLVM IR of the harness + the crates in /repo's working tree and the
native replay runner, runs every job registered for the property (checks/jobs.py), replays what
the solver found on the natively compiled real code and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION (reproduced natively); 2: error of the check."""
import sys, os, json, time, threading, subprocess, fcntl, hashlib, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
import jobs as J
B = os.environ.get("SYM_BUILD", os.path.join(HERE, ".build"))
ENGINE = os.path.join(B, "engine", "release", "symex")
T0 = time.time()
TRIPLE = "x86_64-unknown-linux-gnu"
TOOL = "stable-" + TRIPLE

def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)

def run(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = TOOL
    if env: e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")

def seed_lock(d):
    pass

def build_engine():
    rc, o = run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")], cwd=os.path.join(HERE, "engine"))
    if rc: raise RuntimeError("engine build failed\n" + o[-3000:])

def llbin():
    rc, o = run(["rustc", "--print", "sysroot"])
    return os.path.join(o.strip().split("\n")[-1], "lib/rustlib", TRIPLE, "bin")

def std_bitcode():
    """Bitcode of the standard library's own instances, embedded in the toolchain's rlibs."""
    d = os.path.join(B, "std")
    libs = ["alloc", "std", "core"]
    if not all(os.path.exists(os.path.join(d, l + ".bc")) for l in libs):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        L = os.path.join(os.path.dirname(llbin()), "lib")
        for l in libs:
            r = next(f for f in sorted(os.listdir(L)) if re.match("lib%s-[0-9a-f]+\\.rlib$" % l, f))
            rc, o = run([os.path.join(llbin(), "llvm-ar"), "x", os.path.join(L, r)], cwd=d)
            if rc: raise RuntimeError("llvm-ar failed\n" + o[-2000:])
            obj = next(f for f in sorted(os.listdir(d)) if f.startswith(l + "-") and f.endswith(".o"))
            rc, o = run([os.path.join(llbin(), "llvm-objcopy"), "--dump-section", ".llvmbc=%s.tmp" % l, obj, "/dev/null"], cwd=d)
            if rc: raise RuntimeError("no bitcode in the standard library\n" + o[-2000:])
            os.replace(os.path.join(d, l + ".tmp"), os.path.join(d, l + ".bc"))
            os.remove(os.path.join(d, obj))
    return [os.path.join(d, l + ".bc") for l in libs]

def features(entries):
    """The features of the harness that hold these entries."""
    with open(os.path.join(HERE, "harness", "src", "lib.rs")) as f: src = f.read()
    return sorted({f for f, es in re.findall(r'"(\w+)" \w+::\{([^}]*)\}', src) if set(re.findall(r"\w+", es)) & set(entries)})

def build_ir(mode, feats):
    t = os.path.join(B, "ir-%s-%s" % (mode, "-".join(feats)))   # bitcode of different features does not mix
    env = {"RUSTC_BOOTSTRAP": "1",
           "RUSTFLAGS": "--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp -Zub-checks=no -Zshare-generics=no"}
    if mode == "rel":
        env.update(CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false", CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false")
    deps = os.path.join(t, TRIPLE, "release", "deps")
    std = std_bitcode()
    for attempt in (0, 1):
        rc, o = run(["cargo", "build", "--release", "--offline", "--target", TRIPLE, "--target-dir", t, "--no-default-features", "--features", ",".join(feats)], env=env, cwd=os.path.join(HERE, "harness"))
        if rc: raise RuntimeError("the harness does not compile against /repo\n" + "\n".join(l for l in o.split("\n") if "error" in l or "-->" in l)[-4000:])
        bcs = sorted(os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".bc"))
        bc = os.path.join(B, "all-%s.bc" % mode)
        rc, o = run([os.path.join(llbin(), "llvm-link"), "-o", bc] + bcs)
        if rc == 0:
            rc, o = run([os.path.join(llbin(), "llvm-link"), "--only-needed", "-o", bc + ".tmp", bc] + std)
            if rc: raise RuntimeError("llvm-link failed\n" + o[-2000:])
            os.replace(bc + ".tmp", bc)
            break
        if attempt: raise RuntimeError("llvm-link failed\n" + o[-2000:])
        shutil.rmtree(t, ignore_errors=True)   # left-over bitcode of an earlier build
    ll = os.path.join(B, "all-%s.ll" % mode)
    rc, o = run([os.path.join(llbin(), "opt"), "-S", "--passes=internalize,globaldce", "--internalize-public-api-list=h_*", bc, "-o", ll + ".tmp"])
    if rc: raise RuntimeError("opt failed\n" + o[-2000:])
    os.replace(ll + ".tmp", ll)

def entry_ir(mode, entry):
    """The part of the module one entry needs (smaller and faster to load)."""
    ll = os.path.join(B, "e-%s-%s.ll" % (mode, entry))
    rc, o = run([os.path.join(llbin(), "opt"), "-S", "--passes=internalize,globaldce", "--internalize-public-api-list=" + entry, os.path.join(B, "all-%s.bc" % mode), "-o", ll])
    if rc: raise RuntimeError("opt failed\n" + o[-2000:])
    return ll

def build_runner(profile, feats):
    cmd = ["cargo", "build", "--offline", "--target-dir", os.path.join(B, "runner"), "--no-default-features", "--features", ",".join(feats)]
    if profile == "release": cmd.append("--release")
    rc, o = run(cmd, cwd=os.path.join(HERE, "runner"))
    if rc: raise RuntimeError("runner build failed\n" + o[-3000:])
RUNNER = {"dev": os.path.join(B, "runner", "debug", "runner"), "release": os.path.join(B, "runner", "release", "runner")}

def replay(profile, entry, params, path, timeout=60):
    try:
        p = subprocess.run([RUNNER[profile], entry, ",".join(map(str, params)), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(hang=True, checks=[], obs=[], panic=None, end=False, assume=False, covers=[])
    r = dict(hang=False, checks=[], obs=[], panic=None, end=False, assume=False, covers=[], rc=p.returncode)
    for l in p.stdout.decode(errors="replace").split("\n"):
        w = l.split(" ", 2)
        if w[0] == "check": r["checks"].append((w[1], w[2] == "ok"))
        elif w[0] == "obs": r["obs"].append(int(w[1]))
        elif w[0] == "panic": r["panic"] = l[6:]
        elif w[0] == "cover": r["covers"].append(w[1])
        elif w[0] == "end": r["end"] = True
        elif w[0] in ("assume-failed", "out-of-inputs"): r["assume"] = True
    if p.returncode not in (0,) and not r["panic"]: r["panic"] = "killed, status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-200:])
    return r

def write_replay(path, prop, entry, params, wit, head):
    with open(path, "w") as f:
        f.write("# property %s entry %s params %s\n# %s\n" % (prop, entry, ",".join(map(str, params)), head))
        f.write("# replay: %s %s %s <this file>   (built by check.py)\n" % (RUNNER["dev"], entry, ",".join(map(str, params))))
        for k, h in wit["inputs"]: f.write("i %d %s\n" % (k, h))
        seen = set()
        for a, b in wit["hashes"]:
            if (a, b) not in seen: seen.add((a, b)); f.write("h %s %s\n" % (a, b))

def mine(prop, vid):
    """Does a failed check id belong to this property? Ids may be prefixed with the properties they serve."""
    m = re.match(r"(C\d\d(?:,C\d\d)*)\.", vid)   # the executor has the same rule (exec.rs, counts)
    return m is None or prop in m.group(1).split(",")

def known():
    with open(os.path.join(HERE, "known_findings.json")) as f: return json.load(f)["findings"]

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    todo = [j for j in J.JOBS.get(prop, []) if only is None or j["entry"] == only]
    if not todo: die("no jobs for " + prop)
    os.makedirs(B, exist_ok=True)
    # run artefacts go to a directory of this run's own
    out = os.path.join(B, "run-" + prop + "-" + tier)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    ev = os.path.join(HERE, "evidence"); rep = os.path.join(ev, "replay", prop)
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    modes = sorted({m for j in todo for m in j["modes"]})
    feats = features({j["entry"] for j in todo})
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(8) as ex:
            std_bitcode()
            fs = [ex.submit(build_engine)] + [ex.submit(build_ir, m, feats) for m in modes]
            fr = [ex.submit(build_runner, p, feats) for p in ("dev", "release")]
            try:
                for f in fs: f.result()
                ents = sorted({(m, j["entry"]) for j in todo for m in j["modes"]})
                irs = {}
                for e, ll in zip(ents, ex.map(lambda e: entry_ir(*e), ents)):
                    dst = os.path.join(out, os.path.basename(ll)); shutil.move(ll, dst); irs[e] = dst
                for f in fr: f.result()
            except RuntimeError as e: die(str(e))
        for k in RUNNER:
            dst = os.path.join(out, "runner-" + k); shutil.copy2(RUNNER[k], dst); RUNNER[k] = dst
        eng = os.path.join(out, "symex"); shutil.copy2(ENGINE, eng)
    build_s = time.time() - T0
    log("built; modes", modes)
    budget = float(os.environ.get("VERIF_BUDGET", 660 if tier == "quick" else 14400)) - build_s
    runs = []
    for j in todo:
        ps = j["quick"] if tier == "quick" else (j["thorough"] or j["quick"])
        for p in ps:
            for m in j["modes"]:
                n = j.get("shards", (1, 1))[tier != "quick"]
                for k in range(n): runs.append((j, list(p), m, (k, n)))
    dump = os.path.join(out, "smt") if tier == "thorough" else None
    if dump: os.makedirs(dump)
    runs.sort(key=lambda r: -r[0].get("weight", 1))
    deadline = time.time() + budget
    stop = os.path.join(out, "stop")
    # ---- replay of violations ----
    viol, unrep, seen, nrep, vlock = [], [], {}, [0], threading.Lock()
    kf = known()
    def listed(v):
        return next((k for k in kf if k["status"] == "known" and k["property"] == prop and k["entry"] == v["entry"] and k["check"] == v["id"] and (not k.get("params") or k["params"] == v["params"])), None)
    def reproduce(r, res):
        j, p, m, sh = r
        for v in res["violations"]:
            if v["kind"] == "check" and not mine(prop, v["id"]): continue
            key = (j["entry"], v["kind"], v["id"])
            with vlock:
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 12: continue
                nrep[0] += 1
                path = os.path.join(rep, "%s-%d.txt" % (j["entry"], nrep[0]))
            write_replay(path, prop, j["entry"], p, v["witness"], "%s %s | %s" % (v["kind"], v["id"], " <- ".join(v["stack"][:6])))
            got = []
            for prof in ("dev", "release"):
                q = replay(prof, j["entry"], p, path, 20 if v["kind"] == "hang" else 60)
                if v["kind"] == "check": ok = any(c == v["id"] and not g for c, g in q["checks"])
                elif v["kind"] == "hang": ok = q["hang"] or q["panic"] is not None
                else: ok = q["panic"] is not None
                if ok: got.append(prof)
            what = dict(entry=j["entry"], params=p, mode=m, kind=v["kind"], id=v["id"], replay=path, profiles=got, stack=v["stack"][:8])
            with vlock: (viol if got else unrep).append(what)
            # a violation that is not listed settles the verdict: the remaining runs are cut short
            if got and not listed(what): open(stop, "w").close()
    def one(r):
        j, p, m, sh = r
        name = "%s-%s-%s" % (j["entry"], "_".join(map(str, p)) or "0", m) + ("-%d.%d" % sh if sh[1] > 1 else "")
        f = os.path.join(out, name + ".json")
        left = max(5.0, deadline - time.time())
        cmd = [eng, irs[(m, j["entry"])], "--entry", j["entry"], "--param", ",".join(map(str, p)), "--out", f,
               "--max-time", "%.1f" % min(left, j.get("max_time", 300 if tier == "quick" else 1e9)), "--seed", str(seed), "--samples", str(j.get("samples", 4)), "--max-steps", str(j.get("max_steps", 20000000)),
               "--stop-file", stop, "--grace", "45", "--max-mem", "3500" if tier == "quick" else "6000", "--prop", prop,
               "--skip-ids", ",".join(k["check"] for k in kf if k["status"] == "known" and k["property"] == prop)]
        if os.path.exists(stop): return r, None, None
        if sh[1] > 1: cmd += ["--shard", "%d,%d,%d" % (sh[0], sh[1], j.get("shard_depth", 2))]
        if dump:
            d = os.path.join(dump, name); os.makedirs(d); cmd += ["--dump", d]
        t = time.time()
        try:
            q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left + 60)
            rc, o = q.returncode, q.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired: rc, o = -1, "killed after the time budget"
        if rc != 0 or not os.path.exists(f): return r, None, "%s: engine ended with %d: %s" % (name, rc, o[-600:])
        res = json.load(open(f))
        log("%-46s %s paths=%d killed=%d queries=%d solver=%.1fs %.1fs viol=%d%s" % (name, "complete" if res["complete"] else "INCOMPLETE", res["paths"], res["killed"], res["queries"], res["solver_s"], time.time() - t, len(res["violations"]), "" if res["complete"] else " (" + res["incomplete"][:300] + ")"))
        reproduce(r, res)
        return r, res, None
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex: results = list(ex.map(one, runs))
    errors = [e for _, _, e in results if e]
    results = [x for x in results if x[1] is not None]
    if errors and not results: die("; ".join(errors)[:3000])
    # ---- validation of sampled paths: same inputs, same observations on the real code ----
    validated, mismatches = 0, []
    for (j, p, m, sh), res, _ in results:
        for i, w in enumerate(res["samples"]):
            if m == "rel" and False: continue
            path = os.path.join(out, "sample.txt")
            write_replay(path, prop, j["entry"], p, w, "sample")
            r = replay("dev" if m == "dbg" else "release", j["entry"], p, path)
            bad = []
            if r["obs"] != w["observations"][:len(r["obs"])] or (not w["panics"] and len(r["obs"]) != len(w["observations"])): bad.append("observations")
            if r["assume"]: bad.append("assumption")
            if (r["panic"] is not None) != bool(w["panics"]): bad.append("panic: %s" % r["panic"])
            if len(r["checks"]) != w["checks"]: bad.append("number of checks %d/%d" % (len(r["checks"]), w["checks"]))
            viol_ids = {v["id"] for v in res["violations"]}
            if any(not g and c not in viol_ids and mine(prop, c) for c, g in r["checks"]): bad.append("check failed: %s" % [c for c, g in r["checks"] if not g and mine(prop, c)])
            if bad:
                keep = os.path.join(rep, "mismatch-%s-%d.txt" % (j["entry"], i)); shutil.copy(path, keep)
                mismatches.append("%s %s: %s (%s)" % (j["entry"], p, bad, keep))
            else: validated += 1
    # ---- cross-check of dumped queries with other solvers (thorough) ----
    cross = None
    if dump: cross = cross_check(dump)
    # ---- vacuity ----
    vac = []
    covers = {}
    for (j, p, m, sh), res, _ in results:
        for c, n in res["covers"].items(): covers.setdefault(j["entry"], {}).setdefault(c, 0); covers[j["entry"]][c] += n
    cut = {j["entry"] for (j, p, m, sh), r, _ in results if not r["complete"]}   # these say INCOMPLETE below instead
    for j in todo:
        for c in j["covers"]:
            if j["entry"] not in cut and not covers.get(j["entry"], {}).get(c): vac.append("%s never reached %s" % (j["entry"], c))
    obl = {}
    for (j, p, m, sh), res, _ in results:
        for c, s in res["checks"].items():
            if not mine(prop, c): continue
            d = obl.setdefault(j["entry"] + ":" + c, dict(obligations=0, by_solver=0, by_simplification=0, violated=0))
            for k in d: d[k] += s[k]
    for j in todo:
        if j["entry"] not in cut and not any(k.startswith(j["entry"] + ":") for k in obl): vac.append("%s checked nothing for %s" % (j["entry"], prop))
    # ---- evidence ----
    fns, lines, samples = set(), {}, []
    for (j, p, m, sh), res, _ in results:
        for f in res["functions"]:
            if "/repo/" in f: fns.add(f)
        for f, l in res["lines"].items():
            if f.startswith("/repo/"): lines.setdefault(f, set()).update(l)
        for w in res["samples"][:1]: samples.append(dict(entry=j["entry"], params=p, inputs=[h for _, h in w["inputs"]], observations=w["observations"][:16], checks=w["checks"]))
    S = lambda k: sum(r[k] for _, r, _ in results)
    complete = all(r["complete"] for _, r, _ in results)
    newv, oldv = [], {}
    for v in viol:
        k = listed(v)
        if k: oldv.setdefault(k["id"], (k, v))
        else: newv.append(v)
    evd = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(newv),
        coverage=dict(states=S("paths") + S("killed"), transitions=S("steps"), traces_validated_against_impl=validated,
            samples=samples[:12], exhaustive=complete,
            technique="symbolic execution of the LLVM IR of the real crates; path feasibility and assertions decided by an SMT solver (QF_BV)",
            paths=S("paths"), forks=S("forks"), queries=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"),
            solver_s=round(S("solver_s"), 3), max_query_s=max(r["max_query_s"] for _, r, _ in results), solver="z3 " + results[0][1]["z3"] + " (libz3)",
            obligations=sum(d["obligations"] for d in obl.values()), obligations_by_solver=sum(d["by_solver"] for d in obl.values()), obligations_by_simplification=sum(d["by_simplification"] for d in obl.values()),
            checks=obl, covers=covers, functions_encoded=sorted(fns)[:400], functions_encoded_count=len(fns),
            source_lines_encoded={f: len(l) for f, l in sorted(lines.items())}, ir_functions=max(r["ir_functions"] for _, r, _ in results),
            expected_panics=S("expected_panics"), replayed_violations=nrep[0], build_s=round(build_s, 1),
            jobs=[dict(entry=j["entry"], params=p, mode=m, shard=list(sh), bound=j["bound"], complete=r["complete"], incomplete=r["incomplete"], paths=r["paths"], killed=r["killed"], queries=r["queries"], solver_s=r["solver_s"], run_s=r["run_s"]) for (j, p, m, sh), r, _ in results],
            bounds=sorted({j["bound"] for j in todo}), cross_check=cross, known_findings=sorted(oldv)),
        assumptions=J.ASSUMPTIONS + J.EXTRA_ASSUMPTIONS.get(prop, []))
    with open(os.path.join(ev, prop + ".json"), "w") as f: json.dump(evd, f, indent=1)
    if not os.environ.get("SYM_KEEP"): shutil.rmtree(out, ignore_errors=True)
    # ---- verdict ----
    for k, (kk, v) in oldv.items(): print("KNOWN-FINDING: property=%s %s" % (prop, kk["what"]))
    said = {}
    for v in newv:
        key = (v["entry"], v["kind"], v["id"]); said[key] = said.get(key, 0) + 1
        if said[key] > 1 or len(said) > 8: continue
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("   %s %s in %s%s (mode %s), reproduced natively in profiles %s\n   %s" % (v["kind"], v["id"], v["entry"], v["params"], v["mode"], v["profiles"], "\n   ".join(v["stack"][:6])))
    if newv: sys.exit(1)
    if errors: die("; ".join(errors)[:3000])
    if unrep: die("solver counterexample that the real code does not reproduce: " + json.dumps(unrep[:3]))
    if mismatches: die("engine and real code disagree: " + "; ".join(mismatches[:4]))
    if vac: die("vacuous: " + "; ".join(vac[:6]))
    if cross and cross["disagreements"]: die("solvers disagree: %s" % cross["disagreements"][:3])
    if not complete: print("INCOMPLETE within the budget: %s" % "; ".join("%s%s: %s" % (j["entry"], p, r["incomplete"]) for (j, p, m, sh), r, _ in results if not r["complete"])[:1500])
    if not complete and S("paths") == 0: die("nothing explored")
    print("OK property=%s tier=%s paths=%d obligations=%d (solver %d, simplification %d) queries=%d solver=%.1fs validated=%d%s wall=%.1fs" % (prop, tier, S("paths"), evd["coverage"]["obligations"], evd["coverage"]["obligations_by_solver"], evd["coverage"]["obligations_by_simplification"], S("queries"), S("solver_s"), validated, "" if complete else " (bounds not exhausted)", time.time() - T0))

def cross_check(d):
    fs = [os.path.join(r, f) for r, _, ff in os.walk(d) for f in ff]
    r = dict(queries=0, agree=0, unknown=0, disagreements=[])
    def one(f):
        want = "unsat" if f.endswith("-unsat.smt2") else "sat"
        res = []
        for s in (["z3-new", "-T:20", f], ["cvc5", "--tlimit=20000", f]):
            try: o = subprocess.run(s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40).stdout.decode().strip().split("\n")[-1]
            except Exception: o = "unknown"
            res.append(o if o in ("sat", "unsat") else "unknown")
        return f, want, res
    with ThreadPoolExecutor(8) as ex:
        for f, want, res in ex.map(one, fs):
            r["queries"] += 1
            if any(x != "unknown" and x != want for x in res): r["disagreements"].append([f, want, res])
            elif "unknown" in res: r["unknown"] += 1
            else: r["agree"] += 1
    return r

if __name__ == "__main__":
    try: main()
    except subprocess.TimeoutExpired as e: die("time out: %s" % e)
