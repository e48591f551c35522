#!/usr/bin/env python3
"""Solver-based check of one property.

  check.py ID [--tier quick|thorough]     decide property ID
  check.py --build                        build engine, harness and IR only
  check.py ID --record                    store the reachability witnesses seen on this tree in engine/expect.json
  check.py --replay FILE                  replay a counterexample natively

Steps of a check, all redone from /repo's working tree on every run: build the symbolic executor (engine/), compile
/repo's crate with the property's harnesses (harness/), take the LLVM IR rustc generated for them, execute every
harness symbolically, replay counterexamples and sampled paths in the natively compiled harness, write evidence.
Exit 0: held on everything within the bounds.  Exit 1: VIOLATION (reproduced natively).  Exit 2: no answer.
"""
import sys, os, json, subprocess, time, glob, re, fcntl, shutil
V = os.path.dirname(os.path.abspath(__file__)); REPO = "/repo"
B = os.environ.get("VERIF_BUILD", V + "/.build")
TC = "stable-x86_64-unknown-linux-gnu"
JOBS = str(os.cpu_count() or 8)
T0 = time.time()
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
def die(msg): log("ERROR:", msg); print("CHECK-ERROR " + str(msg), flush=True); sys.exit(2)

PROFILE = dict(PANIC="abort", DEBUG="0", OPT_LEVEL="1", LTO="fat", CODEGEN_UNITS="1", OVERFLOW_CHECKS="false", DEBUG_ASSERTIONS="false", INCREMENTAL="false", BUILD_OVERRIDE_OPT_LEVEL="0")
def build(features, pid="C22"):
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    name = "full" if "full" in features else "base"; cf = [f for f in features if f == "full"]; cli = "cli" in features
    tgt = B + "/target"
    env = dict(os.environ, PATH=os.path.expanduser("~/.cargo/bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt, RUSTFLAGS="--cap-lints allow", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_INCREMENTAL", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"): del env[k]
    for f in glob.glob(tgt + "/debug/deps/harness-*"): os.unlink(f)
    cargo = subprocess.Popen(["cargo", "rustc", "--offline", "--locked", "--manifest-path", V + "/harness/Cargo.toml", "--bin", "harness"] + (["--features", ",".join(cf)] if cf else []) + ["--", "-C", "save-temps"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    eng = []; extra = []; bin_ = None
    if subprocess.run(["clang", "-O1", "-shared", "-fPIC", "-w", "-o", B + "/jitter.so", V + "/engine/env/jitter.c"]).returncode: die("jitter.c does not compile")
    if cli: # the command line: the program itself, linked to the harnesses
        for f in glob.glob(tgt + "-cli/debug/deps/url_cleaner-*"): os.unlink(f)
        bin_ = subprocess.Popen(["cargo", "rustc", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml", "--bin", "url-cleaner", "--no-default-features", "--features", "base64,regex,glob", "--", "-C", "save-temps", "-C", "overflow-checks=on"], env=dict(env, CARGO_TARGET_DIR=tgt + "-cli", **{"CARGO_PROFILE_DEV_" + k: v for k, v in PROFILE.items()}), stdout=open(B + "/cli.log", "w"), stderr=subprocess.STDOUT)
    if "sqlite" in features: # SQLite itself (the source libsqlite3-sys brings along) becomes part of the encoding
        meta = json.loads(subprocess.run(["cargo", "metadata", "--offline", "--locked", "--format-version", "1", "--features", "full", "--manifest-path", V + "/harness/Cargo.toml"], env=env, stdout=subprocess.PIPE, text=True).stdout)
        dirs = [os.path.dirname(p["manifest_path"]) for p in meta["packages"] if p["name"] == "libsqlite3-sys"]
        if len(dirs) != 1: die("no libsqlite3-sys")
        srcs = [(dirs[0] + "/sqlite3/sqlite3.c", B + "/sqlite3.ll", ["SQLITE_THREADSAFE=0", "SQLITE_OMIT_LOAD_EXTENSION", "SQLITE_DEFAULT_MEMSTATUS=0", "SQLITE_OMIT_WAL", "SQLITE_DISABLE_INTRINSIC", "SQLITE_OMIT_DESERIALIZE"])]
    else: srcs = []
    if cli or srcs or "threads" in features:
        for src, o, opts in srcs + [(V + "/engine/env/libc.c", B + "/libc.ll", [])]:
            extra.append(o)
            if not os.path.exists(o) or os.path.getmtime(src) > os.path.getmtime(o): eng.append((o, subprocess.Popen(["clang", "-O1", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize"] + (["-fno-builtin", "-fno-delete-null-pointer-checks"] if "libc" in o else []) + ["-D" + x for x in opts] + ["-w", "-o", o + ".tmp", src])))
    for s in ("symex", "expr", "ir"):
        o, c = f"{B}/{s}.o", f"{V}/engine/{s}.cpp"
        if not os.path.exists(o) or any(os.path.getmtime(h) > os.path.getmtime(o) for h in [c] + glob.glob(V + "/engine/*.h")):
            eng.append((s, subprocess.Popen(["g++", "-O2", "-std=c++17", "-c", c, "-o", o + ".tmp"])))
    for s, p in eng:
        if p.wait(): die("engine does not compile: " + s)
        if s[0] == "/":
            if s.endswith("/libc.ll"): x = open(s + ".tmp").read(); x = re.sub(r"([@%])(\.str|struct\.)", r"\1libc\2", x); open(s + ".tmp", "w").write(x) # its private names must not meet SQLite's
            os.rename(s + ".tmp", s)
        else: os.rename(f"{B}/{s}.o.tmp", f"{B}/{s}.o")
    if eng or not os.path.exists(B + "/symex"):
        subprocess.run(["g++", f"{B}/symex.o", f"{B}/expr.o", f"{B}/ir.o", "-lz3", "-o", B + "/symex"], check=True)
    out = cargo.communicate()[0]
    if cargo.returncode: print("\n".join(l for l in out.split("\n") if "Compiling" not in l)[-6000:]); die("harness or /repo does not compile")
    bc = glob.glob(tgt + "/debug/deps/harness-*.lto.input.bc")
    if len(bc) != 1: die(f"expected one LTO module, got {bc}")
    S = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip() + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
    syms = subprocess.run([S + "llvm-nm", "--defined-only", bc[0]], capture_output=True, text=True).stdout
    hs = sorted(set(re.findall(r" (h_[a-z0-9_]+)$", syms, re.M)))
    ll = f"{B}/{name}.ll"; api = ["sym_u8", "sym_assume", "sym_check", "sym_cover", "sym_observe", "sym_conc", "sym_opq", "sym_run", "sym_sched"]
    def tool(t, *a):
        r = subprocess.run([S + t, *a], capture_output=True, text=True)
        if r.returncode: die(t + " failed: " + r.stderr[-2000:])
    def opt(i, public, *o): tool("opt", "-passes=internalize,globaldce,lower-invoke,function(simplifycfg),globaldce", "-strip-debug", "-internalize-public-api-list=" + ",".join(public), i, *o)
    if cli:
        ll = f"{B}/cli.ll"; only = [h for h in hs if h.startswith("h_" + pid.lower())]
        opt(bc[0], only + api, "-o", B + "/cli-h.bc")
        if bin_.wait(): print(open(B + "/cli.log").read()[-6000:]); die("/repo's program does not compile")
        mb = glob.glob(tgt + "-cli/debug/deps/url_cleaner-*.lto.input.bc")
        if len(mb) != 1: die(f"expected one LTO module, got {mb}")
        opt(mb[0], ["main"], "-o", B + "/cli-b.bc")
        tool("llvm-link", B + "/cli-h.bc", "--override", B + "/cli-b.bc", "-S", "-o", ll)
        tmp = B + "/url-cleaner-cli.tmp"; shutil.copyfile(tgt + "-cli/debug/url-cleaner", tmp); os.chmod(tmp, 0o755); os.rename(tmp, B + "/url-cleaner-cli")
        for f in glob.glob(tgt + "-cli/debug/deps/url_cleaner-*.bc") + glob.glob(tgt + "-cli/debug/deps/url_cleaner-*.o") + [B + "/cli-h.bc", B + "/cli-b.bc"]: os.unlink(f)
    else: opt(bc[0], hs + api, "-S", "-o", ll)
    native = f"{B}/harness-{name}"
    tmp = native + ".tmp"; shutil.copyfile(tgt + "/debug/harness", tmp); os.chmod(tmp, 0o755); os.rename(tmp, native)
    for f in glob.glob(tgt + "/debug/deps/harness-*.bc") + glob.glob(tgt + "/debug/deps/harness-*.o"): os.unlink(f)
    log("built", name, "IR:", os.path.getsize(ll) >> 20, "MiB,", len(hs), "harnesses")
    return ",".join([ll] + extra), native, hs

def replay_scheduled(native, v, good):
    """A counterexample that needs a schedule: run it with threads put off at random, until it shows."""
    from concurrent.futures import ThreadPoolExecutor
    last = None
    with ThreadPoolExecutor(8) as ex:
        for _ in range(25):
            for oc, txt in ex.map(lambda k: replay(native, v["h"], v["inputs"], jitter=True), range(8)):
                if good(oc, txt): return oc, txt
                last = (oc, txt)
    return last

def replay(native, h, inputs, timeout=60, jitter=False):
    """Run one trace natively.  -> (outcome, text); outcome is done|check|panic|hang|assume"""
    env = dict(os.environ); env.pop("UC_JITTER", None)
    if jitter: env["UC_JITTER"] = "1"; env["LD_PRELOAD"] = B + "/jitter.so"
    r = subprocess.Popen([native, h, inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    try: t = r.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired: r.kill(); r.communicate(); return "hang", ""
    finally:
        for f in glob.glob("/tmp/uc-c2[123]-%d-*" % r.pid): os.unlink(f) # files of harnesses c21 to c23, where they ended early
    if "HANG" in t.split("\n"): return "hang", t
    if r.returncode: return "panic", t
    if "ASSUME-FAILED" in t: return "assume", t
    if "CHECK-FAILED" in t: return "check", t
    return ("done" if "DONE" in t else "bad"), t

def findings():
    out = []
    for l in open(V + "/known-findings.jsonl"):
        l = l.strip()
        if l.startswith("{"): out.append(json.loads(l))
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == "--build": build(tuple(args[1:])); return 0
    if args and args[0] == "--replay":
        j = json.load(open(args[1])); _, native, _ = build(tuple(j["features"]), j["property"])
        print(*(replay_scheduled(native, dict(h=j["harness"], inputs=j["inputs"]), lambda oc, txt: oc == j["kind"]) if j.get("schedule") else replay(native, j["harness"], j["inputs"]))); return 0
    pid = args[0]; record = "--record" in args
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    spec = json.load(open(V + "/checks.json"))[pid]
    feats = tuple(spec.get("features", []))
    ll, native, hs = build(feats, pid)
    pre = "h_" + pid.lower() + "_"; pret = "h_" + pid.lower() + "t_"
    sel = [h for h in hs if h.startswith(pre)] + ([h for h in hs if h.startswith(pret)] if tier == "thorough" else [])
    if "--only" in args: sel = [h for h in sel if re.search(args[args.index("--only") + 1], h)]
    if not sel: die("no harness for " + pid)
    budget = spec.get("budget", 500) if tier == "quick" else spec.get("thorough_budget", 3600)
    out = f"{B}/{pid}.{tier}.jsonl"
    if os.path.exists(out): os.unlink(out)
    t1 = time.time()
    try: rc = subprocess.run([B + "/symex", ll, "-j", JOBS, "-t", str(budget), "-o", out] + sel, timeout=budget + 120, stderr=subprocess.PIPE, text=True, errors="replace")
    except subprocess.TimeoutExpired: die("symbolic execution exceeded its budget")
    sx = time.time() - t1
    tot = {}; per = {h: dict(paths=0, labels={}, covers={}) for h in sel}; viol = []; perr = []; paths = []; funcs = set(); end = None
    for line in open(out, errors="replace"):
        try: j = json.loads(line)
        except ValueError: perr.append({"msg": "unparsable engine output"}); continue
        k = j["k"]
        if k == "stats":
            p = per[j["h"]]; p["paths"] += j["paths"]
            for f in ("instrs", "forks", "paths", "panics", "infeasible", "conc", "queries", "sat", "unsat", "unknown", "cached", "solver_us"): tot[f] = tot.get(f, 0) + j[f]
            for l, n in j["labels"].items(): p["labels"][l] = [a + b for a, b in zip(p["labels"].get(l, [0] * 4), n)]
            for l, n in j["covers"].items(): p["covers"][l] = p["covers"].get(l, 0) + n
        elif k == "violation": viol.append(j)
        elif k in ("patherror", "error"): perr.append(j)
        elif k == "path": paths.append(j)
        elif k == "funcs": funcs.update(j["f"])
        elif k == "end": end = j
    log(f"symex rc={rc.returncode} {sx:.1f}s", {k: v for k, v in tot.items()}, "violations", len(viol), "errors", len(perr))
    for h in sel: log("  ", h, per[h]["paths"], "paths", {l: n for l, n in per[h]["labels"].items()}, per[h]["covers"])
    # counterexamples: replay natively, report what reproduces
    known = [f for f in findings() if f["property"] == pid]; hit = {}; real = []; bad = []; n = 0
    shutil.rmtree(f"{B}/replay-{pid}", ignore_errors=True)
    seen = {}
    for v in viol:
        key = (v["h"], v["label"]); seen[key] = seen.get(key, 0) + 1
        if seen[key] > 4: continue
        oc, txt = replay(native, v["h"], v["inputs"])
        want = {"check": "check", "panic": "panic", "hang": "hang"}[v["kind"]]
        good = lambda oc, txt: oc == want and (want != "check" or ("CHECK-FAILED " + v["label"]) in txt)
        if not good(oc, txt) and v.get("schedule"): oc, txt = replay_scheduled(native, v, good)
        if good(oc, txt):
            f = next((f for f in known if f["harness"] == v["h"] and f["label"] == v["label"]), None)
            if f: hit[json.dumps(f)] = f; continue
            os.makedirs(f"{B}/replay-{pid}", exist_ok=True)
            path = f"{B}/replay-{pid}/{n}.json"; n += 1
            json.dump(dict(property=pid, harness=v["h"], label=v["label"], kind=v["kind"], inputs=v["inputs"], schedule=v.get("schedule", ""), features=feats, native=txt[-4000:], backtrace=v["bt"], replay_cmd=f"python3 {V}/check.py --replay {path}"), open(path, "w"), indent=1)
            real.append((v, path, txt))
        else: bad.append((v, oc, txt))
    # sampled paths: the native run must observe what the symbolic run predicted
    agree = 0; disagree = []
    pp = [p for p in paths if p["why"] == "done"]
    if pp:
        inp = "".join(f"{p['h']} {p['inputs']}\n" for p in pp)
        r = subprocess.run([native, "--batch"], input=inp, capture_output=True, text=True, errors="replace", timeout=300)
        blocks = r.stdout.split("TRACE ")[1:]
        for p, b in zip(pp, blocks):
            m = re.search(r"^DONE \S+ nobs=(\d+) obs=([0-9a-f]+) failed=(\d+)", b, re.M)
            if m and int(m[1]) == p["nobs"] and m[2] == p["obs"]: agree += 1
            else: disagree.append((p["h"], p["inputs"], b[-300:]))
        if len(blocks) < len(pp): disagree.append(("batch stopped", "", r.stderr[-500:]))
    fx = subprocess.run(["c++filt"], input="\n".join(sorted(funcs)), capture_output=True, text=True).stdout.split("\n")
    enc = sorted({re.sub(r"\[[0-9a-f]{16}\]|::h[0-9a-f]{16}$", "", f) for f in fx if "url_cleaner" in f})
    unknown = tot.get("unknown", 0)
    expect = {}
    ep = V + "/engine/expect.json"
    if os.path.exists(ep): expect = json.load(open(ep))
    if record:
        for h in sel: expect[h] = dict(covers=sorted(c for c in per[h]["covers"] if c != "(panic)"), labels=sorted(per[h]["labels"]))
        json.dump(expect, open(ep, "w"), indent=0, sort_keys=True)
    missing = [f"{h}: {c}" for h in sel for kind in ("covers", "labels") for c in expect.get(h, {}).get(kind, ["(nothing recorded)"]) if c not in per[h][kind]]
    problems = []
    if end is None or rc.returncode not in (0, 1): problems.append(f"engine exit {rc.returncode}: {(rc.stderr or '')[-600:]}")
    if end and end["incomplete"]: problems.append("time budget exhausted before all paths were explored")
    if perr: problems.append(f"{len(perr)} paths not encodable: {perr[0].get('msg')} at {perr[0].get('bt', '')[:300]}")
    if unknown: problems.append(f"{unknown} solver queries undecided")
    if bad: problems.append(f"{len(bad)} counterexamples did not reproduce natively: {bad[0][0]['h']} {bad[0][0]['label']} {bad[0][0]['inputs']} {bad[0][1:]} ")
    if disagree: problems.append(f"{len(disagree)} sampled paths differ natively: {disagree[0]}")
    if missing: problems.append(f"reachability witnesses missing: {missing[:8]}")
    checks = sum(sum(n[:1]) for h in sel for n in per[h]["labels"].values())
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=spec.get("level", "model_checking"), wall_s=round(time.time() - T0, 1), violations=len(real),
        coverage=dict(states=tot.get("paths", 0), transitions=tot.get("forks", 0), traces_validated_against_impl=agree, traces_differing=len(disagree),
            samples=[dict(harness=p["h"], inputs=p["inputs"]) for p in pp[:: max(1, len(pp) // 12)]][:12],
            exhaustive=not problems and not real, instructions_executed=tot.get("instrs", 0), assertions_reached=checks,
            assertions={f"{h}:{l}": dict(reached=n[0], solver_unsat=n[1], constant_true=n[2], failed=n[3]) for h in sel for l, n in per[h]["labels"].items()},
            reachability_witnesses={f"{h}:{c}": n for h in sel for c, n in per[h]["covers"].items()},
            queries=dict(issued=tot.get("queries", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0), unknown=unknown, answered_from_cache=tot.get("cached", 0)),
            solver_s=round(tot.get("solver_us", 0) / 1e6, 2), symbolic_execution_s=round(sx, 1), paths_per_harness={h: per[h]["paths"] for h in sel},
            bounds=spec["bounds"], functions_encoded=enc, functions_encoded_total=len(funcs), problems=problems,
            explanation="states = complete symbolic paths (each stands for every input satisfying its path condition); transitions = forks on symbolic conditions; every satisfiable query's model was re-evaluated on the path condition"),
        assumptions=spec.get("assumptions", []) + COMMON)
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for f in hit.values(): print(f"KNOWN-FINDING: property={pid} {f['what']}")
    for v, path, txt in real: log("counterexample", v["h"], v["label"], v["inputs"], txt[-400:].replace("\n", " | "))
    for p in problems: log("problem:", p)
    if real:
        for p in sorted({r[1] for r in real})[:5]: print(f"VIOLATION property={pid} replay={p}")
        return 1
    if problems: die("; ".join(problems)[:1500])
    log(f"HELD {pid} ({tier}): {tot['paths']} paths, {checks} assertion instances, {tot['queries']} queries, {agree} traces validated natively")
    return 0
COMMON = ["std HashMap/HashSet keys are fixed constants during symbolic execution (native replay uses random ones)", "allocation never fails", "cpuid reports no SIMD extensions, so library code takes its portable paths",
    "the IR is rustc's own (opt-level 1, panic=abort, overflow checks on for url-cleaner); LLVM semantics as implemented by engine/symex.cpp, validated by replaying sampled paths natively"]
if __name__ == "__main__": sys.exit(main())
