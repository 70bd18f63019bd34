#!/usr/bin/env python3
"""Driver of the solver-based checks: check.py <property> [quick|thorough].

For every run registered for the property (registry.py): rebuild the harness bitcode from /repo's
current sources when they changed, let rsym execute the entry symbolically, replay in the wasm
module compiled from the same sources every counterexample and a sample of the explored paths."""
import fcntl, hashlib, json, os, subprocess, sys, time, glob, shutil
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
import registry

def die(m):
    print("ERROR " + m, flush=True); sys.exit(2)

def files_of(*roots):
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__", ".build"))
            for f in sorted(fs):
                if not f.endswith((".pyc", ".swp", "~")): yield os.path.join(d, f)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def locked(name):
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, name + ".lock"), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f

def build_engine():
    l = locked("engine"); d = digest(files_of(os.path.join(V, "engine"))); st = os.path.join(B, "engine.hash"); exe = os.path.join(B, "engine", "rsym")
    if not (os.path.exists(exe) and os.path.exists(st) and open(st).read() == d):
        r = subprocess.run(["bash", os.path.join(V, "engine", "build.sh"), os.path.join(B, "engine")], capture_output=True, text=True)
        if r.returncode: die("engine build failed\n" + r.stderr[-3000:])
        open(st, "w").write(d)
    l.close(); return exe

def build_crate(crate):
    """-> (bitcode, wasm); compiled from /repo's current tree."""
    spec = registry.CRATES[crate]; src = os.path.join(V, spec["dir"]); tgt = os.path.join(B, "target-" + crate)
    l = locked(crate)
    roots = [os.path.join(REPO, r) for r in spec["repo"]]
    d = digest(list(files_of(src, os.path.join(V, "harness", "symrt"), *(os.path.join(V, x) for x in spec.get("also", [])))) + list(files_of(*roots)), crate + REPO)
    st = os.path.join(B, crate + ".hash"); deps = os.path.join(tgt, "wasm32-unknown-unknown", "release", "deps"); lib = spec["lib"]
    out = os.path.join(B, "out-" + crate); bc, wasm = os.path.join(out, lib + ".bc"), os.path.join(out, lib + ".wasm")
    if not (os.path.exists(bc) and os.path.exists(wasm) and os.path.exists(st) and open(st).read() == d):
        if os.path.exists(st): os.unlink(st)
        fp = os.path.join(tgt, "wasm32-unknown-unknown", "release", ".fingerprint")
        for pk in spec["force"]:   # file times say nothing about copies: recompile what may have changed
            for p in glob.glob(os.path.join(fp, pk + "-*")) + glob.glob(os.path.join(tgt, "release", ".fingerprint", pk + "-*")): shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(os.path.join(deps, lib + "*")): os.unlink(p)
        pre = spec.get("pre", "true")
        cmd = f"""source /opt/vp/env.sh >/dev/null 2>&1; cd {src} && {pre} && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR={tgt} VERIF_GEN={B}/gen-{crate} cargo rustc --offline --release --target wasm32-unknown-unknown --lib -- --emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp"""
        r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True)
        if r.returncode: die(f"the {crate} harness does not build against the current tree\n" + r.stderr[-6000:])
        os.makedirs(out, exist_ok=True)
        for e, dst in (("bc", bc), ("wasm", wasm)):
            c = sorted(glob.glob(os.path.join(deps, lib + "*." + e)), key=os.path.getmtime)
            if not c: die("no " + e + " output for " + crate)
            shutil.copyfile(c[-1], dst)
        open(st, "w").write(d)
    l.close(); return bc, wasm

def replay(wasm, entry, args, jobs):
    if not jobs: return []
    r = subprocess.run(["node", "--stack-size=50000", os.path.join(V, "harness", "replay.mjs"), wasm, entry, json.dumps(args)], input="\n".join(json.dumps(j) for j in jobs), capture_output=True, text=True)
    if r.returncode: die("replay failed: " + r.stderr[-2000:])
    return [json.loads(x) for x in r.stdout.splitlines() if x.strip()]

SUM = ("paths", "pruned", "cut", "steps", "forks", "checks", "symChecks", "expectedPanics", "queries", "checkQueries", "sat", "unsat", "unknown", "cacheHits", "solverTime")

def run_one(exe, prop, tier, seed, n, run):
    bc, wasm = build_crate(run["crate"])
    args = run.get("args", []); tmo = run.get("timeout", 200 if tier == "quick" else 600)
    w = os.path.join(B, "run", f"{prop}-{os.getpid()}"); os.makedirs(w, exist_ok=True); out = os.path.join(w, f"{n}.jsonl")
    cmd = [exe, bc, "--entry", run["entry"], "--out", out, "--jobs", str(run.get("jobs", 8)), "--timeout", str(tmo), "--seed", str(seed), "--validate", str(run.get("validate", 8)), "--max-viol", "12", "--mem-mb", "3200", "--repo", REPO + "/"]
    for a in args: cmd += ["--arg", str(a)]
    if "max_steps" in run: cmd += ["--max-steps", str(run["max_steps"])]
    if run.get("const_hash"): cmd += ["--const-hash"]
    if "enum_max" in run: cmd += ["--enum-max", str(run["enum_max"])]
    t0 = time.time(); r = subprocess.run(cmd, capture_output=True, text=True); wall = time.time() - t0
    res = dict(entry=run["entry"], args=args, wall=round(wall, 2), reach=set(), errors=set(), functions=set(), lines={}, viol=[], paths_jobs=[], **{k: 0 for k in SUM})
    if not os.path.exists(out): res["errors"].add("engine: " + r.stderr[-1500:]); return res, wasm
    for l in open(out):
        try: d = json.loads(l)
        except Exception: continue
        if d["t"] == "violation": res["viol"].append(d)
        elif d["t"] == "path": res["paths_jobs"].append(d)
        else:
            for k in SUM: res[k] += d.get(k, 0)
            res["reach"] |= set(d["reach"]); res["errors"] |= set(d["errors"]); res["functions"] |= set(d["functions"])
            for f, ls in d["lines"].items(): res["lines"].setdefault(f, set()).update(ls)
    if r.returncode: res["errors"].add("engine exit %d: %s" % (r.returncode, r.stderr[-800:]))
    shutil.rmtree(w, ignore_errors=True)
    return res, wasm

BUDGET = ("time budget exhausted", "path budget exhausted", "memory budget exhausted")

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    p = registry.by_id(prop); exe = build_engine()
    runs = p["runs"][tier] if tier in p["runs"] else p["runs"]["quick"]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop and k["status"] == "known"]
    agg = {k: 0 for k in SUM}; functions = set(); lines = {}; per = []; nv = 0; problems = []; validated = 0; sample = []; incomplete = []; knownseen = set(); reported = set()
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    for n, run in enumerate(runs):
        res, wasm = run_one(exe, prop, tier, seed, n, run)
        tag = run["entry"] + "(" + ",".join(map(str, run.get("args", []))) + ")"
        # counterexamples: only what the compiled module reproduces is a violation
        for v, rr in zip(res["viol"], replay(wasm, run["entry"], run.get("args", []), res["viol"])):
            if rr["r"] != "fail": problems.append(f"{tag}: counterexample not reproduced ({v['kind']}: {v['msg'][:200]}; replay: {rr['r']} {rr.get('msg', '')[:200]})"); continue
            k = next((k for k in known if k["entry"] == run["entry"] and k["message"] in rr["msg"] and all(x in v.get("notes", []) for x in k.get("notes", []))), None)
            if k: knownseen.add(k["what"]); continue
            nv += 1; key = (run["entry"], rr["msg"])
            if key in reported or len(reported) >= 5: continue
            reported.add(key); rp = os.path.join("evidence", "replay", f"{prop}-{len(reported)}.json")
            json.dump(dict(property=prop, crate=run["crate"], entry=run["entry"], args=run.get("args", []), message=rr["msg"], where=v.get("where"), notes=v.get("notes"), assign=v["assign"], how="python3 replay_one.py <this file>"), open(os.path.join(V, rp), "w"), indent=1)
            print(f"  {tag}: {rr['msg']}\n    at {str(v.get('where'))[:300]}\n    inputs {json.dumps([(a['n'], a['v']) for a in v['assign']])[:600]}")
            print(f"VIOLATION property={prop} replay={rp}", flush=True)
        if nv and tier == "quick":
            per.append(dict(run=tag, wall_s=res["wall"])); break
        # sampled paths: the compiled module must do what the symbolic execution predicted
        rs = replay(wasm, run["entry"], run.get("args", []), res["paths_jobs"]); bad = 0
        for a, b in zip(res["paths_jobs"], rs):
            if b["r"] == "ok" and b["trace"] == a["trace"] and sorted(b["reach"]) == sorted(a["reach"]): validated += 1
            else:
                bad += 1
                if bad <= 2: problems.append(f"{tag}: a sampled path is not reproduced: {str(b)[:300]}")
        miss = set(run.get("reach", [])) - res["reach"]
        if miss and not res["viol"]: problems.append(f"{tag}: vacuous: never reached {sorted(miss)}")
        if res["paths"] == 0 and not res["viol"]: problems.append(f"{tag}: no path completed")
        if res["checks"] == 0: problems.append(f"{tag}: no assertion reached")
        for e in sorted(res["errors"]):
            (incomplete if any(b in e for b in BUDGET) else problems).append(f"{tag}: {e[:400]}")
        if res["unknown"]: incomplete.append(f"{tag}: {res['unknown']} solver answers unknown")
        if res["cut"]: incomplete.append(f"{tag}: {res['cut']} paths cut")
        for k in SUM: agg[k] += res[k]
        functions |= res["functions"]
        for f, ls in res["lines"].items(): lines.setdefault(os.path.relpath(f, REPO), set()).update(ls)
        per.append(dict(run=tag, bounds=run.get("bounds", ""), paths=res["paths"], instructions=res["steps"], forks=res["forks"], assertions=res["checks"], assertions_symbolic=res["symChecks"], queries=res["queries"], sat=res["sat"], unsat=res["unsat"], unknown=res["unknown"], solver_s=round(res["solverTime"], 2), wall_s=res["wall"], replayed=len(rs) - bad, reach=sorted(res["reach"])))
        if res["paths_jobs"]: sample.append(dict(run=tag, path=[(a["n"], a["v"]) for a in res["paths_jobs"][len(res["paths_jobs"]) // 2]["assign"]][:40]))
    for k in known:
        if k["what"] in knownseen: print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        elif not nv: print(f"  note: known finding not seen on this tree: {k['what']}")
    ev = dict(property=prop, tier=tier, seed=seed, level=p.get("level", "model_checking"), wall_s=round(time.time() - t0, 1), violations=nv,
        assumptions=registry.COMMON_ASSUMPTIONS + p.get("assumptions", []),
        coverage=dict(states=agg["paths"] + agg["forks"], transitions=agg["steps"], traces_validated_against_impl=validated, samples=sample[:6],
            exhaustive=not incomplete and not problems,
            explanation="states = completed symbolic paths + decision points; transitions = LLVM instructions of the real code executed symbolically; every assertion was decided for all values of the symbolic inputs of its path; a sample of the paths was replayed in the compiled wasm module with the solver's model and reproduced",
            bounds=p.get("bounds", ""), outside_bounds=p.get("outside", ""), solver="z3 (bit-vectors, floats; API)", paths=agg["paths"], pruned_infeasible=agg["pruned"], expected_panics=agg["expectedPanics"],
            assertions=agg["checks"], assertions_symbolic=agg["symChecks"], queries=agg["queries"], assertion_queries=agg["checkQueries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"], query_cache_hits=agg["cacheHits"], solver_s=round(agg["solverTime"], 2),
            incomplete=incomplete, problems=problems, runs=per, functions_encoded=len(functions), functions=sorted(functions)[:400], lines_encoded={f: len(l) for f, l in sorted(lines.items())}))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(per)} runs, {agg['paths']} paths, {agg['steps']} instructions, {agg['checks']} assertions ({agg['symChecks']} symbolic), {agg['queries']} queries ({agg['solverTime']:.1f} s), {validated} traces validated, {ev['wall_s']} s")
    for x in incomplete: print("  incomplete: " + x)
    for x in problems: print("  PROBLEM " + x)
    if nv: sys.exit(1)
    if problems: sys.exit(2)
    print("OK"); sys.exit(0)
if __name__ == "__main__": main()
