#!/usr/bin/env python3
"""mkseed.py [id...]: writes seeded/<id> from tools/seeds.py and validates it in a scratch copy of /repo (/tmp/w)."""
import os, re, subprocess, sys, json, shutil, importlib.util
V = "/verif"; W = os.environ.get("W", "/tmp/w")
spec = importlib.util.spec_from_file_location("seeds", V + "/tools/seeds.py"); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-07-01", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV.pop("CARGO_TARGET_DIR", None); ENV.pop("RUSTFLAGS", None)
def sh(c, **k): return subprocess.run(c, shell=True, cwd=W, env=ENV, capture_output=True, text=True, **k)
if not os.path.exists(W): subprocess.run(["cp", "-a", "/repo", W])
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
base = sorted(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else []
for s in m.SEEDS:
    if sys.argv[1:] and s["id"] not in sys.argv[1:]: continue
    d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git checkout -q -- .")
    bad = False
    for f, a, b in s["edits"]:
        p = f"{W}/{f}"; t = open(p).read()
        if t.count(a) != 1: print(s["id"], "EDIT does not match once:", f, t.count(a)); bad = True; break
        open(p, "w").write(t.replace(a, b))
    if bad: continue
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    kit = s.get("kit", "client")
    if kit == "client":
        K = V + "/tools/demokit"
        for f in ("demo.sh", "run.mjs", "symrt.rs"): shutil.copy(f"{K}/{f}", d)
        for f in ("host.rs", "domtree.rs", "codec.rs"): open(f"{d}/{f}", "w").write(open(f"{V}/harness/client/src/{f}").read().replace("symrt::", "crate::symrt::"))
        shutil.copy(K + "/Cargo.lock", d)
        open(d + "/demo.rs", "w").write(open(K + "/prelude.rs").read() + "#[no_mangle]\npub extern \"C\" fn run() {\n" + s["demo"] + "\n}\n" + s.get("items", ""))
    else:
        if kit == "server":
            for f in ("demo.sh", "run.mjs", "Cargo.lock"): shutil.copy(f"{V}/tools/serverkit/{f}", d)
        for f, t in s["files"].items(): open(f"{d}/{f}", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", timeout=900)
    res = re.findall(r"test result: \w+\. (\d+) passed; (\d+) failed", t.stdout); ok = t.returncode == 0; n = sum(int(a) for a, _ in res)
    t2 = sh("cargo check --offline --all-features --target wasm32-unknown-unknown -p vertigo -p vertigo-demo -p vertigo-test-basic")
    if not (ok and t2.returncode == 0): print(s["id"], "TESTS FAIL/BUILD", n, [l for l in t.stdout.splitlines() if "FAILED" in l or "panicked" in l][:5], t.stderr[-600:] if not res else "", t2.stderr[-500:] if t2.returncode else "")
    r1 = sh(f"bash {d}/demo.sh", timeout=300)
    sh("git checkout -q -- .")
    r0 = sh(f"bash {d}/demo.sh", timeout=300)
    good = ok and t2.returncode == 0 and r0.returncode == 0 and r1.returncode == 1
    print(s["id"], "GOOD" if good else "BAD", f"tests {n} ok={ok}; demo clean={r0.returncode} patched={r1.returncode}", r1.stdout[-200:].strip().replace("\n", " | "), "" if good else r0.stdout[-1500:] + r0.stderr[-300:], flush=True)
