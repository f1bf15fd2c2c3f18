#!/usr/bin/env python3
"""plant.py [ID...]: (re)make /verif/seeded/ID from bugs.py and confirm it in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); SEED = os.path.join(HERE, "../../seeded")
sys.path.insert(0, HERE)
from bugs import BUGS
W = os.environ.get("PLANT_DIR", "/tmp/plant"); R = W + "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=W + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
STABLE = None
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def tests():
    r = sh("cargo test --workspace --all-features --no-fail-fast --locked --offline -- --include-ignored --test-threads 8", cwd=R, env=ENV)
    return {m for m in re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok$", r.stdout, re.M)}, r.stdout
def demo(d):
    e = dict(os.environ, DEMO_TARGET_DIR=W + "/demo")
    r = sh(["bash", d + "/demo.sh"], cwd=R, env=e, timeout=300); return r.returncode, r.stdout[-600:]
os.makedirs(W, exist_ok=True)
if not os.path.isdir(R): subprocess.check_call(["cp", "-a", "/repo", R]); shutil.rmtree(R + "/target", ignore_errors=True)
sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=R)
base, out = tests()
print("base", len(base), "tests pass")
bad = []
for b in BUGS:
    if sys.argv[1:] and b["id"] not in sys.argv[1:]: continue
    d = os.path.abspath(os.path.join(SEED, b["id"])); os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .", cwd=R)
    err = None
    shutil.copy(HERE + "/demo.sh", d + "/demo.sh"); shutil.copy(HERE + "/kit.rs", d + "/kit.rs")
    open(d + "/demo.rs", "w").write("#![allow(dead_code, unused_imports, unused_mut)]\nmod kit;\nuse kit::*;\nuse pkstl::*;\nuse std::io::{BufWriter, Write};\n\nfn main() {" + b["demo"] + "}\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    c0, o0 = demo(d)
    for f, old, new in b["edits"]:
        t = open(R + "/" + f).read()
        if t.count(old) < 1: err = "no match: " + old[:60]; break
        open(R + "/" + f, "w").write(t.replace(old, new, 1))
    diff = sh("git diff", cwd=R).stdout
    open(d + "/patch.diff", "w").write(diff)
    if not err:
        t, o = tests()
        if not t: err = "does not compile: " + "\n".join(l for l in o.splitlines() if l.startswith("error"))[:400] + o[-1500:]
        elif base - t: err = "tests fail: " + " ".join(sorted(base - t))
    if not err:
        c1, o1 = demo(d)
        if c0 != 0: err = "demo fails unpatched: " + o0
        elif c1 == 0: err = "demo passes patched"
        elif c1 in (98, 99): err = "demo does not build: " + o1
    print(b["id"], b["prop"], err or "ok (%d: %s)" % (c1, o1.strip().splitlines()[-1][:90] if o1.strip() else ""), flush=True)
    if err: bad.append(b["id"]); shutil.rmtree(d)
sh("git checkout -q -- .", cwd=R)
print("failed:", bad)
