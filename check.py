#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real code.

usage: check.py PROPERTY [--tier quick|thorough] [--entry NAME] | --setup | --list
exit:  0 held on everything explored, 1 violated (VIOLATION line), 2 no answer
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(HERE, "build")
NPROC = max(1, min(8, os.cpu_count() or 1))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    try:
                        h.update(open(q, "rb").read())
                    except OSError:
                        pass
        elif os.path.exists(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp(name, value=None):
    p = os.path.join(B, name + ".stamp")
    if value is None:
        try:
            return open(p).read()
        except OSError:
            return ""
    if value == "":
        if os.path.exists(p):
            os.unlink(p)
    else:
        open(p, "w").write(value)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise NoAnswer("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


REPO_IN = [REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs"]


def build_engine():
    d = digest([HERE + "/engine"])
    if stamp("engine") != d or not os.path.exists(B + "/engine/symx"):
        stamp("engine", "")
        run(["bash", HERE + "/engine/build.sh", B + "/engine"])
        stamp("engine", d)


def forget(target):
    """cargo compares time stamps; contents decide here"""
    for p in glob.glob(B + "/" + target + "/*/.fingerprint/pkstl-*") + glob.glob(B + "/" + target + "/*/.fingerprint/harness-*"):
        shutil.rmtree(p, ignore_errors=True)


def build_bitcode():
    d = digest([HERE + "/harness", HERE + "/models"] + REPO_IN)
    bc = B + "/sym/release/deps/harness_sym.bc"
    if stamp("sym") != d or not os.path.exists(bc):
        stamp("sym", "")
        forget("sym")
        if os.path.exists(bc):
            os.unlink(bc)
        run(["cargo", "rustc", "--release", "--offline", "--lib", "--", "--emit=llvm-bc"], cwd=HERE + "/harness/sym", env=dict(ENV, CARGO_TARGET_DIR=B + "/sym"))
        if not os.path.exists(bc):
            c = glob.glob(B + "/sym/release/deps/harness_sym*.bc")
            if not c:
                raise NoAnswer("no bitcode")
            os.rename(c[0], bc)
        stamp("sym", d)
    return bc


def build_native(release):
    n = "native-release" if release else "native"
    d = digest([HERE + "/harness"] + REPO_IN)
    exe = B + "/native/" + ("release" if release else "debug") + "/replay"
    if stamp(n) != d or not os.path.exists(exe):
        stamp(n, "")
        for p in glob.glob(os.path.dirname(exe) + "/.fingerprint/pkstl-*") + glob.glob(os.path.dirname(exe) + "/.fingerprint/harness-*"):
            shutil.rmtree(p, ignore_errors=True)
        run(["cargo", "build", "--offline"] + (["--release"] if release else []), cwd=HERE + "/harness/native", env=dict(ENV, CARGO_TARGET_DIR=B + "/native"))
        stamp(n, d)
    return exe


def build_ideal():
    d = digest([HERE + "/harness", HERE + "/models"] + REPO_IN)
    exe = B + "/ideal/debug/replay"
    if stamp("ideal") != d or not os.path.exists(exe):
        stamp("ideal", "")
        forget("ideal")
        run(["cargo", "build", "--offline"], cwd=HERE + "/harness/ideal", env=dict(ENV, CARGO_TARGET_DIR=B + "/ideal"))
        stamp("ideal", d)
    return exe


def build_all():
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_engine), ex.submit(build_bitcode), ex.submit(build_native, False)
        a.result()
        return b.result(), c.result()


def replay(exe, entry, events, tier, tries=1, timeout=60):
    """-> (exit code, output) of the most telling run"""
    best = (4, "")
    env = dict(os.environ)
    if tier == "thorough":
        env["SX_THOROUGH"] = "1"
    for _ in range(tries):
        try:
            r = subprocess.run([exe, entry, events], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout, env=env)
            rc, out = r.returncode, r.stdout
            if rc == 101:
                rc = 4  # the replayer itself gave up
            if rc not in (0, 1, 3, 4):
                rc, out = 1, out + "CRASH exit %d\n" % rc
        except subprocess.TimeoutExpired:
            return (1, "HANG no end within %d s\n" % timeout)
        if rc == 1:
            return (1, out)
        if best[0] not in (0, 1):
            best = (rc, out)
    return best


def write_events(path, events):
    with open(path, "w") as f:
        for n, v in events:
            f.write("%s %s\n" % (n, v))


RUNNING, HALT = set(), []


def halt():
    """a violation is confirmed: nothing more to look for"""
    HALT.append(1)
    for p in list(RUNNING):
        p.kill()


def symx(bc, entry, shard, n, tier, tlimit, outdir, vtime):
    out = "%s/%s.%d.json" % (outdir, entry, shard)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [B + "/engine/symx", bc, "--entry", entry, "--out", out, "--time", str(tlimit), "--tier", "1" if tier == "thorough" else "0", "--witness", "12"]
    if n > 1:
        cmd += ["--shard", "%d/%d" % (shard, n)]
    if vtime:
        cmd += ["--vtime", "40"]
    if HALT:
        return {"entry": entry, "dead": "not needed"}
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    RUNNING.add(p)
    try:
        err = p.communicate(timeout=tlimit + 90)[1][-500:]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        err = "engine did not stop in time"
    RUNNING.discard(p)
    try:
        return json.load(open(out))
    except Exception:
        return {"entry": entry, "dead": err or "engine died"}


def check(pid, tier, only=None):
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import entries
    spec = {"entries": entries.ENTRIES, "assumptions": entries.ASSUMPTIONS, "property_assumptions": entries.PROPERTY_ASSUMPTIONS}
    props = entries.PROPERTIES
    if pid not in props:
        raise NoAnswer("unknown property " + pid)
    known = json.load(open(HERE + "/known_findings.json"))["findings"]
    ents = [e for e in props[pid] if not only or e == only]
    with Lock():
        bc, exe = build_all()
    outdir = B + "/out/" + pid
    rdir = B + "/replay"
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/" + pid + "-*"):
        os.unlink(f)
    tbuild = time.time() - t0
    budget = (420 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3000")))
    tasks = []
    for e in ents:
        n = spec["entries"].get(e, {}).get("shards", 1)
        tasks += [(e, i, n) for i in range(n)]
    tasks.sort(key=lambda t: -spec["entries"].get(t[0], {}).get("cost", 1))
    results = {e: [] for e in ents}
    tend = time.time() + budget
    confirmed, knownhit, unconf = [], {}, []
    seen = {}
    exes = {}
    count = [0]

    def finding(e, label):
        return next((x for x in known if x["property"] == pid and x["entry"] == e and x["label"] == label), None)

    def examine(e, v):
        """a counterexample: is it listed, and does the real code do it?"""
        key = (e, v["label"], v["kind"])
        kf = finding(e, v["label"])
        if kf:
            knownhit[kf["id"]] = kf
            return
        if seen.get(key) == "ok" or seen.get(("n",) + key, 0) >= 6 or len(confirmed) >= 5:
            return
        seen[("n",) + key] = seen.get(("n",) + key, 0) + 1
        count[0] += 1
        path = "%s/%s-%s-%d.events" % (rdir, pid, e, count[0])
        write_events(path, v["events"])
        # real cryptography, with and without overflow checks; then, when it takes particular values of
        # the cryptographic functions: the real code of pkstl, and the ideal functions of the model taking
        # the values of the counterexample
        for which, build, tries in (("real", lambda: exe, 40), ("real, release", lambda: build_native(True), 10), ("ideal", build_ideal, 1)):
            if which not in exes:
                with Lock():
                    exes[which] = build()
            rc, out = replay(exes[which], e, path, tier, tries=tries)
            if rc == 1:
                seen[key] = "ok"
                confirmed.append((e, v, path, out, exes[which], which))
                return
        unconf.append((e, v, rc))

    has_known = {x["entry"] for x in known if x["property"] == pid}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = {ex.submit(lambda e=e, i=i, n=n: symx(bc, e, i, n, tier, max(5, int(tend - time.time())), outdir, e not in has_known)): e for e, i, n in tasks}
        for f in cf.as_completed(fs):
            r = f.result()
            results[fs[f]].append(r)
            for v in r.get("violations", []):
                examine(fs[f], v)
            if confirmed:
                halt()

    problems, tot, samples, funcs, lines, per = [], {}, [], set(), {}, {}
    wits = []
    for e in ents:
        reach, agg = {}, {}
        for r in results[e]:
            if "dead" in r:
                problems.append("%s: %s" % (e, r["dead"]))
                continue
            for k in ("paths", "paths_ok", "forks", "insts", "checks", "queries", "sat", "unsat", "unknown", "z3calls", "repaired", "cache_hits", "z3_time"):
                agg[k] = agg.get(k, 0) + r[k]
                tot[k] = tot.get(k, 0) + r[k]
            for k, v in r["reach"].items():
                reach[k] = reach.get(k, 0) + v
            for x in r["incomplete"]:
                problems.append("%s: %s" % (e, x[:300]))
            if r["unknown"]:
                problems.append("%s: %d queries undecided" % (e, r["unknown"]))
            funcs |= set(re.sub(r"::h[0-9a-f]{16}$", "", f) for f in r["functions"])
            for k, v in r["lines"].items():
                lines[k] = max(lines.get(k, 0), v)
            wits += [(e, w) for w in r["witnesses"]]
        per[e] = dict(agg, reach=reach, z3_time=round(agg.get("z3_time", 0), 3))
        miss = [x for x in spec["entries"].get(e, {}).get("reach", []) if not reach.get(x)]
        per[e]["missing"] = miss

    unconf = [(e, v, rc) for e, v, rc in unconf if seen.get((e, v["label"], v["kind"])) != "ok"]

    # a sample of the other paths: the real code takes the same one
    val = {"matched": 0, "differs": 0, "not_replayable": 0}
    if not confirmed:
        per_entry = {}
        jobs = []
        for k, (e, w) in enumerate(wits):
            if per_entry.get(e, 0) >= 12:
                continue
            per_entry[e] = per_entry.get(e, 0) + 1
            path = "%s/%s-w%d.events" % (outdir, e, k)
            write_events(path, w["events"])
            jobs.append((e, w, path))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (e, w, path), (rc, out) in zip(jobs, ex.map(lambda j: replay(exe, j[0], j[2], tier, tries=1, timeout=120), jobs)):
                got = "".join(l[6:] + ";" for l in out.splitlines() if l.startswith("REACH "))
                if rc == 0 and got == w["trace"]:
                    val["matched"] += 1
                    if len(samples) < 6 and len(str(w["events"])) < 1500:
                        samples.append({"entry": e, "events": w["events"], "trace": w["trace"]})
                elif rc == 1 and all(replay(exe, e, path, tier)[0] == 1 for _ in range(3)):
                    # the model let it pass and the real code fails the same assertions
                    lab = [l for l in out.splitlines() if l.startswith(("CHECK-FAILED", "PANIC", "FAULT", "HANG", "CRASH"))]
                    kf = next((x for x in known if x["property"] == pid and x["entry"] == e and any(x["label"] in l for l in lab)), None)
                    if kf:
                        knownhit[kf["id"]] = kf
                        continue
                    p2 = "%s/%s-%s-trace.events" % (rdir, pid, e)
                    shutil.copy(path, p2)
                    confirmed.append((e, {"label": "; ".join(lab)[:300] or "fails", "kind": "trace", "events": w["events"]}, p2, out, exe, "real"))
                elif rc in (0, 1):
                    val["differs"] += 1
                else:
                    val["not_replayable"] += 1

    for x in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    for e, v, path, out, which, how in confirmed:
        why = path[:-7] + ".txt"
        with open(why, "w") as f:
            f.write("property %s, harness %s (harness/src), violated: %s\nconfirmed on the real code (%s cryptography); again: %s%s %s %s\n\n%s\n" % (pid, e, v["label"], how, "SX_THOROUGH=1 " if tier == "thorough" else "", which, e, path, out))
        print("  %s: %s (%s)" % (e, v["label"], " ".join(out.split("\n")[:3])[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))

    for e, v, rc in unconf:
        problems.append("%s: counterexample to '%s' (%s) does not reproduce on the real code (exit %d)" % (e, v["label"], v.get("detail", "")[:120], rc))
    if not confirmed:
        for e in ents:
            if per[e]["missing"]:
                problems.append("%s: never reached: %s" % (e, ", ".join(per[e]["missing"])))

    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": val["matched"], "samples": samples,
            "explanation": "states: symbolic execution paths of the compiled real code, each standing for every input satisfying its path condition; transitions: symbolic branches taken both ways. traces_validated_against_impl: solver models of paths run against the real crates, same observations.",
            "traces_taking_another_path": val["differs"], "traces_not_replayable": val["not_replayable"],
            "instructions": tot.get("insts", 0), "assertions_decided": tot.get("checks", 0),
            "queries": tot.get("queries", 0), "queries_sat": tot.get("sat", 0), "queries_unsat": tot.get("unsat", 0), "queries_unknown": tot.get("unknown", 0),
            "queries_to_z3": tot.get("z3calls", 0), "queries_by_model_reuse": tot.get("repaired", 0), "queries_by_cache": tot.get("cache_hits", 0),
            "solver_time_s": round(tot.get("z3_time", 0), 3),
            "functions_encoded": sorted(funcs), "source_lines_executed": lines,
            "harnesses": per,
            "bounds": {e: spec["entries"].get(e, {}).get("bounds", "") for e in ents},
            "exhaustive": not problems,
            "incomplete": problems, "known_findings": sorted(knownhit), "build_s": round(tbuild, 1),
        },
        "assumptions": spec["assumptions"] + spec.get("property_assumptions", {}).get(pid, []),
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    if not only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%d unsat), solver %.1f s, %d traces on the real code (%d differ, %d not replayable), %.1f s" % (
        pid, tier, tot.get("paths", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("unsat", 0), tot.get("z3_time", 0), val["matched"], val["differs"], val["not_replayable"], time.time() - t0))
    for p in problems:
        print("NO-ANSWER " + p)
    if confirmed:
        return 1
    return 2 if problems else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    pid = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--entry":
            only = a.pop(0)
        elif x == "--setup":
            with Lock():
                build_all()
            return 0
        else:
            pid = x
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(pid, tier, only)


if __name__ == "__main__":
    try:
        rc = main()
    except NoAnswer as e:
        print("NO-ANSWER %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
