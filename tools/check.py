#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   - decides one property by symbolic execution of the real code
check.py --setup                     - builds the engine and every harness
check.py --list

Builds the harness crate (and through it the code under test) from /repo's current tree to LLVM
bitcode, lets the symir engine explore it, replays any counterexample and a sample of explored
paths natively, and writes evidence/PROPERTY.json.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import spec  # noqa: E402

BUILD = os.path.join(ROOT, "build")
ENGINE = os.path.join(ROOT, "engine", "target", "release", "symir")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable"))
for v in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(v, None)


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not os.path.islink(p):
                    h.update(p.encode() + b"\0"); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build_engine():
    src = tree_hash([os.path.join(ROOT, "engine", x) for x in ("src", "Cargo.toml", "build.rs")])
    stamp = ENGINE + ".stamp"
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == src:
        return
    rc, out = run(["cargo", "build", "--offline", "--release"], cwd=os.path.join(ROOT, "engine"))
    if rc != 0:
        die("engine does not build\n" + out[-3000:])
    open(stamp, "w").write(src)


def build_harness(h):
    """Returns (bitcode, native replayer, seconds, hash)."""
    d = os.path.join(ROOT, "harness", h)
    src = spec.HARNESS[h]
    key = tree_hash([d] + src["sources"])
    out = os.path.join(BUILD, h, key)
    bc = os.path.join(out, "release", "deps", src["lib"] + ".bc")
    exe = os.path.join(out, "debug", "replay")
    t = time.time()
    ok = os.path.join(out, "complete")
    if not os.path.exists(ok):
        # keep the two most recent builds of this harness
        base = os.path.join(BUILD, h)
        if os.path.isdir(base):
            old = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
            for x in old[:-1]:
                shutil.rmtree(x, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        if "prepare" in src:
            src["prepare"](ROOT, out)
        cwd = src.get("crate_dir", lambda r, o: d)(ROOT, out)
        rc, log = run(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "--target-dir", out, "--",
                       "--emit=llvm-bc", "-C", "save-temps", "-C", "linker=/bin/true", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=cwd)
        if rc != 0 or not os.path.exists(bc):
            die("the code under test does not build with the harness (bitcode)\n" + log[-4000:])
        rc, log = run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", out], cwd=cwd)
        if rc != 0:
            die("the code under test does not build with the harness (native)\n" + log[-4000:])
        for f in os.listdir(os.path.dirname(bc)):
            if ".rcgu." in f:
                os.unlink(os.path.join(os.path.dirname(bc), f))
        open(ok, "w").write("ok")
    return bc, exe, time.time() - t, key


def replay(exe, entry, params, vals, rounds, timeout=60):
    """-> (outcome, observations); outcome: held | violated | assumption | error"""
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    f = os.path.join(BUILD, "tmp", "vals.%d" % os.getpid())
    open(f, "w").write(" ".join(map(str, vals)) + "\n")
    try:
        p = subprocess.run([exe, entry, ",".join(map(str, params)), f, str(rounds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "violated", None, "no result within %d s" % timeout
    finally:
        os.unlink(f)
    obs = None
    for l in p.stdout.splitlines():
        if l.startswith("obs"):
            obs = [int(x) for x in l.split()[1:]]
    why = "\n".join([l for l in p.stdout.splitlines() if l.startswith("REPRODUCED")] + p.stderr.splitlines()[:6])
    if p.returncode == 0:
        return "held", obs, ""
    if p.returncode == 3:
        return "assumption", obs, ""
    if p.returncode == 1 or p.returncode < 0 or p.returncode == 101:
        return "violated", obs, why
    return "error", obs, p.stdout[-500:] + p.stderr[-500:]


def check(prop, tier):
    t0 = time.time()
    s = spec.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = [j for j in s["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == prop]
    build_engine()
    results, built, build_s = [], {}, 0.0
    status, violation = "held", None
    z3 = None
    for h in sorted({j["harness"] for j in jobs}):
        bc, exe, bs, key = build_harness(h)
        built[h] = (bc, exe, key)
        build_s += bs
    for h, (bc, exe, key) in built.items():
        hj = [j for j in jobs if j["harness"] == h]
        out = os.path.join(BUILD, "tmp", "%s.%d.json" % (prop, os.getpid()))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cmd = [ENGINE, "run", "--bc", bc, "--out", out, "--threads", str(spec.THREADS), "--own", spec.HARNESS[h]["own"], "--budget", str(s.get("budget", spec.HARNESS[h].get("budget", 20_000_000)))]
        for j in hj:
            secs = j.get("secs") or (120 if tier == "quick" else 600)
            cmd += ["--job", "%s:%s:%s:%g" % (j["name"], j["entry"], ",".join(map(str, j["params"])), secs)]
        if tier == "quick":
            cmd += ["--total", str(540 / len(built))]
        try:
            rc, log = run(cmd, timeout=4 * 3600)
        except subprocess.TimeoutExpired:
            die("engine did not finish")
        print(log, end="", flush=True)
        if rc != 0 or not os.path.exists(out):
            die("engine failed (%d)" % rc)
        r = json.load(open(out))
        os.unlink(out)
        z3 = r["z3"]
        by = {j["name"]: j for j in hj}
        for x in r["jobs"]:
            x["spec"] = by[x["name"]]
            x["harness"] = h
            results.append(x)
            if x["fail"] and not violation:
                violation = x
        if violation:
            break
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    validated, mismatches, confirmed = 0, [], None
    if violation:
        f = violation["fail"]
        exe = built[violation["harness"]][1]
        vals = [v for _, v in f["vars"]]
        for rounds in (1, 400):
            confirmed, _, why = replay(exe, violation["entry"], violation["params"], vals, rounds)
            if confirmed != "held":
                break
        rp = os.path.join("evidence", prop + ".violation.json")
        json.dump({"property": prop, "harness": violation["harness"], "entry": violation["entry"], "params": violation["params"], "what": f["msg"],
                   "values": f["vars"], "trace": f["trace"], "native_replay": confirmed, "native_output": why,
                   "how_to_replay": "python3 tools/check.py --replay " + rp}, open(os.path.join(ROOT, rp), "w"), indent=1)
        print("counterexample: %s (%s)" % (f["msg"], " ".join("%s=%d" % (n, v) for n, v in f["vars"])))
        print("native replay: %s %s" % (confirmed, why.strip()))
        if confirmed == "violated":
            status = "violated"
        else:
            status = "unconfirmed"
    else:
        # the encoding against the real code: sampled paths must behave the same natively
        for x in results:
            exe = built[x["harness"]][1]
            for smp in x["samples"][:spec.SAMPLES]:
                o, obs, why = replay(exe, x["entry"], x["params"], smp["vals"], 1)
                if o == "held" and obs == smp["obs"]:
                    validated += 1
                else:
                    mismatches.append({"job": x["name"], "vals": smp["vals"], "engine_obs": smp["obs"], "native": o, "native_obs": obs, "why": why})
    tot = lambda k: sum(x[k] for x in results)
    incomplete = [x["name"] for x in results if not x["complete"] and not x["fail"]]
    reached = {}
    for x in results:
        for k, v in x["reached"].items():
            reached[k] = reached.get(k, 0) + v
    missing = [m for m in s.get("reach", []) if m not in reached] if not violation else []
    fns = sorted({f for x in results for f in x["own_functions"]})
    kf = {}
    for x in results:
        for k, (n, m) in x["known"].items():
            kf.setdefault(k, [0, m])[0] += n
    samples = []
    for x in results:
        for smp in x["samples"][:2]:
            samples.append({"job": x["name"], "entry": x["entry"], "params": x["params"], "assignment": smp["vals"], "observed": smp["obs"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("events"), "traces_validated_against_impl": validated, "samples": samples[:12],
            "exhaustive": not incomplete and not violation,
            "explanation": "Symbolic execution of the LLVM IR that rustc generates from /repo's current source. states: feasible symbolic paths explored (each stands for every input satisfying its path condition); transitions: symbolic decisions on them, each with its alternative decided by Z3; traces_validated: sampled paths re-run natively with identical observations.",
            "instructions_executed": tot("instructions"), "assertions_checked": tot("asserts"), "assertions_with_symbolic_condition": tot("asserts_symbolic"),
            "solver": {"name": "Z3 " + (z3 or ""), "queries": tot("queries"), "answered_from_cache": tot("cache_hits"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "seconds": round(tot("solver_s"), 2)},
            "jobs": [{"name": x["name"], "entry": x["entry"], "bounds": x["spec"]["bounds"], "params": x["params"], "complete": x["complete"], "paths": x["paths"], "paths_left": x["paths_left"], "infeasible_paths": x["dead_paths"],
                      "max_path_condition": x["max_path_condition"], "queries": x["queries"], "solver_s": x["solver_s"], "wall_s": x["wall_s"], "unsupported": x["unsupported"]} for x in results],
            "incomplete_jobs": incomplete, "functions_encoded": fns, "reached": reached, "build_s": round(build_s, 1),
            "encoding_mismatches": mismatches[:5],
        },
        "assumptions": s.get("assumptions", []) + spec.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": 1 if status == "violated" else 0,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if k["id"] in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            kf.pop(k["id"])
    if kf and status == "held":
        # the harness recognised a finding that the file does not list
        print("unlisted finding: %s" % kf)
        status = "violated"
        rp = os.path.join("evidence", prop + ".violation.json")
        json.dump({"property": prop, "unlisted": kf}, open(os.path.join(ROOT, rp), "w"))
    if status == "violated":
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if status == "unconfirmed":
        die("counterexample not reproduced natively (%s): encoding and code disagree" % confirmed)
    if mismatches:
        die("the encoding disagrees with the native code on %d sampled paths: %s" % (len(mismatches), json.dumps(mismatches[0])))
    if missing:
        die("vacuous: never reached %s" % missing)
    if incomplete:
        print("INCOMPLETE jobs (time limit or unsupported construct), nothing found in what was explored: %s" % incomplete)
    print("OK property=%s paths=%d queries=%d validated=%d wall=%.1fs" % (prop, tot("paths"), tot("queries"), validated, time.time() - t0))
    sys.exit(0)


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a[:1] == ["--list"]:
        for p, s in spec.PROPS.items():
            print(p, [j["name"] for j in s["jobs"]])
    elif a[:1] == ["--setup"]:
        build_engine()
        for h in spec.HARNESS:
            try:
                print("built", h, build_harness(h)[3])
            except SystemExit:
                # the checks that need it will say so themselves
                print("not built", h)
    elif a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        _, exe, _, _ = build_harness(r["harness"])
        print(r["what"], replay(exe, r["entry"], r["params"], [v for _, v in r["values"]], 400))
    elif len(a) == 2 and a[0] in spec.PROPS and a[1] in ("quick", "thorough"):
        check(*a)
    else:
        print(__doc__)
        sys.exit(2)


main()
