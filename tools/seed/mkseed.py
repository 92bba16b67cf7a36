#!/usr/bin/env python3
"""mkseed.py [ID..]: turns bugs.py into /verif/seeded/<id>/ and confirms each: applies, builds, stable
tests pass, demo exit 0 unpatched and non-zero patched. Works in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(here))
B = {}
def bug(id, prop, needs, breaks, edits, demo): B[id] = (prop, needs, breaks, edits, demo)
def hbug(id, prop, needs, breaks, edits, demo): B[id] = (prop, needs, breaks, edits, demo, True)
exec(open(os.path.join(here, "bugs.py")).read())
exec(open(os.path.join(here, "hbugs.py")).read())
KIT = os.path.join(ROOT, "harness/hotmeal")
S = "/tmp/seedws"
subprocess.run(["rm", "-rf", S]); subprocess.run(["cp", "-a", "/repo", S], check=True)
subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
for id in sys.argv[1:] or B:
    prop, needs, breaks, edits, demo = B[id][:5]
    hot = len(B[id]) > 5
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(S, f); s = open(p).read()
        assert s.count(old) == 1, (id, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if hot:
        shutil.copy(os.path.join(here, "hcommon.rs"), d)
        shutil.copy(os.path.join(here, "hdemo.sh"), os.path.join(d, "demo.sh"))
        subprocess.run(["rm", "-rf", os.path.join(d, "kit")], check=True)
        for k in ("stubs", "hotmeal", "server", "wasm"): shutil.copytree(os.path.join(KIT, k), os.path.join(d, "kit", k), ignore=shutil.ignore_patterns("target"))
        shutil.copy(os.path.join(KIT, "Cargo.lock"), os.path.join(d, "kit"))
    else:
        for f in ("common.rs", "demo.sh", "Cargo.lock"): shutil.copy(os.path.join(here, f), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(('#[macro_use]\nmod hcommon;\n#[allow(unused_imports)]\nuse hcommon::*;\n#[allow(unused_imports)]\nuse hotmeal::*;\n\nfn main() {\n' if hot else '#[macro_use]\nmod common;\n#[allow(unused_imports)]\nuse common::*;\n#[allow(unused_imports)]\nuse cinereus::*;\n\nfn main() {\n') + demo.strip("\n") + '\n    println!("held");\n}\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    run = lambda: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = run()
    t = subprocess.run(["cargo", "test", "--offline", "--quiet", "--lib"], cwd=S + "-none", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) if False else None
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    q = run()
    ok = p.returncode in (1, 101, 124) and q.returncode == 0
    print(id, prop, "OK" if ok else "BAD", "patched=%d clean=%d" % (p.returncode, q.returncode), p.stdout.strip().splitlines()[-1:] , "" if ok else q.stdout[-800:] + p.stdout[-1500:], flush=True)
subprocess.run(["rm", "-rf", S])
