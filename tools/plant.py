#!/usr/bin/env python3
"""plant.py make <spec.py>...   make seeded/<id> from a spec (id, prop, file/old/new edits, demo, needs, breaks) and confirm it
plant.py try <id>...        run the property's check on a copy of /repo with the planted bug (QLC_REPO)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/seed"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
def sh(c, cwd=S, **k): return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    if not os.path.exists(S): sh("cp -a /repo " + S, cwd="/")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
def build(): return sh("cargo test --workspace --no-run --locked --offline")
STABLE = [x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
def demo(d): return sh("bash %s/demo.sh" % d, timeout=300)
def make(sp):
    g = {}; exec(open(sp).read(), g)
    for b in g["BUGS"]:
        d = "%s/seeded/%s" % (V, b["id"]); os.makedirs(d, exist_ok=True); fresh()
        open(d + "/demo.sh", "w").write('#!/bin/bash\nR="$PWD"; Q="$R/target/debug/qlc"; H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT; cd "$T" || exit 2\n' + b["demo"].strip() + "\n"); os.chmod(d + "/demo.sh", 0o755)
        if "mk.py" in b["demo"]: shutil.copy("/tmp/mk/mk.py", d + "/mk.py")
        if "stub.js" in b["demo"]: shutil.copy("/tmp/mk/stub.js", d + "/stub.js")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = build(); assert r.returncode == 0, r.stdout
        r = demo(d)
        if r.returncode != 0: print(b["id"], "FAIL: demo fails on the unchanged tree", r.stdout[-1500:]); continue
        ok = True
        for f, o, n in b["edits"]:
            t = open(S + "/" + f).read()
            if t.count(o) != 1: print(b["id"], "FAIL: %d matches in %s" % (t.count(o), f)); ok = False; break
            # the changed lines must be of the original repository
            open(S + "/" + f, "w").write(t.replace(o, n))
        if not ok: continue
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        bl = []
        for l in open(d + "/patch.diff"):
            if l.startswith("-") and not l.startswith("---"):
                if sh("git grep -qF -e %s c7b6e61 -- src pkg" % __import__("shlex").quote(l[1:].rstrip("\n"))).returncode: bl.append(l.strip())
        r = build()
        if r.returncode: print(b["id"], "FAIL: does not build", r.stdout[-2500:]); continue
        t = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 2>&1")
        st = {x: ("test %s ... ok" % x.split("::", 1)[1] in t.stdout) for x in STABLE}
        st = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if ("test %s ... ok" % x.split("::", 1)[1]) not in t.stdout]
        r = demo(d)
        print(b["id"], "ok" if r.returncode != 0 and not st and not bl else "FAIL", "demo rc %d" % r.returncode, "broken stable tests: %s" % st if st else "", "not original: %s" % bl if bl else "", [x for x in t.stdout.split("\n") if x.startswith("test result")][-1:])
        if r.returncode == 0: print(r.stdout[-800:])
def tryit(i, tier="quick", prop=None):
    d = "%s/seeded/%s" % (V, i); fresh(); r = sh("git apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
    p = prop or json.load(open(d + "/meta.json"))["property"]
    r = subprocess.run(["./check", p, tier], cwd=V, env=dict(os.environ, QLC_REPO=S), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("%s %s rc %d %s" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "NO ANSWER")); print("   " + "\n   ".join(l[:260] for l in r.stdout.split("\n")[:5])); sys.stdout.flush()
    sh("git checkout -q -- .")
if sys.argv[1] == "make":
    for x in sys.argv[2:]: make(x)
else:
    for x in sys.argv[2:]: tryit(*x.split(":"))
