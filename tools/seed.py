#!/usr/bin/env python3
"""seed.py make SPEC.py      build /verif/seeded/<id>/ from a description
   seed.py test ID...         demo on clean and patched tree, then the property's check on the patched tree
   seed.py full ID...         also build and run the stable tests on the patched tree"""
import sys, os, json, subprocess, runpy, tempfile, time
V = "/verif"; S = V + "/seeded"; R = "/repo"
def sh(c, t=900, cwd=R):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode("utf-8", "replace")
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -I. -Imml "$D/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''
def make(path):
    for b in runpy.run_path(path)["BUGS"]:
        d = os.path.join(S, b["id"]); os.makedirs(d, exist_ok=True)
        assert not sh("git status --porcelain")[1].strip(), "repo not clean"
        for f, old, new in b["edits"]:
            p = os.path.join(R, f); s = open(p).read()
            n = s.count(old)
            if n != 1:
                sh("git checkout -- ."); raise SystemExit("%s: %d matches in %s for %r" % (b["id"], n, f, old[:80]))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff")[1]); sh("git checkout -- .")
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip()); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])
def test(ids, full):
    res = {}
    for i in ids:
        d = os.path.join(S, i); pid = json.load(open(d + "/meta.json"))["property"]
        assert not sh("git status --porcelain")[1].strip()
        a, o = sh("bash %s/demo.sh" % d)
        rc, o2 = sh("git apply %s/patch.diff" % d)
        if rc: print(i, "DOES NOT APPLY", o2); continue
        try:
            b, o3 = sh("bash %s/demo.sh" % d)
            t0 = time.time(); c, o4 = sh("VERIF_SEED=1 VERIF_TIER=quick python3 lib/run.py %s" % pid, cwd=V); w = time.time() - t0
            t = ""
            if full:
                r, o5 = sh("bash /opt/vp/build.sh > /tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/st.json > /tmp/st.log 2>&1", 1500)
                base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                got = set(json.load(open("/tmp/st.json"))["passed"]) if r == 0 else set()
                t = "tests pass" if base <= got else "TESTS FAIL %d %s" % (len(base - got), sorted(base - got)[:5])
        finally:
            sh("git checkout -- .")
        lines = [x for x in o4.splitlines() if "VIOLATION" in x or "CHECK-ERROR" in x]
        st = "OK" if a == 0 and b not in (0, 3) and c == 1 else "!!"
        print("%s %s: demo clean %d, patched %d; check %d (%.0fs) %s %s" % (st, i, a, b, c, w, t, "" if c == 1 else o4[-600:]), flush=True)
        if a or b == 3: print(o[-800:], o3[-800:])
if sys.argv[1] == "make": [make(p) for p in sys.argv[2:]]
else: test(sys.argv[2:] or sorted(os.listdir(S)), sys.argv[1] == "full")
