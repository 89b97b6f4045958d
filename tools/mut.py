#!/usr/bin/env python3
"""mut.py PID SPEC.py : runs the check of PID against mutated copies of /repo (under /tmp); SPEC.py: MUTS=[(file, old, new), ...]"""
import sys, os, shutil, subprocess, runpy, re, concurrent.futures as cf
pid, spec = sys.argv[1:3]; M = runpy.run_path(spec)["MUTS"]
def one(k):
    f, old, new = M[k][:3]; d = "/tmp/mut/%s-%d" % (pid, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(os.environ.get("RW","/tmp/rw")+"/mml", d + "/mml"); p = os.path.join(d, f); s = open(p).read()
    if s.count(old) < 1: shutil.rmtree(d); return k, "NOMATCH", ""
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"lib/run.py"), pid], env=dict(os.environ, VP_REPO=d, VP_BUILD=d + "/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode("utf-8", "replace"); shutil.rmtree(d)
    return k, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, r.returncode), o
with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for k, v, o in ex.map(one, range(len(M))):
        print(k, v, M[k][1].strip()[:60].replace("\n", "|"), "=>", M[k][2].strip()[:60].replace("\n", "|"), flush=True)
        if v not in ("caught", "MISSED"): print(o[:1500])
        elif v == "caught" and os.environ.get("SHOW"): print("   ", [l for l in o.splitlines() if l.startswith("  ")][:1][0][:200] if [l for l in o.splitlines() if l.startswith("  ")] else "")
