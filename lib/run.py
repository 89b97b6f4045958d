#!/usr/bin/env python3
"""Runs the check of one property:  python3 lib/run.py C07   (tier and seed from VERIF_TIER, VERIF_SEED)

1. model-checks the domain specification(s) with TLC at small constants;
2. lets TLC generate behaviours of the specification (scripts);
3. builds the harness from /repo's working tree, replays the scripts and the harness's own inputs in
   the real code, recording every call;
4. has TLC validate each recorded history against the specification.
"""
import sys, os, json, time, subprocess, hashlib, shutil, re, concurrent.futures as cf, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TOOLS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS

def sh(cmd, timeout, env=None, cwd=None, stdin=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")

class CheckError(Exception): pass

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, ds, fs in os.walk(p):
            ds[:] = sorted(d for d in ds if d != "single_header")
            for f in sorted(fs):
                q = os.path.join(root, f); h.update(q.encode()); h.update(open(q, "rb").read())
    return h.hexdigest()

def file_hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files: h.update(open(f, "rb").read())
    return h.hexdigest()[:24]

BUILD = os.environ.get("VP_BUILD") or os.path.join(V, "build")
def java_build():
    out = os.path.join(BUILD, "classes"); src = []
    for r, _, fs in os.walk(os.path.join(V, "java")): src += [os.path.join(r, f) for f in fs if f.endswith(".java")]
    src.sort(); key = file_hash(src); stamp = os.path.join(out, ".key")
    if os.path.exists(stamp) and open(stamp).read() == key: return out
    tmp = tempfile.mkdtemp(dir=BUILD)
    rc, o, e = sh(["javac", "-nowarn", "-cp", TOOLS, "-d", tmp] + src, 300)
    if rc != 0: raise CheckError("javac failed\n" + o + e)
    open(os.path.join(tmp, ".key"), "w").write(key)
    if os.path.isdir(out): shutil.rmtree(out, ignore_errors=True)
    try: os.rename(tmp, out)
    except OSError:
        if not os.path.exists(stamp): raise
        shutil.rmtree(tmp, ignore_errors=True)
    return out

def compile_harness(h, rh):
    name, opts = h["src"], h.get("flags", "")
    src = os.path.join(V, "harness", name)
    deps = [src, os.path.join(V, "harness", "vp.h")] + [os.path.join(V, "harness", d) for d in h.get("deps", [])]
    opt = h.get("opt", "-O1")
    key = file_hash(deps, rh + opts + opt)
    exe = os.path.join(BUILD, "bin", name.replace(".cpp", "") + "-" + key)
    if os.path.exists(exe): return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = ["g++", "-std=c++17", opt, "-w", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-I" + REPO, "-I" + REPO + "/mml", "-I" + os.path.join(V, "harness")] + opts.split() + [src, "-o", exe + ".tmp%d" % os.getpid(), "-lpthread"]
    rc, o, e = sh(cmd, 800)
    if tree_hash([os.path.join(REPO, "mml")]) != rh:
        try: os.remove(exe + ".tmp%d" % os.getpid())
        except OSError: pass
        raise CheckError("%s changed while harness %s was being compiled" % (REPO, name))
    if rc != 0: raise CheckError("harness %s does not compile against %s\n%s" % (name, REPO, "\n".join([x for x in (o + e).splitlines() if "error" in x][:12])[:3000]))
    for old in os.listdir(os.path.dirname(exe)):
        if re.fullmatch(re.escape(name.replace(".cpp", "")) + r"-[0-9a-f]{24}", old):
            try: os.remove(os.path.join(os.path.dirname(exe), old))
            except OSError: pass
    os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe

def tlc(module, cfg, work, extra=(), env=None, timeout=600, workers=8, mem="6g", props=()):
    classes = java_build()
    os.makedirs(work, exist_ok=True)
    meta = tempfile.mkdtemp(dir=work, prefix="meta")
    spec = os.path.join(V, "spec")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-DTLA-Library=" + spec] + list(props) + ["-cp", classes + ":" + TOOLS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-config", os.path.join(spec, cfg)] + list(extra) + [os.path.join(spec, module + ".tla")]
    rc, o, e = sh(cmd, timeout, env=env, cwd=work)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, o + e

def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
    if not m: return None
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def run_mc(mc, work, tier, res):
    cfg = mc["cfg"] if tier == "quick" or "cfg_thorough" not in mc else mc["cfg_thorough"]
    rc, out = tlc(mc["module"], cfg, work, timeout=mc.get("timeout", 400 if tier == "quick" else 3000), workers=mc.get("workers", 4), extra=mc.get("extra", ["-coverage", "1"] if False else []))
    c = counts(out)
    if rc != 0 or "No error has been found" not in out or not c:
        raise CheckError("model checking %s/%s failed (rc %s)\n%s" % (mc["module"], cfg, rc, out[-4000:]))
    if c[1] < mc.get("min", 2): raise CheckError("model %s has only %d states" % (mc["module"], c[1]))
    res["models"].append(dict(module=mc["module"], cfg=cfg, transitions=c[0], states=c[1]))

def flat(x):
    if isinstance(x, bool): return "1" if x else "0"
    if isinstance(x, (list, tuple)): return " ".join(flat(y) for y in x)
    return str(x)

def run_gen(g, work, tier, seed, path):
    """behaviours printed by TLC as  "SCRIPT|<json>"  -> one line per behaviour, events separated by ';'"""
    num = g.get("num_thorough", g.get("num", 0) * 10) if tier == "thorough" else g.get("num", 0)
    cfg = g["cfg"] if tier == "quick" or "cfg_thorough" not in g else g["cfg_thorough"]
    if num:
        extra = ["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed + 1000)]
    else: extra = []
    rc, out = tlc(g["module"], cfg, work, extra=extra, timeout=g.get("timeout", 300 if tier == "quick" else 1500), workers=1 if num else 4)
    seen = {}; lines = []
    for ln in out.splitlines():
        if ln.startswith('"SCRIPT|'):
            body = json.loads(ln)[7:]
            evs = json.loads(body)
            # TLC prints every successor of the last-but-one state: keep a few per behaviour
            key = json.dumps(evs[:-1]) if num else body
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1: continue
            lines.append(";".join(flat(ev) for ev in evs))
    if "Error:" in out or not lines: raise CheckError("behaviour generation %s failed (rc %s)\n%s" % (g["module"], rc, out[-3000:]))
    with open(path, "a") as f: f.write("\n".join(lines) + "\n")
    return len(lines)

def run_harness(exe, tier, seed, trace, script, timeout, cwd):
    rc, o, e = sh([exe, tier, str(seed), trace] + ([script] if script else []), timeout, cwd=cwd)
    m = re.search(r"VP-CRASH (.*)", e)
    if rc == 0: return None
    if m: return "crash: " + m.group(1).strip()
    if rc == -999: return "hang: harness did not finish within %ds; last: %s" % (timeout, e[-300:])
    if rc < 0 or rc in (97, 98): return "crash: harness killed by signal %d %s" % (-rc, e[-300:])
    raise CheckError("harness failed rc=%d\n%s" % (rc, (o + e)[-3000:]))

def validate(module, trace, work, tier, mem="8g", workers=8):
    """-> (events, histories, rejected [(h,l,why)], tlc error or None)"""
    nh = ne = 0
    with open(trace) as f:
        for ln in f:
            nh += 1
    env = {"VP_TRACE": trace}
    cfg = module + ".cfg"
    if not os.path.exists(os.path.join(V, "spec", cfg)): cfg = "TraceRun.cfg"
    rc, out = tlc(module, cfg, work, env=env, timeout=700 if tier == "quick" else 6000, mem=mem, workers=workers)
    rej = []; why = []
    for ln in out.splitlines():
        if ln.startswith('"WHY|'): why.append(ln.strip('"')[4:])
        m = re.match(r'"REJECT\|(\d+)\|(\d+)\|', ln)
        if m: rej.append((int(m.group(1)), int(m.group(2)), why[-1] if why else ""))
    err = None
    if "No error has been found" not in out:
        out = "\n".join(x for x in out.splitlines() if not re.match("(Parsing file|Semantic processing|Linting of|Loading )", x))
        m = re.search(r"(Error: .*)", out, re.S)
        t = m.group(1) if m and "Parsing or semantic" not in out else out
        hl = re.findall(r"/\\ h = (\d+)", t), re.findall(r"/\\ l = (\d+)", t)
        low = t.lower()
        if rc == -999 or "OutOfMemory" in t or "StackOverflow" in t or not (hl[0] and hl[1]):
            raise CheckError("TLC failed on %s (rc %s)\n%s" % (module, rc, t[:3500]))
        err = (int(hl[0][-1]), int(hl[1][-1]), "not evaluable: " + " ".join(t.split())[:600])
    c = counts(out)
    return nh, c, rej, err, out

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time(); cfg = CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = os.path.join(BUILD, "work", "%s-%s-%d" % (pid, tier, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rep = os.path.join(V, "evidence", "replay"); os.makedirs(rep, exist_ok=True)
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid] if os.path.exists(os.path.join(V, "known_findings.json")) else []
    res = dict(models=[], scripts=0, hist=0, events=0, ops={}, samples=[])
    bad = []          # (part, history, line, why)
    try:
        java_build()
        parts = cfg["parts"]; rh = tree_hash([os.path.join(REPO, "mml")])
        with cf.ThreadPoolExecutor(8) as ex:
            fexe = {i: ex.submit(compile_harness, p["harness"], rh) for i, p in enumerate(parts)}
            fmc = [ex.submit(run_mc, m, work, tier, res) for m in cfg.get("mc", [])]
            fgen = {}
            for i, p in enumerate(parts):
                if p.get("gen"):
                    sp = os.path.join(work, "script%d" % i); open(sp, "w").close()
                    def gen(p=p, sp=sp): return sum(run_gen(g, work, tier, seed, sp) for g in p["gen"])
                    fgen[i] = (sp, ex.submit(gen))
            for f in fmc: f.result()
            exes = {i: f.result() for i, f in fexe.items()}
            scripts = {}
            for i, (sp, f) in fgen.items(): res["scripts"] += f.result(); scripts[i] = sp
        ht = 600 if tier == "quick" else 6000
        def one(i, suffix=""):
            p = parts[i]; cwd = os.path.join(work, "cwd%d%s" % (i, suffix)); os.makedirs(cwd, exist_ok=True)
            tr = os.path.join(work, "trace%d%s.ndjson" % (i, suffix))
            crash = run_harness(exes[i], tier, seed, tr, scripts.get(i), ht, cwd)
            shutil.rmtree(cwd, ignore_errors=True)
            return tr, crash
        with cf.ThreadPoolExecutor(8) as ex: runs = list(ex.map(one, range(len(parts))))
        def check(i, tr, crash, count, only=None):
            p = parts[i]; found = []
            if crash is not None:
                # keep what was completed; the crash itself is a violation
                found.append((i, None, crash, None))
                data = open(tr).read().split("\n")[:-1] if os.path.exists(tr) else []
                ok = []
                for d in data:
                    try: json.loads(d); ok.append(d)
                    except ValueError: break
                if not ok: return found
                open(tr, "w").write("\n".join(ok) + "\n")
            H = [json.loads(x) for x in open(tr)]
            if only is not None:
                H = [x for x in H if x["id"] in only]
                if not H: return found
                open(tr, "w").write("".join(json.dumps(x) + "\n" for x in H))
            nev = sum(len(x["ev"]) for x in H)
            if not H or not nev: raise CheckError("empty trace from part %d" % i)
            nh, c, rej, err, out = validate(p["spec"], tr, work, tier, workers=8 if only is None else 1)
            if err: found.append((i, H[err[0] - 1], err[2], err[1]))
            else:
                if c[1] != nev + len(H): raise CheckError("trace validation incomplete: %s states for %d events in %d histories\n%s" % (c, nev, len(H), out[-2000:]))
            for h, l, why in rej: found.append((i, H[h - 1], why, l))
            if count:
                res["hist"] += len(H); res["events"] += nev
                for x in H:
                    for e in x["ev"]: res["ops"][e["op"]] = res["ops"].get(e["op"], 0) + 1
                step = max(1, len(H) // 3)
                for x in H[::step][:3]: res["samples"].append(json.dumps(x)[:700])
                res.setdefault("distinct", 0)
                res["distinct"] += len({hashlib.md5(json.dumps(e, sort_keys=True).encode()).digest() for x in H for e in x["ev"]})
            return found
        for i, (tr, crash) in enumerate(runs): bad += check(i, tr, crash, True)
        if bad:      # confirm by running everything again
            again = {}
            for i in sorted({b[0] for b in bad}):
                tr, crash = one(i, "b")
                ids = {b[1]["id"] for b in bad if b[0] == i and b[1]}
                for b in check(i, tr, crash, False, only=ids): again[(b[0], b[1]["id"] if b[1] else "crash", b[3])] = b
            unconfirmed = [b for b in bad if (b[0], b[1]["id"] if b[1] else "crash", b[3]) not in again]
            bad = list(again.values())
            if unconfirmed and not bad: raise CheckError("rejections did not repeat: %s" % unconfirmed[:3])
    except CheckError as x:
        print("CHECK-ERROR %s: %s" % (pid, x)); shutil.rmtree(work, ignore_errors=True); sys.exit(2)
    viol = 0; shown = set(); nknown = {}
    for i, H, why, l in bad:
        ev = H["ev"][l - 1] if H else None
        text = (H["id"] + " " + json.dumps(ev, sort_keys=True)) if H else ""
        k = next((k for k in known if match(k, H, ev, why)), None)
        if k: nknown[k["id"]] = nknown.get(k["id"], 0) + 1; continue
        viol += 1
        key = (i, ev["op"] if ev else "crash", why)
        if key in shown or len(shown) >= 12: continue
        shown.add(key)
        rp = os.path.join(rep, "%s-%d.json" % (pid, len(shown)))
        json.dump(dict(property=pid, harness=parts[i]["harness"]["src"], seed=seed, tier=tier, reason=why, event_index=l, event=ev, history=H), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s event %s: %s  %s" % (H["id"] if H else "", l, why[:300], json.dumps(ev)[:500] if ev else ""))
    for k in known:
        if k["id"] in nknown: print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, k["what"], nknown[k["id"]]))
    lvl = cfg["level"]
    cov = dict(evaluations=res["events"], distinct_nontrivial=res.get("distinct", 0),
               rule=cfg["rule"], samples=res["samples"][:6],
               states=sum(m["states"] for m in res["models"]) , transitions=sum(m["transitions"] for m in res["models"]),
               traces_validated_against_impl=res["hist"], models=res["models"], spec_generated_behaviours=res["scripts"],
               events_by_operation=res["ops"], known_finding_cases=nknown)
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=lvl, coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=viol)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d model states, %d behaviours from the specification, %d histories / %d events of the real code validated, %d violations, %.1fs" % (pid, tier, cov["states"], res["scripts"], res["hist"], res["events"], viol, time.time() - t0))
    sys.exit(1 if viol else 0)

def match(k, H, ev, why):
    if H is None: return bool(k.get("crash")) and re.search(k["crash"], why) is not None
    if k.get("op") and ev["op"] != k["op"]: return False
    if k.get("id_re") and not re.fullmatch(k["id_re"], H["id"]): return False
    if k.get("why") and why != k["why"]: return False
    for f, v in k.get("fields", {}).items():
        if ev.get(f) != v: return False
    return True

main()
