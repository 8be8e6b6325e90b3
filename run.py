#!/usr/bin/env python3
"""python3 run.py <ID> quick|thorough   builds the property's harness from /repo and explores it
   python3 run.py setup                 checks that the tools are there and compiles the frameworks once
   python3 run.py replay <replay-file>  re-executes a recorded counterexample without the explorer"""
import sys, os, re, json, subprocess, time, glob, hashlib, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
CXX, CC = "g++-10", "gcc-10"
COMMON = ["-I" + REPO + "/include", "-I" + ROOT + "/lib", "-msse2", "-mcx16", "-pthread", "-DLIBICONV_PLUG", "-DBSS_MODEL_CHECK", "-w", "-g1", "-U_FORTIFY_SOURCE",
          "-fno-omit-frame-pointer", "-include", ROOT + "/lib/pre.h"]
CXXSTD = ["-std=c++17"]
MODES = {  # how a harness is compiled and linked
    "seq":   dict(c=["-O1", "-fsanitize=address"], l=["-fsanitize=address"], rt=["mc.cpp"]),
    "sched": dict(c=["-O1", "-fsanitize=thread", "-fno-inline-small-functions"], l=[], rt=["mcs.cpp"], rtflags=["-O2"]),
}
def variants(id):  # what a check builds and runs: with the library's own assertions, as a release build, and further harnesses of its own kind
    out = [(id, False, "")]
    if "release" in header(id): out.append((id, True, " [release build]"))
    return out + [(w[5:], False, " [%s]" % w[5:]) for w in header(id) if w.startswith("also=")]
def header(id):
    txt = open(os.path.join(ROOT, "harness", id + ".cpp")).read()
    m = re.search(r"^// BUILD: (.*)$", txt, re.M)
    words = m.group(1).split() if m else ["seq"]
    return words
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def compile_one(job):
    src, obj, flags = job
    cc = CC if src.endswith(".c") else CXX
    fl = flags if src.endswith(".c") else CXXSTD + flags
    r = sh([cc] + fl + ["-c", src, "-o", obj])
    return src, r.returncode, r.stdout.decode(errors="replace")
def build(id, release=False):
    words = header(id); mode = dict(MODES[words[0]])
    if release: mode["c"] = mode["c"] + ["-DNDEBUG"]
    extra = [w for w in words[1:] if w.startswith("-")]
    libs = [w[4:] for w in words[1:] if w.startswith("lib=")]
    bdir = os.path.join(ROOT, "build", id + ("-release" if release else "")); shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    jobs = []
    for s in sorted(glob.glob(os.path.join(ROOT, "harness", id + ".cpp")) + glob.glob(os.path.join(ROOT, "harness", id + "_*.cpp"))):
        w2 = []
        m = re.search(r"^// BUILD: (.*)$", open(s).read(), re.M)
        if m: w2 = [w for w in m.group(1).split()[1:] if w.startswith("-")]
        jobs.append((s, os.path.join(bdir, os.path.basename(s) + ".o"), COMMON + mode["c"] + w2))
    for r in mode["rt"]:
        jobs.append((os.path.join(ROOT, "lib", r), os.path.join(bdir, r + ".o"), COMMON + mode.get("rtflags", mode["c"])))
    link = []
    for l in libs:
        for f in l.split(","):
            src = os.path.join(REPO, "bss-util", f)
            jobs.append((src, os.path.join(bdir, f + ".o"), COMMON + ["-DBSS_UTIL_EXPORTS", "-fPIC"] + mode["c"]))
            if f == "bss_util.cpp": link.append("-l:libfontconfig.so.1")
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, out in ex.map(compile_one, jobs):
            if rc: print("\n".join([l[:400] for l in out.splitlines() if "error" in l][:15])); print(out[:1500]); print("error: %s does not compile" % src); sys.exit(2)
    exe = os.path.join(bdir, id)
    r = sh([CXX] + [j[1] for j in jobs] + mode["l"] + ["-no-pie"] * 0 + extra_link(words) + ["-pthread", "-lrt", "-ldl"] + link + ["-o", exe])
    if r.returncode: print(r.stdout.decode(errors="replace")[-6000:]); print("error: link failed"); sys.exit(2)
    return exe
def extra_link(words): return [w[5:] for w in words if w.startswith("link=")]
def known(id):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == id and k.get("status") == "known": out.append(k)
    return out
def props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))}
def manifest(id):
    for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
        if c["property"] == id: return c
    return {}
def check(id, tier):
    t0 = time.time(); tb = 0; cfgs = []; viol = []
    for unit, release, suffix in variants(id):
        t1 = time.time(); exe = build(unit, release); tb += time.time() - t1
        out = os.path.join(os.path.dirname(exe), "out.json")
        args = [exe, "--out", out] + (["--thorough"] if tier == "thorough" else [])
        r = subprocess.run(args)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("error: harness exited with %d" % r.returncode); sys.exit(2)
        res = json.load(open(out))
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
        for c in res["configs"] + res["violations"]: c["config"] += suffix
        cfgs += res["configs"]; viol += res["violations"]
        if viol: break
    ev = dict(property=id, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=manifest(id).get("level", "model_checking"),
        coverage=dict(states=sum(c["states"] for c in cfgs), transitions=sum(c["transitions"] for c in cfgs),
            traces_validated_against_impl=sum(c["execs"] for c in cfgs),
            distinct_outcomes=sum(c["outcomes"] for c in cfgs),
            exhaustive=bool(cfgs) and not any(c["capped"] for c in cfgs) and not viol,
            explanation="The transition function of the explored system is the real code of /repo: every execution counted here ran the implementation next to the reference model, so each explored trace is validated against it. 'closed' = the whole reachable space within the alphabet was covered; otherwise the depth/preemption bound in 'configs' was completed.",
            samples=[dict(config=c["config"], case=s) for c in cfgs for s in c["samples"]][:12],
            configs=[{k: c[k] for k in ("config", "states", "transitions", "execs", "outcomes", "depth", "closed", "capped", "wall", "note")} for c in cfgs]),
        assumptions=[manifest(id).get("level_note", "")], wall_s=round(time.time() - t0, 2), violations=len(viol), build_s=round(tb, 2))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    kf = {k["signature"]: k for k in known(id)}
    seen = set()
    rc = 0
    for c in cfgs:
        for k in c["known"]:
            if k in kf: seen.add(k)
            else: viol.append(dict(config=c["config"], history=[], what="unlisted finding: " + k, trace=k))
    ev["violations"] = len(viol)
    with open(os.path.join(ROOT, "evidence", id + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(seen): print("KNOWN-FINDING: property=%s %s" % (id, kf[k]["what"]))
    for i, v in enumerate(viol):
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        p = os.path.join(ROOT, "replay", "%s-%d.json" % (id, i))
        json.dump(dict(property=id, **v), open(p, "w"), indent=1)
        print("%s: config %s: %s" % (id, v["config"], v["what"]))
        print("  history: %s" % (v["history"],))
        for line in v["trace"].splitlines()[:25]: print("  | " + line)
        print("VIOLATION property=%s replay=%s" % (id, p)); rc = 1
    for c in cfgs:
        print("%-28s states=%d transitions=%d executions=%d outcomes=%d depth=%d %s %.1fs %s" % (c["config"], c["states"], c["transitions"], c["execs"], c["outcomes"], c["depth"],
            "closed" if c["closed"] else "bounded", c["wall"], c["note"]))
    print("%s %s: %s (build %.1fs, total %.1fs)" % (id, tier, "VIOLATED" if rc else "held", tb, time.time() - t0))
    sys.exit(rc)
def replay(path):
    v = json.load(open(path)); cfg = v["config"]
    unit, release, suffix = [x for x in variants(v["property"]) if cfg.endswith(x[2])][-1]
    exe = build(unit, release)
    sys.exit(subprocess.run([exe, "--only", cfg[:len(cfg) - len(suffix)], "--replay", ",".join(map(str, v["history"]))]).returncode)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "setup":
        for t in (CXX, CC):
            if not shutil.which(t): print("missing " + t); sys.exit(1)
        print("ok"); sys.exit(0)
    if a[0] == "replay": replay(a[1])
    check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
