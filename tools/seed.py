#!/usr/bin/env python3
"""seed.py ID...: makes /verif/seeded/<ID>/ from tools/seeds/<ID>.py (EDITS, PROP, NEEDS, BREAKS, DEMO, [FLAGS], [LIBS]) and confirms it:
applied to /repo it builds, passes the stable tests, and makes its demo fail (which passes on the unchanged tree); then runs the property's quick check.
Applies to /repo and undoes it. --norun-tests to skip the build+test step, --all for every seed."""
import sys, os, json, subprocess, shutil, time
ROOT = "/verif"; REPO = "/repo"
SH = r'''#!/bin/bash
# builds demo.cpp against the tree in the current directory; exit 0 iff the behaviour it demonstrates is right
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++-10 -std=c++17 -O1 -g1 -w -pthread -msse2 -mcx16 -DLIBICONV_PLUG -include cstdlib %s -I"$R/include" "$D/demo.cpp" %s -o "$T/demo" || exit 4
cd "$T" && timeout -k 5 %d ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh("git -C /repo checkout -q -- .")
def one(id, tests=True, check=True):
    ns = dict(FLAGS="", LIBS="", TIMEOUT=60); exec(open("%s/tools/seeds/%s.py" % (ROOT, id)).read(), ns)
    d = "%s/seeded/%s" % (ROOT, id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
    open(d + "/demo.cpp", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write(SH % (ns["FLAGS"], ns["LIBS"], ns["TIMEOUT"])); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    try:
        if "-lbss-util" in ns["LIBS"]: sh("bash /opt/vp/build.sh")
        r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
        for f, old, new in ns["EDITS"]:
            p = REPO + "/" + f; s = open(p, "rb").read(); o = old.encode(); n = new.encode()
            if b"\r\n" in s: o = o.replace(b"\n", b"\r\n"); n = n.replace(b"\n", b"\r\n")
            assert s.count(o) == 1, "%s: %d occurrences of %r" % (id, s.count(o), old)
            open(p, "wb").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", REPO, "diff", "--binary"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        msg = []
        if tests or "-lbss-util" in ns["LIBS"]:
            b = sh("bash /opt/vp/test.sh /tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [t for t in base if t not in o["passed"]]; msg.append("tests " + ("OK" if not bad else "FAIL %s" % bad))
        r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
        msg.append("demo %d->%d" % (r0.returncode, r1.returncode))
        if r0.returncode or not r1.returncode: msg.append("DEMO BAD:\n" + r0.stdout.decode(errors="replace")[:1500] + "\n--\n" + r1.stdout.decode(errors="replace")[:500])
        if check:
            t = time.time(); r2 = sh("python3 run.py %s quick" % ns["PROP"], cwd=ROOT)
            out = r2.stdout.decode(errors="replace").splitlines()
            msg.append("check exit %d (%.0fs) %s" % (r2.returncode, time.time() - t, [l for l in out if "VIOLATION" in l][:1] or out[-3:]))
        print(id, ns["PROP"], "; ".join(msg), flush=True)
    finally:
        clean()
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
if "--all" in sys.argv: ids = sorted(f[:-3] for f in os.listdir(ROOT + "/tools/seeds"))
for i in ids: one(i, "--notests" not in sys.argv, "--nocheck" not in sys.argv)
if "--notests" not in sys.argv: sh("bash /opt/vp/build.sh")
