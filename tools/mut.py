#!/usr/bin/env python3
"""mut.py ID[,ID] FILE OLD NEW [count] : applies a textual change to a scratch copy of /repo and runs the checks against it"""
import sys, os, shutil, subprocess, tempfile
ids, f, old, new = sys.argv[1:5]; nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut_"); r = d + "/repo"
subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); os.makedirs(r)
for x in ("include", "bss-util"): shutil.copytree("/repo/" + x, r + "/" + x)
p = r + "/" + f; s = open(p, "rb").read(); o = old.encode().decode("unicode_escape").encode(); n = new.encode().decode("unicode_escape").encode()
parts = s.split(o)
if len(parts) < 2: print("NOT FOUND"); sys.exit(2)
print("occurrences", len(parts) - 1)
s = o.join(parts[:nth + 1]) + n + o.join(parts[nth + 1:]); open(p, "wb").write(s)
v = d + "/verif"; shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "build", "seeded", "replay", "evidence"))
for i in ids.split(","):
    x = subprocess.run(["python3", v + "/run.py", i, "quick"], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = x.stdout.decode(errors="replace").splitlines()
    print(i, "exit", x.returncode, "|", " ".join([l for l in t if "config" in l][:1])[:300] if x.returncode != 2 else "\n".join(t[:12]), "|", t[-1] if t else "")
shutil.rmtree(d)
