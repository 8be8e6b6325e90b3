#!/usr/bin/env python3
"""automut.py ID N FILE... : N single-token mutants spread evenly over FILEs, each in a scratch copy of /repo; prints which ones the quick check of ID catches"""
import sys, os, re, shutil, subprocess, tempfile, random
ID, N, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
SRC = os.environ.get("AM_REPO", "/repo")
rnd = random.Random(int(os.environ.get("SEED", "1")))
OPS = [(r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" ?== ?", " != "), (r" ?!= ?", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" ?\+ ?1\b", ""), (r" ?- ?1\b", ""), (r"\+\+", "--"), (r"--", "++"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::move\(([\w.]+)\)", r"\1"), (r"if\(", "if(1 || "), (r"if\(", "if(0 && "), (r" \+= ", " -= "), (r" \| ", " & "), (r" & ", " | "), ("DEL", "")]
cands = []
for f in files:
    rng = None
    if ":" in f: f, a = f.split(":"); rng = [int(x) for x in a.split("-")]
    ls = open(SRC + "/" + f, encoding="latin1", newline="").read().split("\n")
    cm = False
    for i, l in enumerate(ls):
        s = l.strip()
        if "/*" in s: cm = True
        if cm:
            if "*/" in s: cm = False
            continue
        if rng and not rng[0] <= i + 1 <= rng[1]: continue
        if not s or s.startswith(("//", "#", "assert", "static_assert", "template", "typedef", "using", "case", "throw")): continue
        code = l.split("//")[0]
        for o, n in OPS:
            if o == "DEL":
                if re.match(r"^\s*[\w:>\-.\[\]()*+]+(\s*[-+|&]?=\s.*|\(.*\)|\+\+|--);\s*$", code) and not re.match(r"^\s*(return|break|continue|delete|using|friend|goto)", code) and not re.match(r"^\s*\w[\w:<>]*[ *&]+\w+ = ", code): cands.append((f, i, re.match(r"^\s*", code).group(0) + ";", "DEL"))
            else:
                for m in re.finditer(o, code):
                    if o in (r"\+\+", "--") and "operator" in code: continue
                    cands.append((f, i, code[:m.start()] + m.expand(n) + code[m.end():], o + "->" + n))
rnd.shuffle(cands)
d = tempfile.mkdtemp(prefix="am_"); v = d + "/verif"; shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "build", "seeded", "replay", "evidence"))
for x in ("include", "bss-util"): shutil.copytree(SRC + "/" + x, d + "/repo/" + x)
done = 0; seen = set(); res = {"killed": 0, "survived": 0}
for f, i, new, op in cands:
    if done >= N: break
    if (f, i) in seen: continue
    seen.add((f, i))
    p = d + "/repo/" + f; orig = open(SRC + "/" + f, encoding="latin1", newline="").read(); ls = orig.split("\n"); old = ls[i]; ls[i] = new + ("\r" if old.endswith("\r") else "")
    open(p, "w", encoding="latin1", newline="").write("\n".join(ls))
    try: x = subprocess.run(["python3", v + "/run.py", ID, "quick"], env=dict(os.environ, VERIF_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600); rc = x.returncode
    except subprocess.TimeoutExpired: rc = 99
    open(p, "w", encoding="latin1", newline="").write(orig)
    if rc == 2: continue
    done += 1; res["survived" if rc == 0 else "killed"] += 1
    if rc != 1: print("%s %s rc=%d %s:%d %s | %s => %s" % (ID, "SURVIVED" if rc == 0 else "ODD", rc, f, i + 1, op, old.strip(), new.strip()), flush=True)
print(ID, res, flush=True); shutil.rmtree(d)
