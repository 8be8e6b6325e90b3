#!/usr/bin/env python3
"""found.py PROP [N] : records the last N fix commits of /repo (default: all not yet recorded) as fixed findings of PROP"""
import sys, json, subprocess
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
p = "/verif/known_findings.jsonl"; have = open(p).read()
with open(p, "a") as f:
    for h, s in reversed(log):
        if s.startswith("fix: ") and h not in have:
            print(h, s); f.write(json.dumps({"property": sys.argv[1], "status": "fixed", "what": "fixed: property=%s %s %s" % (sys.argv[1], h, s[5:])}) + "\n")
