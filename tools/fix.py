#!/usr/bin/env python3
"""fix.py FILE <<< 'OLD\n====\nNEW' : replaces one occurrence in /repo/FILE, keeping line endings and encoding"""
import sys
p = "/repo/" + sys.argv[1]; s = open(p, "rb").read(); t = sys.stdin.buffer.read()
old, new = t.split(b"\n====\n"); new = new.rstrip(b"\n")
if b"\r\n" in s: old = old.replace(b"\n", b"\r\n"); new = new.replace(b"\n", b"\r\n")
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
if s.count(old) != n: print("OCCURRENCES", s.count(old)); sys.exit(1)
open(p, "wb").write(s.replace(old, new))
