#!/usr/bin/env python3
"""Which planted bugs change at least one line of the original repository (by git blame on /repo HEAD)?"""
import subprocess, os, re, sys
S = "/verif/seeded"
base = subprocess.run(["git","-C","/repo","log","--format=%H","--reverse"],capture_output=True,text=True).stdout.split()[0]
def blame(f, a, n):
    o = subprocess.run(["git","-C","/repo","blame","-l","--root","-L",f"{a},+{n}","HEAD","--",f],capture_output=True,text=True).stdout
    return [l.split()[0].lstrip("^") for l in o.splitlines()]
for d in sorted(os.listdir(S)):
    old = own = 0
    f = None
    for l in open(f"{S}/{d}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
        if m: ln = int(m[1]); continue
        if l.startswith("---") or l.startswith("+++"): continue
        if l.startswith("-"):
            if blame(f, ln, 1) == [base] or blame(f,ln,1)[0] == base[:39]: old += 1
            else: own += 1
            ln += 1
        elif l.startswith(" "): ln += 1
    ok = subprocess.run(["git","-C","/repo","apply","--check",f"{S}/{d}/patch.diff"],capture_output=True).returncode == 0
    print(d, "original lines removed:", old, "own lines removed:", own, "" if ok else "DOES NOT APPLY", "" if old else "<== check")
