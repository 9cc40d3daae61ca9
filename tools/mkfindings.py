#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known-findings.txt from the fix commits of /repo (development tool; not run by checks).
The KNOWN-FINDING lines at the top of the file are kept."""
import re, subprocess, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(V, "tools", "fixprops.json")))
path = os.path.join(V, "known-findings.txt")
keep = [l for l in open(path) if l.startswith("KNOWN-FINDING:")]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "cd68172..HEAD"], capture_output=True, text=True).stdout
lines = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = next((v for k, v in M.items() if k in s), None)
    assert p, s
    lines.append("fixed: property=%s %s before the commit the code did not: %s\n" % (p, h, s))
open(path, "w").writelines(keep + lines)
print(len(lines))
