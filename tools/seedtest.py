#!/usr/bin/env python3
"""Verifies seeded bugs and runs checks against them (development tool, not part of any check).

  seedtest.py verify ID...      patch applies to a copy of /repo, builds, stable tests pass, demo 0 / non-zero
  seedtest.py detect ID... [-- C06 ...]   applies the patch to /repo, runs the check(s) (default: the property's), undoes it
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def verify(i):
    d = os.path.join(S, i)
    patch = os.path.join(d, "patch.diff")
    if sh("git status --porcelain", "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    out = []
    demo = "/tmp/seeddemo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash %s/demo.sh" % demo, "/repo")
    out.append("demo-clean=%d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:])
    try:
        a = sh("git apply %s" % patch, "/repo")
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stderr)
            return
        b = sh("bash /opt/vp/build.sh", "/repo")
        out.append("build=%d" % b.returncode)
        t = sh("bash /opt/vp/test.sh /tmp/seed-out.json", "/repo")
        o = json.load(open("/tmp/seed-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        bad = [x for x in stable if x not in o["passed"]]
        out.append("tests-broken=%d %s" % (len(bad), bad[:3]))
        r = sh("bash %s/demo.sh" % demo, "/repo")
        out.append("demo-patched=%d" % r.returncode)
        out.append((r.stdout + r.stderr)[-300:].strip().replace("\n", " | "))
    finally:
        sh("git checkout -- .", "/repo")
        shutil.rmtree(demo, ignore_errors=True)
    print(i, " ".join(out))

def detect(i, props):
    d = os.path.join(S, i)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    if sh("git status --porcelain", "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    try:
        a = sh("git apply %s/patch.diff" % d, "/repo")
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY")
            return
        for p in props:
            r = sh("./check.py %s --tier quick" % p, V)
            tail = [l for l in r.stdout.splitlines() if l.startswith(("sub-check", "case:", p + " quick"))]
            print(i, p, "CAUGHT" if r.returncode == 1 else "exit %d" % r.returncode, " | ".join(t[:120] for t in tail))
            if r.returncode == 2:
                print(r.stdout[-800:])
            sys.stdout.flush()
    finally:
        sh("git checkout -- .", "/repo")

a = sys.argv[2:]
props = []
if "--" in a:
    k = a.index("--")
    a, props = a[:k], a[k + 1:]
if not a:
    a = sorted(os.listdir(S))
for i in a:
    verify(i) if sys.argv[1] == "verify" else detect(i, props)
