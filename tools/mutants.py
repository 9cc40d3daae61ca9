#!/usr/bin/env python3
"""Mutation testing of the checks: applies random small changes to copies of /repo, drops those the repository's own
tests notice, and runs the checks on the rest. Survivors are printed for inspection (many change no behaviour).

  mutants.py MUTANTS.jsonl OUT.jsonl [--n 200] [--seed 1] [--workers 3] [--files REGEX]

MUTANTS.jsonl is the output of tools/mutate run in /repo. Works below /tmp/mut; never touches /repo.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ["C19", "C17", "C18", "C20"]
ENGINE = ["C06", "C08", "C03", "C12", "C09", "C14", "C01", "C02", "C04", "C10", "C11", "C13", "C15", "C16", "C22", "C07", "C05", "C23", "C24", "C21"]
FIRST = [("yamlchar|schema", ["C01", "C02", "C24", "C13", "C06", "C08", "C09"]), ("lexer|token/", ["C03", "C06", "C07", "C24", "C08", "C09"]),
         ("balancecheck", ["C08", "C05"]), ("cpaccessor", ["C04"]), ("engines/.*parser", ["C06", "C08", "C07", "C09", "C05"]),
         ("astcmp|astprint|ast/", ["C22"]), ("decode", ["C12", "C14", "C15", "C16", "C13", "C23"]),
         ("encode", ["C09", "C10", "C11", "C23"]), ("cmd/|bootstrap|generator/parser", ["C20"]),
         ("generator/|engine.go", GEN)]


def order(path):
    first = next((o for r, o in FIRST if re.search(r, path)), [])
    rest = GEN + ["C23"] if re.search(r"^\./(generator|cmd)|engine\.go", path) else ENGINE + (["C17", "C18"] if "encode" in path or "decode" in path else [])
    return first + [p for p in rest if p not in first]


def sh(cmd, cwd, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def worker(i, q, out, lock):
    base = "/tmp/mut/w%d" % i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh("git clone -q /repo %s/repo && mkdir %s/verif && cp -r %s/check.py %s/harness %s/MANIFEST.json %s/known-findings.txt %s/verif/" % (base, base, V, V, V, V, base), "/")
    sh("grep -rl /repo verif/harness verif/check.py | xargs sed -i 's#=> /repo#=> %s/repo#; s#\"/repo#\"%s/repo#'" % (base, base), base)
    env = dict(os.environ)
    env.update(VERIF_SEED="1", VP_SCALE=os.environ.get("VP_SCALE", "100"))
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        path = os.path.join(base, "repo", m["File"])
        src = open(path, "rb").read()
        t = time.time()
        r = dict(m)
        try:
            open(path, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
            rc = 0
            for mod in (".", "engines/yayamls", "engines/goyaml", "cmd/yamlygen"):
                rc, text = sh(". /opt/vp/env.sh && go build ./...", os.path.join(base, "repo", mod))
                if rc:
                    r["result"] = "does not build"
                    break
            if not rc:
                for mod in (".", "engines/yayamls", "engines/goyaml", "test"):
                    rc, text = sh(". /opt/vp/env.sh && timeout 120 go test -vet=off -count=1 -timeout 100s ./...", os.path.join(base, "repo", mod), timeout=200)
                    if rc:
                        r["result"] = "killed by tests"
                        break
                sh("rm -rf %s/repo/test/tmptest*" % base, "/")
            if not rc:
                r["result"] = "SURVIVED"
                for p in order(m["File"]):
                    rc, text = sh("./check.py %s" % p, base + "/verif", env, timeout=900)
                    if rc == 1:
                        r["result"] = "caught by " + p
                        break
                    if rc:
                        r["result"] = "error in " + p + ": " + text[-300:]
                        break
        finally:
            open(path, "wb").write(src)
        r["wall"] = round(time.time() - t, 1)
        with lock:
            out.write(json.dumps(r) + "\n")
            out.flush()
    shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mutants")
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--files", default="")
    a = ap.parse_args()
    ms = [json.loads(l) for l in open(a.mutants)]
    ms = [m for m in ms if re.search(a.files, m["File"])]
    random.Random(a.seed).shuffle(ms)
    q = queue.Queue()
    for m in ms[:a.n]:
        q.put(m)
    lock = threading.Lock()
    with open(a.out, "a") as out:
        ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(a.workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
