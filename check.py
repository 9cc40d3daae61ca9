#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py C06 [--tier quick|thorough]     run the check (VERIF_SEED, VERIF_TIER are honoured)
  check.py --replay FILE                   run the minimal failing case recorded in FILE again

Exit 0: the property held on everything generated. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": a counterexample was found. Exit 2: the check itself failed.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
GOROOT = "/opt/veriftools/go1.27.3"
FATAL = re.compile(r"stack overflow|goroutine stack exceeds|concurrent map|all goroutines are asleep|"
                   r"unexpected signal|SIGSEGV|panic: |WARNING: DATA RACE|fatal error: ")
# which package of the harness holds the checks of a property; default props
GEN = {"C17", "C18", "C19", "C20"}
RACE = {"C21"}
# the numbers of cases of the quick tier are multiplied where cases are cheap
QUICK = {"C01": 6, "C02": 6, "C03": 8, "C04": 6, "C06": 3, "C07": 2, "C08": 2, "C10": 2, "C12": 3, "C13": 4, "C14": 3, "C22": 5, "C24": 3}


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("VP_GOCACHE", "/root/.cache/go-build"), GOFLAGS="-mod=readonly", GOPROXY="off",
             GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1")
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def build(prop, work):
    binary = os.path.join(work, "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", binary]
    if prop in RACE:
        cmd.append("-race")
    cmd.append("./props")
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        die("the harness does not build against /repo:\n" + p.stdout + p.stderr)
    return binary


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "exploration"


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line.rstrip("\n"))
    return out


def run_shard(binary, work, prop, tier, seed, shards, shard, extra=(), sub=None):
    d = os.path.join(work, "shard%d" % shard)
    os.makedirs(d, exist_ok=True)
    e = env()
    e.update(VP_PROP=prop, VP_TIER=tier, VP_SEED=str(seed), VP_SHARDS=str(shards), VP_SHARD=str(shard),
             VP_OUT=d, VP_VERIF=VERIF, TMPDIR=d)
    if prop in RACE:
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    else:
        # several shards run side by side
        e["GOMAXPROCS"] = "2"
    if sub:
        e["VP_SUB"] = sub
    log = open(os.path.join(d, "log"), "wb")
    cmd = [binary, "-test.run", "^TestProp$", "-test.timeout", "0", "-test.v", "-rapid.shrinktime=%s" % ("20s" if prop in GEN else "40s")] + list(extra)
    return subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT), d


def read(path, limit=1 << 20):
    try:
        with open(path, "rb") as f:
            return f.read(limit).decode("utf-8", "replace")
    except OSError:
        return ""


def failure_text(log, sub):
    """The part of the log that describes the minimal case."""
    i = log.rfind("[rapid] failed")
    if i < 0:
        i = log.rfind("[rapid] panic")
    return (log[i:] if i >= 0 else log)[:20000]


def report(prop, seed, tier, sub, case, text, failfile, how):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    rec = {"property": prop, "sub": sub, "seed": seed, "tier": tier, "how": how, "case": case, "output": text,
           "rapid_failfile": failfile}
    data = json.dumps(rec, indent=1, ensure_ascii=False)
    name = "%s-%s.json" % (prop, hashlib.sha1((str(sub) + str(case)).encode("utf-8", "replace")).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w", encoding="utf-8", errors="replace") as f:
        f.write(data)
    tail = [l for l in text.splitlines() if l.strip()]
    print("sub-check: %s" % sub)
    print("case: %s" % (case or "")[:3000])
    print("\n".join(l[:1000] for l in tail[:40]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return path


def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        binary = build(rec["property"], work)
        extra = []
        if rec.get("rapid_failfile"):
            ff = os.path.join(work, "replay.fail")
            with open(ff, "w") as f:
                f.write(rec["rapid_failfile"])
            extra = ["-rapid.failfile=" + ff]
        proc, d = run_shard(binary, work, rec["property"], rec["tier"], rec["seed"], 1, 0, extra, rec["sub"])
        proc.wait()
        print(read(os.path.join(d, "log")))
        if proc.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(os.path.abspath(a.replay)))
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.scale:
        os.environ["VP_SCALE"] = str(a.scale)
    elif tier == "quick" and prop in QUICK and "VP_SCALE" not in os.environ:
        os.environ["VP_SCALE"] = str(100 * QUICK[prop])
    start = time.time()
    deadline = start + (780 if tier == "quick" else 6 * 3600)
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    procs = []
    try:
        binary = build(prop, work)
        shards = 6 if prop in GEN else (4 if prop in RACE else max(2, min(8, os.cpu_count() or 8)))
        procs = [run_shard(binary, work, prop, tier, seed, shards, i, (), a.sub) for i in range(shards)]
        rcs = [None] * shards
        bad = None
        while any(r is None for r in rcs):
            for i, (p, d) in enumerate(procs):
                if rcs[i] is None:
                    rcs[i] = p.poll()
                    if rcs[i] not in (None, 0) and bad is None:
                        bad = i
            if bad is not None:
                break  # a counterexample (or an error) was found, the other shards are not needed
            if time.time() > deadline:
                die("the check ran out of time")
            time.sleep(0.05)
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
            p.wait()

        stats = {}
        for _, d in procs:
            for f in glob.glob(os.path.join(d, "stats.*.json")):
                try:
                    recs = json.load(open(f))
                except ValueError:
                    if bad is None:
                        raise
                    continue  # a shard that was stopped while it wrote them
                for s in recs:
                    m = stats.setdefault(s["name"], {"rule": s["rule"], "evaluations": 0, "nontrivial": 0,
                                                     "hashes": set(), "labels": {}, "samples": []})
                    m["evaluations"] += s["evaluations"]
                    m["nontrivial"] += s["nontrivial"]
                    m["hashes"].update(s["hashes"] or ())
                    m["samples"] += s["samples"] or []
                    for k, v in (s["labels"] or {}).items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
        violations = 0
        if bad is not None:
            p, d = procs[bad]
            log = read(os.path.join(d, "log"), 4 << 20)
            failed = glob.glob(os.path.join(d, "failed.*.json"))
            cur = read(os.path.join(d, "current.%d" % bad))
            cursub, _, curcase = cur.partition("\n")
            if os.path.exists(os.path.join(d, "watchdog")):
                w = read(os.path.join(d, "watchdog"))
                report(prop, seed, tier, cursub.split("/")[-1], curcase, w, None, "watchdog")
            elif failed:
                rec = json.load(open(failed[0]))
                ff = glob.glob(os.path.join(d, "testdata", "rapid", "**", "*.fail"), recursive=True)
                report(prop, seed, tier, rec["sub"], rec["case"], failure_text(log, rec["sub"]),
                       read(ff[0]) if ff else None, "rapid")
            elif FATAL.search(log) and "harness:" not in log:
                i = FATAL.search(log).start()
                report(prop, seed, tier, cursub.split("/")[-1], curcase, log[i:i + 6000], None, "crash")
            else:
                print(log[-5000:])
                die("a test process ended with status %s" % p.returncode)
            violations = 1
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": level_of(prop),
            "coverage": {
                "evaluations": sum(s["evaluations"] for s in stats.values()),
                "distinct_nontrivial": sum(len(s["hashes"]) for s in stats.values()),
                "rule": "; ".join("%s: %s" % (k, s["rule"]) for k, s in stats.items()) or "no sub-check completed",
                "samples": [{"sub": k, "case": x} for k, s in stats.items() for x in s["samples"][:2]],
                "subchecks": {k: {"evaluations": s["evaluations"], "nontrivial": s["nontrivial"],
                                  "distinct_nontrivial": len(s["hashes"]), "labels": s["labels"]}
                              for k, s in stats.items()},
            },
            "assumptions": ["a finite sample of the generated input space; absence of violations is not a proof"],
            "wall_s": round(time.time() - start, 2), "violations": violations,
        }
        if not a.sub:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, ensure_ascii=False)
        for k, s in stats.items():
            print("%s/%s: %d cases, %d distinct non-trivial %s" % (
                prop, k, s["evaluations"], len(s["hashes"]), json.dumps(s["labels"], sort_keys=True)))
        for line in known_findings(prop):
            print(line)
        print("%s %s seed=%d %.1fs %s" % (prop, tier, seed, time.time() - start,
                                          "VIOLATED" if violations else "held"))
        sys.exit(1 if violations else 0)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
