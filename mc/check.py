#!/usr/bin/python3
"""Driver: rebuild karta from /repo, then explore one property's bounded space.

usage: check.py PROPERTY [--tier quick|thorough] [--jobs N]

The space is split over worker processes (mc/worker.py, run by karta's own
interpreter).  Every worker enumerates the same deterministic list of cases and
executes those whose index is congruent to its shard number; together they
cover the list completely.  Exit 0: the property held on every case.  Exit 1
plus a VIOLATION line: it did not (a wrong answer, an unexpected exception, a
crash of the interpreter or a case that never ends).
"""
import argparse, fcntl, json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYPY = "/opt/venv-pypy/bin/python"
CASE_LIMIT_S = 240        # one case takes at most a few seconds on the unchanged tree
RUN_LIMIT_S = {"quick": 820, "thorough": 6 * 3600}
SLOT = 24                 # per worker: case index, checks done, wall-clock stamp

def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("PYTHON", "GDAL_", "OGR_", "PROJ_")):
            del e[k]
    e.update(PYTHONPATH="/repo:" + HERE, PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", PROJ_NETWORK="OFF", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", BLOSC_NTHREADS="1",
             # fresh heap memory is filled with a visible, non-zero pattern so that
             # a result read from memory nobody wrote is not mistaken for a zero
             MALLOC_PERTURB_="85", LC_ALL="C.UTF-8")
    return e

def build():
    with open("/tmp/karta-mc-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-4000:])
        print("ERROR: /repo does not build")
        sys.exit(2)

def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        for e in json.load(f)["findings"]:
            if e["property"] == prop:
                out.append(e)
    return out

def describe(prop, tier, idx):
    try:
        p = subprocess.run([PYPY, "-W", "ignore", os.path.join(HERE, "worker.py"), "describe", prop,
                            tier, str(idx)], env=env(), stdout=subprocess.PIPE,
                           universal_newlines=True, timeout=300)
        return json.loads(p.stdout.splitlines()[-1])
    except Exception as e:
        return {"index": idx, "note": "case could not be regenerated: %r" % (e,)}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    if not a.no_build:
        build()
    tbuild = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="karta-mc-")
    try:
        rc = explore(a, tier, seed, scratch, t0, tbuild)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def explore(a, tier, seed, scratch, t0, tbuild):
    known = known_findings(a.prop)
    slots = os.path.join(scratch, "slots")
    with open(slots, "wb") as f:
        f.write(b"\0" * (SLOT * a.jobs))
    mm = mmap.mmap(os.open(slots, os.O_RDWR), SLOT * a.jobs)
    for k in range(a.jobs):
        struct.pack_into("<qqd", mm, k * SLOT, -1, 0, time.time())

    procs = []
    for k in range(a.jobs):
        wd = os.path.join(scratch, "w%d" % k)
        os.mkdir(wd)
        log = open(os.path.join(scratch, "w%d.log" % k), "w")
        e = env()
        e["TMPDIR"] = wd
        p = subprocess.Popen(
            [PYPY, "-W", "ignore", os.path.join(HERE, "worker.py"), "run", a.prop, tier,
             str(k), str(a.jobs), slots, os.path.join(scratch, "w%d.json" % k),
             os.path.join(scratch, "w%d.states" % k)],
            cwd=wd, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append(p)

    results = [None] * a.jobs
    violations = []      # dicts: case, message, kind
    capped = False
    pending = set(range(a.jobs))
    def kill(k):
        try:
            os.killpg(procs[k].pid, signal.SIGKILL)
        except OSError:
            pass
        procs[k].wait()
    while pending:
        time.sleep(0.05)
        for k in sorted(pending):
            rc = procs[k].poll()
            idx, done, stamp = struct.unpack_from("<qqd", mm, k * SLOT)
            if rc is not None:
                pending.discard(k)
                try:
                    with open(os.path.join(scratch, "w%d.json" % k)) as f:
                        results[k] = json.load(f)
                except (OSError, ValueError):
                    results[k] = None
                if results[k] is None:
                    with open(os.path.join(scratch, "w%d.log" % k), errors="replace") as f:
                        tail = f.read()[-3000:]
                    if idx < 0:
                        sys.stdout.write(tail)
                        print("ERROR: worker %d failed before its first case (rc=%s)" % (k, rc))
                        for j in list(pending):
                            kill(j)
                        return 2
                    violations.append(dict(describe(a.prop, tier, idx), kind="crash",
                                           message="interpreter died (status %s): %s" % (rc, tail[-600:])))
                else:
                    violations.extend(results[k]["violations"])
            elif idx >= 0 and time.time() - stamp > CASE_LIMIT_S:
                kill(k)
                pending.discard(k)
                violations.append(dict(describe(a.prop, tier, idx), kind="hang",
                                       message="case did not end within %d s" % CASE_LIMIT_S))
        if violations and pending:
            # one counterexample decides; give the others a moment, then stop them
            t1 = time.time()
            while time.time() - t1 < 2 and any(procs[k].poll() is None for k in pending):
                time.sleep(0.05)
            for k in list(pending):
                if procs[k].poll() is None:
                    kill(k)
                    pending.discard(k)
        if pending and time.time() - t0 > RUN_LIMIT_S[tier]:
            capped = True
            for k in list(pending):
                kill(k)
                pending.discard(k)

    cov, states = merge(results, scratch, a.jobs)
    ended = all(r is not None for r in results)
    violations.sort(key=lambda v: v.get("index", 1 << 60))
    wall = time.time() - t0
    seen_known = {}
    for r in results:
        if r:
            for fid, n in r["known"].items():
                seen_known[fid] = seen_known.get(fid, 0) + n
    for e in known:
        if e.get("status") == "open" and e["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s (%d explored cases)" % (a.prop, e["what"], seen_known[e["id"]]))

    replay = None
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s.json" % a.prop)
        v = violations[0]
        v["property"] = a.prop
        v["tier"] = tier
        v["how"] = "bash /verif/mc/replay.sh " + replay
        v["others"] = [{"case": o.get("case"), "message": o.get("message", "")[:400]} for o in violations[1:6]]
        with open(replay, "w") as f:
            json.dump(v, f, indent=1)

    coverage = {
        "states": states,
        "transitions": cov["transitions"],
        "traces_validated_against_impl": cov["traces"],
        "evaluations": cov["evaluations"],
        "distinct_nontrivial": cov["nontrivial"],
        "rule": cov["rule"],
        "bounds": cov["bounds"],
        "outcomes": cov["outcomes"],
        "samples": cov["samples"],
        "exhaustive": bool(ended and not capped and not violations),
        "known_findings_seen": seen_known,
        "build_s": round(tbuild, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump({"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": coverage,
                   "assumptions": cov["assumptions"],
                   "wall_s": round(wall, 2), "violations": len(violations)}, f, indent=1)
    print("%s [%s] states=%d transitions=%d traces=%d evaluations=%d outcomes=%d wall=%.1fs%s" % (
        a.prop, tier, states, cov["transitions"], cov["traces"], cov["evaluations"],
        len(cov["outcomes"]), wall, " CAPPED" if capped else ""))
    if violations:
        v = violations[0]
        print("counterexample: %s" % json.dumps(v.get("case"))[:1500])
        print("  " + v["message"][:2500].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (a.prop, replay))
        return 1
    if capped:
        print("time cap reached: the space above was explored without a violation, the rest was not")
    elif not ended:
        print("ERROR: a worker gave no result")
        return 2
    elif cov["traces"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0

def merge(results, scratch, jobs):
    cov = {"transitions": 0, "traces": 0, "evaluations": 0, "nontrivial": 0, "outcomes": {},
           "samples": [], "rule": "", "bounds": "", "assumptions": []}
    union = set()
    for k in range(jobs):
        r = results[k]
        if not r:
            continue
        for f in ("transitions", "traces", "evaluations", "nontrivial"):
            cov[f] += r[f]
        for o, n in r["outcomes"].items():
            cov["outcomes"][o] = cov["outcomes"].get(o, 0) + n
        for s in r["samples"][:2]:
            if len(cov["samples"]) < 6:
                cov["samples"].append(s)
        for f in ("rule", "bounds", "assumptions"):
            cov[f] = r[f]
        try:
            import array
            arr = array.array("q")
            with open(os.path.join(scratch, "w%d.states" % k), "rb") as f:
                arr.frombytes(f.read())
            union.update(arr)
        except OSError:
            pass
    return cov, len(union)

if __name__ == "__main__":
    main()
