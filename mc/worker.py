"""Worker: executes a shard of a property's cases against the real karta.

  worker.py run PROP TIER SHARD NSHARDS SLOTFILE RESULT STATES
  worker.py describe PROP TIER INDEX
  worker.py replay FILE
"""
import sys, os, json, mmap, struct, time, traceback, array, gc, importlib

SLOT = 24
HERE = os.path.dirname(os.path.abspath(__file__))

class Violation(Exception):
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.key = key

def rss():
    """Resident memory of this process in MB."""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 // 1000000

class Ctx(object):
    """Collects what an exploration covered; given to every case."""
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.transitions = 0     # API calls made on the implementation and checked
        self.traces = 0          # complete histories run on the implementation
        self.evaluations = 0     # individual oracle comparisons
        self.nontrivial = 0
        self.states = set()      # canonical (model) states / inputs visited
        self.outcomes = {}
        self.samples = []
        self.beat = lambda: None
        self._next = 0           # memory is looked at every so many operations
        self._limit = 700        # MB; the collector does not see memory held by numpy arrays

    def state(self, key):
        """Count a canonical state; True when it is new to this worker."""
        h = hash(key)
        n = len(self.states)
        self.states.add(h)
        return len(self.states) != n

    def op(self, n=1):
        self.transitions += n
        if self.transitions >= self._next:
            self._next = self.transitions + 40
            if rss() > self._limit:
                gc.collect()
                gc.collect()
                self._limit = max(700, rss() + 300)

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def fail(self, message, key=None):
        raise Violation(message, key)

    def eq(self, got, want, what):
        self.evaluations += 1
        if got != want:
            raise Violation("%s: got %r, expected %r" % (what, got, want))

    def true(self, cond, what, *args):
        self.evaluations += 1
        if not cond:
            raise Violation(what % args if args else what)

    def close(self, got, want, tol, what):
        self.evaluations += 1
        if not (abs(got - want) <= tol):
            raise Violation("%s: got %r, expected %r (tolerance %g)" % (what, got, want, tol))

    def raises(self, exc, fn, what):
        self.evaluations += 1
        try:
            r = fn()
        except exc:
            return
        raise Violation("%s: returned %r instead of raising %s" % (what, r, exc))

def load(prop):
    sys.path.insert(0, HERE)
    return importlib.import_module("props." + prop.lower())

def jsonable(case):
    return json.loads(json.dumps(case))

def guarded(mod, case, ctx):
    """Run one case; None, or (message, key)."""
    try:
        mod.run(case, ctx)
        return None
    except Violation as e:
        return str(e), e.key
    except Exception as e:
        return "unexpected %s\n%s" % (type(e).__name__, traceback.format_exc()[-2500:]), None

def known_ids(prop):
    with open(os.path.join(os.path.dirname(HERE), "known_findings.json")) as f:
        return {e["id"]: e for e in json.load(f)["findings"]
                if e["property"] == prop and e.get("status") == "open"}

def main():
    cmd = sys.argv[1]
    if cmd == "run":
        prop, tier, shard, nsh, slots, out, states = sys.argv[2:9]
        shard, nsh = int(shard), int(nsh)
        mm = mmap.mmap(os.open(slots, os.O_RDWR), 0)
        mod = load(prop)
        ctx = Ctx(prop, tier)
        known = known_ids(prop)
        violations, seen_known = [], {}
        cur = [-1]
        ctx.beat = lambda: struct.pack_into("<qqd", mm, shard * SLOT, cur[0], ctx.transitions, time.time())
        n = 0
        for idx, case in enumerate(mod.cases(tier)):
            if idx % nsh != shard:
                continue
            cur[0] = idx
            ctx.beat()
            case = jsonable(case)
            if len(ctx.samples) < 2:
                ctx.samples.append(case)
            before = ctx.transitions
            res = guarded(mod, case, ctx)
            if ctx.transitions > before:
                ctx.nontrivial += 1
            if res is not None:
                msg, key = res
                if key is not None and key in known:
                    seen_known[key] = seen_known.get(key, 0) + 1
                else:
                    violations.append({"index": idx, "case": case, "message": msg, "kind": "violation",
                                       "key": key})
                    break
            n += 1
            if n % 500 == 0:
                gc.collect()
        doc = mod.__doc__ or ""
        with open(states, "wb") as f:
            array.array("q", sorted(ctx.states)).tofile(f)
        res = {"transitions": ctx.transitions, "traces": ctx.traces, "evaluations": ctx.evaluations,
               "nontrivial": ctx.nontrivial, "outcomes": ctx.outcomes, "samples": ctx.samples,
               "violations": violations, "known": seen_known, "rule": mod.RULE,
               "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               "assumptions": mod.ASSUMPTIONS}
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(out + ".tmp", out)
        sys.stdout.flush()
        os._exit(0)
    elif cmd == "describe":
        prop, tier, want = sys.argv[2], sys.argv[3], int(sys.argv[4])
        mod = load(prop)
        for idx, case in enumerate(mod.cases(tier)):
            if idx == want:
                print(json.dumps({"index": idx, "case": case}))
                return
    elif cmd == "replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        mod = load(v["property"])
        ctx = Ctx(v["property"], v.get("tier", "quick"))
        res = guarded(mod, v["case"], ctx)
        if res is None:
            print("the property held on this case")
        else:
            print("case: %s" % json.dumps(v["case"]))
            print(res[0])
            sys.exit(1)

if __name__ == "__main__":
    main()
