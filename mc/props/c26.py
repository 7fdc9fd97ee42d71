"""The spatial indexes stay inside their memory and give all of it back."""
import ctypes, gc, itertools, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def under_guard():
    """Run this process again with the guarding allocator (mc/guard.c) in front of the C library's."""
    lib = ctypes.CDLL(None)
    if hasattr(lib, "guard_module"):
        so = os.environ.pop("LD_PRELOAD")
        if os.path.exists(so):
            os.unlink(so)
            os.rmdir(os.path.dirname(so))
        return lib
    so = os.path.join(tempfile.mkdtemp(prefix="karta-guard-"), "guard.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", "-o", so, os.path.join(HERE, "guard.c"), "-ldl"], check=True)
    os.environ["LD_PRELOAD"] = so
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

LIB = under_guard()
from karta.vector.geometry import Multipoint, Multiline, Multipolygon
from karta.vector.quadtree import QuadTree
from karta.vector.rtree import RTree
with open("/proc/self/maps") as f:
    for line in f:
        w = line.split()
        if "x" in w[1] and "/karta/" in w[-1] and w[-1].endswith(".so"):
            LIB.guard_module(*[ctypes.c_void_p(int(v, 16)) for v in w[0].split("-")])
LIVE = ctypes.c_long.in_dll(LIB, "guard_live")
TOTAL = ctypes.c_long.in_dll(LIB, "guard_total")

# the first error in a module makes a table of places for tracebacks, which stays
for _fn in (lambda: RTree([None]), lambda: QuadTree(None)):
    try:
        _fn()
    except Exception:
        pass

RULE = ("a case is a batch of histories (build an index, search it, drop it) on the compiled indexes, under an allocator that ends the process at any "
        "access outside of a block or after its release; after every search and after every batch the blocks in use are counted; non-trivial = an index searched")
BOUNDS = {"quick": "quadtrees: all sequences of up to 5 positions of 5 and of 3 of 9, from 6 lattices (plain, lines, neighbouring numbers, huge, infinite), capacities 1..4, "
                   "and all words of up to 3 of 5 positions repeated to 9..40; R-trees: all sequences of 5 of 7 boxes and of 6 of 4, all words of up to 3 of 7 boxes "
                   "moved along 4 directions to 9..60 items, 4..6 children; every fault of an item or a box at every place of up to 12; histories of 5 operations on two "
                   "indexes; multipart geometries of 0..130 parts",
          "thorough": "sequences of up to 7 of 5 and 4 of 9 positions, of 6 of 7 boxes and 8 of 4, words of up to 4, histories of 7 operations, geometries of 0..420 parts"}
ASSUMPTIONS = ["memory of an index is released when the index is collected; the collector is run explicitly",
               "an access that stays inside of another live block of the index is not seen as such, only by its effect on the results",
               "sizes of nodes are small enough for memory to be available"]

E = 2.0**-52
INF = float("inf")
LATTICES = [
    [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 0.5), (0.25, 0.75), (0.125, 0.0), (1.0, 0.625), (0.5, 0.0)],
    [(0.0, 0.0), (0.0, 1.0), (0.0, 0.5), (0.0, 0.25), (0.0, 0.125), (0.0, 2.0), (0.0, -1.0), (0.0, 4.0), (0.0, 3.0)],
    [(1.0, 1.0), (1.0+E, 1.0), (1.0, 1.0+E), (1.0+E, 1.0+E), (1.0+2*E, 1.0), (1.0, 1.0+2*E), (1.0+2*E, 1.0+E), (1.0+E, 1.0+2*E), (1.0+2*E, 1.0+2*E)],
    [(-1e308, -1e308), (1e308, 1e308), (0.0, 0.0), (1e308, -1e308), (-1e300, 1e300), (3e301, 0.0), (1e308, 0.0), (0.0, 1e308), (3e307, 1.0)],
    [(0.0, 0.0), (INF, 0.0), (0.0, INF), (-INF, 1.0), (INF, INF), (1.0, -INF), (1.0, 1.0), (-INF, -INF), (2.0, 0.0)],
    [(0, 0), (3, 1), (3, 2), (-7, 1), (100, -50), (3, 3), (0, 1), (50, 50), (-7, -7)],
]
BOXES = [(0.0, 0.0, 1.0, 1.0), (0.0, 0.0, 0.0, 0.0), (0.5, 0.5, 2.0, 0.5), (0.25, -1.0, 0.25, 3.0),
         (0.0, 0.0, 1.0, 1.0), (-2.0, -2.0, 3.0, 3.0), (5.0, 5.0, 6.0, 5.5)]
MOVES = [(1.0, 0.0), (0.0, 0.7), (-1.5, 1.5), (0.0, 0.0)]
WHOLE = (-1e30, -1e30, 1e30, 1e30)

class Item(object):
    def __init__(self, box):
        self.box = box
    def bbox(self):
        return self.box

class Fault(Exception):
    pass

class Raises(object):
    def bbox(self):
        raise Fault()

class Points(object):
    """Positions (or things that are none) as an index takes them."""
    def __init__(self, pts, bb):
        self.pts, self.bb = pts, bb
    def bbox(self):
        if isinstance(self.bb, Exception):
            raise self.bb
        return self.bb
    def __len__(self):
        return len(self.pts)
    def __iter__(self):
        return (self[i] for i in range(len(self.pts)))
    def __getitem__(self, i):
        p = self.pts[i]
        if isinstance(p, Exception):
            raise p
        return p

def box_of(pts):
    x, y = [p[0] for p in pts], [p[1] for p in pts]
    return (min(x), min(y), max(x), max(y))

def cases(tier):
    t = tier == "thorough"
    for lat in range(len(LATTICES)):
        for cap in (1, 2, 3, 4) if lat == 2 else (2, 3, 4):
            for first in range(5):
                yield ["qt-seq", lat, cap, 5, 7 if t and cap < 3 else 6 if t else 5, first]
            for first in range(9):
                yield ["qt-seq", lat, cap, 9, 4 if t else 3, first]
            if cap in ((2, 3, 4) if t else (2, 4)):
                yield ["qt-word", lat, cap, 4 if t else 3]
    for first in itertools.product(range(7), repeat=2 if t else 1):
        yield ["rt-seq", 7, 6 if t else 5, list(first)]
    for first in itertools.product(range(4), repeat=2):
        yield ["rt-seq", 4, 8 if t else 6, list(first)]
    for m in (4, 5, 6):
        for mv in range(len(MOVES)):
            for L in range(1, (4 if t else 3)+1):
                for first in range(7):
                    yield ["rt-word", m, mv, L, first]
    for n in range(0, 13):
        yield ["qt-fault", n]
        yield ["rt-fault", n]
    for first in range(8):
        yield ["history", first, 7 if t else 5]
    for n in range(0, 421 if t else 131, 1):
        yield ["geometry", n]

class Batch(object):
    """Builds indexes and keeps account of the blocks they use."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.collect()
        self.base = LIVE.value
        self.kept = []
    def collect(self):
        for _ in range(3):
            gc.collect()
    def keep(self, obj):
        self.kept.append(obj)
    def room(self):
        """Drop what was kept when it is much; called while no index is in a variable."""
        if LIVE.value - self.base > 10000:
            self.settle()
    def search(self, fn, what):
        before = LIVE.value
        out = fn()
        self.ctx.true(LIVE.value == before, "%d blocks are still in use after %s", LIVE.value-before, what)
        self.ctx.op()
        return out
    def settle(self):
        self.kept = []
        self.collect()
        self.ctx.true(LIVE.value == self.base, "%d blocks are still in use after all indexes were dropped", LIVE.value-self.base)
        self.ctx.beat()

def all_indices(ctx, out, n, what):
    ctx.true(sorted(out) == list(range(n)), "%s finds %r of %d items", what, sorted(out), n)

def some_indices(ctx, out, n, what):
    ctx.true(len(set(out)) == len(out) and all(0 <= v < n for v in out), "%s finds %r of %d items", what, out, n)

def quad(b, pts, cap):
    ctx = b.ctx
    q = QuadTree(Points(pts, box_of(pts)), cap)
    finite = all(abs(v) < INF for p in pts for v in p)
    if finite:
        all_indices(ctx, b.search(lambda: q.search_within(-INF, -INF, INF, INF), "a search"), len(pts), "a search of %r (capacity %d)" % (pts, cap))
    for p in (pts[0], pts[-1]):
        some_indices(ctx, b.search(lambda: q.search_within(p[0]-1, -INF, INF, p[1]+1), "a search"), len(pts), "a search of %r (capacity %d)" % (pts, cap))
    q.bbox
    b.keep(q)
    ctx.evaluations += 1

def run_qt_seq(case, ctx):
    _, lat, cap, k, n, first = case
    P = LATTICES[lat][:k]
    b = Batch(ctx)
    for m in range(0, n):
        for rest in itertools.product(range(k), repeat=m):
            b.room()
            quad(b, [P[first]] + [P[i] for i in rest], cap)
            ctx.state((lat, cap, k, first, rest))
    b.settle()

def run_qt_word(case, ctx):
    _, lat, cap, L = case
    P = LATTICES[lat][:5]
    b = Batch(ctx)
    for m in range(1, L+1):
        for word in itertools.product(range(5), repeat=m):
            for n in (9, 17, 40) if lat != 2 else (9, 14):
                b.room()
                # each repetition in another place, and every third back in the first
                pts = [(P[word[i % m]][0] + (i//m % 3)*0.25, P[word[i % m]][1] - (i//m % 5)) for i in range(n)]
                quad(b, pts, cap)
                ctx.state((lat, cap, word, n))
    b.settle()

def boxes_tree(b, boxes, m):
    ctx = b.ctx
    r = RTree([Item(x) for x in boxes], maxchildren=m)
    what = "a search of %r" % (boxes,)
    all_indices(ctx, b.search(lambda: r.search_overlapping(WHOLE), "a search"), len(boxes), what)
    x = boxes[-1]
    out = b.search(lambda: r.search_within(x), "a search")
    some_indices(ctx, out, len(boxes), what)
    ctx.true(len(boxes)-1 in out, "a box does not find itself in %r", boxes)
    some_indices(ctx, b.search(lambda: r.search_overlapping(boxes[0], 2), "a search"), len(boxes), what)
    b.search(lambda: r.search_overlapping((50.0, 50.0, 51.0, 51.0)), "a search")
    b.keep(r)

def run_rt_seq(case, ctx):
    _, k, n, first = case
    b = Batch(ctx)
    pre = [BOXES[i] for i in first]
    for m in range(0, n-len(first)+1):
        for rest in itertools.product(range(k), repeat=m):
            b.room()
            boxes_tree(b, pre + [BOXES[i] for i in rest], 4)
            ctx.state((tuple(first), k, rest))
    b.settle()

def run_rt_word(case, ctx):
    _, m, mv, L, first = case
    dx, dy = MOVES[mv]
    b = Batch(ctx)
    for rest in itertools.product(range(7), repeat=L-1):
        w = (first,) + rest
        for n in (9, 14, 23, 60):
            b.room()
            boxes = []
            for i in range(n):
                x = BOXES[w[i % L]]
                s = i // L
                boxes.append((x[0]+s*dx, x[1]+s*dy, x[2]+s*dx, x[3]+s*dy))
            boxes_tree(b, boxes, m)
            ctx.state((m, mv, w, n))
    b.settle()

def attempt(b, fn):
    try:
        b.kept.append(fn())
        b.ctx.outcome("accepted")
    except Exception as e:
        b.ctx.outcome(type(e).__name__)
    b.ctx.op()

NAN = float("nan")

def run_qt_fault(case, ctx):
    n = case[1]
    good = [(i % 4, i // 4) for i in range(n)]
    b = Batch(ctx)
    for cap in (2, 4, 50):
        for k in range(n):
            for bad in ((NAN, 0.0), (0.0, NAN), (1.0,), (), None, ("a", 1.0), (1.0, None), Fault(), IndexError(), 7, (1.0, 2.0, 3.0)):
                attempt(b, lambda: QuadTree(Points(good[:k] + [bad] + good[k+1:], (0.0, 0.0, 3.0, 3.0)), cap))
                ctx.state((n, cap, k, str(bad)))
        for bb in ((), (1.0,), (0.0, 0.0, 3.0), None, ("a", 0, 1, 1), Fault(), [0, 0, 3, 3], (0, 0, 0, 3, 3, 3), (0, 0, 0, 3, 3), (NAN, NAN, NAN, NAN), (2, 2, 3, 3), (3, 3, 0, 0)):
            attempt(b, lambda: QuadTree(Points(good, bb), cap))
            ctx.state((n, cap, str(bb)))
        attempt(b, lambda: QuadTree(Points(good, None)))
    for cap in (0, -1, -2, -5, None, "a", 2.5, -2**31, 2**40):
        attempt(b, lambda: QuadTree(Points(good, (0.0, 0.0, 3.0, 3.0)), cap))
    if n:
        q = QuadTree(Points(good, (0.0, 0.0, 3.0, 3.0)), 2)
        for args in ((), (1,), ("a", 0, 1, 1), (0, 0, 1, None), (NAN,)*4, (3, 3, 0, 0), (0, 0, 1, 1, 1)):
            b.search(lambda: attempt(b, lambda: q.search_within(*args)), "a search of %r" % (args,))
        q = None
    b.settle()
    ctx.trace()

def run_rt_fault(case, ctx):
    n = case[1]
    good = [Item((i, i % 3, i+1.5, i % 3+1)) for i in range(n)]
    b = Batch(ctx)
    for m in (4, 5, 50):
        for k in range(n):
            for bad in (Raises(), None, 5, Item(()), Item((1.0,)), Item(None), Item(("a", 0, 1, 1)), Item((0, 0, 1, None)), Item((0.0, 0.0, 1.0)), Item((NAN,)*4),
                        Item((-INF, -INF, INF, INF)), Item((3, 3, 0, 0)), Item((1e300, 1e300, 1e301, 1e301)), Item((0, 0, 0, 1, 1, 1))):
                attempt(b, lambda: RTree(good[:k] + [bad] + good[k+1:], m))
                ctx.state((n, m, k, str(getattr(bad, "box", bad.__class__))))
    for m in (3, 2, 0, -1, -50, -2**31, 2**40, None, "a", 4.5):
        attempt(b, lambda: RTree(good, m))
    attempt(b, lambda: RTree(tuple(good)))
    attempt(b, lambda: RTree(None))
    r = RTree(good, 4)
    for box in ((), (1,), None, ("a", 0, 1, 1), (0, 0, 1, None), (NAN,)*4, (3, 3, 0, 0), 7, (0, 0, 1, 1, 1)):
        for fn in (r.search_within, r.search_overlapping):
            b.search(lambda: attempt(b, lambda: fn(box)), "a search of %r" % (box,))
    for mx in (-1, 0, 1, 3, 1000):
        some_indices(ctx, b.search(lambda: r.search_overlapping(WHOLE, mx), "a search"), n, "a search")
    r = fn = None
    b.settle()
    ctx.trace()

def run_history(case, ctx):
    """Operations on two indexes of each kind that live at the same time."""
    _, first, depth = case
    b = Batch(ctx)
    made = [[(i*k % 7, i*i % 5) for i in range(3+8*k)] for k in (0, 1)]
    for rest in itertools.product(range(8), repeat=depth-1):
        live = {}
        b.room()
        for opn in (first,) + rest:
            kind, k = opn >> 1, opn & 1
            if kind == 0:
                live[k] = QuadTree(Points(made[k], box_of(made[k])), 2)
            elif kind == 1:
                live[k] = RTree([Item((x, y, x+1, y)) for x, y in made[k]], 4)
            elif kind == 2 and k in live:
                if isinstance(live[k], QuadTree):
                    all_indices(ctx, b.search(lambda: live[k].search_within(-9, -9, 9, 9), "a search"), len(made[k]), "a search")
                else:
                    all_indices(ctx, b.search(lambda: live[k].search_overlapping((-9, -9, 9, 9)), "a search"), len(made[k]), "a search")
            elif kind == 3:
                live.pop(k, None)
            ctx.transitions += 1
        ctx.state((first, rest))
        ctx.traces += 1
    live = None
    b.settle()

def run_geometry(case, ctx):
    n = case[1]
    b = Batch(ctx)
    for a in range(5):
        pos = [[(i, 0), (0, i % 7), (i % 11, i // 11), ((i*37) % 101, (i*53) % 97), (5, 5)][a] for i in range(n)]
        if n:
            g = Multipoint(pos)
            got = g.within_bbox((-1, -1, 200, 200))
            ctx.eq(len(got), n, "points within a box")
            got = g.within_bbox((1, 1, 4, 4))
            ctx.true(len(got) <= n, "points within a box")
            b.keep(g)
            ctx.op()
        if n > 0:
            tri = [[[(x, y), (x+1, y), (x, y+1)]] for x, y in pos]
            for g in (Multiline([t[0] for t in tri]), Multipolygon(tri)):
                got = g.within_bbox((-1, -1, 300, 300))
                ctx.eq(len(got), n, "parts within a box")
                got = g.touching_bbox((2, 2, 3, 3))
                ctx.true(len(got) <= n, "parts touching a box")
                b.keep(g)
                ctx.op(2)
                ctx.state((n, a, type(g).__name__))
    g = got = None
    b.settle()
    ctx.trace()

def run(case, ctx):
    before = TOTAL.value
    globals()["run_" + case[0].replace("-", "_")](case, ctx)
    ctx.traces += 1
    ctx.true(TOTAL.value > before or case[-1] == 0, "no memory of the indexes went through the guard")
    ctx.outcome(case[0])
