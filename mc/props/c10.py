"""Line and polygon set queries: the R-tree and the queries built on it select exactly the right members."""
import itertools, math
from fractions import Fraction as F
from karta.vector.geometry import Point, Line, Polygon, Multiline, Multipolygon
from karta.vector.rtree import RTree
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth
import geo

RULE = ("a case is a family of box sequences inserted into a real R-tree, or a set of member geometries with one query geometry; every "
        "answer is compared with an exact rational evaluation of every member; non-trivial = at least one query was compared")
BOUNDS = {"quick": "all sequences of 6 boxes over an alphabet of 6 and all 2^13 sequences of 13 boxes from pairs, node capacity 4, against 36 boxes; "
                   "structured sets up to 400; all 1-segment and 2-segment lattice lines and all rings of 3..4 vertices on 3x3 against all "
                   "lattice segments, rings (3..5 vertices) and holes as queries",
          "thorough": "sequences of 7 boxes over 6, pairs up to length 15, structured sets up to 2000, rings with 6 vertices as queries"}
ASSUMPTIONS = ["queries that touch a member within rounding error in another coordinate system are outside the bounds",
               "a member polygon that surrounds the query without meeting its boundary is not constrained to touch it"]

class Box(object):
    def __init__(self, *b):
        self.b = tuple(float(v) for v in b)
    def bbox(self):
        return self.b

# points, horizontal and vertical lines, boxes that touch, nest and are equal
ALPHA = [(0, 0, 1, 1), (1, 1, 2, 2), (0, 2, 3, 2), (3, 0, 3, 3), (2, 0, 2, 0), (0, 0, 4, 4)]
QUERIES = [(a, c, b, d) for a, b in ((-1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 2.0), (2.0, 5.0), (-1.0, 5.0))
           for c, d in ((-1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 2.0), (2.0, 5.0), (-1.0, 5.0))]

def over(q, b):
    return q[0] <= b[2] and b[0] <= q[2] and q[1] <= b[3] and b[1] <= q[3]

def within(q, b):
    return q[0] <= b[0] and b[2] <= q[2] and q[1] <= b[1] and b[3] <= q[3]

def cases(tier):
    t = tier == "thorough"
    for first in itertools.product(range(6), repeat=3 if t else 2):
        yield ["boxes", 7 if t else 6, first]
    for k in range(1, 6):
        yield ["boxes", k, ()]
    for first in itertools.product(range(2), repeat=5):
        yield ["pairs", 15 if t else 13, first]
    for name in sorted(ARR):
        for n in (5, 17, 51, 120, 400) + ((60, 255, 2000) if t else ()):
            for cap in (4, 7, 50):
                yield ["large", name, n, cap]
    for r in geo.rings(3, 3, 3, 6 if t else 5):
        yield ["ring", r]
    for r in geo.rings(3, 3, 3, 4):
        yield ["hole", r]
    for a in geo_segs():
        yield ["line", a]
    for k, r in enumerate(geo.rings(3, 3, 3, 4)):
        if k % (2 if t else 9) == 0:
            yield ["other", r]

def check_tree(ctx, boxes, cap, queries, what):
    t = RTree([Box(*b) for b in boxes], maxchildren=cap)
    ctx.trace()
    ctx.eq(tuple(t.bbox), tuple(float(f(b[k] for b in boxes)) for k, f in enumerate((min, min, max, max))), "bounds of %s" % what)
    for q in queries:
        ctx.op(2)
        ctx.eq(sorted(t.search_overlapping(q)), [i for i, b in enumerate(boxes) if over(q, b)], "boxes overlapping %r in %s" % (q, what))
        ctx.eq(sorted(t.search_within(q)), [i for i, b in enumerate(boxes) if within(q, b)], "boxes within %r in %s" % (q, what))
    return t

def boxes(case, ctx):
    _, n, first = case
    for rest in itertools.product(range(6), repeat=n-len(first)):
        seq = [ALPHA[i] for i in list(first) + list(rest)]
        ctx.state(tuple(seq))
        k = sum((i+1)*(v[0]+2*v[2]) for i, v in enumerate(seq)) % 4      # spread the queries over the sequences
        check_tree(ctx, seq, 4, [QUERIES[-1]] + QUERIES[k::4 if n > 5 else 1], "%r" % (seq,))
    ctx.outcome("boxes%d" % n)

def pairs(case, ctx):
    _, n, first = case
    for rest in itertools.product((0, 1), repeat=n-5):
        bits = list(first) + list(rest)
        seq = [(i, 0, i+1, 1) if b else ((7*i) % 5, 3 + (i % 3), (7*i) % 5, 3 + (i % 3)) for i, b in enumerate(bits)]
        ctx.state(tuple(bits))
        check_tree(ctx, seq, 4, [(-1.0, -1.0, 99.0, 99.0), (2.0, 0.0, 6.0, 4.0), (0.0, 3.0, 2.0, 4.0), (4.0, 1.0, 4.0, 9.0)], "%r" % (seq,))
    ctx.outcome("pairs")

def isqrt(n):
    return int(math.ceil(math.sqrt(n)))

BIG = 4000000.0
ARR = {
    "grid": lambda i, n: (i % isqrt(n), i // isqrt(n), i % isqrt(n) + 1, i // isqrt(n) + 1),
    "vertical": lambda i, n: (i % 9, i, i % 9, i + 3),
    "horizontal": lambda i, n: (-i, i % 5, -i + 2, i % 5),
    "points": lambda i, n: ((i*7) % 31, (i*11) % 29, (i*7) % 31, (i*11) % 29),
    "same": lambda i, n: (1, 2, 3, 4),
    "samepoint": lambda i, n: (1, 1, 1, 1),
    "nested": lambda i, n: (-i, -i, i, i),
    "inward": lambda i, n: (i-n, i-n, n-i, n-i),
    "two": lambda i, n: ((0, 0, 1, 1), (100, 100, 101, 101))[i % 2],
    "far": lambda i, n: (BIG + i*0.125, BIG - i*0.125, BIG + i*0.125 + 0.0625, BIG - i*0.125 + 0.0625),
    "tiny": lambda i, n: (1 + i*2.0**-30, 1.0, 1 + i*2.0**-30, 1 + 2.0**-30),
}

def large(case, ctx):
    _, name, n, cap = case
    B = [tuple(float(v) for v in ARR[name](i, n)) for i in range(n)]
    xs, ys = sorted(set(v for b in B for v in (b[0], b[2]))), sorted(set(v for b in B for v in (b[1], b[3])))
    def cuts(v):
        c = sorted(set([v[0]-1, v[0], v[len(v)//3], v[len(v)//2], (v[0]+v[-1])/2, v[-1], v[-1]+1]))
        return [(a, b) for a in c for b in c if a <= b]
    qs = [(a[0], b[0], a[1], b[1]) for a in cuts(xs) for b in cuts(ys)]
    if not ctx.thorough:
        qs = qs[::max(1, len(qs)//60)]
    ctx.state((name, n, cap))
    for seq in (B, B[::-1], B[1::2] + B[::2]):
        t = check_tree(ctx, seq, cap, qs, "%d boxes arranged as %s, capacity %d" % (n, name, cap))
        q = qs[len(qs)//2]
        got = t.search_overlapping(q, max_results=3)
        full = [i for i, b in enumerate(seq) if over(q, b)]
        ctx.eq(len(got), min(3, len(full)), "number of at most three results")
        ctx.true(set(got) <= set(full), "at most three of the results are results")
    if cap == 50:
        # the same boxes as diagonals of a Multiline
        m = Multiline([[(b[0], b[1]), (b[2], b[3])] for b in B], data={"n": list(range(n))}, properties={"p": 1})
        for q in qs[::7]:
            ctx.op(2)
            expect(ctx, m, m.touching_bbox(q), [i for i, b in enumerate(B) if over(q, b)], "%s touching box %r" % (name, q))
            expect(ctx, m, m.within_bbox(q), [i for i, b in enumerate(B) if within(q, b)], "%s within box %r" % (name, q))
    ctx.outcome("large")

# ---- queries on members

def fl(pts, conv=lambda p: p):
    return [conv((float(x), float(y))) for x, y in pts]

def geo_segs():
    P = [(x, y) for x in range(3) for y in range(3)]
    return [(a, b) for a in P for b in P if a != b]

SEGS = geo_segs()
ELBOWS = [(a, b, c) for (a, b) in SEGS for c in ((0, 0), (1, 2), (2, 1), (1, 1)) if c != b]
LINES = [tuple((2*x, 2*y) for x, y in l) for l in SEGS[::2] + ELBOWS[::5]] + [tuple((2*x-1, 2*y-1) for x, y in l) for l in SEGS[1::3]]
RINGS = [tuple((2*x, 2*y) for x, y in r) for k, r in enumerate(geo.rings(3, 3, 3, 4)) if k % 3 == 0] + \
        [((-1, -1), (5, -1), (5, 5), (-1, 5)), ((1, 1), (3, 1), (3, 3), (1, 3)), ((2, 1), (3, 2), (1, 3)), ((5, 0), (7, 0), (6, 3))]

def snapshot(m, i):
    v = m._vertices[i]
    return [[tuple(p) for p in r] for r in v] if m._geotype == "Multipolygon" else [tuple(p) for p in v]

def expect(ctx, m, got, idx, what):
    ctx.eq(got._geotype, m._geotype, what)
    ctx.eq([snapshot(got, j) for j in range(len(got))], [snapshot(m, i) for i in idx], what)
    ctx.eq([got.data.get(j) for j in range(len(got.data))], [m.d[i] for i in idx], "data of " + what)
    ctx.eq(got.properties, m.properties, "properties of " + what)
    ctx.true(got.crs == m.crs, "coordinate system of " + what)

def multis(conv, crs, step=1):
    a = Multiline([fl(l, conv) for l in LINES[::step]], data={"n": list(range(0, len(LINES), step))}, properties={"kind": "line"}, crs=crs)
    b = Multipolygon([[fl(r, conv)] for r in RINGS[::step]], data={"n": list(range(0, len(RINGS), step))}, properties={"kind": "ring"}, crs=crs)
    return [(a, LINES, geo.line_edges), (b, RINGS, geo.ring_edges)]

CACHE = {}
def cached(key, conv, crs, step=1):
    if key not in CACHE:
        CACHE[key] = multis(conv, crs, step)
    return CACHE[key]

def meets(e0, e1):
    for a, b in e0:
        for c, d in e1:
            if max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0]) or \
                    max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
                continue
            if geo.seg_meet(a, b, c, d):
                return True
    return False

def line(case, ctx):
    q = case[1]
    for r, what in ((q, "segment"), (q + ((0, 2),), "line"), (tuple((2*x-1, 2*y-1) for x, y in q), "shifted segment")):
        ctx.state(r)
        e = geo.line_edges(r)
        for m, members, edges in cached("plane", lambda p: p, Cartesian):
            ctx.trace()
            ctx.op()
            idx = [i for i, v in enumerate(members) if meets(e, edges(v))]
            expect(ctx, m, m.touching(Line(fl(r))), idx, "%s touching %s %r" % (m._geotype, what, r))
        ctx.raises(TypeError, lambda: m.within(Line(fl(r))), "within a line")
    ctx.outcome("line")

def ring(case, ctx):
    base = case[1]
    for k, r in enumerate((base, tuple((2*x, 2*y) for x, y in base), tuple((2*x-1, 2*y+1) for x, y in base)[::-1])):
        ctx.state(r)
        e = geo.ring_edges(r)
        for m, members, edges in cached("plane", lambda p: p, Cartesian):
            ctx.trace()
            ctx.op(2)
            meet = [meets(e, edges(v)) for v in members]
            first = [geo.in_ring(v[0], r) >= 0 for v in members]
            g = Polygon(fl(r))
            expect(ctx, m, m.touching(g), [i for i in range(len(members)) if meet[i] or first[i]], "%s touching ring %r" % (m._geotype, r))
            expect(ctx, m, m.within(g), [i for i in range(len(members)) if first[i] and not meet[i]], "%s within ring %r" % (m._geotype, r))
    ctx.outcome("ring")

def hole(case, ctx):
    base = case[1]
    outer = ((-2, -2), (6, -2), (6, 6), (-2, 6))
    for h in (tuple((2*x, 2*y) for x, y in base), tuple((x+1, y) for x, y in base)[::-1], tuple((2*x-1, 2*y-1) for x, y in base)):
        ctx.state(h)
        e = geo.ring_edges(outer) + geo.ring_edges(h)
        g = Polygon(fl(outer), subs=[Polygon(fl(h))])
        for m, members, edges in cached("plane", lambda p: p, Cartesian):
            ctx.trace()
            ctx.op(2)
            meet = [meets(e, edges(v)) for v in members]
            inside = [geo.in_ring(v[0], outer) >= 0 and geo.in_ring(v[0], h) < 0 for v in members]
            surrounds = [m._geotype == "Multipolygon" and geo.in_ring(h[0], v) > 0 for v in members]
            expect(ctx, m, m.touching(g), [i for i in range(len(members)) if meet[i] or inside[i]],
                   "%s touching polygon with hole %r" % (m._geotype, h))
            expect(ctx, m, m.within(g), [i for i in range(len(members)) if inside[i] and not meet[i] and not surrounds[i]],
                   "%s within polygon with hole %r" % (m._geotype, h))
        # members with the hole themselves
        m = Multipolygon([[fl(outer), fl(h)], [fl(h)]], data={"n": [0, 1]})
        for s in SEGS[::5]:
            q = tuple((2*x, 2*y) for x, y in s)
            ctx.op()
            expect(ctx, m, m.touching(Line(fl(q))), [i for i, ed in enumerate((e, geo.ring_edges(h))) if meets(geo.line_edges(q), ed)],
                   "polygon with hole %r touching segment %r" % (h, q))
    ctx.outcome("hole")

# (the query moved a little in nine ways: answers that depend on it are not asked about)
SYSTEMS = [
    ("projected", lambda p: (p[0]*1000.0 - 2000.0, p[1]*500.0 + 3000.0), WebMercator, WebMercator),
    ("lon/lat query", lambda p: (p[0]*1000.0 - 2000.0, p[1]*500.0 + 3000.0), WebMercator, LonLatWGS84),
    ("lon/lat members", lambda p: (p[0]*0.25 + 30.0, p[1]*0.25 - 1.0), LonLatWGS84, WebMercator),
    ("lon/lat", lambda p: (p[0]*0.25 + 30.0, p[1]*0.25 - 1.0), LonLatWGS84, LonLatWGS84),
    ("sphere", lambda p: (p[0]*0.25 - 40.0, p[1]*0.25 + 1.0), SphericalEarth, SphericalEarth),
    ("dateline", lambda p: ((p[0]*0.25 + 179.5 + 180) % 360 - 180, p[1]*0.25 - 0.5), LonLatWGS84, LonLatWGS84),
    ("360 degrees", lambda p: (p[0]*0.25 + 358.5, p[1]*0.25 + 0.125), SphericalEarth, SphericalEarth),
]

def other(case, ctx):
    base = case[1]
    r = tuple((2*x + F(3, 8), 2*y + F(5, 8)) for x, y in base)
    ctx.state(r)
    ref = {}
    for members, edges in ((LINES, geo.line_edges), (RINGS, geo.ring_edges)):
        # in eighths, so that the reference is in integers
        ways = [tuple((int(8*x) + dx, int(8*y) + dy) for x, y in r) for dx in (-1, 0, 1) for dy in (-1, 0, 1)]
        t, w, tl, free = [], [], [], set()
        for i, v in enumerate(members):
            v = tuple((8*x, 8*y) for x, y in v)
            e = edges(v)
            a = set((meets(geo.ring_edges(q), e), geo.in_ring(v[0], q)) for q in ways)
            b = set(meets(geo.line_edges(q), e) for q in ways)
            if len(a) + len(b) > 2:
                free.add(i)
                continue
            (meet, loc), = a
            t += [i] if meet or loc >= 0 else []
            w += [i] if loc >= 0 and not meet else []
            tl += [i] if b == {True} else []
        ref[len(members)] = t, w, tl, free
    for name, conv, crs, qcrs in SYSTEMS:
        pts = fl(r, conv)
        if qcrs != crs:
            pts = [crs.transform(qcrs, *p) for p in pts]
        g = Polygon(pts, crs=qcrs)
        l = Line(pts, crs=qcrs)
        step = 1 if qcrs == crs else 11      # (transforming every member takes long)
        for m, members, edges in cached(name, conv, crs, step):
            ctx.trace()
            ctx.op(3)
            t, w, tl, free = ref[len(members)]
            t, w, tl = [[i for i in v if i % step == 0] for v in (t, w, tl)]
            for fn, arg, want in (("touching", g, t), ("within", g, w), ("touching", l, tl)):
                got = getattr(m, fn)(arg)
                ids = [i for i in got.d["n"] if i not in free] if len(got) else []
                ctx.eq(ids, want, "%s: %s %s %s %r" % (name, m._geotype, fn, arg._geotype, pts))
                ctx.true(got.crs == m.crs, "coordinate system of the result")
    ctx.outcome("other")

RUN = dict(boxes=boxes, pairs=pairs, large=large, ring=ring, hole=hole, line=line, other=other)

def run(case, ctx):
    def tup(v):
        return tuple(tup(w) for w in v) if isinstance(v, (list, tuple)) else v
    RUN[case[0]]([case[0]] + [tup(v) for v in case[1:]], ctx)
