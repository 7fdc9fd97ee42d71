"""Intersections of lines and polygon boundaries: existence and position, on the plane and on the globe."""
import itertools, math
from fractions import Fraction as F
from karta.vector.geometry import Point, Line, Polygon
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth, LonLatNAD83
import geo

RULE = ("a case is one geometry (lattice polyline or ring, or great circle segment) tested against every geometry of the stated families; "
        "existence and positions of intersections are compared with exact rational segment intersection (on the plane) or sign tests of "
        "triple products (on the sphere); non-trivial = at least one pair was compared")
BOUNDS = {"quick": "all ordered pairs of lattice segments on 3x3, all 2-segment lines against all segments, all pairs of rings with 3..4 vertices on 3x3 "
                   "(one of them from every start and direction), shifted, scaled and far from the origin; all pairs of great circle segments "
                   "between 16 places including the dateline and near poles",
          "thorough": "additionally all pairs of 2-segment lines and rings with 5 vertices, 24 places"}
ASSUMPTIONS = ["where boundaries overlap along a segment, the reported points must lie on both but which of them are reported is not constrained",
               "great circle segments shorter than half a circle; configurations within 1e-9 of touching are not constrained on the sphere "
               "unless they share an end point"]

P3 = [(x, y) for x in range(3) for y in range(3)]
SEGS = [(a, b) for a in P3 for b in P3 if a != b]
ELBOWS = [(a, b, c) for a in P3 for b in P3 for c in P3 if a != b and b != c]

def cases(tier):
    t = tier == "thorough"
    for s in SEGS:
        yield ["segment", s]
    for k, l in enumerate(ELBOWS):
        if t or k % 2 == 0:
            yield ["elbow", l]
    for r in geo.rings(3, 3, 3, 5 if t else 4):
        yield ["ring", r]
    for k in range(len(PLACES)):
        for j in range(len(PLACES)):
            if k != j and (t or (k < 16 and j < 16)):
                yield ["sphere", k, j]
    for k in range(0, len(SEGS), 1 if t else 5):
        yield ["crs", k]

def floats(v, conv=None):
    return [conv((float(x), float(y))) if conv else (float(x), float(y)) for x, y in v]

def compare(ctx, a, b, ea, eb, conv, what, tol=0.0):
    """a, b: karta geometries; ea, eb: exact edges in lattice coordinates; conv: lattice to coordinates."""
    kinds = [(geo.seg_meet(p[0], p[1], q[0], q[1]), p, q) for p in ea for q in eb]
    kinds = [k for k in kinds if k[0]]
    ctx.op(2)
    ctx.evaluations += 2
    got = a.intersects(b)
    if bool(got) != bool(kinds):
        ctx.fail("%s: intersects is %r, expected %r" % (what, got, bool(kinds)))
    pts = a.intersections(b)
    pts = [tuple(p) for p in pts._vertices] if len(pts) else []
    single = set(geo.seg_point(p[0], p[1], q[0], q[1]) for k, p, q in kinds if k in (1, 2))
    want = set(conv((float(x), float(y))) for x, y in single)
    def near(p, s):
        return p in s or any(abs(p[0]-q[0]) <= tol and abs(p[1]-q[1]) <= tol for q in s)
    for p in want:
        if not near(p, pts):
            ctx.fail("%s: intersections %r lack %r" % (what, pts, p))
    if any(k[0] == 3 for k in kinds):
        ctx.true(len(pts) > 0, "%s: no intersections where the boundaries overlap", what)
        allowed = want | set(conv((float(p[0]), float(p[1]))) for e in ea + eb for p in e
                             if any(geo.on_segment(p, c, d) for c, d in ea) and any(geo.on_segment(p, c, d) for c, d in eb))
        extra = [p for p in pts if not near(p, allowed)]
        ctx.true(not extra, "%s: %r is not on both boundaries", what, extra)
    else:
        extra = [p for p in pts if not near(p, want)]
        ctx.true(not extra, "%s: intersections include %r", what, extra)
        if tol == 0.0:
            ctx.eq(len(pts), len(want), "number of intersections of " + what)
    ctx.trace()

ident = lambda p: p
SCALES = [ident,
          lambda p: (p[0]*0.25 - 8.0, p[1]*64.0 + 128.0),
          lambda p: (p[0]*0.125 + 4000000.0, p[1]*0.125 - 9000000.0),
          lambda p: (-p[1]*2.0**-20 + 1.0, p[0]*2.0**-20 + 1.0)]

LCACHE = {}
def line(v, k):
    if (v, k) not in LCACHE:
        LCACHE[(v, k)] = Line(floats(v, SCALES[k]))
    return LCACHE[(v, k)]

def segment(case, ctx):
    s = case[1]
    ctx.state(s)
    for k, conv in enumerate(SCALES):
        for t in SEGS:
            # intersections of lattice segments need not be dyadic
            compare(ctx, line(s, k), line(t, k), [s], [t], conv, "segments %r, %r (scale %d)" % (s, t, k), (1e-12, 1e-9, 1e-9, 1e-12)[k])
    a = Line([(float(x), float(y), 7.0) for x, y in s])
    for t in SEGS[::3]:
        b = Line([(float(x), float(y), 9.0) for x, y in t])
        ctx.eq(bool(a.intersects(b)), bool(geo.seg_meet(s[0], s[1], t[0], t[1])), "three-dimensional segments %r, %r" % (s, t))
    # a line with a repeated vertex
    a = Line(floats((s[0], s[0], s[1])))
    for t in SEGS[::3]:
        ctx.eq(bool(a.intersects(line(t, 0))), bool(geo.seg_meet(s[0], s[1], t[0], t[1])), "repeated vertex: %r, %r" % (s, t))
        ctx.eq(bool(line(t, 0).intersects(a)), bool(geo.seg_meet(s[0], s[1], t[0], t[1])), "repeated vertex: %r, %r" % (t, s))
    ctx.outcome("segment")

def elbow(case, ctx):
    l = case[1]
    ctx.state(l)
    e = geo.line_edges(l)
    for t in SEGS:
        compare(ctx, line(l, 0), line(t, 0), e, [t], ident, "lines %r, %r" % (l, t), 1e-12)
    for t in ELBOWS[::1 if ctx.thorough else 37]:
        compare(ctx, line(t, 0), line(l, 0), geo.line_edges(t), e, ident, "lines %r, %r" % (t, l), 1e-12)
    ctx.outcome("elbow")

PCACHE = {}
def ring(case, ctx):
    r = case[1]
    ctx.state(r)
    if not PCACHE:
        for q in geo.rings(3, 3, 3, 4):
            PCACHE[q] = (Polygon(floats(q)), geo.ring_edges(q))
        for q in [((-1, -1), (3, -1), (3, 3), (-1, 3)), ((3, 0), (5, 0), (4, 2)), ((2, 2), (4, 2), (4, 4))]:
            PCACHE[q] = (Polygon(floats(q)), geo.ring_edges(q))
    vs = list(geo.variants(r))
    E = geo.ring_edges(r)
    V = [Polygon(floats(v)) for v in vs]
    for k, (q, (poly, e)) in enumerate(sorted(PCACHE.items())):
        if not ctx.thorough and k % 2 and len(q) == 4:
            continue
        compare(ctx, V[k % len(V)], poly, E, e, ident, "rings %r, %r" % (vs[k % len(V)], q), 1e-12)
    for k, t in enumerate(SEGS):
        compare(ctx, V[k % len(V)], line(t, 0), E, [t], ident, "ring %r, segment %r" % (vs[k % len(V)], t), 1e-12)
        compare(ctx, line(t, 0), V[-1 - k % len(V)], [t], E, ident, "segment %r, ring %r" % (t, vs[-1 - k % len(V)]), 1e-12)
    ctx.outcome("ring")

# ---- great circle segments

PLACES = [(0.0, 0.0), (40.0, 0.0), (90.0, 10.0), (-170.0, 20.0), (170.0, -20.0), (175.0, 35.0), (-175.0, -35.0), (30.0, 80.0),
          (-150.0, 80.0), (100.0, -75.0), (-80.0, -75.0), (-60.0, 45.0), (-60.0, -45.0), (120.0, 45.0), (40.0, 60.0), (180.0, 0.0),
          (0.0, 50.0), (-30.0, 0.0), (60.0, -50.0), (-120.0, 60.0), (10.0, -10.0), (-179.0, 10.0), (140.0, 10.0), (-100.0, 25.0)]

def vec(p):
    x, y = math.radians(p[0]), math.radians(p[1])
    return (math.cos(y)*math.cos(x), math.cos(y)*math.sin(x), math.sin(y))

def cross(u, v):
    return (u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0])

def dot(u, v):
    return u[0]*v[0] + u[1]*v[1] + u[2]*v[2]

def sph_cross(p, q, r, s):
    """True/False whether great circle segments cross, None when it is too close to call."""
    a, b, c, d = map(vec, (p, q, r, s))
    n, m = cross(a, b), cross(c, d)
    dets = [dot(n, c), dot(n, d), dot(m, a), dot(m, b)]
    x = cross(n, m)
    if dot(n, n) < 1e-9 or dot(m, m) < 1e-9:
        return None
    if dot(x, x) < 1e-18 or min(abs(v) for v in dets) < 1e-9:
        return None
    if dets[0]*dets[1] > 0 or dets[2]*dets[3] > 0:
        return False
    h1, h2 = dot(x, tuple(i+j for i, j in zip(a, b))), dot(x, tuple(i+j for i, j in zip(c, d)))
    return (h1 > 0) == (h2 > 0)

def antipodal(p, q):
    return dot(vec(p), vec(q)) < -0.999999

def dist_to_arc(pt, p, q):
    """How far pt is off the arc p, q (sine of the angle; large when beyond the ends)."""
    v, a, b = vec(pt), vec(p), vec(q)
    n = cross(a, b)
    l = math.sqrt(dot(n, n))
    off = abs(dot(v, n))/l
    return max(off, -dot(cross(a, v), n)/l, -dot(cross(v, b), n)/l)

def sphere(case, ctx):
    _, k, j = case
    p, q = PLACES[k], PLACES[j]
    ctx.state((k, j))
    if antipodal(p, q):
        return ctx.outcome("antipodal")
    N = 24 if ctx.thorough else 16
    lines = [Line([p, q], crs=c) for c in (SphericalEarth, LonLatWGS84)] + [Line([(p[0]+360, p[1]), q], crs=SphericalEarth)]
    for m in range(N):
        for n in range(N):
            if m == n or antipodal(PLACES[m], PLACES[n]):
                continue
            r, s = PLACES[m], PLACES[n]
            if {m, n} & {k, j}:
                want = True
            else:
                want = sph_cross(p, q, r, s)
            if want is None:
                continue
            which = lines if (m + n) % 4 == 0 else lines[:1]
            for i, a in enumerate(which):
                b = Line([r, s], crs=a.crs)
                ctx.op(2)
                ctx.eq(bool(a.intersects(b)), want, "great circle segments %r, %r" % (a.vertices().tolist(), (r, s)))
                x = a.intersections(b)
                ctx.true((len(x) > 0) == want, "intersections of %r, %r: %r", (p, q), (r, s), x)
                ctx.true(len(x) <= 1 or {m, n} <= {k, j} or len({m, n} & {k, j}) > 0, "more than one intersection of %r, %r: %r", (p, q), (r, s), x)
                for v in x._vertices if len(x) else []:
                    off = max(dist_to_arc(v, p, q), dist_to_arc(v, r, s))
                    ctx.true(off < 1e-7, "intersection %r of %r, %r is %g off", tuple(v), (p, q), (r, s), off)
            ctx.trace()
    # polygons: a triangle of places against the segment
    for tri in ((0, 1, 14), (3, 4, 5), (13, 2, 4), (11, 12, 0)):
        t = [PLACES[i] for i in tri]
        if {k, j} & set(tri):
            want = True
        else:
            w = [sph_cross(p, q, t[i-1], t[i]) for i in range(3)]
            want = True if True in w else (None if None in w else False)
        if want is None:
            continue
        ctx.op(2)
        poly = Polygon(t, crs=SphericalEarth)
        ctx.eq(bool(lines[0].intersects(poly)), want, "great circle segment %r and triangle %r" % ((p, q), t))
        ctx.eq(bool(poly.intersects(lines[0])), want, "triangle %r and great circle segment %r" % (t, (p, q)))
        ctx.eq(len(poly.intersections(lines[0])) > 0, want, "intersections of triangle %r and great circle segment %r" % (t, (p, q)))
    ctx.outcome("sphere")

def crs(case, ctx):
    s = SEGS[case[1]]
    ctx.state(s)
    conv = lambda p: (p[0]*1000.0 - 2000.0, p[1]*500.0 + 3000.0)
    a = Line(floats(s, conv), crs=WebMercator)
    for t in SEGS[::3]:
        # clear of touching by an eighth of the lattice
        u = tuple((8*x+3, 8*y+1) for x, y in t)
        v = tuple((8*x, 8*y) for x, y in s)
        ways = set(bool(geo.seg_meet(v[0], v[1], (u[0][0]+dx, u[0][1]+dy), (u[1][0]+dx, u[1][1]+dy)))
                   for dx in (-1, 0, 1) for dy in (-1, 0, 1))
        if len(ways) > 1:
            continue
        want = ways.pop()
        w = [(x/8.0, y/8.0) for x, y in u]
        b = Line([WebMercator.transform(LonLatWGS84, *conv(x)) for x in w], crs=LonLatWGS84)
        ctx.op(4)
        what = "Web Mercator %r and lon/lat %r" % (s, w)
        ctx.eq(bool(a.intersects(b)), want, what)
        ctx.eq(bool(b.intersects(a)), want, what + " exchanged")
        x = a.intersections(b)
        ctx.eq(len(x), int(want), "intersections of " + what)
        ctx.true(x.crs == WebMercator, "coordinate system of the intersections")
        y = b.intersections(a)
        ctx.eq(len(y), int(want), "intersections of " + what + " exchanged")
        ctx.true(y.crs == LonLatWGS84, "coordinate system of the intersections")
        if want:
            e = geo.seg_point((F(u[0][0], 8), F(u[0][1], 8)), (F(u[1][0], 8), F(u[1][1], 8)), s[0], s[1])
            e = conv((float(e[0]), float(e[1])))
            g = tuple(x._vertices[0])
            ctx.true(abs(g[0]-e[0]) < 1.0 and abs(g[1]-e[1]) < 1.0, "intersection of %s: got %r, expected %r", what, g, e)
    ctx.outcome("crs")

RUN = dict(segment=segment, elbow=elbow, ring=ring, sphere=sphere, crs=crs)

def run(case, ctx):
    def tup(v):
        return tuple(tup(w) for w in v) if isinstance(v, (list, tuple)) else v
    RUN[case[0]]([case[0]] + [tup(v) for v in case[1:]], ctx)
