"""Convex hulls: exactly the extreme vertices, counter-clockwise, for points in any arrangement, on the plane and on the globe."""
import itertools, math
from karta.vector.geometry import Point, Line, Polygon, Multipoint
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth
import geo

RULE = ("a case is a family of point sequences (every order, repeats, collinear arrangements); the hull of each is compared with the exact "
        "set of extreme points in counter-clockwise order; on the sphere with sign tests of triple products; non-trivial = one hull compared")
BOUNDS = {"quick": "all sequences of 3 and 4 points (repeats allowed) on the 3x3 lattice, all subsets of 3x3, all subsets of up to 5 points of 4x4 "
                   "in four orders; all subsets of 3..5 of 11 places in eight regions of the globe",
          "thorough": "sequences of 5 points, subsets of up to 7 points of 4x4, subsets of 6 places"}
ASSUMPTIONS = ["the hull of points that are all on one line is only required to be its two end points",
               "points on the globe fit well within a hemisphere"]

P3 = [(x, y) for x in range(3) for y in range(3)]
P4 = [(x, y) for x in range(4) for y in range(4)]

def cases(tier):
    t = tier == "thorough"
    for first in itertools.product(range(9), repeat=2):
        for n in (3, 4) + ((5,) if t else ()):
            yield ["sequence", n, first]
    for k in range(16):
        yield ["subsets3", k]
    for n in range(3, 8 if t else 6):
        for first in itertools.combinations(range(16), 2):
            yield ["subsets4", n, first]
    for r in range(len(REGIONS)):
        for n in range(3, 7 if t else 6):
            for first in range(11):
                yield ["globe", r, n, first]

def hull(pts):
    """Extreme points counter-clockwise from the leftmost (upper) one."""
    pts = sorted(set(pts))
    if len(pts) < 2:
        return pts
    def half(seq):
        h = []
        for p in seq:
            while len(h) > 1 and geo.orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    h = half(pts) + half(pts[::-1])
    start = max((p for p in h if p[0] == h[0][0]), key=lambda p: p[1])
    k = h.index(start)
    return h[k:] + h[:k]

def check(ctx, V, make, conv=lambda p: p, what=""):
    want = hull(V)
    if len(want) < 2:
        return
    ctx.op()
    g = make([conv((float(x), float(y))) for x, y in V])
    h = g.convex_hull()
    ctx.eq(h._geotype, "Polygon", "type of the hull")
    got = [tuple(p)[:2] for p in h._vertices]
    want = [conv((float(x), float(y)))[:2] for x, y in want]
    if len(want) == 2:
        ctx.eq(sorted(got), sorted(want), "hull of the collinear points %r%s" % (V, what))
    else:
        ctx.eq(got, want, "hull of %r%s" % (V, what))
    ctx.true(h.crs == g.crs, "coordinate system of the hull")

mpoint = lambda v: Multipoint(v, build_index=False)

def sequence(case, ctx):
    _, n, first = case
    for rest in itertools.product(range(9), repeat=n-2):
        V = [P3[i] for i in list(first) + list(rest)]
        ctx.state(tuple(V))
        check(ctx, V, mpoint)
        ctx.trace()
        if n == 3 or sum(rest) % 5 == 0:
            check(ctx, V, mpoint, lambda p: (p[0]*0.125 - 500.0, p[1]*0.125 + 4000000.0), " far from the origin")
            check(ctx, V, mpoint, lambda p: (p[0]*2.0**-30, p[1]*1024.0), " scaled")
        if len(set(V)) == len(V) > 2:
            check(ctx, V, Line, what=" as a line")
            check(ctx, V, Polygon, what=" as a polygon")
    ctx.outcome("sequence")

def subsets3(case, ctx):
    for m in range(case[1]*32, case[1]*32 + 32):
        V = [p for i, p in enumerate(P3) if m >> i & 1]
        if len(V) < 3:
            continue
        ctx.state(tuple(V))
        ctx.trace()
        for W in (V, V[::-1], V[1::2] + V[::2], V + V[:2], V[:1] + V):
            check(ctx, W, mpoint)
            check(ctx, W, lambda v: Multipoint([p + (float(i),) for i, p in enumerate(v)]), what=" with a third coordinate")
            check(ctx, W, lambda v: Multipoint(v, crs=WebMercator), what=" projected")
    ctx.outcome("subsets3")

def subsets4(case, ctx):
    _, n, first = case
    for rest in itertools.combinations(range(first[1]+1, 16), n-2):
        V = [P4[i] for i in list(first) + list(rest)]
        ctx.state(tuple(V))
        ctx.trace()
        for W in (V, V[::-1], V[1::2] + V[::2], V[2:] + V[:2]):
            check(ctx, W, mpoint)
    ctx.outcome("subsets4")

def around(lon, lat):
    """Eleven places around a centre: rings of points, some on one meridian or great circle."""
    offs = [(0, 0), (10, 0), (-10, 0), (0, 12), (0, -12), (15, 9), (-14, -13), (20, -3), (-8, 16), (3, 5), (0, 20)]
    out = []
    c, s = math.cos(math.radians(lat)), math.sin(math.radians(lat))
    for x, y in offs:
        a, b = math.radians(x), math.radians(y)
        v = (math.cos(b)*math.cos(a), math.cos(b)*math.sin(a), math.sin(b))
        w = (c*v[0] - s*v[2], v[1], s*v[0] + c*v[2])        # tilt up to the centre's latitude
        lo = math.degrees(math.atan2(w[1], w[0])) + lon
        out.append(((lo + 180) % 360 - 180, math.degrees(math.asin(max(-1.0, min(1.0, w[2]))))))
    return out

REGIONS = [(20.0, 0.0), (-60.0, 40.0), (179.0, -35.0), (15.0, 88.0), (-100.0, -75.0), (45.0, 0.0), (-135.0, 0.0), (135.0, 30.0)]

def vec(p):
    x, y = math.radians(p[0]), math.radians(p[1])
    return (math.cos(y)*math.cos(x), math.cos(y)*math.sin(x), math.sin(y))

def det(a, b, c):
    return (a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]))

def globe(case, ctx):
    _, r, n, first = case
    P = around(*REGIONS[r])
    for rest in itertools.combinations(range(first+1, 11), n-1):
        V = [P[i] for i in (first,) + rest]
        U = [vec(p) for p in V]
        if max(abs(det(a, b, c)) for a, b, c in itertools.combinations(U, 3)) < 1e-6:
            continue                                        # all on one great circle
        ctx.state((r, first, rest))
        for W in (V, V[::-1], V + V[:1]):
            for crs in (SphericalEarth, LonLatWGS84):
                ctx.op()
                g = Multipoint(W, crs=crs, build_index=False)
                h = g.convex_hull()
                ctx.true(h.crs == crs, "coordinate system of the hull")
                H = [tuple(p) for p in h._vertices]
                what = "hull %r of %r" % (H, W)
                ctx.true(len(H) >= 3 and len(set(H)) == len(H), "%s: repeated vertices", what)
                ctx.true(set(H) <= set(V), "%s: vertices that are no input", what)
                hv = [vec(p) for p in H]
                for i in range(len(hv)):
                    a, b = hv[i-1], hv[i]
                    ctx.evaluations += 1
                    if min(det(a, b, p) for p in U) < -1e-9:
                        ctx.fail("%s: a point is outside edge %r - %r" % (what, H[i-1], H[i]))
                    if det(a, b, hv[(i+1) % len(hv)]) < -1e-12:
                        ctx.fail("%s: not convex at %r" % (what, H[i]))
        ctx.trace()
    ctx.outcome("globe")

RUN = dict(sequence=sequence, subsets3=subsets3, subsets4=subsets4, globe=globe)

def run(case, ctx):
    RUN[case[0]]([tuple(v) if isinstance(v, list) else v for v in case], ctx)
