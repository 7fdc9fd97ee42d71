"""Boxes of geographical geometries: exactly the longitudes and latitudes that the geometry covers on the globe."""
import itertools, math
import numpy as np
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon
from karta.crs import LonLatWGS84, SphericalEarth, WebMercator, NSIDCNorth, LonLatNAD83

RULE = ("a case is the first vertex of all lines or rings, one set of points or of lines, or one box asked of a set; boxes are compared with the extent of "
        "great circles computed with vectors and with longitudes unrolled in integers; non-trivial = one such family of geometries compared")
BOUNDS = {"quick": "all lines of 2..3 vertices and all rings of 3 vertices on two lattices of 35 and 25 positions, rings of 4 vertices on 14 positions, sets of 1..4 out of 18 positions, sets of 1..3 "
                   "out of 24 lines, all boxes of a 9x3 lattice (also across the dateline) asked of 7 sets",
          "thorough": "rings of 4 vertices on 20 positions, lines of 4 vertices on 16, sets of 5 positions, sets of 4 out of 24 lines"}
ASSUMPTIONS = ["longitudes are from -180 to 180, or beyond by whole turns", "segments between opposite meridians are left out, they have no unique direction", "a box of all longitudes goes from -180 to 180",
               "a ring around a pole contains the pole of the hemisphere its vertices are in", "a set that has several smallest boxes may have any of them"]
W = LonLatWGS84
WIDE = [(x, y) for x in (-170, -90, -10, 0, 60, 125, 180) for y in (-60, -10, 0, 30, 80)]
NEAR = [(x, y) for x in (172, 179, 180, -178, -175) for y in (-5, 0, 20, 21, 88)]
SOME = [(-170, 70), (-100, 50), (-40, -10), (10, 0), (30, 60), (100, -30), (110, 85), (140, 20), (175, 10), (180, -40), (-90, -80), (0, -70), (90, -75), (60, 85),
        (-120, 80), (-60, 75), (150, -85), (20, 30), (-10, 5), (170, 65)]
SPOTS = [(-180, 0), (-179, 10), (-150, -20), (-120, 45), (-90, 5), (-60, 60), (-30, -3), (-1, 7), (0, 0), (1, 80), (30, -60), (60, 2), (90, 12), (120, -89), (150, 33), (179, -1), (180, 4), (45, 45)]
LINES = [[(170, 0), (-170, 5)], [(175, 10), (179, 12)], [(-179, -5), (-160, 0)], [(0, 0), (10, 0)], [(5, 5), (40, 30)], [(-40, 0), (-30, 4)], [(100, 10), (-100, 20)], [(-100, 60), (100, 60)],
         [(60, 0), (60, 10)], [(120, -10), (150, -20), (170, 0)], [(-90, 0), (0, 10), (90, 0)], [(0, 70), (120, 70), (-120, 70)], [(-150, -40), (-120, -50)], [(20, -30), (21, -31)],
         [(0, 0), (100, 0), (-160, 0), (-60, 0), (10, 0)], [(-60, 1), (-120, 2)], [(179, 50), (-179, 51)], [(30, -80), (50, -85)], [(-10, 20), (10, 22)], [(85, 0), (95, 1)],
         [(130, 5), (135, 6)], [(-75, 5), (-70, 6)], [(-5, -5), (0, -2)], [(160, 0), (165, 1)]]

def cases(tier):
    t = tier == "thorough"
    for name, pts in (("wide", WIDE), ("near", NEAR)):
        for i in range(len(pts)):
            yield ["line", name, i]
            yield ["ring", name, i]
    n = 20 if t else 14
    for i, j in itertools.permutations(range(n), 2):
        yield ["ring4", i, j, n]
    if t:
        for i, j in itertools.permutations(range(16), 2):
            yield ["line4", i, j]
    for i, j in itertools.combinations_with_replacement(range(len(SPOTS)), 2):
        yield ["points", i, j, 5 if t else 4]
    for i in range(len(LINES)):
        yield ["multi", i, 4 if t else 3]
    for k in range(7):
        yield ["search", k]
    for k in range(8):
        yield ["crs", k]

# ---- reference
def vec(p):
    x, y = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(y)*math.cos(x), math.cos(y)*math.sin(x), math.sin(y)])

def top(a, b, memo={}):
    """Least and greatest latitude of the arc from a to b."""
    k = (a, b)
    if k not in memo:
        lo, hi = min(a[1], b[1]), max(a[1], b[1])
        u, v = vec(a), vec(b)
        n = np.cross(u, v)
        m = math.sqrt(n.dot(n))
        if m > 1e-9:
            n = n/m
            z = np.array([0, 0, 1.0])
            t = z - n*n[2]
            if math.sqrt(t.dot(t)) > 1e-9:
                for s in (1, -1):
                    q = s*t
                    if np.cross(u, q).dot(n) > 0 and np.cross(q, v).dot(n) > 0:
                        lat = math.degrees(math.atan2(q[2], math.hypot(q[0], q[1])))
                        lo, hi = min(lo, lat), max(hi, lat)
        memo[k] = (lo, hi)
    return memo[k]

def step(a, b):
    d = (b-a) % 360
    return d if d < 180 else d-360 if d > 180 else None

def want(pts, ring):
    """(west, width, ymin, ymax) with longitudes in integers, or None when ambiguous."""
    x = lo = hi = pts[0][0]
    ymin = ymax = float(pts[0][1])
    edges = list(zip(pts, pts[1:])) + ([(pts[-1], pts[0])] if ring else [])
    for a, b in edges:
        d = step(a[0], b[0])
        if d is None:
            return None
        x += d
        lo, hi = min(lo, x), max(hi, x)
        s, t = top(a, b)
        ymin, ymax = min(ymin, s), max(ymax, t)
    if ring and x != pts[0][0]:
        z = sum(math.sin(math.radians(p[1])) for p in pts)
        if abs(z) < 1e-9:
            return None
        if z > 0:
            ymax = 90.0
        else:
            ymin = -90.0
        return (-180, 360, ymin, ymax)
    if hi-lo >= 360:
        return (-180, 360, ymin, ymax)
    return (lo, hi-lo, ymin, ymax)

def width(bb):
    return bb[2]-bb[0] + (360 if bb[2] < bb[0] else 0)

def compare(ctx, bb, w, what):
    ctx.eq(len(bb), 4, "box of " + what)
    ctx.true(-180 <= bb[0] <= 180 and -180 <= bb[2] <= 180, "longitudes of %r of %s", bb, what)
    if w[1] >= 360:
        ctx.eq((bb[0], bb[2]), (-180.0, 180.0), "longitudes of " + what)
    else:
        # at the dateline both signs are the same longitude
        got = width(bb)
        if got == 360 and w[1] == 0:
            got = 0
        ctx.true((bb[0]-w[0]) % 360 == 0 and (bb[2]-w[0]-w[1]) % 360 == 0 and got == w[1], "longitudes of %s: %r, expected from %r to %r", what, bb, w[0], w[0]+w[1])
    ctx.close(bb[1], w[2], 1e-7, "least latitude of " + what)
    ctx.close(bb[3], w[3], 1e-7, "greatest latitude of " + what)

def look(ctx, pts, ring, crs=W):
    w = want(pts, ring)
    if w is None:
        return
    g = (Polygon if ring else Line)([tuple(float(c) for c in p) for p in pts], crs=crs)
    bb = g.bbox()
    compare(ctx, bb, w, "%s %r" % (g._geotype, pts))
    ctx.op()
    ctx.evaluations += 1
    return g, bb, w

def run_line(case, ctx):
    _, name, i = case
    P = WIDE if name == "wide" else NEAR
    a = P[i]
    for b in P:
        r = look(ctx, [a, b], False)
        if r:
            g, bb, w = r
            ctx.eq(tuple(g.extent()), (bb[0], bb[2], bb[1], bb[3]), "extent")
            for turn in (360, -360):
                h = Line([(a[0]+turn, a[1]), (float(b[0]), b[1])], crs=SphericalEarth)
                compare(ctx, h.bbox(), w, "line %r a turn away" % ([a, b],))
            z = Line([(a[0], a[1], 5.0), (b[0], b[1], 7.0)], crs=LonLatNAD83)
            ctx.eq(tuple(z.bbox()), tuple(bb), "box of a three-dimensional line")
            back = Line([b, a], crs=W).bbox()
            compare(ctx, back, w, "reversed line %r" % ([a, b],))
            ctx.op(4)
        for c in P:
            look(ctx, [a, b, c], False)
            ctx.state((a, b, c))
    ctx.trace()
    ctx.outcome("line")

def run_ring(case, ctx):
    _, name, i = case
    P = WIDE if name == "wide" else NEAR
    a = P[i]
    for b, c in itertools.permutations(P, 2):
        r = look(ctx, [a, b, c], True)
        if r:
            ctx.outcome("polar" if r[2][1] == 360 else "ring")
            ctx.state((a, b, c))
            if b < c:
                l = r[0].to_line().bbox()
                if r[2][1] != 360:
                    ctx.eq(tuple(l), tuple(r[1]), "box of the ring and its line")
    ctx.trace()

def run_ring4(case, ctx):
    _, i, j, n = case
    for k, l in itertools.permutations(range(n), 2):
        if len({i, j, k, l}) == 4:
            r = look(ctx, [SOME[m] for m in (i, j, k, l)], True)
            if r:
                ctx.outcome("polar" if r[2][1] == 360 else "ring")
                ctx.state((i, j, k, l))
    ctx.trace()

def run_line4(case, ctx):
    _, i, j = case
    for k, l in itertools.product(range(16), repeat=2):
        look(ctx, [SOME[m] for m in (i, j, k, l)], False)
        ctx.state((i, j, k, l))
    ctx.trace()
    ctx.outcome("line")

def smallest(arcs):
    """Least width of an interval of the circle that covers arcs (west, width) in whole degrees."""
    best = 360
    for w0, _ in arcs:
        reach = 0
        for w, d in arcs:
            reach = max(reach, (w-w0) % 360 + d)
        if reach < 360:
            best = min(best, reach)
    return best

def covers(bb, arc):
    if width(bb) >= 360:
        return True
    return (arc[0]-bb[0]) % 360 + arc[1] <= width(bb)

def union(ctx, bb, arcs, what):
    n = smallest(arcs)
    ctx.true(-180 <= bb[0] <= 180 and -180 <= bb[2] <= 180, "longitudes of %r of %s", bb, what)
    got = width(bb)
    if n == 0 and got == 360:
        got = 0         # from 180 to -180
    if n == 360:
        ctx.eq((bb[0], bb[2]), (-180.0, 180.0), "longitudes of " + what)
    else:
        ctx.eq(got, n, "width of the box %r of %s" % (bb, what))
        for a in arcs:
            ctx.true(covers(bb, a) or n == 0, "%r of %s is outside of the box %r", a, what, bb)

def run_points(case, ctx):
    _, i, j, n = case
    first = [SPOTS[i], SPOTS[j]]
    for more in range(0, n-1):
        for rest in itertools.combinations(SPOTS[j:], more):
            pts = first + list(rest) if i != j or more else first[:1]
            ctx.state(tuple(pts))
            boxes = []
            for order in (pts, pts[::-1], pts[1:]+pts[:1]):
                m = Multipoint([(float(x), float(y)) for x, y in order], crs=W)
                bb = m.bbox()
                union(ctx, bb, [(x, 0) for x, _ in pts], "points %r" % (order,))
                ctx.eq((bb[1], bb[3]), (min(y for _, y in pts), max(y for _, y in pts)), "latitudes of the points %r" % (order,))
                boxes.append(tuple(bb))
                ctx.op()
    ctx.trace()
    ctx.outcome("points")

def run_multi(case, ctx):
    _, i, n = case
    for k in range(0, n):
        for rest in itertools.combinations(range(i+1, len(LINES)), k):
            idx = (i,) + rest
            ws = [want(LINES[m], False) for m in idx]
            m = Multiline([[(float(x), float(y)) for x, y in LINES[q]] for q in idx], crs=W)
            bb = m.bbox()
            what = "lines %r" % ([LINES[q] for q in idx],)
            union(ctx, bb, [(w[0], w[1]) for w in ws], what)
            ctx.close(bb[1], min(w[2] for w in ws), 1e-7, "least latitude of " + what)
            ctx.close(bb[3], max(w[3] for w in ws), 1e-7, "greatest latitude of " + what)
            ctx.op()
            ctx.state(idx)
            if k < 2:
                ctx.eq(tuple(m.extent()), (bb[0], bb[2], bb[1], bb[3]), "extent of " + what)
                rings = [LINES[q] + [(LINES[q][-1][0], LINES[q][-1][1]+3)] for q in idx]
                ws = [want(r, True) for r in rings]
                if None in ws:
                    continue
                g = Multipolygon([[[(float(x), float(y)) for x, y in r]] for r in rings], crs=SphericalEarth)
                union(ctx, g.bbox(), [(w[0], w[1]) for w in ws], "polygons %r" % (rings,))
                ctx.close(g.bbox()[3], max(w[3] for w in ws), 1e-7, "greatest latitude of polygons %r" % (rings,))
                ctx.op()
    ctx.trace()
    ctx.outcome("multi")

def grid(w, d):
    """Closed interval on the circle in half degrees."""
    return {int(2*w + k) % 720 for k in range(int(2*d)+1)}

XS = (-175, -170, -100, -30, 0, 40, 100, 170, 175)

def run_search(case, ctx):
    k = case[1]
    lons = list(XS) + [-179, 179]
    for x0, x1 in itertools.product(lons, repeat=2):
        for y0, y1 in ((-90.0, 90.0), (-30.5, 13.25), (0.5, 90.0)):
            q = (float(x0), y0, float(x1), y1)
            d = x1-x0 + (360 if x1 < x0 else 0)
            if k == 0:
                P = [p for p in SPOTS if abs(p[0]) != 180]
                for index in (True, False):
                    m = Multipoint([(float(x), float(y)) for x, y in P], crs=W, build_index=index)
                    got = [tuple(p.vertex()[:2]) for p in m.within_bbox(q)]
                    ex = [(float(x), float(y)) for x, y in P if 0 < (x-x0) % 360 < d and y0 < y < y1]
                    ctx.eq([tuple(v) for v in got], ex, "points within %r" % (q,))
                    ctx.op()
            else:
                L = LINES[k-1::2] if k < 3 else LINES[k::5]
                m = Multiline([[(float(x), float(y)) for x, y in l] for l in L], crs=W)
                inside, over = [], []
                for i, l in enumerate(L):
                    w = want(l, False)
                    g, h = grid(w[0], min(w[1], 359.5)), grid(x0, d)
                    lat = w[2] <= y1 and y0 <= w[3]
                    if lat and g & h:
                        over.append(i)
                    if y0 <= w[2] and w[3] <= y1 and w[1] <= d and g <= h and (x0-w[0]) % 360 + d >= 0 and (w[0]-x0) % 360 + w[1] <= d:
                        inside.append(i)
                for name, idx in (("within_bbox", inside), ("touching_bbox", over)):
                    got = getattr(m, name)(q)
                    ctx.eq([[tuple(v) for v in l.vertices()] for l in got], [[(float(x), float(y)) for x, y in L[i]] for i in idx], "lines %s %r" % (name, q))
                    if len(idx) > 1:
                        ctx.eq(len(getattr(m, name)(q, max_results=1)), 1, "one result")
                    ctx.op(2)
            ctx.state((k, q))
    if k > 0:
        L = LINES[k-1::2] if k < 3 else LINES[k::5]
        m = Multiline([[(float(x), float(y)) for x, y in l] for l in L], crs=W)
        ctx.eq(len(m.within_bbox((-180.0, -90.0, 180.0, 90.0))), len(L), "lines of the globe")
        ctx.eq(len(m.touching_bbox((-180.0, -90.0, 180.0, 90.0))), len(L), "lines of the globe")
        ctx.eq(len(m.within_bbox(m.bbox())), len(L), "lines within their box")
        for i, l in enumerate(m):
            ctx.true(any(np.array_equal(q.vertices(), l.vertices()) for q in m.within_bbox(l.bbox())), "line %r is not within its box", l)
    ctx.trace()
    ctx.outcome("search")

def run_crs(case, ctx):
    """Boxes in another coordinate system are those of the vertices there, with their closing segment."""
    k = case[1]
    src = (WebMercator, NSIDCNorth)[k % 2]
    P = [p for p in (NEAR + WIDE + SOME) if 0 < p[1] < 85 and abs(p[0]) != 180 and (p[0] % 360) != 135]
    P = P[k//2::4]
    xy = {p: tuple(float(c) for c in W.transform(src, float(p[0]), float(p[1]))) for p in P}
    for a, b in itertools.permutations(P, 2):
        for c in P[::9]:
            if c in (a, b):
                continue
            for kind in (Polygon, Line):
                g = kind([xy[a], xy[b], xy[c]], crs=src)
                own = g.bbox()
                ctx.eq(tuple(own), (min(xy[p][0] for p in (a, b, c)), min(xy[p][1] for p in (a, b, c)), max(xy[p][0] for p in (a, b, c)), max(xy[p][1] for p in (a, b, c))), "box")
                w = want([a, b, c], kind is Polygon)
                if w is None:
                    continue
                bb = g.bbox(crs=W)
                if w[1] < 360:
                    for u, v in ((bb[0], w[0]), (bb[2], w[0]+w[1])):
                        ctx.true(abs((u-v+180) % 360 - 180) < 1e-6, "box %r of %s %r in degrees", bb, kind.__name__, (a, b, c))
                    ctx.close(width(bb), w[1], 1e-6, "width of the box in degrees")
                else:
                    ctx.eq((bb[0], bb[2]), (-180.0, 180.0), "longitudes of %r in degrees" % ((a, b, c),))
                ctx.close(bb[1], w[2], 1e-6, "least latitude in degrees of %s %r" % (kind.__name__, (a, b, c)))
                ctx.close(bb[3], w[3], 1e-6, "greatest latitude in degrees of %s %r" % (kind.__name__, (a, b, c)))
                ctx.eq(tuple(g.bbox()), tuple(own), "box again")
                ctx.eq(tuple(g.extent(crs=W)), (bb[0], bb[2], bb[1], bb[3]), "extent in degrees")
                ctx.op(3)
            ctx.state((k, a, b, c))
    ctx.trace()
    ctx.outcome("crs")

def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)
