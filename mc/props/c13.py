"""Distances, azimuths and nearest positions between points and to lines and polygon boundaries, on the plane and on the globe."""
import itertools, math
from fractions import Fraction as F
import pyproj
from karta.vector.geometry import Point, Line, Polygon, Multipoint
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth, LonLatNAD83, NSIDCNorth
import geo

RULE = ("a case is one lattice polyline or ring with every half-lattice point, one pair of lattice points, or one great circle arc or path with "
        "a set of places; distances are compared with exact rational arithmetic or with a dense search along PROJ geodesics; "
        "non-trivial = at least one distance was compared")
BOUNDS = {"quick": "all 2-segment lines and all rings with 3..4 vertices on 3x3 (from several starts, both directions, repeated vertices, shifted, "
                   "scaled by 2^-20 and stretched 1:1024) against 49 half-lattice points; lines and rings of 5..40 segments in 4 shapes; all pairs of 27 lattice points in 3-D; all arcs between "
                   "16 places and short arcs at 8 places in 8 directions against 24 points",
          "thorough": "additionally all 3-segment lines and rings with 5 vertices, 24 places and every start of every ring"}
ASSUMPTIONS = ["among several nearest positions any one may be returned",
               "geodesic arcs shorter than 175 degrees; nearest positions on the globe are required to 0.05 m"]

P3 = [(x, y) for x in range(3) for y in range(3)]
ELBOWS = [(a, b, c) for a in P3 for b in P3 for c in P3]
HALF = geo.halves(3, 3)
WGS = pyproj.Geod(ellps="WGS84")
SPH = pyproj.Geod(a=6370997.0, b=6370997.0)
PLACES = [(0, 0), (10, 0), (0, 10), (10, 10), (-170, 60), (170, 60), (179.5, -10), (-179.5, 10), (45, 85), (-135, 85), (20, -75), (90, -60),
          (0, 60), (45, 45), (-60, -30), (150, -45), (0, 89), (180, 89), (-180, -5), (180, 5), (77, 12), (77.5, 12), (-33, -33), (100, 70)]
SHORT = [(0.0, 0.0), (12.0, 50.0), (179.9999, 10.0), (-180.0, -40.0), (60.0, 88.0), (-100.0, -70.0), (33.0, 0.0), (5.0, -1.0)]

def cases(tier):
    t = tier == "thorough"
    for k, l in enumerate(ELBOWS):
        if t or k % 2 == 0:
            yield ["line", l]
    for a in P3:
        yield ["line", (a, a)]
        for b in P3:
            yield ["line", (a, b)]
    if t:
        for l in itertools.product(P3, repeat=4):
            yield ["line", l]
    for r in geo.rings(3, 3, 3, 5 if t else 4):
        yield ["ring", r]
    for a in itertools.product(range(3), repeat=3):
        yield ["pairs", a]
    for i in range(24 if t else 16):
        for j in range(24 if t else 16):
            yield ["arc", i, j]
    for i in range(len(SHORT)):
        for d in range(8):
            for L in (0.5, 20.0, 3000.0):
                yield ["short", i, d, L]
    for i in range(24 if t else 16):
        yield ["path", i]
    for i in range(24):
        yield ["geodetic", i]
    for k in range(0, len(ELBOWS), 7 if t else 29):
        yield ["crs", k]
    for s in range(len(SHAPES)):
        for n in (5, 12, 24, 60) if t else (5, 12, 40):
            yield ["long", s, n]

def seg_d2(p, a, b):
    """Exact squared distance from p to the segment ab, and the nearest position."""
    vx, vy = b[0]-a[0], b[1]-a[1]
    vv = vx*vx + vy*vy
    f = F(0) if vv == 0 else F((p[0]-a[0])*vx + (p[1]-a[1])*vy) / F(vv)
    f = min(max(f, F(0)), F(1))
    q = (a[0] + f*vx, a[1] + f*vy)
    return (p[0]-q[0])**2 + (p[1]-q[1])**2, q

FRAMES = [("plain", 1, 1, 0, 0), ("tiny", F(1, 2**20), F(1, 2**20), 0, 0), ("far", 1, 1, 2**20, -2**18),
          ("steep", F(1, 1024), 1, 0, 0), ("flat", 512, F(1, 2), -3, 7)]

def planar(ctx, make, verts, edges, pts, frame):
    name, sx, sy, ox, oy = frame
    tf = lambda p: (F(p[0])*sx + ox, F(p[1])*sy + oy)
    fl = lambda p: (float(p[0]), float(p[1]))
    g = make([fl(tf(v)) for v in verts])
    V = [tf(v) for v in verts]
    E = [(tf(a), tf(b)) for a, b in edges]
    scale = float(max(sx, sy))*4
    base = max(abs(ox), abs(oy), 1)
    tol = scale*1e-12 + base*4e-16
    for p in pts:
        P = tf(p)
        pt = Point(fl(P), crs=g.crs)
        best = [seg_d2(P, a, b) for a, b in E]
        d2 = min(b[0] for b in best)
        d = math.sqrt(d2)
        ctx.op()
        got = g.shortest_distance_to(pt)
        ctx.close(got, d, tol, "shortest distance of %r to %r" % (fl(P), verts))
        near = g.nearest_on_boundary(pt)
        Q = (F(near.x), F(near.y))
        on = min(seg_d2(Q, a, b)[0] for a, b in E)
        ctx.true(math.sqrt(on) <= tol, "nearest position %r to %r is not on the boundary of %r (%s)", near, fl(P), verts, name)
        ctx.close(math.sqrt((Q[0]-P[0])**2 + (Q[1]-P[1])**2), d, tol, "distance to the nearest position on %r from %r" % (verts, fl(P)))
        ctx.eq(near.crs, g.crs, "crs of nearest position")
        if d > 0:
            ctx.true(g.within_distance(pt, d*(1+1e-6)+tol), "%r is %r from %r but not within slightly more", fl(P), d, verts)
            ctx.true(not g.within_distance(pt, d*(1-1e-6)-tol), "%r is %r from %r but within slightly less", fl(P), d, verts)
        else:
            ctx.true(g.within_distance(pt, max(tol, 1e-9)), "%r lies on %r but is not within a small distance", fl(P), verts)
        dv = [(P[0]-v[0])**2 + (P[1]-v[1])**2 for v in V]
        for how in (g.distances_to, g.flat_distances_to):
            ds = how(pt)
            ctx.eq(len(ds), len(V), "number of vertex distances")
            for x, y in zip(ds, dv):
                ctx.close(x, math.sqrt(y), tol, "distances from the vertices of %r to %r" % (verts, fl(P)))
        k = g.nearest_vertex_to(pt)
        ctx.true(0 <= k < len(V) and math.sqrt(dv[k]) <= math.sqrt(min(dv)) + tol, "nearest vertex of %r to %r is %r", verts, fl(P), k)
        ctx.state(("d", d2 == 0, [b[0] for b in best].index(d2), dv.index(min(dv))))

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

# lines of many segments: comb, spiral, one that goes away and comes back from afar, and staircase
SHAPES = [lambda n: [(2*(k//2), 3 if k % 4 in (1, 2) else 0) for k in range(n+1)],
          lambda n: [((k+1)*[1, 0, -1, 0][k % 4], (k+1)*[0, 1, 0, -1][k % 4]) for k in range(n+1)],
          lambda n: [(k, 8) for k in range(n-1)] + [(4*n, -n), (0, -1)],
          lambda n: [((k+1)//2, -(k//2)) for k in range(n+1)]]

def run_long(case, ctx):
    _, s, n = case
    v = SHAPES[s](n)
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    mx, my = max(1, (max(xs)-min(xs))//8), max(1, (max(ys)-min(ys))//8)
    pts = [(F(x) + F(1, 4), F(y) + F(1, 2)) for x in range(min(xs)-1, max(xs)+2, mx) for y in range(min(ys)-1, max(ys)+2, my)]
    for w in (v, v[::-1], v[len(v)//2:] + v[:len(v)//2]):
        planar(ctx, Line, w, geo.line_edges(w), pts, FRAMES[0])
        planar(ctx, Polygon, w, geo.ring_edges(w), pts[::3], FRAMES[n % 5])

def run_line(case, ctx):
    l = [tuple(p) for p in case[1]]
    k = sum(3*a + b for a, b in l)
    e = geo.line_edges(l)
    planar(ctx, Line, l, e, HALF, FRAMES[0])
    f = FRAMES[1 + k % 4]
    pts = HALF[k % 3::3]
    planar(ctx, Line, l, e, pts, f)
    planar(ctx, lambda v: Line([(x, y, 5.0) for x, y in v]), l, e, HALF[k % 5::5], FRAMES[0])
    planar(ctx, lambda v: Line(v, crs=WebMercator), l, e, HALF[k % 7::7], FRAMES[0])
    planar(ctx, lambda v: Line(v, crs=NSIDCNorth), l, e, HALF[k % 7::7], FRAMES[4])

def run_ring(case, ctx):
    r = tuple(tuple(p) for p in case[1])
    for k, q in enumerate(geo.variants(r)):
        if k not in (0, 3) and not ctx.thorough:
            continue
        planar(ctx, Polygon, q, geo.ring_edges(q), HALF, FRAMES[0])
        planar(ctx, Polygon, q, geo.ring_edges(q), HALF[k::4], FRAMES[1 + (k + r[-1][0]) % 4])
    planar(ctx, lambda v: Polygon([(x, y, 1.0) for x, y in v]), r, geo.ring_edges(r), HALF[::5], FRAMES[0])
    # a hole does not move the outer boundary
    hole = Polygon([(100.0, 100.0), (101.0, 100.0), (100.0, 101.0)])
    planar(ctx, lambda v: Polygon(v, subs=[hole]), r, geo.ring_edges(r), HALF[::7], FRAMES[0])

def az(dx, dy):
    return math.degrees(math.atan2(dx, dy))

def same_angle(ctx, got, want, tol, what):
    d = (got - want + 180.0) % 360.0 - 180.0
    ctx.true(abs(d) <= tol, "%s: azimuth %r, expected %r", what, got, want)
    ctx.true(-180.0 <= got <= 360.0, "%s: azimuth %r is out of range", what, got)

def run_pairs(case, ctx):
    a = tuple(case[1])
    for b in itertools.product(range(3), repeat=3):
        for s, o in ((1.0, 0.0), (2.0**-20, 0.0), (1.0, 2.0**20), (-3.0, 1.0)):
            A, B = [tuple(s*v + o for v in p) for p in (a, b)]
            d2 = sum((F(x)-F(y))**2 for x, y in zip(A[:2], B[:2]))
            d3 = sum((F(x)-F(y))**2 for x, y in zip(A, B))
            for crs in (Cartesian, WebMercator):
                ctx.op()
                p2, q2 = Point(A[:2], crs=crs), Point(B[:2], crs=crs)
                p3, q3 = Point(A, crs=crs), Point(B, crs=crs)
                ctx.close(p2.distance(q2), math.sqrt(d2), 1e-9*abs(s), "distance %r %r" % (A[:2], B[:2]))
                ctx.close(p3.distance(q3), math.sqrt(d3), 1e-9*abs(s), "distance %r %r" % (A, B))
                ctx.close(p3.distance(q2), math.sqrt(d2), 1e-9*abs(s), "distance %r %r" % (A, B[:2]))
                ctx.close(p2.distance(q3), math.sqrt(d2), 1e-9*abs(s), "distance %r %r" % (A[:2], B))
                got = p2.azimuth(q2)
                if A[:2] == B[:2]:
                    ctx.true(math.isnan(got), "azimuth between coincident points is %r", got)
                else:
                    same_angle(ctx, got, az(B[0]-A[0], B[1]-A[1]), 1e-9, "%r %r" % (A, B))
                    same_angle(ctx, p3.azimuth(q3), az(B[0]-A[0], B[1]-A[1]), 1e-9, "%r %r" % (A, B))
                    w = p2.walk(p2.distance(q2), got)
                    ctx.close(w.x, B[0], 1e-9, "walking from %r to %r" % (A, B))
                    ctx.close(w.y, B[1], 1e-9, "walking from %r to %r" % (A, B))
                    ctx.eq(w.crs, crs, "crs after walking")
                    # the CRS functions themselves
                    if crs is Cartesian:
                        z, bz, d = crs.inverse(A[0], A[1], B[0], B[1])
                        same_angle(ctx, z, az(B[0]-A[0], B[1]-A[1]), 1e-9, "inverse %r %r" % (A, B))
                        same_angle(ctx, bz, az(A[0]-B[0], A[1]-B[1]), 1e-9, "inverse (back) %r %r" % (A, B))
                        ctx.close(d, math.sqrt(d2), 1e-9*abs(s), "inverse %r %r" % (A, B))
                        x, y, bz = crs.forward(A[0], A[1], z, d)
                        ctx.close(x, B[0], 1e-9, "forward")
                        ctx.close(y, B[1], 1e-9, "forward")
                        same_angle(ctx, bz, az(A[0]-B[0], A[1]-B[1]), 1e-9, "forward (back) %r %r" % (A, B))
    ctx.state(a)

def dist(geod, a, b):
    return geod.inv(a[0], a[1], b[0], b[1])[2]

def arc_distance(geod, a, b, p, n=40):
    """Shortest distance from p to the geodesic ab: dense search, then golden section around the best sample."""
    z, _, L = geod.inv(a[0], a[1], b[0], b[1])
    if L == 0:
        return dist(geod, a, p)
    def f(s):
        x, y, _ = geod.fwd(a[0], a[1], z, s)
        return geod.inv(x, y, p[0], p[1])[2]
    vals = [f(L*i/n) for i in range(n+1)]
    k = vals.index(min(vals))
    lo, hi = L*max(k-1, 0)/n, L*min(k+1, n)/n
    while hi-lo > 1e-3:
        m1, m2 = lo + (hi-lo)*0.382, lo + (hi-lo)*0.618
        if f(m1) < f(m2):
            hi = m2
        else:
            lo = m1
    return min(f((lo+hi)/2), vals[0], vals[-1])

def globe(ctx, make, verts, closed, pts, crs, geod):
    g = make([(float(x), float(y)) for x, y in verts], crs=crs)
    edges = geo.ring_edges(verts) if closed else geo.line_edges(verts)
    for p in pts:
        pt = Point((float(p[0]), float(p[1])), crs=crs)
        want = min(arc_distance(geod, a, b, p) for a, b in edges)
        ctx.op()
        got = g.shortest_distance_to(pt)
        ctx.close(got, want, 0.05, "distance from %r to %r" % (p, verts))
        near = g.nearest_on_boundary(pt)
        ctx.close(dist(geod, (near.x, near.y), p), want, 0.05, "distance from %r to the nearest position on %r" % (p, verts))
        ctx.true(min(arc_distance(geod, a, b, (near.x, near.y)) for a, b in edges) < 0.05, "nearest position %r to %r is not on %r", near, p, verts)
        ctx.true(g.within_distance(pt, want + 0.1), "%r is %r from %r but not within more", p, want, verts)
        if want > 0.1:
            ctx.true(not g.within_distance(pt, want - 0.1), "%r is %r from %r but within less", p, want, verts)
        dv = [dist(geod, v, p) for v in verts]
        for x, y in zip(g.distances_to(pt), dv):
            ctx.close(x, y, 1e-3, "vertex distances from %r to %r" % (p, verts))
        k = g.nearest_vertex_to(pt)
        ctx.true(dv[k] <= min(dv) + 1e-3, "nearest vertex of %r to %r is %r", verts, p, k)
        ctx.state(("g", round(want / 1e5)))

def far_enough(a, b):
    return dist(SPH, a, b) < math.radians(175.0)*6370997.0

def run_arc(case, ctx):
    a, b = PLACES[case[1]], PLACES[case[2]]
    if not far_enough(a, b):
        ctx.op(); return
    k = case[1] + case[2]
    crs, geod = ((LonLatWGS84, WGS), (SphericalEarth, SPH))[k % 2]
    pts = [PLACES[j] for j in range(k % 3, 24, 3)]
    if a != b:
        # points on the arc and beside its middle
        z, _, L = geod.inv(a[0], a[1], b[0], b[1])
        mx, my, mb = geod.fwd(a[0], a[1], z, L/2)
        pts.append((mx, my))
        for off in (1000.0, 2e6):
            x, y, _ = geod.fwd(mx, my, mb + 90.0, off)
            pts.append((x, y))
        x, y, _ = geod.fwd(a[0], a[1], z + 180.0, 5000.0)
        pts.append((x, y))
    globe(ctx, Line, [a, b], False, [p for p in pts if abs(p[1]) < 90], crs, geod)

def run_short(case, ctx):
    a = SHORT[case[1]]
    L = case[3]
    crs, geod = ((LonLatWGS84, WGS), (SphericalEarth, SPH))[(case[1] + case[2]) % 2]
    x, y, _ = geod.fwd(a[0], a[1], case[2]*45.0, L)
    pts = []
    for f in (-0.5, 0.0, 0.4, 1.0, 2.0):
        mx, my, mb = geod.fwd(a[0], a[1], case[2]*45.0, f*L)
        pts.append((mx, my))
        for o in (0.3*L, -5.0*L):
            u, v, _ = geod.fwd(mx, my, case[2]*45.0 + 90.0, o)
            pts.append((u, v))
    globe(ctx, Line, [a, (x, y)], False, pts, crs, geod)

def run_path(case, ctx):
    i = case[1]
    crs, geod = ((LonLatWGS84, WGS), (SphericalEarth, SPH))[i % 2]
    v = [PLACES[i], PLACES[(5*i + 3) % 16], PLACES[(7*i + 8) % 16], PLACES[(3*i + 1) % 16]]
    v = [p for k, p in enumerate(v) if p not in v[:k]]
    if len(v) < 3 or not all(far_enough(a, b) for a, b in geo.ring_edges(v)):
        ctx.op(); return
    globe(ctx, Line, v, False, PLACES[::2], crs, geod)
    globe(ctx, Polygon, v, True, PLACES[1::2], crs, geod)

def run_geodetic(case, ctx):
    a = PLACES[case[1]]
    for b in PLACES:
        if a == b or not far_enough(a, b):
            continue
        for crs, geod in ((LonLatWGS84, WGS), (SphericalEarth, SPH)):
            ctx.op()
            z, bz, d = geod.inv(a[0], a[1], b[0], b[1])
            p, q = Point([float(v) for v in a], crs=crs), Point([float(v) for v in b], crs=crs)
            ctx.close(p.distance(q), d, 1e-4, "distance %r %r" % (a, b))
            if abs(a[1]) < 90:
                same_angle(ctx, p.azimuth(q), z, 1e-7, "%r %r" % (a, b))
            w = p.walk(d, z)
            ctx.true(dist(geod, (w.x, w.y), b) < 1e-2, "walking from %r to %r ends at %r", a, b, w)
            p3, q3 = Point((a[0], a[1], 0.0), crs=crs), Point((b[0], b[1], 3e6), crs=crs)
            ctx.close(p3.distance(q3), math.hypot(d, 3e6), 1e-3, "distance in three dimensions %r %r" % (a, b))
            if crs is LonLatWGS84 and abs(a[1]) < 89 and abs(b[1]) < 89:
                # points given in a projected system, geodetic quantities asked for
                N = NSIDCNorth
                if a[1] > 0 and b[1] > 0:
                    pn, qn = Point(N.project(*p.vertex()), crs=N), Point(N.project(*q.vertex()), crs=N)
                    ctx.close(pn.distance(qn, projected=False), d, 1e-3, "geodetic distance %r %r" % (a, b))
                    same_angle(ctx, pn.azimuth(qn, projected=False), z, 1e-6, "%r %r" % (a, b))
                    ctx.close(p.distance(qn), d, 1e-3, "distance to a projected point %r %r" % (a, b))
                    same_angle(ctx, p.azimuth(qn), z, 1e-6, "%r %r" % (a, b))
                    ctx.close(pn.distance(q), math.hypot(qn.x-pn.x, qn.y-pn.y), 1e-3, "projected distance to a geographical point")
                    same_angle(ctx, pn.azimuth(q), az(qn.x-pn.x, qn.y-pn.y), 1e-6, "projected azimuth to a geographical point")
                    w = pn.walk(d, z, projected=False)
                    ctx.true(math.hypot(w.x-qn.x, w.y-qn.y) < 0.1, "walking geodetically from %r to %r", a, b)
        ctx.state((case[1], b))

def run_crs(case, ctx):
    """A point in another coordinate system is the same place."""
    l = [(float(x)*1000.0 + 5e5, float(y)*1000.0 + 4e5) for x, y in ELBOWS[case[1]]]
    g = Line(l, crs=WebMercator)
    h = Multipoint(l, crs=WebMercator)
    for p in HALF[::9]:
        xy = (float(p[0])*1000.0 + 5e5, float(p[1])*1000.0 + 4e5)
        here = Point(xy, crs=WebMercator)
        there = Point(here.vertex(LonLatWGS84), crs=LonLatWGS84)
        ctx.op()
        back = there.vertex(WebMercator)
        ctx.close(back[0], xy[0], 1e-3, "round trip x")
        ctx.close(back[1], xy[1], 1e-3, "round trip y")
        ctx.close(g.shortest_distance_to(there), g.shortest_distance_to(here), 1e-2, "distance from %r to %r given in degrees" % (xy, l))
        n = g.nearest_on_boundary(there)
        ctx.eq(n.crs, WebMercator, "crs")
        for x, y in zip(h.flat_distances_to(there), h.flat_distances_to(here)):
            ctx.close(x, y, 1e-2, "flat distances")
    ctx.state(case[1])
