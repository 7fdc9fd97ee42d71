"""Planar measures: area, perimeter, centroid, winding, length, bounding box, segments."""
import itertools, math
from fractions import Fraction as F
import numpy as np
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth
import geo
from pyproj import Geod

PLACES = [(30.0, -3.0, 2.0, 2.0), (178.0, 50.0, 2.0, 3.0), (-182.0, -1.0, 3.0, 0.5), (-60.0, -85.0, 20.0, 1.0), (-150.0, 86.0, 15.0, 1.0)]

RULE = ("a case is a lattice ring or a lattice polyline; it is measured from every starting vertex, in both directions, shifted and "
        "scaled by powers of two, in two and three dimensions, with and without holes, and compared with exact rational arithmetic; "
        "non-trivial = at least one measurement was made")
BOUNDS = {"quick": "all simple rings with 3..6 vertices on the 3x3 lattice and 3..4 on 4x4, all polylines of 2..4 vertices on 3x3",
          "thorough": "additionally rings with 5 vertices on 4x4 and polylines with 5 vertices on 3x3"}
ASSUMPTIONS = ["lengths and areas of geometries with a third coordinate are the horizontal ones"]

def cases(tier):
    seen = set()
    for f in [(3, 3, 3, 6), (4, 4, 3, 4)] + ([(4, 4, 5, 5)] if tier == "thorough" else []):
        for r in geo.rings(*f):
            if r not in seen:
                seen.add(r)
                yield ["ring", r]
    pts = [(x, y) for x in range(3) for y in range(3)]
    for a in pts:
        for b in pts:
            yield ["line", a, b]
    for pole in (1, -1):
        for n in (3, 4):
            for lats in itertools.product((10.0, 60.0, 85.0), repeat=n):
                yield ["polar", pole, lats]

def dist(a, b):
    return math.hypot(float(b[0]-a[0]), float(b[1]-a[1]))

def centroid(r):
    A = F(geo.area2(r), 2)
    cx = sum((a[0]+b[0])*(a[0]*b[1]-b[0]*a[1]) for a, b in geo.ring_edges(r))
    cy = sum((a[1]+b[1])*(a[0]*b[1]-b[0]*a[1]) for a, b in geo.ring_edges(r))
    return cx/(6*A), cy/(6*A)

def measure(v, conv, sc, ctx, z=None, crs=Cartesian):
    """v: exact lattice ring; conv: to floats; sc: scale (sx, sy) of conv."""
    V = [conv(p) for p in v]
    if z is not None:
        V = [p + (z[i],) for i, p in enumerate(V)]
    p = Polygon(V, crs=crs)
    what = "polygon %r" % (V,)
    ctx.trace()
    ctx.op(8)
    A = abs(F(geo.area2(v), 2)) * F(sc[0]) * F(sc[1])
    ctx.close(p.area, float(A), 1e-9*float(A), "area of " + what)
    P = sum(dist(conv(a), conv(b)) for a, b in geo.ring_edges(v))
    ctx.close(p.perimeter, P, 1e-9*P, "perimeter of " + what)
    c = centroid(v)
    c = conv((float(c[0]), float(c[1])))
    g = p.centroid
    big = max(1.0, max(abs(q[0]) + abs(q[1]) for q in V))
    ctx.close(g.x, c[0], 1e-9*big, "centroid x of " + what)
    ctx.close(g.y, c[1], 1e-9*big, "centroid y of " + what)
    ctx.true(g.crs is crs, "centroid coordinate system")
    ctx.eq(bool(p.isclockwise()), geo.area2(v) < 0, "isclockwise of " + what)
    xs, ys = [q[0] for q in V], [q[1] for q in V]
    ctx.eq(tuple(p.bbox()), (min(xs), min(ys), max(xs), max(ys)), "bbox of " + what)
    ctx.eq(tuple(p.extent()), (min(xs), max(xs), min(ys), max(ys)), "extent of " + what)
    want = sorted(sorted([tuple(a), tuple(b)]) for a, b in geo.ring_edges(V))
    ctx.eq(sorted(sorted([tuple(s[0].vertex()), tuple(s[1].vertex())]) for s in p.segments), want, "segments of " + what)
    ctx.eq(sorted(sorted([tuple(a), tuple(b)]) for a, b in p.segment_tuples), want, "segment tuples of " + what)
    ctx.eq([tuple(q) for q in p.vertices_ring], V + V[:1], "closed ring of " + what)
    l = p.to_line()
    ctx.close(l.length, P, 1e-9*P, "length of outline of " + what)
    ctx.eq([tuple(q) for q in l.vertices().tolist()], V + V[:1], "outline of " + what)
    return p

def run_ring(r, ctx):
    ctx.state(r)
    vs = list(geo.variants(r))
    if len(r) > 5:
        vs = vs[::5]
    ident = lambda p: (float(p[0]), float(p[1]))
    for v in vs:
        measure(v, ident, (1, 1), ctx)
    v = vs[-1]
    measure(v, lambda p: (p[0]*4.0 - 512.0, p[1]*0.5 + 65536.0), (4, 0.5), ctx)
    measure(v, lambda p: (p[0]*1.0 - 1.0, p[1]*2.0 - 4.0), (1, 2), ctx, z=[float(3*i*i) for i in range(len(v))])
    measure(v, lambda p: (500000.0 + 8*p[0], 4194304.0 + 8*p[1]), (8, 8), ctx, crs=WebMercator)
    # as a hole, once and twice, in either direction
    for w in (r, tuple(reversed(r))):
        A, P = float(abs(geo.area2(r)))/2, sum(dist(a, b) for a, b in geo.ring_edges(r))
        holes = [Polygon([(float(x)+1, float(y)+1) for x, y in w]), Polygon([(float(x)+5, float(y)+6) for x, y in w])]
        o = Polygon([(0., 0.), (20., 0.), (20., 10.), (0., 10.)], subs=holes)
        ctx.trace()
        ctx.op(3)
        ctx.close(o.area, 200.0 - 2*A, 1e-9, "area with holes %r" % (w,))
        ctx.close(o.perimeter, 60.0 + 2*P, 1e-9, "perimeter with holes %r" % (w,))
        c = o.centroid
        ctx.close(c.x, 10.0, 1e-9, "centroid ignores holes")
        ctx.close(c.y, 5.0, 1e-9, "centroid ignores holes")
        m = Multipolygon([[[(0., 0.), (20., 0.), (20., 10.), (0., 10.)]] + [h.vertices() for h in holes],
                          [[(-9., 3.), (-8., 3.), (-8., 99.)]]])
        ctx.close(m[0].area, 200.0 - 2*A, 1e-9, "area of a member with holes %r" % (w,))
        ctx.close(m[0].perimeter, 60.0 + 2*P, 1e-9, "perimeter of a member with holes %r" % (w,))
        ctx.eq(tuple(m.bbox()), (-9.0, 0.0, 20.0, 99.0), "bbox of members")
        ctx.eq(tuple(m.extent()), (-9.0, 20.0, 0.0, 99.0), "extent of members")
    # geographical: geodesic perimeter and area, anywhere on the globe
    if len(r) <= 4:
        for crs in (SphericalEarth, LonLatWGS84):
            for x0, y0, sx, sy in PLACES if ctx.thorough or len(r) == 3 else PLACES[::2]:
                ll = lambda p: (x0 + p[0]*sx, y0 + p[1]*sy)
                V = [ll(p) for p in r]
                P = sum(crs.inverse(a[0], a[1], b[0], b[1])[2] for a, b in geo.ring_edges(V))
                geod = Geod(a=crs.ellipsoid.a, b=crs.ellipsoid.b)
                A = abs(geod.polygon_area_perimeter([p[0] for p in V], [p[1] for p in V])[0])
                for v in geo.variants(r):
                    W = [ll(q) for q in v]
                    p = Polygon(W, crs=crs)
                    ctx.trace()
                    ctx.op(2)
                    ctx.close(p.perimeter, P, 1e-6*P, "geodesic perimeter of %r" % (W,))
                    ctx.close(p.area, A, 1e-6*A, "geodesic area of %r" % (W,))
                ctx.close(Polygon([(a, b, 5.0) for a, b in V], crs=crs).area, A, 1e-6*A, "geodesic area of three-dimensional %r" % (V,))
    ctx.outcome("ring%d" % len(r))

def run_line(a, b, ctx):
    pts = [(x, y) for x in range(3) for y in range(3)]
    more = [()] + [(p,) for p in pts] + [(p, q) for p in pts for q in pts]
    if ctx.thorough:
        more += list(itertools.product(pts, repeat=3))
    for rest in more:
        v = (a, b) + rest
        V = [(float(x)*2 - 1, float(y)) for x, y in v]
        ctx.state(v)
        l = Line(V)
        ctx.trace()
        ctx.op(7)
        what = "line %r" % (V,)
        d = [dist(p, q) for p, q in geo.line_edges(V)]
        ctx.close(l.length, sum(d), 1e-12*(1+sum(d)), "length of " + what)
        cum = l.cumulength()
        ctx.eq(len(cum), len(V), "cumulative lengths of " + what)
        for k in range(len(V)):
            ctx.close(cum[k], sum(d[:k]), 1e-9, "cumulative length %d of %s" % (k, what))
        ctx.close(l.displacement(), dist(V[0], V[-1]), 1e-12, "displacement of " + what)
        xs, ys = [q[0] for q in V], [q[1] for q in V]
        ctx.eq(tuple(l.bbox()), (min(xs), min(ys), max(xs), max(ys)), "bbox of " + what)
        ctx.eq(tuple(l.extent()), (min(xs), max(xs), min(ys), max(ys)), "extent of " + what)
        ctx.eq([(tuple(s[0].vertex()), tuple(s[1].vertex())) for s in l.segments], geo.line_edges(V), "segments of " + what)
        ctx.eq([(tuple(p), tuple(q)) for p, q in l.segment_tuples], geo.line_edges(V), "segment tuples of " + what)
        if len(v) == 3:
            Z = [p + (float(7*i),) for i, p in enumerate(V)]
            l3 = Line(Z)
            ctx.close(l3.length, sum(d), 1e-9, "length of a three-dimensional line")
            ctx.eq(tuple(l3.bbox())[:4], (min(xs), min(ys), max(xs), max(ys)), "bbox of a three-dimensional line")
            ctx.eq(tuple(Multipoint(Z).bbox()), (min(xs), min(ys), max(xs), max(ys)), "bbox of three-dimensional points")
            m = Multiline([V, [(-5.0, 7.0), (0.5, 8.0)], Z[0:0] + V[::-1]])
            ctx.eq(tuple(m.bbox()), (-5.0, min(ys), max(0.5, max(xs)), 8.0), "bbox of lines")
            ctx.eq(tuple(m.extent()), (-5.0, max(0.5, max(xs)), min(ys), 8.0), "extent of lines")
            for crs in (SphericalEarth, LonLatWGS84):
                g = Line([(20.0 + 3*x, 10.0*y) for x, y in V], crs=crs)
                dd = [crs.inverse(20.0+3*p[0], 10.0*p[1], 20.0+3*q[0], 10.0*q[1])[2] if p != q else 0.0 for p, q in geo.line_edges(V)]
                if all(p != q for p, q in geo.line_edges(V)):
                    ctx.close(g.length, sum(dd), 1e-6*sum(dd), "geodesic length of " + what)
                    ctx.close(g.cumulength()[1], dd[0], 1e-6*dd[0], "geodesic cumulative length of " + what)
                    ctx.close(g.cumulength()[2], sum(dd), 1e-6*sum(dd), "geodesic cumulative length of " + what)
    ctx.outcome("line")

def run_polar(case, ctx):
    """Rings around a pole and rings with a vertex at a pole."""
    _, pole, lats = case
    n = len(lats)
    for start in (-180.0, -170.0, 0.0, 33.0):
        V = [(start + 360.0*i/n, pole*l) for i, l in enumerate(lats)]
        V = [(x - 360.0 if start == 33.0 and x >= 180.0 else x, y) for x, y in V]
        wedge = [(start, pole*lats[0]), (start + 40.0, pole*lats[1]), (start + 20.0, pole*90.0)]
        for W in (V, V[::-1], V[1:] + V[:1], wedge, wedge[::-1]):
            for crs in (SphericalEarth, LonLatWGS84):
                geod = Geod(a=crs.ellipsoid.a, b=crs.ellipsoid.b)
                A = abs(geod.polygon_area_perimeter([p[0] for p in W], [p[1] for p in W])[0])
                ctx.trace()
                ctx.op()
                ctx.close(Polygon(W, crs=crs).area, A, 1e-6*A, "geodesic area of %r" % (W,))
    ctx.state((pole, tuple(lats)))
    ctx.outcome("polar")

def run(case, ctx):
    if case[0] == "polar":
        run_polar(case, ctx)
    elif case[0] == "ring":
        run_ring(tuple(tuple(p) for p in case[1]), ctx)
    else:
        run_line(tuple(case[1]), tuple(case[2]), ctx)
