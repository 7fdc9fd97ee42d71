"""Point in polygon: every simple lattice polygon against every half-lattice point, on the plane and on the globe."""
import itertools, math
from fractions import Fraction as F
import numpy as np
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multipolygon
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth, LonLatNAD83
import geo

RULE = ("a case is one simple lattice ring; it is built from every starting vertex in both directions and asked about every "
        "half-lattice point (inside, outside, on edges, on vertices, level with vertices); the answers are compared with an exact "
        "rational point-in-ring test; non-trivial = at least one query was made")
BOUNDS = {"quick": "all simple rings with 3..6 vertices on the 3x3 lattice and 3..4 on 4x4; all rings with up to 4 vertices as holes; "
                   "all of the former around either pole and across the dateline, and as holes there and in other coordinate systems; "
                   "rings with up to 4 vertices up to 130 degrees across about seven places, with the far side of the globe",
          "thorough": "additionally 3..5 vertices on 4x4 and 7 vertices on 3x3"}
ASSUMPTIONS = ["points on the boundary of a hole, and boundary points of polygons that contain a pole or cross the dateline, are "
               "not constrained"]

def cases(tier):
    seen = set()
    fams = [(3, 3, 3, 6), (4, 4, 3, 4)] + ([(3, 3, 7, 7), (4, 4, 5, 5)] if tier == "thorough" else [])
    for f in fams:
        for r in geo.rings(*f):
            if r not in seen:
                seen.add(r)
                yield ["plane", r]
    for r in geo.rings(3, 3, 3, 5):
        yield ["polar", r]
        yield ["dateline", r]
    for k, r in enumerate(geo.rings(3, 3, 3, 4)):
        yield ["hole", r]
        yield ["wide", r]
        if k % 3 == 0 or tier == "thorough":
            yield ["globe-hole", r]
        if k % 4 == 0:
            yield ["crs", r]

def ask(poly, pts, want, ctx, what, crs=Cartesian, conv=lambda p: p, strict=False):
    for p in pts:
        w = want(p)
        if w is None:
            continue
        q = conv((float(p[0]), float(p[1])))
        got = poly.contains(Point(q, crs=crs))
        ctx.evaluations += 1
        if bool(got) != w:
            ctx.fail("%s: contains(%r) is %r, expected %r" % (what, q, got, w))
    ctx.op(len(pts))

def run_plane(r, ctx):
    nx = max(p[0] for p in r)+1
    ny = max(p[1] for p in r)+1
    pts = geo.halves(nx, ny)
    loc = {p: geo.in_ring(p, r) for p in pts}
    ctx.state(r)
    vs = list(geo.variants(r))
    if len(r) > 4 and not ctx.thorough:
        vs = [vs[0], vs[3], vs[-1]]
    for v in vs:
        ctx.trace()
        ask(Polygon([(float(x), float(y)) for x, y in v]), pts, lambda p: loc[p] >= 0, ctx, "polygon %r" % (v,))
    # scaled by powers of two and shifted, integer and three-dimensional vertices, other ways of making the polygon
    v = vs[-1]
    conv = lambda p: (p[0]*2048.0 - 4096.0, p[1]*0.125 + 16.0)
    ask(Polygon([conv(p) for p in v]), pts, lambda p: loc[p] >= 0, ctx, "scaled %r" % (v,), conv=conv)
    z = Polygon([(float(x), float(y), 5.0*x-y) for x, y in v])
    few = pts[::3]
    ask(z, few, lambda p: loc[p] >= 0, ctx, "three-dimensional %r" % (v,), conv=lambda p: p + (1.0,))
    ask(Multipolygon([[[(9.0, 9.0), (8.0, 9.0), (9.0, 8.0)]], [v]])[1], few, lambda p: loc[p] >= 0, ctx, "member %r" % (v,))
    ask(Line(v).to_polygon(), few, lambda p: loc[p] >= 0, ctx, "line made into polygon %r" % (v,))
    mp = Multipoint([(float(p[0]), float(p[1])) for p in few])
    ctx.eq(bool(mp.any_within_poly(z)), any(loc[p] >= 0 for p in few), "any_within_poly %r" % (v,))
    out = [p for p in pts if loc[p] < 0]
    ctx.eq(bool(Multipoint([(float(p[0]), float(p[1])) for p in out]).any_within_poly(z)), False, "any_within_poly of outside points")
    ctx.outcome("plane%d" % len(r))

def run_hole(r, ctx):
    """The ring shifted into a larger outline; with a second hole beside it."""
    ctx.state(("hole", r))
    h = [(x+1, y+1) for x, y in r]
    h2 = [(5, 1), (6, 1), (6, 3), (5, 2)]
    outer = [(0, 0), (7, 0), (7, 4), (4, 5), (0, 4)]
    pts = [(F(i, 2), F(j, 2)) for i in range(-1, 16) for j in range(-1, 12)]
    def want(p):
        a, b, c = geo.in_ring(p, outer), geo.in_ring(p, h), geo.in_ring(p, h2)
        if b == 0 or c == 0:
            return None
        return a >= 0 and b < 0 and c < 0
    fl = lambda q: [(float(x), float(y)) for x, y in q]
    for subs in ([h, h2], [h2[::-1], h[::-1]]):
        ctx.trace()
        p = Polygon(fl(outer), subs=[Polygon(fl(s)) for s in subs])
        ask(p, pts, want, ctx, "holes %r" % (subs,))
        m = Multipolygon([Polygon(fl(outer), subs=[Polygon(fl(s)) for s in subs], properties={"n": 1}),
                          Polygon(fl([(20, 20), (21, 20), (20, 21)]), properties={"n": 2})])
        ask(m[0], pts[::3], want, ctx, "holes of a member %r" % (subs,))
        m = Multipolygon([[fl(outer)] + [fl(s) for s in subs]])
        ask(m[0], pts[::3], want, ctx, "hole rings of a member %r" % (subs,))
    ctx.outcome("hole")

def run_crs(r, ctx):
    """The point is given in another coordinate system than the polygon."""
    ctx.state(("crs", r))
    ctx.trace()
    pts = [p for p in geo.halves(3, 3) if geo.in_ring(p, r) != 0]
    loc = {p: geo.in_ring(p, r) > 0 for p in pts}
    ll = lambda p: (10.0 + p[0], 40.0 + p[1])
    lonlat = [ll((float(x), float(y))) for x, y in r]
    ask(Polygon(lonlat, crs=LonLatWGS84), pts, lambda p: loc[p], ctx, "geographical %r" % (r,), crs=LonLatWGS84, conv=ll)
    wm = lambda p: LonLatWGS84.transform(WebMercator, *p)
    ask(Polygon(lonlat, crs=LonLatWGS84), pts, lambda p: loc[p], ctx, "projected point %r" % (r,), crs=WebMercator,
        conv=lambda p: tuple(wm(ll(p))))
    xy = lambda p: (100000.0 + 50000.0*p[0], 200000.0 + 50000.0*p[1])
    pr = Polygon([xy((float(x), float(y))) for x, y in r], crs=WebMercator)
    ask(pr, pts, lambda p: loc[p], ctx, "projected polygon %r" % (r,), crs=WebMercator, conv=xy)
    ask(pr, pts, lambda p: loc[p], ctx, "geographical point %r" % (r,), crs=LonLatWGS84,
        conv=lambda p: tuple(WebMercator.transform(LonLatWGS84, *xy(p))))
    # the ring as a hole that is given in another system than the outline
    outer = [(-1, -2), (5, -1), (4, 4), (-2, 3)]
    pts = [p for p in (((F(i, 2), F(j, 2))) for i in range(-5, 12) for j in range(-5, 9)) if geo.in_ring(p, r) != 0 and geo.in_ring(p, outer) != 0]
    loc = {p: geo.in_ring(p, r) < 0 and geo.in_ring(p, outer) > 0 for p in pts}
    pairs = [(LonLatWGS84, ll, WebMercator, lambda p: tuple(wm(ll(p)))),
             (WebMercator, xy, LonLatWGS84, lambda p: tuple(WebMercator.transform(LonLatWGS84, *xy(p))))]
    for crs, conv, hcrs, hconv in pairs:
        hole = Polygon([hconv((float(x), float(y))) for x, y in r], crs=hcrs)
        for poly in (Polygon([conv(q) for q in outer], subs=[hole], crs=crs),
                     Polygon([hconv(q) for q in outer], subs=[Polygon([conv(q) for q in r], crs=crs)], crs=hcrs)):
            ask(poly, pts[::13], lambda p: loc[p], ctx, "hole %r in another system" % (r,), crs=crs, conv=conv)
            ask(poly, pts[5::29], lambda p: loc[p], ctx, "hole %r in another system" % (r,), crs=hcrs, conv=hconv)
    ctx.outcome("crs")

def gnomonic(p, south):
    """Lattice point -> lon, lat such that straight lines become great circles about a pole."""
    x, y = p[0]*0.125, p[1]*0.125
    lat = math.degrees(math.atan2(1.0, math.hypot(x, y)))
    lon = math.degrees(math.atan2(y, x))
    return (lon, -lat) if south else (lon, lat)

def run_polar(r, ctx):
    pts = geo.halves(3, 3)
    for c in ((F(1), F(1)), (F(1), F(5, 4)), (F(3, 4), F(1, 2))):
        where = geo.in_ring(c, r)
        if where == 0:
            continue
        ctx.state(("polar", r, c))
        for south in (False, True):
            for v in (r, tuple(reversed(r))):
                for crs in (SphericalEarth, LonLatWGS84):
                    # centre the pole on c; shift by a rotation that keeps vertices off the dateline
                    conv = lambda p: gnomonic((float(p[0]-c[0]), float(p[1]-c[1])), south)
                    lonlat = [conv(p) for p in v]
                    poly = Polygon(lonlat, crs=crs)
                    ctx.trace()
                    ctx.op()
                    ctx.eq(bool(poly.ispolar()), where > 0, "ispolar of %r" % (lonlat,))
                    if where < 0 and not crosses(lonlat):
                        continue            # planar in longitude and latitude
                    def want(p):
                        k = geo.in_ring(p, r)
                        return None if k == 0 or p == c else k > 0
                    ask(poly, pts[::2], want, ctx, "polygon %r around or near a pole" % (lonlat,), crs=crs, conv=conv)
                    if where > 0:
                        for far in ((0.0, 0.0), (120.0, 5.0), (-77.0, -20.0)):
                            ask(poly, [far], lambda p: False, ctx, "polar polygon %r, far point" % (lonlat,), crs=crs)
                        op = 89.0 if south else -89.0
                        ask(poly, [(10.0, op), (-100.0, op)], lambda p: False, ctx, "polar polygon %r, other pole" % (lonlat,), crs=crs)
                        ask(poly, [(37.0, -op)] if geo.in_ring(c, r) > 0 and far_from(c, r) else [], lambda p: True, ctx,
                            "polar polygon %r near its pole" % (lonlat,), crs=crs)
    ctx.outcome("polar")

def far_from(c, r):
    return all((F(c[0])-a)**2 + (F(c[1])-b)**2 > 1 for a, b in r) and \
        all(abs(float((b[0]-a[0])*(a[1]-c[1]) - (a[0]-c[0])*(b[1]-a[1])))/math.hypot(b[0]-a[0], b[1]-a[1]) > 0.3
            for a, b in geo.ring_edges(r))

def crosses(lonlat):
    return any(abs(lonlat[i][0]-lonlat[i-1][0]) > 180 for i in range(len(lonlat)))

def wrap(x):
    return (x + 180.0) % 360.0 - 180.0

def run_dateline(r, ctx):
    pts = [p for p in geo.halves(3, 3) if geo.in_ring(p, r) != 0]
    loc = {p: geo.in_ring(p, r) > 0 for p in pts}
    for lon0 in (178.75, 179.3):
        for lat0 in (-1.0, 20.0, -31.0):
            for v in (r, tuple(reversed(r))):
                crs = SphericalEarth if lat0 > 0 else LonLatWGS84
                conv = lambda p: (wrap(lon0 + float(p[0])), lat0 + float(p[1]))
                lonlat = [conv(p) for p in v]
                poly = Polygon(lonlat, crs=crs)
                ctx.state(("dateline", r, lon0, lat0))
                ctx.trace()
                ctx.op(2)
                ctx.eq(bool(poly.ispolar()), False, "ispolar of %r" % (lonlat,))
                ctx.eq(bool(poly.crosses_dateline()), crosses(lonlat), "crosses_dateline of %r" % (lonlat,))
                ask(poly, pts, lambda p: loc[p], ctx, "polygon %r by the dateline" % (lonlat,), crs=crs, conv=conv)
                if loc.get((F(1), F(1))) is not None:
                    ask(poly, [(0.0, 0.5), (-90.0, lat0+1), (0.0, 89.0), (-2.0, -lat0)], lambda p: False, ctx,
                        "polygon %r, far point" % (lonlat,), crs=crs)
    ctx.outcome("dateline")

def run_globe_hole(r, ctx):
    """The ring as a hole of an outline across the dateline or around a pole."""
    outer = [(-1, -2), (5, -1), (4, 4), (1, 5), (-2, 3)]
    pts = [(F(i, 2), F(j, 2)) for i in range(-5, 12) for j in range(-5, 11)]
    loc = {p: (geo.in_ring(p, r), geo.in_ring(p, outer)) for p in pts}
    want = lambda p: None if 0 in loc[p] else loc[p][1] > 0 and loc[p][0] < 0
    for lon0, lat0, crs in ((178.75, -1.0, LonLatWGS84), (179.3, 20.0, SphericalEarth), (177.6, -31.0, LonLatWGS84), (-179.7, 5.0, SphericalEarth)):
        conv = lambda p: (wrap(lon0 + float(p[0])), lat0 + float(p[1]))
        for v in (r, tuple(reversed(r)))[lat0 < 0:][:1]:
            sub = Polygon([conv(p) for p in v], crs=crs)
            poly = Polygon([conv(p) for p in outer], subs=[sub], crs=crs)
            ask(poly, pts[lat0 < 0::2], want, ctx, "hole %r of a polygon across the dateline (%r)" % (v, conv((0, 0))), crs=crs, conv=conv)
            far = Polygon([(10.0, 10.0), (12.0, 10.0), (12.0, 13.0)], crs=crs)
            ask(Polygon([conv(p) for p in outer], subs=[far, sub], crs=crs), pts[::9], want, ctx, "second hole %r" % (v,), crs=crs, conv=conv)
            ctx.state(("globe-hole", v, lon0))
            ctx.trace()
    for c in ((F(1), F(1)), (F(5, 4), F(1)), (F(3), F(3))):
        where = geo.in_ring(c, r)
        if where == 0:
            continue
        for south in (False, True):
            conv = lambda p: gnomonic((float(p[0]-c[0]), float(p[1]-c[1])), south)
            lonlat = [conv(p) for p in r]
            if where < 0 and not crosses(lonlat):
                continue
            for crs in (SphericalEarth, LonLatWGS84):
                poly = Polygon([conv(p) for p in outer], subs=[Polygon(lonlat, crs=crs)], crs=crs)
                ask(poly, pts[south::3], lambda p: None if p == c else want(p), ctx, "hole %r of a polygon around a pole (at %r)" % (r, c), crs=crs, conv=conv)
                ctx.state(("pole-hole", r, c, south))
                ctx.trace()
    ctx.outcome("globe-hole")

def tangent(lon, lat, k):
    """Lattice point -> lon, lat and back, by the gnomonic projection about (lon, lat); the lattice is centred on (1, 1)."""
    a, b = math.radians(lon), math.radians(lat)
    up = (math.cos(b)*math.cos(a), math.cos(b)*math.sin(a), math.sin(b))
    east = (-math.sin(a), math.cos(a), 0.0)
    north = (-math.sin(b)*math.cos(a), -math.sin(b)*math.sin(a), math.cos(b))
    def conv(p):
        x, y = k*(float(p[0])-1), k*(float(p[1])-1)
        v = [up[i] + x*east[i] + y*north[i] for i in range(3)]
        return (math.degrees(math.atan2(v[1], v[0])), math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))))
    z = 1.0 if lat > 0 else -1.0
    return conv, (1 + z*east[2]/(z*up[2])/k, 1 + z*north[2]/(z*up[2])/k)

WIDE = [(120.0, 62.0), (-97.0, -57.0), (83.0, 70.0), (146.0, 11.0), (-151.0, -17.0), (99.0, -71.0), (-31.0, 66.0)]

def clearance(c, r):
    return min(geo_dist(c, a, b) for a, b in geo.ring_edges(r))

def geo_dist(c, a, b):
    ux, uy, wx, wy = b[0]-a[0], b[1]-a[1], c[0]-a[0], c[1]-a[1]
    t = min(1.0, max(0.0, float(ux*wx+uy*wy)/float(ux*ux+uy*uy)))
    return math.hypot(wx-t*ux, wy-t*uy)

def run_wide(r, ctx):
    """Polygons tens of degrees across that cross the dateline or contain a pole; also asked about the far side of the globe."""
    pts = [p for p in geo.halves(3, 3) if geo.in_ring(p, r) != 0]
    loc = {p: geo.in_ring(p, r) > 0 for p in pts}
    for k, (lon, lat) in enumerate(WIDE):
        for scale in (0.6, 1.5):
            conv, pole = tangent(lon, lat, scale)
            if clearance(pole, r) < 0.1:
                continue
            polar = geo.in_ring((F(pole[0]), F(pole[1])), r) > 0
            # a side with many vertices
            n = k % len(r)
            a, b = r[n-1], r[n]
            many = r[:n] + tuple((a[0]+(b[0]-a[0])*F(i, 8), a[1]+(b[1]-a[1])*F(i, 8)) for i in range(1, 8)) + r[n:] if n else r
            for v, crs in ((r, SphericalEarth), (many, LonLatWGS84), (tuple(reversed(many)), SphericalEarth), (tuple(reversed(r)), LonLatWGS84))[k % 2:][::2]:
                lonlat = [conv(p) for p in v]
                poly = Polygon(lonlat, crs=crs)
                ctx.eq(bool(poly.ispolar()), polar, "ispolar of %r" % (lonlat,))
                ctx.op()
                if not polar and not crosses(lonlat):
                    continue                        # planar in longitude and latitude
                ctx.state(("wide", r, k, scale))
                ctx.trace()
                ask(poly, pts, lambda p: loc[p], ctx, "wide polygon %r" % (lonlat,), crs=crs, conv=conv)
                anti = lambda p: (wrap(conv(p)[0] + 180.0), -conv(p)[1])
                ask(poly, pts, lambda p: False, ctx, "wide polygon %r, the other side of the globe" % (lonlat,), crs=crs, conv=anti)
    ctx.outcome("wide")

def run(case, ctx):
    r = tuple(tuple(p) for p in case[1])
    {"plane": run_plane, "hole": run_hole, "crs": run_crs, "polar": run_polar, "dateline": run_dateline, "globe-hole": run_globe_hole,
     "wide": run_wide}[case[0]](r, ctx)
