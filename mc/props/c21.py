"""Coordinate reference systems: ellipsoids, projections, transformations and geodesics are those that the definition says."""
import itertools, math, warnings
import numpy as np
import pyproj
from karta import crs, errors
from karta.crs import (LonLatWGS84, LonLatNAD27, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth, NSIDCSouth, LambertEqualArea,
                       GallPetersEqualArea, UPSNorth, UPSSouth, Cartesian, ProjectedCRS, GeographicalCRS, CRS, crs_from_wkt, parse_ellipsoid)

RULE = ("a case is one coordinate system, a pair of them, or one spelling of a definition, taken to every position of a lattice of the globe; "
        "non-trivial = one system's definition, projection, transformation or geodesics compared over that lattice")
BOUNDS = {"quick": "all 43 ellipsoids and 10 datums in all spellings and all orders of 5 arguments; 11 predefined and 13 further systems; 10 degree lattice for projections, "
                   "all chains of 3 systems, geodesics between all pairs of 162 positions, forward along 20 azimuths and 8 lengths",
          "thorough": "all orders of 6 arguments, 5 degree lattice for projections, geodesics between all pairs of 700 positions"}
ASSUMPTIONS = ["ellipsoids of the tables are required to 2 mm", "a geographical system made without a datum is given the WGS84 datum, as documented, so positions are taken as WGS84",
               "grid shifts of datums are those that PROJ has; NAD27 is only compared for consistency", "pyproj's geodesics are exact; those on spheres are also computed here"]

warnings.simplefilter("ignore")
D = math.pi/180
TOW = "+towgs84=598.1,73.7,418.2,0,0,0,0"
CRSS = [LonLatWGS84, LonLatNAD27, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth, NSIDCSouth, LambertEqualArea, GallPetersEqualArea, UPSNorth, UPSSouth]
MORE = [("P", "+proj=utm +zone=14 +datum=WGS84 +units=m +no_defs"), ("P", "+proj=utm +zone=13 +south +ellps=intl"), ("P", "+proj=merc +lon_0=9 +R=6371000"),
        ("P", "+proj=lcc +lat_1=33 +lat_2=45 +lat_0=23 +lon_0=-96 +x_0=0 +y_0=0 +datum=NAD83 +units=m"), ("P", "+proj=tmerc +lat_0=0 +lon_0=-99 +k=1 +x_0=3500000 +y_0=0 +ellps=bessel"),
        ("P", "+proj=aea +lat_1=29.5 +lat_2=45.5 +lat_0=23 +lon_0=-96 +a=6378206.4 +b=6356583.8"), ("P", "+proj=eqc +lat_ts=0 +lon_0=0 +a=6378137 +rf=298.257223563"),
        ("P", "+proj=merc +alpha=7 +a=6378137 +f=0.0033528106647474805"), ("P", "+proj=longlat +ellps=bessel"), ("P", "+proj=latlong +datum=NAD83"),
        ("G", "+ellps=bessel", TOW), ("G", "+a=6378388 +rf=297", ""), ("G", "+ellps=clrk66", "+datum=NAD27")]

def make(i):
    if i < len(CRSS):
        return CRSS[i]
    k = MORE[i-len(CRSS)]
    return ProjectedCRS(k[1]) if k[0] == "P" else GeographicalCRS(k[1], "custom", datum=k[2])

NALL = len(CRSS) + len(MORE)
# semimajor axis and squared eccentricity of each system
WGS = (6378137.0, 298.257223563)
GRS = (6378137.0, 298.257222101)
CLRK = (6378206.4, 6378206.4/(6378206.4-6356583.8))
BES = (6377397.155, 299.1528128)
OWN = [WGS, CLRK, GRS, (6370997.0, 0), (6378137.0, 0)] + [WGS]*6 + [WGS, (6378388.0, 297.0), (6371000.0, 0), GRS, BES, CLRK, WGS, WGS, BES, GRS, BES, (6378388.0, 297.0), CLRK]

def axes(i):
    a, rf = OWN[i]
    return a, (a - a/rf if rf else a)

def cases(tier):
    t = tier == "thorough"
    for name in sorted(crs.ELLIPSOID_DATA):
        yield ["ellipsoid", name, 6 if t else 5]
    for name in sorted(crs.DATUM_ELLIPSOIDS):
        yield ["datum", name, 0]
    yield ["incomplete", 0]
    for i in range(NALL):
        yield ["definition", i]
    for i in range(4, len(CRSS)):
        yield ["projection", i, 5 if t else 10]
    for i in range(NALL):
        yield ["kinds", i]
        yield ["wkt", i]
    for i, j in itertools.product(range(NALL), repeat=2):
        yield ["chain", i, j]
    yield ["helmert", 0]
    for i in range(NALL):
        yield ["inverse", i, t]
        yield ["forward", i]
    for i, j in itertools.product(range(NALL), repeat=2):
        yield ["equality", i, j]
    for k in range(3):
        yield ["cartesian", k]

# ---- ellipsoids
def check_ellipsoid(ctx, e, a, b, tol, what):
    ctx.close(e.a, a, tol, what + ": a")
    ctx.close(e.b, b, tol, what + ": b")
    ctx.close(e.f, (a-b)/a, 1e-9, what + ": f")
    ctx.op()

def run_ellipsoid(case, ctx):
    _, name, n = case
    m = pyproj.get_ellps_map().get(name)
    ctx.true(m is not None, "%s is not an ellipsoid", name)
    a = m["a"]
    b = m["b"] if "b" in m else a - a/m["rf"]
    f = (a-b)/a
    spellings = [["+ellps=%s" % name], ["+a=%r" % a, "+b=%r" % b], ["+a=%r" % a, "+f=%r" % f]]
    if f:
        spellings.append(["+a=%r" % a, "+rf=%r" % (1/f)])
    else:
        spellings.append(["+R=%r" % a])
    rest = ["+proj=merc", "+alpha=17.5", "+no_defs", "+bar=foo", "+k=0.9"]
    for s in spellings:
        tol = 2e-3 if s[0].startswith("+ellps") else 1e-6
        for args in itertools.permutations(s + rest[:n-len(s)]):
            ctx.state((name, args))
            check_ellipsoid(ctx, parse_ellipsoid(" ".join(args)), a, b, tol, " ".join(args))
            ctx.op()
        for args in (s + ["+proj=merc", "+lon_0=3"], ["+proj=merc", "+lon_0=3"] + s):
            p = ProjectedCRS(" ".join(args))
            check_ellipsoid(ctx, p.ellipsoid, a, b, tol, "ProjectedCRS(%s)" % p.ref_proj4)
            # a degree of the equator has the length a*pi/180 by the geodesic and by the projection
            ctx.close(p.inverse(3, 0, 4, 0)[2], a*D, 1e-5, "geodesic of %s" % p.ref_proj4)
            ctx.close(p.project(4, 0)[0], a*D, 1e-5, "projection of %s" % p.ref_proj4)
            ctx.close(p.project(4, 45)[1], merc_y(45, a, f), 1e-4 if tol < 1e-3 else 2e-3, "projection of %s" % p.ref_proj4)
            ctx.op(3)
        if s[0].startswith("+R"):
            continue        # not a spheroid identifier
        g = GeographicalCRS(" ".join(s), "custom")
        check_ellipsoid(ctx, g.ellipsoid, a, b, tol, "GeographicalCRS(%s)" % s)
        ctx.close(g.inverse(3, 0, 4, 0)[2], a*D, 1e-5, "geodesic of %s" % s)
        az, baz, dist = g.inverse(7, 0, 7, 90)
        ctx.close(dist, quarter(a, b), 1e-3 if tol < 1e-3 else 3e-3, "quarter meridian of %s" % s)
        ctx.close(az, 0, 1e-9, "azimuth to the pole")
    ctx.trace()
    ctx.outcome("ellipsoid")

def quarter(a, b):
    n = (a-b)/(a+b)
    return math.pi*(a+b)/4*(1 + n**2/4 + n**4/64 + n**6/256)

def merc_y(lat, a, f):
    e = math.sqrt(f*(2-f))
    s = math.sin(lat*D)
    return a*(math.atanh(s) - e*math.atanh(e*s))

def run_datum(case, ctx):
    _, name, _ = case
    g = pyproj.CRS("+proj=longlat +datum=%s" % name).ellipsoid
    for args in itertools.permutations(["+datum=%s" % name, "+proj=merc", "+no_defs", "+alpha=2"]):
        s = " ".join(args)
        ctx.state(s)
        check_ellipsoid(ctx, parse_ellipsoid(s), g.semi_major_metre, g.semi_minor_metre, 2.5e-3, s)
    ctx.trace()
    ctx.outcome("datum")

def run_incomplete(case, ctx):
    for s in ("+proj=longlat +no_defs", "", "+proj=merc +a=6378137", "+proj=merc +b=6378137", "+proj=merc +alpha=3 +b=2", "+proj=omerc +alpha=3 +bar=2", "+proj=merc +f=0.003", "+proj=merc +rf=300",
              "+proj=ob_tran +o_proj=moll +o_lat_p=3 +Rx=6"):
        ctx.raises(errors.CRSError, lambda: parse_ellipsoid(s), "ellipsoid of %r" % s)
        ctx.raises(errors.CRSError, lambda: ProjectedCRS(s), "system %r" % s)
        ctx.op(2)
    class Half(CRS):
        name = "half"
    for f in ("get_proj4", "get_wkt"):
        ctx.raises(AttributeError, lambda: getattr(Half(), f)(), f)
    ctx.raises(ValueError, lambda: crs.Ellipsoid("x", b=6.0), "ellipsoid without a")
    ctx.raises(NotImplementedError, lambda: Cartesian.transform(LonLatWGS84, 0.0, 0.0), "transformation of a Cartesian system")
    ctx.trace()
    ctx.outcome("refused")

def run_definition(case, ctx):
    i = case[1]
    c = make(i)
    a, b = axes(i)
    check_ellipsoid(ctx, c.ellipsoid, a, b, 1e-3, str(c))
    ctx.eq(c.proj4, c.ref_proj4, "proj4")
    ctx.eq(c.get_proj4(), c.ref_proj4, "get_proj4")
    ctx.eq(str(c), "<CRS %s>" % c.name, "string")
    ctx.true(isinstance(c.name, str) and c.name != "", "name %r", c.name)
    if i >= len(CRSS) and MORE[i-len(CRSS)][0] == "P":
        s = MORE[i-len(CRSS)][1]
        ctx.eq(c.proj4, s, "definition")
        ctx.eq(ProjectedCRS(s, name="N").name, "N", "name")
        ctx.eq(c.name, s, "default name")
    # a system known by its WKT alone
    class Other(CRS):
        name = "other"
        ref_wkt = c.wkt
    o = Other()
    ctx.eq(o.wkt, c.wkt, "WKT of a system with a WKT")
    g = pyproj.CRS(o.proj4).ellipsoid
    if "nadgrids" in c.proj4:
        g = pyproj.CRS(o.proj4.replace("+nadgrids=@null", "")).ellipsoid
    wa, wb = axes(0) if c is SphericalEarth or i == len(CRSS)+11 and MORE[11][2] != "" else (a, b)
    ctx.close(g.semi_major_metre, wa, 1e-3, "semimajor axis from WKT %s" % o.proj4)
    ctx.close(g.semi_minor_metre, wb, 2e-3, "semiminor axis from WKT %s" % o.proj4)
    ctx.op(6)
    ctx.state(("definition", i))
    ctx.trace()
    ctx.outcome("definition")

# ---- projections, from Snyder (1987)
A, F = 6378137.0, 1/298.257223563
E2 = F*(2-F)
E = math.sqrt(E2)

def q(s):
    return (1-E2)*(s/(1-E2*s*s) + math.atanh(E*s)/E)

def t_(lat):
    s = math.sin(lat)
    return math.tan(math.pi/4-lat/2)/((1-E*s)/(1+E*s))**(E/2)

def stere(lon, lat, lat_ts, lon0, x0, k0, south):
    l, p = (lon-lon0)*D, (-lat if south else lat)*D
    if lat_ts == 90:
        rho = 2*A*k0*t_(p)/math.sqrt((1+E)**(1+E)*(1-E)**(1-E))
    else:
        ts = lat_ts*D
        rho = A*math.cos(ts)/math.sqrt(1-E2*math.sin(ts)**2)*t_(p)/t_(ts)
    return x0+rho*math.sin(l), x0+(rho if south else -rho)*math.cos(l)

def laea(lon, lat):
    qp = q(1.0)
    r = A*math.sqrt(qp/2)
    b = math.asin(max(-1, min(1, q(math.sin(lat*D))/qp)))
    d = A/r
    k = r*math.sqrt(2/(1+math.cos(b)*math.cos(lon*D)))
    return k*d*math.cos(b)*math.sin(lon*D), k/d*math.sin(b)

def cea(lon, lat):
    k = math.cos(45*D)/math.sqrt(1-E2*math.sin(45*D)**2)
    return A*k*lon*D, A*q(math.sin(lat*D))/(2*k)

FORMULA = {4: lambda x, y: (A*x*D, A*math.atanh(math.sin(y*D))),
           5: lambda x, y: stere(x, y, 70, -45, 0, 1, False), 6: lambda x, y: stere(x, y, 70, 0, 0, 1, True),
           7: laea, 8: cea,
           9: lambda x, y: stere(x, y, 90, 0, 2e6, 0.994, False), 10: lambda x, y: stere(x, y, 90, 0, 2e6, 0.994, True)}

def domain(i, step):
    """Positions at which system i is regular."""
    lo, hi = -80, 80
    if i in (5, 9):
        lo, hi = -60, 90
    elif i in (6, 10):
        lo, hi = -90, 60
    elif i in (7, 8):
        lo, hi = -90, 90
    for x in range(-180, 181, step):
        for y in range(lo, hi+1, step):
            if i == 7 and (abs(x) > 170 or abs(x) > 150 and abs(y) < 30):
                continue
            yield float(x), float(y)

def lonclose(a, b, tol):
    return abs((a-b+180) % 360 - 180) <= tol

def run_projection(case, ctx):
    _, i, step = case
    c = CRSS[i]
    pts = list(domain(i, step))
    X, Y = c.project([p[0] for p in pts], [p[1] for p in pts])
    LX, LY = c.project(X, Y, inverse=True)
    for k, (x, y) in enumerate(pts):
        wx, wy = FORMULA[i](x, y)
        scale = 1 + (abs(wx)+abs(wy))*1e-9
        if i in (4, 8) and abs(x) == 180:       # either side of the antimeridian
            ctx.close(abs(X[k]), abs(wx), 1e-3*scale, "%s x at %s" % (c.name, (x, y)))
        else:
            ctx.close(X[k], wx, 1e-3*scale if abs(y) < 90 else 0.3, "%s x at %s" % (c.name, (x, y)))
        ctx.close(Y[k], wy, 1e-3*scale if abs(y) < 90 else 0.3, "%s y at %s" % (c.name, (x, y)))
        ctx.true(abs(y) == 90 or lonclose(LX[k], x, 1e-8), "%s: longitude %r of %s", c.name, LX[k], (x, y))
        ctx.close(LY[k], y, 1e-7 if abs(y) < 89 else 1e-5, "%s: latitude of %s" % (c.name, (x, y)))
        ctx.op(2)
        ctx.state((i, x, y))
    ctx.trace()
    ctx.outcome("projection")

LAND = [(-100.0, 40.0), (-95.5, 33.0), (-110.25, 45.0), (-90.0, 50.5), (-120.0, 38.0), (-80.0, 25.0)]

def run_kinds(case, ctx):
    """Numbers, lists, tuples and arrays are treated alike."""
    c = make(case[1])
    pts = LAND
    want = [c.project(x, y) for x, y in pts]
    back = [c.project(x, y, inverse=True) for x, y in want]
    other = NSIDCNorth if c is not NSIDCNorth else LonLatWGS84
    trans = [c.transform(other, x, y)[:2] for x, y in want]
    az = [c.inverse(1.0, 2.0, x, y) for x, y in pts]
    fw = [c.forward(x, y, 30.0, 1e5) for x, y in pts]
    for r, p in zip(back, pts):
        ctx.close(r[0], p[0], 1e-8, "%s and back, x" % c.name)
        ctx.close(r[1], p[1], 1e-7, "%s and back, y" % c.name)
    n = len(pts)
    for kind in (list, tuple, np.array):
        def v(seq, k):
            return kind([s[k] for s in seq])
        for got, ref, what in [(c.project(v(pts, 0), v(pts, 1)), want, "projection"), (c.project(v(want, 0), v(want, 1), inverse=True), back, "inverse projection"),
                               (c.transform(other, v(want, 0), v(want, 1)), trans, "transformation"),
                               (c.inverse(kind([1.0]*n), kind([2.0]*n), v(pts, 0), v(pts, 1)), az, "geodesic"),
                               (c.forward(v(pts, 0), v(pts, 1), kind([30.0]*n), kind([1e5]*n)), fw, "geodesic from a point")]:
            for k in range(n):
                for d in range(len(ref[k])):
                    ctx.close(float(got[d][k]), ref[k][d], 1e-6, "%s of a %s by %s" % (what, kind.__name__, c.name))
            ctx.op()
    for x, y in [(3, 4), (-100, 40)]:
        a, b = c.project(x, y), c.project(float(x), float(y))
        ctx.eq(tuple(a), tuple(b), "projection of integers by %s" % c.name)
    if isinstance(c, ProjectedCRS):
        r = c.transform(other, want[0][0], want[0][1], 123.5)
        ctx.eq(len(r), 3, "three-dimensional transformation")
        ctx.close(r[2], 123.5, 1e-9 if "towgs84" not in c.proj4 else 1e3, "height")
    else:
        rad = c.project(pts[0][0], pts[0][1], radians=True)
        ctx.close(float(rad[0]), pts[0][0]*D, 1e-12, "radians")
        ctx.close(float(rad[1]), pts[0][1]*D, 1e-12, "radians")
    # angles in radians
    a1 = c.inverse(1.0, 2.0, -100.0, 40.0)
    a2 = c.inverse(1.0*D, 2.0*D, -100.0*D, 40.0*D, radians=True)
    for k in (0, 1):
        ctx.close(a2[k]/D, a1[k], 1e-9, "azimuth in radians")
    ctx.close(a2[2], a1[2], 1e-6, "distance of positions in radians")
    f1 = c.forward(1.0, 2.0, -50.0, 1e6)
    f2 = c.forward(1.0*D, 2.0*D, -50.0*D, 1e6, radians=True)
    for k in range(3):
        ctx.close(f2[k]/D, f1[k], 1e-9, "position in radians")
    ctx.op(10)
    ctx.state(("kinds", case[1]))
    ctx.trace()
    ctx.outcome("kinds")

def run_wkt(case, ctx):
    i = case[1]
    c = make(i)
    n = crs_from_wkt(c.get_wkt())
    a, b = axes(0) if c is SphericalEarth else axes(i)
    check_ellipsoid(ctx, n.ellipsoid, a, b, 2e-3, "%s from its WKT" % c.name)
    for x, y in LAND:
        p, r = c.project(x, y), n.project(x, y)
        ctx.close(r[0], p[0], 1e-5, "%s from its WKT: x" % c.name)
        ctx.close(r[1], p[1], 1e-5, "%s from its WKT: y" % c.name)
        ctx.op()
    X, Y = [p[0] for p in LAND], [p[1] for p in LAND]
    one, two = LonLatWGS84.transform(c, X, Y), LonLatWGS84.transform(n, X, Y)
    for k in range(len(X)):
        for d in (0, 1):
            ctx.close(two[d][k], one[d][k], 1e-4 if isinstance(c, ProjectedCRS) else 1e-9, "position in %s from its WKT" % c.name)
    again = crs_from_wkt(n.get_wkt())
    ctx.eq(pyproj.CRS(again.proj4).to_proj4(), pyproj.CRS(n.proj4).to_proj4(), "%s from its WKT twice" % c.name)
    ctx.op(3)
    ctx.state(("wkt", i))
    ctx.trace()
    ctx.outcome("wkt")

def tr(ctx, a, b, X, Y):
    ctx.op()
    return a.transform(b, X, Y)[:2]

def run_chain(case, ctx):
    """From system i to j and on to every other: the same position whichever way; and back again."""
    _, i, j = case
    a, b = make(i), make(j)
    P = [(x + 0.0, y + 0.0) for x, y in LAND]
    start = [a.project(x, y) for x, y in P]
    X, Y = [p[0] for p in start], [p[1] for p in start]
    U, V = tr(ctx, a, b, X, Y)
    same = datum(i) == datum(j)
    ll = b.project(list(U), list(V), inverse=True)
    for k, (x, y) in enumerate(P):
        # the datum moves a position by less than 0.01 degree and not at all when it is the same
        tol = 1e-7 if same else 0.02
        ctx.close(ll[0][k], x, tol, "longitude after %s -> %s" % (a.name, b.name))
        ctx.close(ll[1][k], y, tol, "latitude after %s -> %s" % (a.name, b.name))
    S, T = tr(ctx, b, a, list(U), list(V))
    L = a.project(list(S), list(T), inverse=True)
    for k, (x, y) in enumerate(P):
        ctx.close(L[0][k], x, 1e-3 if "NAD27" in (datum(i), datum(j)) else 2e-6, "longitude after %s -> %s -> %s" % (a.name, b.name, a.name))
        ctx.close(L[1][k], y, 1e-3 if "NAD27" in (datum(i), datum(j)) else 2e-6, "latitude after %s -> %s -> %s" % (a.name, b.name, a.name))
    for m in range(0, NALL):
        if len({datum(i), datum(j), datum(m)}) > 1:
            continue
        c = make(m)
        one = tr(ctx, a, c, X, Y)
        two = tr(ctx, b, c, list(U), list(V))
        for k in range(len(P)):
            for d in (0, 1):
                ctx.close(two[d][k], one[d][k], 1e-7 if isinstance(c, GeographicalCRS) or "long" in c.proj4 else 1e-2, "%s -> %s -> %s" % (a.name, b.name, c.name))
        ctx.state((i, j, m))
    ctx.trace()
    ctx.outcome("chain same datum" if same else "chain")

DATUM = {1: "NAD27", 2: "NAD83", 14: "NAD83", 20: "NAD83", 21: "shift", 23: "NAD27"}

def datum(i):
    if i == 4 or i in (12, 13, 15, 16, 17, 18, 19):
        return "ellipsoid"+str(i)      # no datum: its own group
    return DATUM.get(i, "WGS84")

def run_helmert(case, ctx):
    """Geocentric translation computed here."""
    g = GeographicalCRS("+ellps=bessel", "DHDN", datum=TOW)
    t = ProjectedCRS("+proj=longlat +ellps=bessel " + TOW)
    a, b = axes(len(CRSS)+4)
    wa, wb = axes(0)
    shift = (598.1, 73.7, 418.2)
    for x, y in itertools.product(range(-170, 171, 20), range(-80, 81, 20)):
        n = a*a/math.sqrt((a*math.cos(y*D))**2 + (b*math.sin(y*D))**2)
        X = n*math.cos(y*D)*math.cos(x*D) + shift[0]
        Y = n*math.cos(y*D)*math.sin(x*D) + shift[1]
        Z = n*(b/a)**2*math.sin(y*D) + shift[2]
        lon = math.atan2(Y, X)/D
        e2 = 1-(wb/wa)**2
        lat = math.atan2(Z, math.hypot(X, Y)*(1-e2))
        for _ in range(20):
            N = wa/math.sqrt(1-e2*math.sin(lat)**2)
            lat = math.atan2(Z + e2*N*math.sin(lat), math.hypot(X, Y))
        lat /= D
        for s in (g, t):
            r = s.transform(LonLatWGS84, float(x), float(y))
            ctx.close(r[0], lon, 1e-8, "longitude of %s after the datum shift" % ((x, y),))
            ctx.close(r[1], lat, 1e-8, "latitude of %s after the datum shift" % ((x, y),))
            u = LonLatWGS84.transform(s, lon, lat)
            ctx.close(u[0], x, 1e-5, "longitude of %s after the inverse datum shift" % ((x, y),))
            ctx.close(u[1], y, 1e-5, "latitude of %s after the inverse datum shift" % ((x, y),))
            ctx.op(2)
        ctx.state(("helmert", x, y))
    ctx.trace()
    ctx.outcome("helmert")

# ---- geodesics
def globe(t):
    step = 10 if t else 20
    return [(float(x), float(y)) for x in range(-180, 180, step) for y in list(range(-80, 81, step)) + ([-90, 90] if t else [])]

def run_inverse(case, ctx):
    _, i, t = case
    c = make(i)
    a, b = axes(i)
    g = pyproj.Geod(a=a, b=b)
    P = globe(t)
    for p in P:
        n = len(P)
        X, Y, U, V = [p[0]]*n, [p[1]]*n, [r[0] for r in P], [r[1] for r in P]
        az, baz, d = c.inverse(X, Y, U, V)
        waz, wbaz, wd = g.inv(X, Y, U, V)
        back = c.forward(X, Y, list(az), list(d))
        for k in range(n):
            ctx.true(-180 <= az[k] < 180 and -180 <= baz[k] < 180, "azimuths %r, %r out of range by %s", az[k], baz[k], c.name)
            ctx.close(d[k], wd[k], 1e-2, "distance from %s to %s by %s" % (p, P[k], c.name))
            near = wd[k] < 1 or wd[k] > 1.98e7
            if not near:
                ctx.true(lonclose(az[k], waz[k], 1e-6), "azimuth %r from %s to %s, expected %r by %s", az[k], p, P[k], waz[k], c.name)
                ctx.true(lonclose(baz[k], wbaz[k], 1e-6), "back azimuth %r from %s to %s, expected %r by %s", baz[k], p, P[k], wbaz[k], c.name)
            if a == b:
                s1, s2 = math.sin((V[k]-Y[k])*D/2), math.sin((U[k]-X[k])*D/2)
                h = 2*a*math.asin(min(1, math.sqrt(s1*s1 + math.cos(Y[k]*D)*math.cos(V[k]*D)*s2*s2)))
                ctx.close(d[k], h, 1e-2 if h < 1.99e7 else 1.0, "spherical distance from %s to %s" % (p, P[k]))
            # the geodesic leads there
            ctx.close(back[1][k], V[k], 1e-6, "latitude of the end of the geodesic by %s" % c.name)
            ctx.true(abs(V[k]) == 90 or lonclose(back[0][k], U[k], 1e-6), "longitude %r of the end of the geodesic to %s by %s", back[0][k], P[k], c.name)
        ctx.op(2*n)
        ctx.state(("inverse", i, p))
    ctx.trace()
    ctx.outcome("inverse")

def run_forward(case, ctx):
    i = case[1]
    c = make(i)
    a, b = axes(i)
    g = pyproj.Geod(a=a, b=b)
    for x, y in [(0.0, 0.0), (-179.0, 10.0), (179.5, -65.0), (30.0, 89.0), (100.0, -89.0), (-75.25, 45.5), (0.0, 60.0), (367.0, 20.0)]:
        for az in list(range(-180, 181, 20)) + [270]:
            for d in (0.0, 1.0, 1e3, 1e5, 1e6, 5e6, 1.2e7, 1.9e7):
                r = c.forward(x, y, float(az), d)
                w = g.fwd(x if x < 180 else x-360, y, float(az), d)
                ctx.true(lonclose(r[0], w[0], 1e-7) and -180 <= r[0] <= 180, "longitude %r of %s, expected %r by %s", r[0], (x, y, az, d), w[0], c.name)
                ctx.close(r[1], w[1], 1e-7, "latitude of %s by %s" % ((x, y, az, d), c.name))
                ctx.true(lonclose(r[2], w[2], 1e-7) and -180 <= r[2] < 180, "back azimuth %r of %s, expected %r by %s", r[2], (x, y, az, d), w[2], c.name)
                ctx.op()
                ctx.state(("forward", i, x, az, d))
    ctx.trace()
    ctx.outcome("forward")

def run_equality(case, ctx):
    _, i, j = case
    a, b = make(i), make(j)
    same = i == j
    if isinstance(a, ProjectedCRS) or isinstance(b, ProjectedCRS):
        ctx.eq(a == b, same, "%s == %s" % (a.name, b.name))
        ctx.eq(a != b, not same, "%s != %s" % (a.name, b.name))
        if same:
            ctx.eq(hash(a), hash(b), "hash of %s" % a.name)
            named = ProjectedCRS(a.proj4, name="something else")
            ctx.true(named == a and hash(named) == hash(a) and not named != a, "%s under another name", a.name)
            ctx.eq(len({a, b, named}), 1, "set of one system")
    elif a is b:
        ctx.true(a == b and not a != b and hash(a) == hash(b), "%s equals itself", a.name)
    for o in (None, 3, "x", a.proj4, Cartesian, [a]):
        ctx.true(not a == o and a != o and not o == a, "%s == %r", a.name, o)
    ctx.op(3)
    ctx.state(("eq", i, j))
    ctx.trace()
    ctx.outcome("equal" if same else "different")

def run_cartesian(case, ctx):
    k = case[1]
    c = Cartesian
    V = [-7.5, -1.0, 0.0, 1.0, 3.0, 1e6]
    P = list(itertools.product(V, repeat=2))
    for p in P:
        if k == 0:
            ctx.eq(tuple(c.project(*p)), p, "projection")
            ctx.eq(tuple(c.project(*p, inverse=True)), p, "inverse projection")
        rows = []
        for r in P:
            d = math.hypot(r[0]-p[0], r[1]-p[1])
            az = math.atan2(r[0]-p[0], r[1]-p[1])/D
            rows.append((az, az+180, d))
            got = c.inverse(p[0], p[1], r[0], r[1]) if k < 2 else c.inverse(p[0], p[1], r[0], r[1], radians=True)
            got = (got[0], got[1], got[2]) if k < 2 else (got[0]/D, got[1]/D, got[2])
            ctx.true(lonclose(got[0], az, 1e-9) and lonclose(got[1], az+180, 1e-9), "azimuths %r from %s to %s", got[:2], p, r)
            ctx.close(got[2], d, 1e-9*(1+d), "distance")
            x, y, baz = c.forward(p[0], p[1], az, d) if k < 2 else c.forward(p[0], p[1], az*D, d, radians=True)
            ctx.close(x, r[0], 1e-9*(1+d), "x of the end")
            ctx.close(y, r[1], 1e-9*(1+d), "y of the end")
            ctx.true(lonclose(baz if k < 2 else baz/D, az+180, 1e-9), "back azimuth %r", baz)
            ctx.op(2)
            ctx.state((k, p, r))
        if k == 1:
            n = len(P)
            for kind in (list, np.array):
                az, baz, d = c.inverse(kind([p[0]]*n), kind([p[1]]*n), kind([r[0] for r in P]), kind([r[1] for r in P]))
                for m in range(n):
                    ctx.true(lonclose(az[m], rows[m][0], 1e-9) and lonclose(baz[m], rows[m][1], 1e-9), "azimuths %r %r of many", az[m], baz[m])
                    ctx.close(d[m], rows[m][2], 1e-9*(1+d[m]), "distances of many")
            x, y, baz = c.forward(np.array([p[0]]*n), np.array([p[1]]*n), np.array(az), np.array(d))
            for m in range(n):
                ctx.close(x[m], P[m][0], 1e-9*(1+d[m]), "x of many")
                ctx.close(y[m], P[m][1], 1e-9*(1+d[m]), "y of many")
    ctx.eq(c.proj4, "", "proj4")
    ctx.eq(c.wkt, "", "wkt")
    ctx.trace()
    ctx.outcome("cartesian")

def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)
