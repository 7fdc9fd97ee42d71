"""Geodesy: distances, azimuths, destinations and areas on spheres and ellipsoids are the mathematical ones."""
import itertools, math, warnings
import numpy as np
import pyproj
from karta import geodesy as G
from karta.errors import NoIntersection

RULE = ("a case is one ellipsoid with one pair of latitudes or one starting point, taken to every difference of longitude of a list that is dense around "
        "0, 180 and the antipodal region; or one great-circle segment against all others of a lattice; non-trivial = one such set compared")
BOUNDS = {"quick": "6 ellipsoids, all pairs of 21 latitudes with 40 differences of longitude and 3 starting meridians; forward from 14 latitudes along 26 azimuths by 12 lengths; areas "
                   "of all the same segments; distances and azimuths between all pairs of 272 positions of the sphere; all pairs of 520 great-circle segments; all triples of 25 angles",
          "thorough": "all pairs of 41 latitudes, 12 ellipsoids, all pairs of 1100 segments"}
ASSUMPTIONS = ["pyproj's geodesics and polygon areas (GeographicLib) are exact; distances on the sphere are computed here", "distances agree to 1 mm, ends of geodesics to 1 cm, areas to 1e-8",
               "where several shortest geodesics exist any of them may be returned, and no area is required", "sphere_distance and radian functions take radians, the others degrees"]

warnings.simplefilter("error", RuntimeWarning)
D = math.pi/180
ELLPS = [("WGS84", 6378137.0, 6356752.314245), ("clrk80", 6378249.145, 6378249.145*(1-1/293.4663)), ("sphere", 6370997.0, 6370997.0), ("mprts", 6397300.0, 6397300.0*(1-1/191.0)),
         ("mars", 3396190.0, 3376200.0), ("unit", 1.0, 0.997)]
MORE = [("airy", 6377563.396, 6356256.910), ("krass", 6378245.0, 6378245.0*(1-1/298.3)), ("CPM", 6375738.7, 6375738.7*(1-1/334.29)), ("intl", 6378388.0, 6378388.0*(1-1/297.0)),
        ("flat", 100.0, 99.0), ("moonlike", 1737400.0, 1737399.0)]
LAT = [-90, -89.9999, -80, -60, -45, -30, -10, -1, -0.1, -0.001, 0, 0.001, 0.5, 1, 10, 30, 30.001, 45, 60, 89.9999, 90]
LATS2 = sorted(set(LAT + [-89, -75, -70, -66.5, -50, -40, -35, -20, -15, -5, -1e-6, 1e-6, 5, 15, 23.5, 29.999, 35, 52, 75, 89]))
DLON = [0, 1e-6, 0.001, 0.01, 0.1, 0.5, 1, 10, 45, 89, 90, 91, 120, 150, 170, 175, 178, 178.5, 179, 179.3, 179.38, 179.4, 179.42, 179.5, 179.6, 179.9, 179.99, 179.9999, 180,
        -0.001, -1, -45, -90, -135, -179, -179.4, -179.9, -179.9999, 359, 400]
LENGTHS = [0.0, 1e-7, 1e-4, 1e-2, 0.1, 0.5, 1.0, 1.5, 2.0, 2.9, 3.1, 6.5]       # times the semimajor axis

def wrap(x):
    return (x+180) % 360 - 180

def same(a, b, tol):
    return abs(wrap(a-b)) <= tol

def cases(tier):
    t = tier == "thorough"
    ell = ELLPS + (MORE if t else [])
    lats = LATS2 if t else LAT
    for e in ell:
        for y in lats:
            yield ["inverse", e, y, t]
            yield ["area", e, y, t]
    for e in ell:
        for y in [-90, -89.9999, -60, -45, -10, -0.001, 0, 0.001, 10, 30, 45, 60, 89.9999, 90]:
            yield ["forward", e, y]
        yield ["radius", e]
    for y in (-90, -89.9999, -60, -45, -10, -1e-9, 0, 1e-9, 10, 10.5, 30, 45, 60, 80, 89.9999, 90):
        yield ["sphere", y]
    segs = SEGS2 if t else SEGS
    for i in range(len(segs)):
        yield ["cross", i, t]
    yield ["angles", 0]
    yield ["plane", 0]
    yield ["vectors", 0]
    for k in range(len(FUNCS)):
        yield ["roots", k]

def geod(e, memo={}):
    if e[0] not in memo:
        memo[e[0]] = pyproj.Geod(a=e[1], b=e[2])
    return memo[e[0]]

def run_inverse(case, ctx):
    _, e, y1, t = case
    name, a, b = e
    g = geod(e)
    mm = 1e-3*a/6.4e6
    for y2 in (LATS2 if t else LAT):
        for dl in DLON:
            for x1 in (0.0, 170.0, -180.0):
                x2 = x1+dl
                what = "%s from %s to %s" % (name, (x1, y1), (x2, y2))
                az, baz, d = G.ellipsoidal_inverse(a, b, x1, float(y1), float(x2), float(y2))
                waz, wbaz, wd = g.inv(x1, y1, x2, y2)
                ctx.close(d, wd, mm + 1e-11*a, "distance, " + what)
                ctx.true(-180 <= az <= 180 and -180 <= baz <= 180, "azimuths %r and %r, %s", az, baz, what)
                for p, q, z in (((x1, y1), (x2, y2), az), ((x2, y2), (x1, y1), baz)):
                    X, Y, _ = g.fwd(p[0], p[1], z, d)
                    miss = g.inv(X, Y, q[0], q[1])[2]
                    ctx.true(miss <= 10*mm, "%s: azimuth %r leads %g from the end", what, z, miss)
                ctx.op()
                ctx.state((name, y1, y2, dl, x1))
    ctx.trace()
    ctx.outcome("inverse")

def run_area(case, ctx):
    _, e, y1, t = case
    name, a, b = e
    g = geod(e)
    for y2 in (LATS2 if t else LAT):
        for dl in DLON:
            w = wrap(dl)
            if y1 == y2 == 0 or y1 == -y2 and (abs(y1) == 90 or abs(w) > 178.4) or abs(w) == 180:
                continue        # no or several geodesics
            for x1 in (0.0, 170.0, -180.0):
                x2 = x1+w
                S, _ = g.polygon_area_perimeter([x1, x2, x2, x1+0.5*w, x1], [y1, y2, 0, 0, 0])
                S = -S
                s = G.ellipsoidal_area(a, b, x1, float(y1), x1+float(dl), float(y2))
                what = "%s, area below (%r, %r) to (%r, %r)" % (name, x1, y1, x1+dl, y2)
                tol = 1e-8*abs(S)+1e-11*a*a
                if max(abs(y1), abs(y2)) == 89.9999:
                    tol += 1e-9*a*a
                ctx.close(s, S, tol, what)
                if a == b:
                    ctx.close(G.spherical_area(a, x1, y1, x1+dl, y2), S, tol, what + " on the sphere")
                ctx.op()
                ctx.state(("area", name, y1, y2, dl, x1))
    ctx.trace()
    ctx.outcome("area")

def run_forward(case, ctx):
    _, e, y = case
    name, a, b = e
    g = geod(e)
    deg = 1e-9
    for x in (0.0, 179.999, -180.0, 75.25):
        for az in list(range(-180, 181, 15)) + [0.001, 89.999, 90.001, 179.999, 270]:
            for k in LENGTHS:
                d = k*a
                r = G.ellipsoidal_forward(a, b, x, float(y), float(az), d)
                w = g.fwd(x, y, az, d)
                what = "%s from %s along %r by %r" % (name, (x, y), az, d)
                ctx.true(-180 <= r[0] <= 180 and -90 <= r[1] <= 90 and -180 <= r[2] <= 180, "%s: %r", what, r)
                miss = g.inv(r[0], r[1], w[0], w[1])[2]
                ctx.true(miss <= 1e-9*a, "%s: %g from the destination", what, miss)
                if abs(w[1]) < 89.9 and abs(y) < 90:
                    ctx.true(same(r[2], w[2], 1e-6), "%s: back azimuth %r, expected %r", what, r[2], w[2])
                elif miss <= 1e-9*a and abs(w[1]) < 89.9:      # from a pole
                    ctx.true(same(r[2], w[2], 1e-6), "%s: back azimuth %r, expected %r", what, r[2], w[2])
                ctx.op()
                ctx.state((name, x, y, az, k))
    ctx.trace()
    ctx.outcome("forward")

def run_radius(case, ctx):
    _, (name, a, b) = case
    e2 = 1-(b/a)**2
    n = 20000 if a != b else 1
    # area of the ellipsoid by Simpson's rule over latitude
    h = math.pi/2/n
    def f(p):
        return math.cos(p)/(1-e2*math.sin(p)**2)**2
    s = f(0)+f(math.pi/2) + sum((4 if i % 2 else 2)*f(i*h) for i in range(1, n))
    want = math.sqrt(b*b*s*h/3) if a != b else a
    ctx.close(G.authalic_radius(a, b), want, 1e-9*a, "authalic radius of %s" % name)
    ctx.op()
    ctx.state(("radius", name))
    ctx.trace()
    ctx.outcome("radius")

LON = [-180, -179.9999, -135, -90, -10, -1e-3, 0, 1e-9, 0.3, 0.57, 0.6, 45, 90, 135, 179, 179.9999, 180, 315, 359, 360]

def run_sphere(case, ctx):
    y1 = case[1]
    for x1, x2 in itertools.product(LON, repeat=2):
        for y2 in (-90, -89.9999, -60, -45, -10, -1e-9, 0, 1e-9, 10, 10.5, 30, 45, 60, 80, 89.9999, 90):
            u, v = vec(x1, y1), vec(x2, y2)
            c = cross(u, v)
            w = math.atan2(math.sqrt(dot(c, c)), dot(u, v))
            what = "from %s to %s" % ((x1, y1), (x2, y2))
            ctx.close(G.sphere_distance(x1*D, y1*D, x2*D, y2*D), w, 1e-7, "distance " + what)
            ctx.close(G.sphere_distance(x1*D, y1*D, x2*D, y2*D, radius=100.0), 100*w, 1e-5, "distance " + what)
            if 1e-6 < w < math.pi-1e-6:
                e = (-math.sin(x1*D), math.cos(x1*D), 0)
                n = (-math.sin(y1*D)*math.cos(x1*D), -math.sin(y1*D)*math.sin(x1*D), math.cos(y1*D))
                az = math.atan2(dot(v, e), dot(v, n))/D
                got = G.sphere_azimuth(x1, y1, x2, y2)/D
                ctx.true(same(got, az, 1e-5), "azimuth %r %s, expected %r", got, what, az)
            ctx.op(2)
            ctx.state((x1, y1, x2, y2))
    xs = LON
    n = len(xs)
    got = G.sphere_distance([0.1]*n, [y1*D]*n, [x*D for x in xs], [0.2]*n)
    az = G.sphere_azimuth([3.0]*n, [float(y1)]*n, xs, [20.0]*n)
    for k in range(n):
        ctx.eq(float(got[k]), G.sphere_distance(0.1, y1*D, xs[k]*D, 0.2), "distance of one of many")
        ctx.eq(float(az[k]), G.sphere_azimuth(3.0, float(y1), xs[k], 20.0), "azimuth of one of many")
    ctx.trace()
    ctx.outcome("sphere")

# ---- great circle segments
def vec(x, y):
    return (math.cos(y*D)*math.cos(x*D), math.cos(y*D)*math.sin(x*D), math.sin(y*D))

def cross(u, v):
    return (u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0])

def dot(u, v):
    return u[0]*v[0]+u[1]*v[1]+u[2]*v[2]

def segments(pts, every):
    s = []
    for i, (a, b) in enumerate(itertools.permutations(pts, 2)):
        u, v = vec(*a), vec(*b)
        if dot(u, v) < -0.999 or dot(u, v) > 0.999999 or i % every:
            continue
        s.append((a, b))
    return s
GRID = [(x, y) for x in (-170, -120, -60, 0, 50, 110, 165, 180) for y in (-70, -30, 0, 20, 65)]
SEGS = segments(GRID, 3)
SEGS2 = segments(GRID, 2)[:1100]

def side(n, p):
    d = dot(n, p)
    return 0 if abs(d) < 1e-9 else (1 if d > 0 else -1)

def on_arc(p, u, v):
    n = cross(u, v)
    return abs(dot(n, p))/math.sqrt(dot(n, n)) < 1e-7 and dot(cross(u, p), n) > -1e-9 and dot(cross(p, v), n) > -1e-9

def run_cross(case, ctx):
    _, i, t = case
    segs = SEGS2 if t else SEGS
    a, b = segs[i]
    u, v = vec(*a), vec(*b)
    n = cross(u, v)
    for c, d in segs:
        p, q = vec(*c), vec(*d)
        m = cross(p, q)
        sp, sq, su, sv = side(n, p), side(n, q), side(m, u), side(m, v)
        touch = any(on_arc(*k) for k in ((p, u, v), (q, u, v), (u, p, q), (v, p, q)))
        proper = False
        if 0 not in (sp, sq, su, sv) and sp != sq and su != sv:
            w = cross(n, m)
            w = tuple(k/math.sqrt(dot(w, w)) for k in w)
            for s in (1, -1):
                r = tuple(s*k for k in w)
                if on_arc(r, u, v) and on_arc(r, p, q):
                    proper = True
        what = "%s and %s" % ((a, b), (c, d))
        for args in (((a, b), (c, d)), ([list(a), list(b)], [c+(7.0,), d+(8.0,)])):
            try:
                r = G.intersection_spherical(*args)
            except NoIntersection:
                r = None
            if proper or touch:
                ctx.true(r is not None, "no intersection of %s", what)
                w = vec(r[0], r[1])
                ctx.true(len(r) == 2 and on_arc(w, u, v) and on_arc(w, p, q), "%r is not on %s", r, what)
                ctx.true(-180 <= r[0] <= 180 and -90 <= r[1] <= 90, "%r is no position", r)
            else:
                ctx.true(r is None, "intersection %r of %s", r, what)
            ctx.op()
        ctx.outcome("proper" if proper else "touch" if touch else "none")
    ctx.state((a, b))
    ctx.trace()

ANG = [-720, -540, -359.5, -270, -225, -180, -179, -135, -90, -45, -1, 0, 1, 45, 89, 90, 134.5, 135, 179, 180, 181, 270, 359, 360, 540]

def run_angles(case, ctx):
    for x in ANG:
        ctx.close(G.reduce_deg(x), x - 360*math.floor((x+180)/360.), 1e-9, "reduce_deg(%r)" % x)
        ctx.close(G.unroll_deg(x), x - 360*math.floor(x/360.), 1e-9, "unroll_deg(%r)" % x)
        r, un = G.reduce_rad(x*D), G.unroll_rad(x*D)
        ctx.true(-math.pi-1e-9 <= r <= math.pi+1e-9 and same(r/D, x, 1e-9), "reduce_rad(%r) = %r", x*D, r)
        ctx.true(0 <= un <= 2*math.pi+1e-9 and same(un/D, x, 1e-9), "unroll_rad(%r) = %r", x*D, un)
        ctx.op(4)
    for f in (G.reduce_rad, G.unroll_rad):
        for kind in (list, tuple, np.array):
            got = f(kind([x*D for x in ANG]))
            ctx.true(len(got) == len(ANG) and all(got[k] == f(ANG[k]*D) for k in range(len(ANG))), "angles of a %s", kind.__name__)
    for f in (G.reduce_deg, G.unroll_deg):
        got = f(np.array(ANG))
        ctx.true(all(got[k] == f(ANG[k]) for k in range(len(ANG))), "array of angles")
    for x, x0, x1 in itertools.product(ANG, repeat=3):
        w = (x1-x0) % 360
        if w == 180:
            continue        # either half circle
        lo, span = (x0, w) if w < 180 else (x1, 360-w)
        want = (x-lo) % 360 <= span
        ctx.eq(bool(G.isbetween_circular(x, x0, x1)), want, "isbetween_circular(%r, %r, %r)" % (x, x0, x1))
        ctx.op()
        ctx.state((x, x0, x1))
    ctx.trace()
    ctx.outcome("angles")

def run_plane(case, ctx):
    V = [-7.5, -1.0, 0.0, 1.0, 3.0, 1e6]
    P = list(itertools.product(V, repeat=2))
    for p in P:
        n = len(P)
        many = G.plane_distance([p[0]]*n, [p[1]]*n, [q[0] for q in P], [q[1] for q in P])
        azs = G.plane_azimuth([p[0]]*n, [p[1]]*n, np.array([q[0] for q in P]), [q[1] for q in P])
        for k, q in enumerate(P):
            d = math.hypot(q[0]-p[0], q[1]-p[1])
            az = math.atan2(q[0]-p[0], q[1]-p[1])
            for g in (G.plane_distance(p[0], p[1], q[0], q[1]), many[k]):
                ctx.close(g, d, 1e-9*(1+d), "plane distance %s %s" % (p, q))
            for g in (G.plane_azimuth(p[0], p[1], q[0], q[1]), azs[k]):
                ctx.close(g, az, 1e-12, "plane azimuth %s %s" % (p, q))
            ctx.op(2)
            ctx.state((p, q))
    ctx.trace()
    ctx.outcome("plane")

def run_vectors(case, ctx):
    for x in range(-180, 181, 5):
        for y in range(-90, 91, 5):
            v, w = G.sph2cart(x, y), vec(x, y)
            for k in range(3):
                ctx.close(v[k], w[k], 1e-12, "vector of %s" % ((x, y),))
            lon, lat = G.cart2sph(*[7.0*k for k in v])
            ctx.close(lat, y, 1e-6 if abs(y) == 90 else 1e-9, "latitude of the vector of %s" % ((x, y),))
            ctx.true(abs(y) == 90 or same(lon, x, 1e-9), "longitude %r of the vector of %s", lon, (x, y))
            ctx.op(2)
            ctx.state((x, y))
    R = (-2, 0, 1, 3)
    for u in itertools.product(R, repeat=3):
        for v in itertools.product(R, repeat=3):
            ctx.eq(tuple(G.cross(u, v)), cross(u, v), "cross product")
            ctx.eq(G.dot(u, v), dot(u, v), "dot product")
            ctx.op(2)
    for p, q in itertools.permutations(GRID[::3], 2):
        e = G.eulerpole(p, q)
        for r in (p, q):
            ctx.close(dot(e, vec(*r)), 0, 1e-12, "pole of %s" % ((p, q),))
        ctx.true(dot(e, cross(vec(*p), vec(*q))) >= 0, "pole of %s is reversed", (p, q))
        ctx.op()
    ctx.trace()
    ctx.outcome("vectors")

FUNCS = [("x**3-2*x-5", lambda x: x**3-2*x-5, [2.0945514815423265]), ("cos x - x", lambda x: math.cos(x)-x, [0.7390851332151607]), ("x", lambda x: x, [0.0]),
         ("x**3", lambda x: x**3, [0.0]), ("exp(x)-1", lambda x: math.exp(x)-1, [0.0]), ("atan(40*(x-1))", lambda x: math.atan(40*(x-1)), [1.0]),
         ("x**2-2", lambda x: x*x-2, [-math.sqrt(2), math.sqrt(2)]), ("step", lambda x: -1.0 if x < 0.3 else 2.0, [0.3]), ("(x-1)(x-2)(x-3)", lambda x: (x-1)*(x-2)*(x-3), [1.0, 2.0, 3.0]),
         ("sin", math.sin, [-math.pi, 0.0, math.pi]), ("1e-6*(x-0.5)", lambda x: 1e-6*(x-0.5), [0.5])]

def run_roots(case, ctx):
    name, f, roots = FUNCS[case[1]]
    V = [-4.0, -3.0, -2.5, -1.0, -0.5, 0.0, 0.25, 0.7, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0]
    for a, b in itertools.product(V, repeat=2):
        for tol in (1e-12, 1e-6):
            if f(a)*f(b) > 0:
                ctx.raises(ValueError, lambda: G.fzero_brent(a, b, f, tol), "%s between %r and %r" % (name, a, b))
                ctx.outcome("no bracket")
            else:
                r = G.fzero_brent(a, b, f, tol)
                lo, hi = min(a, b), max(a, b)
                near = min(abs(r-q) for q in roots)
                ctx.true(lo-1e-12 <= r <= hi+1e-12, "root %r of %s outside of %r to %r", r, name, a, b)
                ctx.true(near <= max(tol, 1e-11) or abs(f(r)) == 0 or name == "x**3" and near < 1e-4, "root of %s between %r and %r: %r", name, a, b, r)
                ctx.outcome("root")
            ctx.op()
            ctx.state((case[1], a, b, tol))
    ctx.trace()

def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)
