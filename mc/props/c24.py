"""Equally spaced points along lines: exactly the positions at equal distances along the line, whatever its segments."""
import itertools, math
import numpy as np
import pyproj
from karta.vector.geometry import Point, Line, Multipoint
from karta.raster.grid import RegularGrid
from karta.crs import Cartesian, LonLatWGS84, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth

RULE = ("a case is the first two vertices of all lines of a lattice, or one grid and line; positions along the line are found by a separate parametrisation by arc "
        "length (by GeographicLib on the globe); non-trivial = one such family of lines compared")
BOUNDS = {"quick": "all lines of 2..4 vertices of a 3x3 lattice and 2..3 vertices of a 3-D lattice with repeated vertices, 12 spacings and 8 numbers of points each; all lines of 2..3 "
                   "vertices on 12 positions of the globe and of 2..4 vertices along meridians and the equator in 3 systems; all sign combinations of the cell sizes of a grid, all lines of 3 vertices",
          "thorough": "lines of 5 vertices, all lines of 4 vertices on the globe"}
ASSUMPTIONS = ["when the length is a multiple of the spacing up to rounding, the last point may be left out unless all lengths are exact", "segments between opposite positions of the globe are left out"]
PTS = [(x, y) for x in (0.0, 3.0, 7.0) for y in (0.0, 4.0, 4.3)]
PTS3 = [(0.0, 0.0, 0.0), (2.0, 1.0, 2.0), (2.0, 1.0, 5.0), (0.0, 0.0, 0.2), (-4.0, 3.0, 0.0), (0.1, 0.0, -12.0)]
DXS = [0.1, 0.7, 1.0, 1.5, 2.0, 2.9, 3.0, 4.0, 5.0, 7.5, 12.0, 100.0]
NS = [1, 2, 3, 4, 5, 8, 11, 20]
GLOBE = [(0.0, 40.0), (120.0, 40.0), (0.0, 40.0001), (170.0, -5.0), (-175.0, 12.0), (-175.0, 85.0), (30.0, 89.5), (-60.0, -70.0), (30.0, 0.0), (31.0, 0.0), (30.0, -45.0), (100.0, 0.5)]
CROSS = [(10.0, 0.0), (10.0, 31.0), (10.0, -2.5), (13.1, 0.0), (170.0, 0.0), (-170.0, 0.0), (-170.0, 80.0), (10.0, 31.4)]
CRS = [LonLatWGS84, SphericalEarth, LonLatNAD83]
GEOD = {LonLatWGS84.name: pyproj.Geod(ellps="WGS84"), SphericalEarth.name: pyproj.Geod(a=6370997.0, b=6370997.0), LonLatNAD83.name: pyproj.Geod(ellps="GRS80")}

def cases(tier):
    for a, b in itertools.product(range(len(PTS)), repeat=2):
        yield ["plane", a, b, tier == "thorough"]
    for a, b in itertools.product(range(len(PTS3)), repeat=2):
        yield ["space", a, b]
    for a, b in itertools.permutations(range(len(GLOBE)), 2):
        for k in range(3):
            yield ["globe", a, b, k, tier == "thorough" and k < 2]
    for k in range(8):
        yield ["profile", k]
    for a in range(len(CROSS)):
        for k in range(3):
            yield ["straight", a, k]
    for a, b in itertools.permutations(range(len(GLOBE)), 2):
        yield ["drift", a, b]

def sub(a, b):
    return [q-p for p, q in zip(a, b)]

def plane_at(pts, lens, s):
    for a, b, n in zip(pts, pts[1:], lens):
        if s <= n and n > 0:
            return tuple(p + s/n*(q-p) for p, q in zip(a, b))
        s -= n
    return pts[-1]

def counts(lens, dx):
    """Possible numbers of points at spacing dx."""
    total = math.fsum(lens)
    r = total/dx
    k = round(r)
    if abs(r-k) < 1e-7*max(1.0, r):
        if total == 0:
            return (1,)
        return (k+1,) if all(float(v).is_integer() for v in lens+[dx]) else (k, k+1)
    return (int(math.floor(r))+1,)

def check_line(ctx, line, pts, lens, at, tol, dxs, ns):
    before = [tuple(v) for v in line.vertices()]
    total = math.fsum(lens)
    dim = len(pts[0])
    for dx in dxs:
        m = line.to_points(dx)
        ok = counts(lens, dx)
        got = [tuple(v) for v in m.vertices()]
        what = "points every %r along %r" % (dx, pts)
        ctx.true(len(got) in ok, "%s: %d, expected %r", what, len(got), ok)
        for i, v in enumerate(got):
            ctx.eq(len(v), dim, "rank of " + what)
            w = at(min(i*dx, total))
            ctx.true(tol(v, w), "%s: number %d is %r, expected %r", what, i, v, w)
        ctx.op()
        ctx.true(isinstance(m, Multipoint) and m.crs == line.crs, "type and system")
    for n in ns:
        m = line.to_npoints(n)
        got = [tuple(v) for v in m.vertices()]
        what = "%d points along %r" % (n, pts)
        ctx.eq(len(got), n, "number of " + what)
        for i, v in enumerate(got):
            ctx.eq(len(v), dim, "rank of " + what)
            w = at(min(i*total/(n-1), total)) if n > 1 else pts[0]
            ctx.true(tol(v, w), "%s: number %d is %r, expected %r", what, i, v, w)
        ctx.eq(m.crs, line.crs, "crs")
        ctx.op()
    ctx.eq([tuple(v) for v in line.vertices()], before, "line after asking for points")
    ctx.evaluations += 1

def flat_tol(v, w):
    return all(abs(p-q) < 1e-8 for p, q in zip(v, w))

def run_plane(case, ctx):
    _, a, b, deep = case
    lines = [[PTS[a], PTS[b]]] + [[PTS[a], PTS[b], c] for c in PTS] + [[PTS[a], PTS[b], c, d] for c in PTS for d in PTS]
    if deep:
        lines += [[PTS[a], PTS[b], c, d, e] for c in PTS for d in PTS for e in PTS]
    for i, pts in enumerate(lines):
        lens = [math.hypot(*sub(p, q)) for p, q in zip(pts, pts[1:])]
        crs = (Cartesian, WebMercator, NSIDCNorth)[i % 3]
        line = Line(pts, crs=crs)
        dxs, ns = (DXS, NS) if len(pts) < 4 else (DXS[i % 3::3][-3:], NS[i % 4::4])
        check_line(ctx, line, pts, lens, lambda s: plane_at(pts, lens, s), flat_tol, dxs, ns)
        ctx.state(tuple(pts))
    ctx.raises(ValueError, lambda: line.to_points(0.0), "no spacing")
    ctx.raises(ValueError, lambda: line.to_points(-1.0), "negative spacing")
    ctx.trace()
    ctx.outcome("plane")

def run_space(case, ctx):
    _, a, b = case
    for c in [None] + PTS3:
        pts = [PTS3[a], PTS3[b]] + ([c] if c else [])
        lens = [math.sqrt(sum(d*d for d in sub(p, q))) for p, q in zip(pts, pts[1:])]
        line = Line(pts)
        check_line(ctx, line, pts, lens, lambda s: plane_at(pts, lens, s), flat_tol, DXS, NS)
        # height above the globe in metres, positions a little apart in degrees
        for k, crs in enumerate((LonLatWGS84, SphericalEarth)):
            g = GEOD[crs.name]
            scale = 111000.0
            gp = [(p[0], p[1], p[2]*scale) for p in pts]
            legs = [g.inv(p[0], p[1], q[0], q[1]) for p, q in zip(gp, gp[1:])]
            lens = [math.hypot(l[2], q[2]-p[2]) for l, p, q in zip(legs, gp, gp[1:])]
            def at(s):
                for (az, _, d), n, p, q in zip(legs, lens, gp, gp[1:]):
                    if s <= n and n > 0:
                        x, y, _ = g.fwd(p[0], p[1], az, d*s/n)
                        return (x, y, p[2] + s/n*(q[2]-p[2]))
                    s -= n
                return gp[-1]
            def tol(v, w):
                return abs(v[0]-w[0]) < 1e-6 and abs(v[1]-w[1]) < 1e-6 and abs(v[2]-w[2]) < 0.1
            check_line(ctx, Line(gp, crs=crs), gp, lens, at, tol, [], NS[:6])
        p = Point(pts[0], crs=Cartesian)
        q = p.walk(5.0, 90.0)
        ctx.eq(len(q.vertex()), 3, "rank of a walk")
        ctx.close(q.z, pts[0][2], 1e-12, "height of a walk")
        ctx.state(tuple(pts))
    ctx.trace()
    ctx.outcome("space")

def run_globe(case, ctx):
    _, a, b, k, deep = case
    crs = CRS[k]
    g = GEOD[crs.name]
    lines = [[GLOBE[a], GLOBE[b]]] + [[GLOBE[a], GLOBE[b], c] for c in GLOBE]
    if deep:
        lines += [[GLOBE[a], GLOBE[b], c, d] for c in GLOBE[:6] for d in GLOBE[3:9]]
    for i, pts in enumerate(lines):
        legs = [g.inv(p[0], p[1], q[0], q[1]) for p, q in zip(pts, pts[1:])]
        if any(l[2] > 1.9e7 for l in legs):
            continue
        lens = [l[2] for l in legs]
        def at(s):
            for (az, _, d), p in zip(legs, pts):
                if s <= d and d > 0:
                    return g.fwd(p[0], p[1], az, s)[:2]
                s -= d
            return pts[-1]
        def tol(v, w):
            return g.inv(v[0], v[1], w[0], w[1])[2] < 0.05
        # numbers of points: precision of distances along the globe
        check_line(ctx, Line(pts, crs=crs), pts, lens, at, tol, [1e8], (2, 3, 7) if i else NS)
        ctx.state((k, tuple(pts)))
    ctx.trace()
    ctx.outcome("globe")

def run_straight(case, ctx):
    """Along meridians and the equator."""
    _, a, k = case
    crs = CRS[k]
    g = GEOD[crs.name]
    for n in (1, 2, 3):
        for rest in itertools.product(CROSS, repeat=n):
            pts = [CROSS[a]] + list(rest)
            if any(p[0] != q[0] and (p[1] or q[1]) for p, q in zip(pts, pts[1:])):
                continue
            legs = [g.inv(p[0], p[1], q[0], q[1]) for p, q in zip(pts, pts[1:])]
            lens = [l[2] for l in legs]
            if max(lens) > 1.9e7:
                continue
            def at(s):
                for (az, _, d), p in zip(legs, pts):
                    if s <= d and d > 0:
                        return g.fwd(p[0], p[1], az, s)[:2]
                    s -= d
                return pts[-1]
            def tol(v, w):
                return g.inv(v[0], v[1], w[0], w[1])[2] < 0.05
            check_line(ctx, Line(pts, crs=crs), pts, lens, at, tol, [4.1e5, 7.7e5, 3.3e6, 1e7], (5,) if n == 3 else NS)
            ctx.state((k, tuple(pts)))
    ctx.trace()
    ctx.outcome("straight")

def run_drift(case, ctx):
    """Oblique lines of the globe: the recorded finding is points in the initial direction of each segment, instead of along its geodesic."""
    _, a, b = case
    g = GEOD[LonLatWGS84.name]
    known = 0
    for c in [None] + GLOBE:
        pts = [GLOBE[a], GLOBE[b]] + ([c] if c else [])
        legs = [g.inv(p[0], p[1], q[0], q[1]) for p, q in zip(pts, pts[1:])]
        if any(l[2] > 1.9e7 for l in legs):
            continue
        for dx in (8.3e5, 3.1e6):
            got = [tuple(v) for v in Line(pts, crs=LonLatWGS84).to_points(dx).vertices()]
            true, s = [pts[0]], dx
            for (az, _, d), p in zip(legs, pts):
                while s <= d:
                    true.append(g.fwd(p[0], p[1], az, s)[:2])
                    s += dx
                s -= d
            drift, p0, need = [pts[0]], pts[0], dx
            for (az, _, d), p in zip(legs, pts[1:]):
                pos = 0
                while pos < d:
                    left = g.inv(p0[0], p0[1], p[0], p[1])[2]
                    if left >= need:
                        p0 = g.fwd(p0[0], p0[1], az, need)[:2]
                        drift.append(p0)
                        pos += need
                        need = dx
                    else:
                        p0, pos, need = p, d, need-left
            def same(w):
                return len(w) == len(got) and all(g.inv(u[0], u[1], v[0], v[1])[2] < 1 for u, v in zip(got, w))
            if not same(true):
                known += 1
                ctx.true(same(drift), "points every %r along %r: %r, expected %r", dx, pts, got, true)
            ctx.op()
        ctx.state(tuple(pts))
    ctx.trace()
    ctx.outcome("drift")
    if known:
        ctx.fail("points along oblique lines of the globe leave the line: each segment is followed in its initial direction", key="C24-to-points-initial-direction")

def run_profile(case, ctx):
    k = case[1]
    dx = 2.0 if k & 1 else -2.0
    dy = 1.5 if k & 2 else -1.5
    values = np.arange(48.0).reshape(6, 8)
    T = [0.0 if dx > 0 else 16.0, 0.0 if dy > 0 else 9.0, dx, dy, 0, 0]
    g = RegularGrid(T, values=values if k & 4 else np.dstack([values, -values]))
    spots = [(1.0, 1.0), (9.0, 1.0), (9.0, 7.3), (9.2, 7.3), (1.0, 4.0)]
    for pts in itertools.product(spots, repeat=3):
        if len(set(pts)) < 2:
            continue
        lens = [math.hypot(*sub(p, q)) for p, q in zip(pts, pts[1:])]
        for res in (None, 2.5):
            step = 1.5 if res is None else res
            p, z = g.profile(Line(list(pts)), **({} if res is None else {"resolution": res}))
            n = len(p)
            ctx.true(n in counts(lens, step), "profile of %r has %d points, expected %r", pts, n, counts(lens, step))
            for i in range(n):
                w = plane_at(list(pts), lens, i*step)
                ctx.true(flat_tol(p.vertices()[i], w), "point %d of the profile of %r", i, pts)
            s = g.sample(*p.coords()[:2])
            ctx.eq(np.asarray(z).tolist(), np.asarray(s).tolist(), "profile values")
            for b in range(1 if k & 4 else 2):
                ctx.eq([float(v) for v in p.d["band_%d" % b]], [float(v) for v in np.asarray(z)[b]], "profile attributes")
            ctx.op()
        ctx.state((k, pts))
    ctx.trace()
    ctx.outcome("profile")

def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)
