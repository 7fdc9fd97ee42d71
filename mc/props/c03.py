"""Sampling and resampling a grid return the value the stored cells define at that place."""
import itertools
from fractions import Fraction as F
import numpy as np
import karta
from karta.raster.grid import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand
from karta.vector.geometry import Point, Multipoint, Line
from karta.crs import Cartesian, LonLatWGS84, WebMercator

RULE = ("a case is one grid (size, bands, dtype, nodata, transform, storage) and a first sample position; inside it every "
        "other position of a quarter-cell lattice in and around the grid is sampled together with it through every public "
        "entry point (scalar, list, array, 2-d array, Point, Multipoint, resample, profile) and compared with exact "
        "rational nearest/bilinear interpolation of the stored cells; non-trivial = at least one sample was compared")
BOUNDS = {"quick": "grids 2x2..5x4 (and 1xN, Nx1 for nearest) x 1-3 bands x 9 dtypes x 6 transforms; all positions of the "
                   "half-cell lattice one cell beyond the grid, all pairs of positions on the 3x4 grids; 40 resampling "
                   "resolutions; grids of 300x300 cells crossing chunk borders; 3 coordinate system pairs",
          "thorough": "as quick with all pairs of positions of the quarter-cell lattice"}
ASSUMPTIONS = ["positions exactly between two cells (and exactly on the outer edge) may take the value of either side",
               "bilinear interpolation is specified where the four surrounding cells hold data and inside the rectangle of cell centers",
               "integer grids truncate an interpolated value toward zero"]

DTYPES = ["float64", "float32", "int16", "int32", "int64", "uint8", "uint16", "uint32"]
TRANS = [[0, 0, 1, 1, 0, 0], [-4, 10, 2, 0.5, 0, 0], [3, 7, 1, -1, 0, 0], [100, -50, -2, 4, 0, 0],
         [0, 0, 1, 1, 0.25, 0], [5, 5, 2, 4, 0.25, -0.5]]

def cell(i, j, b, dt):
    v = (i*37 + j*11 + b*53 + (i*j*j) % 7) % 101
    if dt.startswith("int") or dt.startswith("float"):
        v -= 50
    if dt in ("uint32", "int64") and (i + j) % 2:
        v += 70000 * (1 if dt == "uint32" else (-1 if j % 2 else 3))
    return v

class Comp(CompressedBand):
    """Compressed storage with chunks small enough to be crossed by small grids."""
    def __init__(self, size, dtype, initval=0):
        CompressedBand.__init__(self, size, dtype, chunksize=(2, 3) if size[0] < 50 else (256, 256), initval=initval)

def make(size, nb, dt, t, cls="comp", crs=Cartesian, nodata=None):
    v = np.array([[[cell(i, j, b, dt) for b in range(nb)] for j in range(size[1])] for i in range(size[0])]).astype(getattr(np, dt))
    if nb == 1:
        v = v[:, :, 0]
    return RegularGrid(t, values=v, crs=crs, nodata_value=nodata, bandclass=SimpleBand if cls == "simple" else Comp)

def world(t, pi, pj):
    """World coordinates of the center-based (row, column) position."""
    a, b, c, d, e, f = [F(v) for v in t]
    i, j = pi + F(1, 2), pj + F(1, 2)
    return float(a + j*c + i*e), float(b + i*d + j*f)

def ref_nearest(size, b, dt, pi, pj):
    """Set of acceptable cells' values, None standing for nodata."""
    def near(p, n):
        lo = p.__floor__()
        c = {lo} if p - lo < F(1, 2) else ({lo+1} if p - lo > F(1, 2) else {lo, lo+1})
        return c
    out = set()
    for i in near(pi, size[0]):
        for j in near(pj, size[1]):
            out.add(cell(i, j, b, dt) if 0 <= i < size[0] and 0 <= j < size[1] else None)
    return out

def ref_bilinear(size, b, dt, pi, pj):
    m, n = size
    if not (0 <= pi <= m-1 and 0 <= pj <= n-1):
        return None
    i0 = min(pi.__floor__(), m-2)
    j0 = min(pj.__floor__(), n-2)
    u, v = pi - i0, pj - j0
    s = (cell(i0, j0, b, dt)*(1-u)*(1-v) + cell(i0+1, j0, b, dt)*u*(1-v)
         + cell(i0, j0+1, b, dt)*(1-u)*v + cell(i0+1, j0+1, b, dt)*u*v)
    if not dt.startswith("float"):
        s = F(int(s))
    return s

def lattice(size, q, margin=1):
    return [(F(i, q), F(j, q)) for i in range(-margin*q, (size[0]-1+margin)*q + 1)
            for j in range(-margin*q, (size[1]-1+margin)*q + 1)]

def isnod(v, nodata):
    v = float(v)
    return v != v if nodata != nodata else v == float(nodata)

def verify(ctx, got, g, size, dt, P, method, what):
    """got: (nbands, n) array for the list of positions P."""
    nb = g.nbands
    for b in range(nb):
        for k, (pi, pj) in enumerate(P):
            ctx.evaluations += 1
            v = got[b][k]
            if method == "nearest":
                ok = ref_nearest(size, b, dt, pi, pj)
                if not ((None in ok and isnod(v, g.nodata)) or (float(v) in [float(o) for o in ok if o is not None])):
                    ctx.fail("%s: nearest at position (%s,%s) band %d is %r, expected one of %r" % (what, pi, pj, b, v, ok))
            else:
                want = ref_bilinear(size, b, dt, pi, pj)
                if want is None:
                    good = isnod(v, g.nodata)
                else:
                    good = abs(float(v) - float(want)) <= 1e-6*max(1, abs(float(want)))
                if not good:
                    ctx.fail("%s: bilinear at position (%s,%s) band %d is %r, expected %s" % (
                        what, pi, pj, b, v, "nodata" if want is None else float(want)))

def cases(tier):
    sizes = [(2, 2), (3, 4), (5, 4), (4, 2)]
    for size in sizes:
        for nb in (1, 2, 3):
            for dt in (DTYPES if nb != 3 else ["float64", "uint8"]):
                for k, t in enumerate(TRANS):
                    if dt == "float64" or k == len(dt) % 6 or k == 2:
                        yield ["lattice", size, nb, dt, t, "comp" if nb < 3 else "simple"]
    for size in [(1, 1), (1, 4), (4, 1)]:
        for nb in (1, 2):
            for t in TRANS:
                yield ["thin", size, nb, "float64", t]
    q = 4 if tier == "thorough" else 2
    for nb, dt, t in [(1, "float64", TRANS[0]), (2, "float64", TRANS[3]), (2, "int16", TRANS[2])]:
        for k in range(len(lattice((3, 4), q))):
            yield ["pairs", (3, 4), nb, dt, t, k, q]
    for size in [(3, 4), (4, 3), (1, 4), (4, 1), (2, 2)]:
        for nb in (1, 2):
            for t in TRANS:
                for dx, dy in itertools.product((0.25, 0.5, 1, 1.5, 2), (0.5, 1, 3)):
                    yield ["resample", size, nb, t, dx, dy]
    for k in range(12):
        yield ["big", k]
    for name in ("wm-ll", "ll-wm", "wm-wm"):
        for nb in (1, 2):
            for k in range(6):
                yield ["crs", name, nb, k]
    for t in TRANS:
        for nb in (1, 2):
            for res in (None, 0.5, 1, 2):
                yield ["profile", t, nb, res]

def all_forms(ctx, g, size, dt, P, t, methods):
    xy = [world(t, *p) for p in P]
    xs = [p[0] for p in xy]
    ys = [p[1] for p in xy]
    for method in methods:
        f = g.sample_nearest if method == "nearest" else g.sample_bilinear
        for what, got in (("list", f(xs, ys)), ("array", f(np.array(xs), np.array(ys))),
                          ("sample()", g.sample(xs, ys, method=method)),
                          ("Multipoint", g.sample(Multipoint(xy, crs=g.crs), method=method)),
                          ("3-d Multipoint", g.sample(Multipoint([p + (1.0,) for p in xy], crs=g.crs), method=method))):
            ctx.op()
            got = np.asarray(got)
            ctx.eq(got.shape, (g.nbands, len(P)), "shape of sample of %d points (%s)" % (len(P), what))
            verify(ctx, got, g, size, dt, P, method, what)

def run_lattice(size, nb, dt, t, cls, ctx):
    g = make(size, nb, dt, t, cls)
    P = lattice(size, 2)
    ctx.trace()
    ctx.state(("lattice", size, nb, dt, tuple(t), cls))
    all_forms(ctx, g, size, dt, P, t, ("nearest", "bilinear"))
    for method in ("nearest", "bilinear"):
        f = g.sample_nearest if method == "nearest" else g.sample_bilinear
        for k, p in enumerate(P):
            x, y = world(t, *p)
            got = np.atleast_1d(f(x, y))
            ctx.op()
            if len(got) == 1 and nb > 1:
                got = np.repeat(got, nb)       # a point outside: nodata for every band
            verify(ctx, [[v] for v in got], g, size, dt, [p], method, "scalar")
            if k % 3 == 0:
                ctx.op()
                got = np.atleast_1d(g.sample(Point((x, y), crs=g.crs), method=method))
                if len(got) == 1 and nb > 1:
                    got = np.repeat(got, nb)
                verify(ctx, [[v] for v in got], g, size, dt, [p], method, "Point")
        # 2-d arrays of positions
        n = len(P)
        w = (size[1]-1+2)*2 + 1
        X = np.array([world(t, *p)[0] for p in P]).reshape(n//w, w)
        Y = np.array([world(t, *p)[1] for p in P]).reshape(n//w, w)
        for sl in (np.s_[:, :], np.s_[1:4, 2:], np.s_[2:3, :], np.s_[:, 1:2], np.s_[::-1, ::2]):
            PP = np.arange(n).reshape(n//w, w)[sl]
            got = f(X[sl].copy(), Y[sl].copy())
            ctx.op()
            ctx.eq(got.shape, (nb,) + PP.shape, "shape of a 2-d sample")
            verify(ctx, got.reshape(nb, -1), g, size, dt, [P[k] for k in PP.ravel()], method, "2-d array")
    # default method is bilinear
    x, y = zip(*[world(t, *p) for p in P[:9]])
    d = g.sample(list(x), list(y))
    verify(ctx, d, g, size, dt, P[:9], "bilinear", "default method")
    ctx.outcome("lattice %s x%d" % (dt, nb))

def run_thin(size, nb, dt, t, ctx):
    g = make(size, nb, dt, t)
    P = lattice(size, 2)
    ctx.trace()
    ctx.state(("thin", size, nb, dt, tuple(t)))
    all_forms(ctx, g, size, dt, P, t, ("nearest",))
    ctx.outcome("thin")

def run_pairs(size, nb, dt, t, k, q, ctx):
    g = make(size, nb, dt, t)
    P = lattice(size, q)
    x0, y0 = world(t, *P[k])
    for m in range(len(P)):
        x1, y1 = world(t, *P[m])
        ctx.trace()
        ctx.state(("pairs", nb, dt, tuple(t), k, m))
        for method in ("nearest", "bilinear"):
            f = g.sample_nearest if method == "nearest" else g.sample_bilinear
            got = f([x0, x1], [y0, y1])
            ctx.op()
            ctx.eq(np.shape(got), (nb, 2), "shape")
            verify(ctx, got, g, size, dt, [P[k], P[m]], method, "pair of points")
    ctx.outcome("pairs")

def invert(t, x, y):
    a, b, c, d, e, f = [F(v) for v in t]
    x, y = F(x) - a, F(y) - b
    det = c*d - e*f
    j = (d*x - e*y) / det
    i = (c*y - f*x) / det
    return i - F(1, 2), j - F(1, 2)

def run_resample(size, nb, t, dx, dy, ctx):
    dt = "float64"
    g = make(size, nb, dt, t)
    dx, dy = dx*abs(t[2]), dy*abs(t[3])
    ctx.state(("resample", size, nb, tuple(t), dx, dy))
    before = g[:, :].copy()
    for method in ("nearest", "linear"):
        if method == "linear" and min(size) < 2:
            continue
        r = g.resample(dx, dy, method=method)
        ctx.op()
        ctx.trace()
        ctx.eq(tuple(map(float, r.resolution)), (float(dx), float(dy)), "resolution")
        ctx.eq(r.nbands, nb, "bands")
        ctx.eq(r.crs is g.crs, True, "crs")
        xmin, xmax, ymin, ymax = g.extent()
        X, Y = r.center_coords()
        if not (t[4] or t[5]):
            ctx.close(float(X.min()), float(xmin), 1e-9, "first column of centers stays in place")
            ctx.close(float(Y.min()), float(ymin), 1e-9, "first row of centers stays in place")
            ctx.eq(r.size, (int(F(ymax - ymin) // F(dy)) + 1, int(F(xmax - xmin) // F(dx)) + 1), "size")
        P = [invert(t, float(X[i, j]), float(Y[i, j])) for i in range(r.size[0]) for j in range(r.size[1])]
        vals = r[:, :, :]
        verify(ctx, vals.transpose(2, 0, 1).reshape(nb, -1), g, size, dt, P, "nearest" if method == "nearest" else "bilinear",
               "resample(%r)" % method)
        ctx.true(np.array_equal(before, g[:, :]), "resample changed its input")
    for bad in ((0, 1), (-1, 1), (1, 0)):
        ctx.raises(ValueError, lambda: g.resample(*bad), "resample to a non-positive resolution")
    ctx.outcome("resample")

def run_big(k, ctx):
    size = [(300, 300), (257, 520), (520, 257)][k % 3]
    dt = ["float64", "int16", "float32", "int32"][k // 3]
    t = [10, 20, 2, 2, 0, 0]
    g = make(size, 1, dt, t)
    ctx.state(("big", k))
    rows = [F(v) for v in (0, F(1, 2), 254, F(509, 2), 255, F(511, 2), 256, F(513, 2), size[0]-2, F(2*size[0]-3, 2), size[0]-1)]
    cols = [F(v) for v in (0, F(1, 4), 254, F(1021, 4), 255, F(1023, 4), 256, F(1025, 4), size[1]-2, size[1]-1)]
    P = [(i, j) for i in rows for j in cols]
    for sub in (P, P[:9], P[40:52], P[-3:], P[::7], [P[0], P[-1]], [P[55], P[56]]):
        ctx.trace()
        xy = [world(t, *p) for p in sub]
        xs = [p[0] for p in xy]
        ys = [p[1] for p in xy]
        for method in ("nearest", "bilinear"):
            got = g.sample(xs, ys, method=method)
            ctx.op()
            PP = [p for p in sub]
            verify(ctx, got, g, size, dt, PP, method, "large grid")
    ctx.outcome("big")

def run_crs(name, nb, k, ctx):
    src, dst = {"wm-ll": (LonLatWGS84, WebMercator), "ll-wm": (WebMercator, LonLatWGS84), "wm-wm": (WebMercator, WebMercator)}[name]
    size = (4, 5)
    t = [1000000, 5000000, 65536, 65536, 0, 0] if dst is WebMercator else [10, 40, 0.5, 0.5, 0, 0]
    g = make(size, nb, "float64", t, crs=dst)
    # positions away from ties so that projection round-off cannot move them
    P = [p for p in [(F(2*i+1, 8), F(2*j+1, 8)) for i in range(-2, 16) for j in range(-2, 20)]
         if (p[0] % 1) != F(1, 2) and (p[1] % 1) != F(1, 2)][k::6]
    xy = [dst.transform(src, *world(t, *p))[:2] if src is not dst else world(t, *p) for p in P]
    xy = [(float(a), float(b)) for a, b in xy]
    ctx.trace()
    ctx.state(("crs", name, nb, k))
    for method in ("nearest", "bilinear"):
        def check(got, PP, what):
            for b in range(nb):
                for m, p in enumerate(PP):
                    ctx.evaluations += 1
                    v = float(got[b][m])
                    if method == "nearest":
                        ok = ref_nearest(size, b, "float64", *p)
                        good = (None in ok and v != v) or v in [float(o) for o in ok if o is not None]
                    else:
                        w = ref_bilinear(size, b, "float64", *p)
                        good = (w is None and v != v) or (w is not None and abs(v - float(w)) < 1e-4)
                    if not good:
                        ctx.fail("%s sample in %s at %s band %d: %r" % (what, name, p, b, v))
        xs = [p[0] for p in xy]
        ys = [p[1] for p in xy]
        ctx.op(2)
        check(g.sample(xs, ys, crs=src, method=method), P, "coordinate lists")
        check(g.sample(Multipoint(xy, crs=src), method=method), P, "Multipoint")
        for m in range(0, len(P), 6):
            ctx.op()
            got = np.atleast_1d(g.sample(Point(xy[m], crs=src), method=method))
            got = np.repeat(got, nb) if len(got) == 1 and nb > 1 else got
            check([[v] for v in got], [P[m]], "Point")
    ctx.outcome("crs " + name)

def run_profile(t, nb, res, ctx):
    size = (5, 4)
    g = make(size, nb, "float64", t)
    ctx.state(("profile", tuple(t), nb, res))
    paths = [[(0, 0), (4, 3)], [(1, 0), (1, 3)], [(0, 2), (4, 2)], [(4, 3), (0, 0)], [(F(1, 2), F(1, 2)), (3, F(1, 2)), (3, 3)]]
    for path in paths:
        ctx.trace()
        line = Line([world(t, F(i), F(j)) for i, j in path], crs=Cartesian)
        for method in ("nearest", "bilinear"):
            kw = {} if res is None else {"resolution": res*min(abs(t[2]), abs(t[3]))}
            if res is None and min(t[2:4]) < 0:
                continue
            pts, z = g.profile(line, method=method, **kw)
            ctx.op()
            want = g.sample(*[list(c) for c in pts.coords()], method=method)
            ctx.eq(np.shape(z), np.shape(want), "profile shape")
            ctx.true(np.array_equal(np.nan_to_num(z, nan=-999), np.nan_to_num(want, nan=-999)),
                     "profile values differ from samples at the returned points")
            for b in range(nb):
                f = pts.data.getfield("band_%d" % b)
                ctx.true(np.array_equal(np.nan_to_num(np.array(f, dtype=float), nan=-999), np.nan_to_num(z[b], nan=-999)),
                         "attribute band_%d of profile points" % b)
            v0 = pts[0].vertex()
            ctx.close(v0[0], line[0].vertex()[0], 1e-9, "profile starts at the line's start")
            ctx.close(v0[1], line[0].vertex()[1], 1e-9, "profile starts at the line's start")
    ctx.outcome("profile")

def run(case, ctx):
    k = case[0]
    if k == "lattice":
        run_lattice(tuple(case[1]), case[2], case[3], case[4], case[5], ctx)
    elif k == "thin":
        run_thin(tuple(case[1]), case[2], case[3], case[4], ctx)
    elif k == "pairs":
        run_pairs(tuple(case[1]), case[2], case[3], case[4], case[5], case[6], ctx)
    elif k == "resample":
        run_resample(tuple(case[1]), case[2], case[3], case[4], case[5], ctx)
    elif k == "big":
        run_big(case[1], ctx)
    elif k == "crs":
        run_crs(case[1], case[2], case[3], ctx)
    else:
        run_profile(case[1], case[2], case[3], ctx)
