"""NoData: masks, statistics, apply, masking and gridding treat exactly the valid cells."""
import itertools
from fractions import Fraction as F
import math
import numpy as np
from karta.raster.grid import RegularGrid, gridpoints, get_nodata
from karta.raster.band import SimpleBand, CompressedBand
from karta.vector.geometry import Polygon, Multipolygon
from karta.crs import Cartesian, LonLatWGS84, WebMercator

RULE = ("a case is a grid configuration plus the first operation of a history (or one polygon/point set); inside it every "
        "continuation up to the depth bound is replayed on the real grid and every mask, statistic and cell is compared "
        "with a list-of-cells model; non-trivial = at least one observation was compared")
BOUNDS = {"quick": "2x3 grids, 1-2 bands, 5 dtypes, alphabet of 12 operations (cell writes, nodata redefinition, apply, "
                   "masking by polygon), all histories of length 3 (every third one for six of the eight configurations); masks: every corner-aligned rectangle on a 4x5 grid "
                   "(with margin; skewed and mirrored grids too), every L-shape, every lattice triangle on an 8x8 lattice (tolerance of 3/4 cell), rectangles with holes; gridding: "
                   "all multisets of 3 points over 9 places",
          "thorough": "histories of length 4, gridding of 4 points"}
ASSUMPTIONS = ["polygon masking rounds oblique edges: a cell is judged only if its center is more than three quarters of a cell from an oblique edge; "
               "edges that follow cell borders are judged exactly"]

class Comp(CompressedBand):
    def __init__(self, size, dtype, initval=0):
        CompressedBand.__init__(self, size, dtype, chunksize=(2, 2), initval=initval)

CFG = [("float64", 1, None), ("float64", 2, None), ("int16", 1, None), ("int16", 2, -9), ("uint8", 1, None),
       ("float32", 2, -9), ("int32", 1, 0), ("float64", 1, 0)]
SIZE = (2, 3)

OPS = ["set00", "set12", "nod00", "nod11", "nodrow", "renod7", "renod-4", "apply", "applyin", "applycum", "poly", "polyin", "wrB", "nodcolA"]

def cases(tier):
    for c in range(len(CFG)):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                yield ["hist", c, a, b]
    for T in ([0, 0, 1, 1, 0, 0], [10, -20, 2, 2, 0, 0], [-3, 5, 0.5, 2, 0, 0], [100, 200, 4, 1, 0, 0], [0, 0, 1, 1, 0.5, 0], [5, -3, 2, 1, 0.5, -0.25], [4, 1, -2, 1, 0, 0],
              [4, 1, -1, 2, 0.5, 0.25]):
        for a in range(-1, 6):
            for b in range(a+1, 8):
                if tier == "thorough" or T[2] > 0 and T[4] == 0 or (a + b) % 3 == 0:
                    yield ["rect", T, a, b]
    for k in range(5):
        yield ["negdy", k]
    for a in range(64):
        for b in range(a+1, 64):
            if tier == "thorough" or (a*7 + b*3) % 5 == 0:
                yield ["tri", a, b]
    for k in range(9):
        yield ["points", k]
    for k in range(6):
        yield ["maskcrs", k]
    yield ["defaults"]

# ---- histories --------------------------------------------------------------

class Model(object):
    def __init__(self, vals, nod):
        self.v = vals.copy()
        self.nod = nod
    def full(self):
        if self.nod != self.nod:
            return ~np.isnan(self.v)
        return self.v != self.nod

POLY = Polygon([(1, 0), (1, 2), (3, 2), (3, 0)])       # columns 1 and 2

def start(cfg):
    dt, nb, nod = CFG[cfg]
    T = getattr(np, dt)
    v = (np.arange(6*nb).reshape(SIZE + (nb,)) + 1).astype(T)
    g = RegularGrid((0, 0, 1, 1, 0, 0), values=v[:, :, 0] if nb == 1 else v, nodata_value=nod,
                    bandclass=Comp if cfg % 2 else SimpleBand)
    if nod is None:
        nod = g.nodata
        want = np.nan if dt.startswith("float") else (255 if dt == "uint8" else -32768)
        assert (nod == want) or (nod != nod and want != want), (nod, want)
    return g, Model(v, nod)

def step(g, m, op, n, ctx):
    ctx.op()
    T = m.v.dtype.type
    old_g, old = g, None
    if op == "set00":
        g[0, 0] = T(40 + n)
        m.v[0, 0] = T(40 + n)
    elif op == "set12":
        g[1, 2] = T(50 + n)
        m.v[1, 2] = T(50 + n)
    elif op == "nod00":
        g[0, 0] = m.nod
        m.v[0, 0] = m.nod
    elif op == "nod11":
        b = m.v.shape[2] - 1
        g[1, 1, b] = m.nod
        m.v[1, 1, b] = m.nod
    elif op == "nodrow":
        g[1, :] = m.nod
        m.v[1, :] = m.nod
    elif op == "nodcolA":
        g[:, 0, 0] = m.nod                                # the first band has no data outside of POLY
        m.v[:, 0, 0] = m.nod
    elif op == "wrB":
        b = m.v.shape[2] - 1
        g[:, 1:, b] = T(60 + n)
        m.v[:, 1:, b] = T(60 + n)
    elif op.startswith("renod"):
        nv = 7 if op == "renod7" else (-4 if m.v.dtype != np.uint8 else 200)
        r = g.set_nodata_value(nv)
        ctx.true(r is g, "set_nodata_value returns the grid")
        m.v = np.where(m.full(), m.v, T(nv)).astype(T)
        m.nod = nv
    elif op in ("apply", "applyin", "applycum"):
        seen = []
        if op == "applycum":
            f = lambda x: x[::-1].copy()          # sees the whole vector of valid values
        else:
            f = lambda x: (x % 64) + T(3)
        old = g[:, :].copy()
        g2 = g.apply(f, inplace=(op == "applyin"))
        mask = m.full()
        nv = m.v.copy()
        if mask.any() or op != "applycum":
            nv[mask] = f(m.v[mask])
        if op == "applyin":
            ctx.true(g2 is g, "in-place apply returns the grid")
        else:
            ctx.true(g2 is not g, "apply returns a new grid")
            same(ctx, g[:, :], old, "apply changed its input")
        g = g2
        m.v = nv
    elif op in ("poly", "polyin"):
        old = g[:, :].copy()
        g2 = g.mask_by_poly(POLY, inplace=(op == "polyin"))
        if op == "polyin":
            ctx.true(g2 is g, "in-place masking returns the grid")
        else:
            ctx.true(g2 is not g, "masking returns a new grid")
            same(ctx, g[:, :], old, "masking changed its input")
        m.v[:, 0] = m.nod
        g = g2
    return g

def same(ctx, got, want, what):
    ctx.evaluations += 1
    a = np.asarray(got, dtype=np.float64)
    b = np.asarray(want, dtype=np.float64)
    if not (a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(np.nan_to_num(a), np.nan_to_num(b))):
        ctx.fail("%s: got %r, expected %r" % (what, a.tolist(), b.tolist()))

def observe(g, m, hist, ctx):
    ctx.trace()
    ctx.state((m.v.tobytes(), repr(m.nod), m.v.dtype.str, m.v.shape))
    what = "after %r" % (hist,)
    same(ctx, g[:, :], m.v, what)
    ctx.true(g.nodata == m.nod or (g.nodata != g.nodata and m.nod != m.nod), "%s: nodata is %r, expected %r", what, g.nodata, m.nod)
    ctx.true(g.nodata_value == g.nodata or g.nodata != g.nodata, "nodata_value")
    full = m.full()
    ctx.true(np.array_equal(g.data_mask_full, full), "%s: data_mask_full %r, expected %r", what, g.data_mask_full.tolist(), full.tolist())
    every = full.all(axis=2)
    ctx.true(np.array_equal(g.data_mask, every), "%s: data_mask %r, expected %r", what, g.data_mask.tolist(), every.tolist())
    vals = m.v[full]
    mm = g.minmax()
    if len(vals):
        ctx.eq((float(mm[0]), float(mm[1])), (float(vals.min()), float(vals.max())), what + ": minmax")
    else:
        ctx.true(mm[0] != mm[0] and mm[1] != mm[1], "minmax of no data is %r", mm)
    vals = m.v[every]
    if len(vals):
        ctx.eq((float(g.min()), float(g.max())), (float(vals.min()), float(vals.max())), what + ": min and max")
        ctx.outcome("some data")
    else:
        ctx.true(g.min() != g.min() and g.max() != g.max(), "min/max of no data")
        ctx.outcome("no data")
    ctx.op(6)

def run_hist(cfg, a, b, ctx):
    depth3 = range(len(OPS))
    if a == 0 and b == 0:
        g, m = start(cfg)
        observe(g, m, [], ctx)
    for c in depth3:
        if not ctx.thorough and cfg not in (1, 3) and (a + b + c + cfg) % 3:
            continue
        hist = [OPS[a], OPS[b], OPS[c]]
        more = [()] if not ctx.thorough else [(d,) for d in depth3]
        for extra in more:
            g, m = start(cfg)
            h = hist + [OPS[d] for d in extra]
            for n, op in enumerate(h):
                g = step(g, m, op, n, ctx)
                if n < 2 and c < 3 and not (extra and extra[0]):
                    observe(g, m, h[:n+1], ctx)
            observe(g, m, h, ctx)

# ---- polygon masks ----------------------------------------------------------

def masked_cells(r):
    return {(int(i), int(j)) for i, j in zip(*np.nonzero(~r.data_mask))}

def run_rect(T, a, b, ctx):
    ny, nx = 4, 6
    P = lambda i, j: (T[0] + j*T[2] + i*T[4], T[1] + i*T[3] + j*T[5])
    for nb, cls in ((1, Comp), (2, SimpleBand)):
        v = np.arange(ny*nx*nb, dtype=np.float64).reshape(ny, nx, nb)
        for c in range(-1, 4):
            for d in range(c+1, 6):
                if nb == 2 and (c + d + a + b) % 2:
                    continue
                rings = [("rect", [P(c, a), P(d, a), P(d, b), P(c, b)], lambda i, j: c <= i < d and a <= j < b)]
                if b - a >= 2 and d - c >= 2:
                    ma, mc = a + 1, c + 1
                    rings.append(("ell", [P(c, a), P(d, a), P(d, ma), P(mc, ma), P(mc, b), P(c, b)],
                                  lambda i, j: (c <= i < d and a <= j < b) and not (i >= mc and j >= ma)))
                for name, ring, inside in rings:
                    for rev in (0, 1):
                        for rot in ((0,) if rev else (0, 2)):
                            pts = ring[::-1] if rev else ring
                            pts = pts[rot:] + pts[:rot]
                            g = RegularGrid(T, values=v[:, :, 0] if nb == 1 else v, bandclass=cls)
                            want = {(i, j) for i in range(ny) for j in range(nx) if not inside(i, j)}
                            forms = [("Polygon", Polygon(pts))]
                            if rot == 0 and nb == 1:
                                forms.append(("Multipolygon", [Multipolygon([[pts]])]))
                                forms.append(("list", [Polygon(pts), Polygon(pts)]))
                            for fname, poly in forms:
                                r = g.mask_by_poly(poly)
                                ctx.op()
                                ctx.trace()
                                ctx.eq(sorted(masked_cells(r)), sorted(want), "cells masked by %s %r" % (fname, pts))
                                keep = ~np.array([[(i, j) in want for j in range(nx)] for i in range(ny)])
                                ctx.true(np.array_equal(r[:, :][keep], v[keep]), "masking changed kept values")
                                ctx.eq(r.nbands, nb, "bands")
                                ctx.eq(tuple(r.transform), tuple(map(float, T)), "transform")
                            ctx.state(("rect", tuple(T), tuple(pts), nb))
                            if rot == 0:
                                g.mask_by_poly(Polygon(pts), inplace=True)
                                ctx.op()
                                ctx.eq(sorted(masked_cells(g)), sorted(want), "cells masked in place by %r" % (pts,))
    # holes are outside, also in members of a set and in nested lists
    for c in range(-1, 4):
        for d in range(c+3, 7):
            for h in ((c+1, d-1, a, b), (c+1, c+2, a+1, b-1), (d-2, d-1, a, b-1)):
                hc, hd, ha, hb = h
                if ha >= hb or b <= a:
                    continue
                outer, hole = [P(c, a-1), P(d, a-1), P(d, b+1), P(c, b+1)], [P(hc, ha), P(hd, ha), P(hd, hb), P(hc, hb)]
                want = {(i, j) for i in range(ny) for j in range(nx) if not (c <= i < d and a-1 <= j < b+1 and not (hc <= i < hd and ha <= j < hb))}
                island = {(i, j) for i, j in want if not (hc <= i < hd and ha <= j < hb)}
                for rev in (0, 1):
                    solid = Polygon(hole[::-1] if rev else hole)
                    poly = Polygon(outer[::-1] if rev else outer, subs=[Polygon(hole)])
                    for form, w in ((poly, want),) if (c + d + rev) % 3 else ((poly, want), (Multipolygon([[outer, hole]]), want), ([[poly], (poly,)], want), ([poly, [solid]], island), ((solid, Multipolygon([[outer, hole], [hole]])), island)):
                        g = RegularGrid(T, values=np.ones((ny, nx)))
                        ctx.eq(sorted(masked_cells(g.mask_by_poly(form))), sorted(w), "cells masked by %r with the hole %r" % (outer, hole))
                        ctx.op()
                ctx.state(("hole", tuple(T), tuple(outer), tuple(hole)))
    # two separate rectangles: the union is kept
    g = RegularGrid(T, values=v)
    r = g.mask_by_poly([Polygon([P(0, 0), P(1, 0), P(1, 2), P(0, 2)]), Polygon([P(max(0, a) % 3, a), P(4, a), P(4, b), P(max(0, a) % 3, b)])])
    lo = max(0, a) % 3
    want = {(i, j) for i in range(ny) for j in range(nx) if not ((i < 1 and j < 2) or (lo <= i < 4 and a <= j < b))}
    ctx.eq(sorted(masked_cells(r)), sorted(want), "cells masked by a list of polygons")
    ctx.outcome("rect")

def run_negdy(k, ctx):
    """Grids whose rows run southward."""
    ny, nx = 4, 5
    T = [[0, 4, 1, -1, 0, 0], [10, 8, 2, -2, 0, 0], [0, 4, 1, -1, 0, 0], [3, -4, 1, -1, 0, 0], [3, -4, 1, -1, 0.5, 0.25]][k]
    c, d, a, b = [(0, 1, 0, 5), (1, 3, 1, 3), (2, 4, 0, 2), (0, 3, 2, 5), (0, 1, 1, 4)][k]
    P = lambda i, j: (T[0] + j*T[2] + i*T[4], T[1] + i*T[3] + j*T[5])
    g = RegularGrid(T, values=np.ones((ny, nx)))
    r = g.mask_by_poly(Polygon([P(c, a), P(d, a), P(d, b), P(c, b)]))
    ctx.op()
    ctx.trace()
    ctx.state(("negdy", k))
    want = {(i, j) for i in range(ny) for j in range(nx) if not (c <= i < d and a <= j < b)}
    got = masked_cells(r)
    if got == want:
        ctx.outcome("southward correct")
        return
    flipped = {(ny-1-i, j) for i, j in want}
    if got == flipped:
        ctx.fail("mask_by_poly on a grid with negative dy masks the mirrored rows", key="C05-mask-mirrored-negative-dy")
    ctx.fail("mask_by_poly on a grid with negative dy: masked %r, expected %r" % (sorted(got), sorted(want)))

def seg_dist(p, a, b):
    vx, vy = b[0]-a[0], b[1]-a[1]
    L = vx*vx + vy*vy
    t = 0 if L == 0 else max(0.0, min(1.0, ((p[0]-a[0])*vx + (p[1]-a[1])*vy) / L))
    return math.hypot(p[0]-a[0]-t*vx, p[1]-a[1]-t*vy)

def in_tri(p, tri):
    s = [(b[0]-a[0])*(p[1]-a[1]) - (b[1]-a[1])*(p[0]-a[0]) for a, b in zip(tri, tri[1:] + tri[:1])]
    return all(x > 0 for x in s) or all(x < 0 for x in s)

def run_tri(a, b, ctx):
    n = 14
    A = (2*(a % 8), 2*(a // 8))
    B = (2*(b % 8), 2*(b // 8))
    for c in range(b+1, 64, 5):
        C = (2*(c % 8), 2*(c // 8))
        if (B[0]-A[0])*(C[1]-A[1]) == (B[1]-A[1])*(C[0]-A[0]):
            continue
        tri = [A, B, C]
        for T in ([0, 0, 1, 1, 0, 0], [-8, 3, 2, 1, 0, 0], [3, 2, -1, 2, 0.5, -0.25]):
            ring = [(T[0] + x*T[2] + y*T[4], T[1] + y*T[3] + x*T[5]) for x, y in tri]
            g = RegularGrid(T, values=np.ones((n, n), dtype=np.uint8), nodata_value=0, bandclass=SimpleBand)
            r = g.mask_by_poly(Polygon(ring))
            ctx.op()
            ctx.trace()
            ctx.state(("tri", a, b, c, T[2]))
            kept = r.data_mask
            k = 0
            for i in range(n):
                for j in range(n):
                    p = (j + 0.5, i + 0.5)
                    if min(seg_dist(p, u, w) for u, w in zip(tri, tri[1:] + tri[:1])) > 0.75:
                        k += 1
                        ins = in_tri(p, tri)
                        ctx.evaluations += 1
                        if bool(kept[i, j]) != ins:
                            ctx.fail("cell (%d,%d) more than three quarters of a cell from the edges of triangle %r is %s" % (
                                i, j, ring, "masked" if ins else "kept"))
    ctx.outcome("triangle")

def run_maskcrs(k, ctx):
    # grid in web mercator, polygon given in longitude/latitude
    T = [1000000, 6000000, 65536, 65536, 0, 0]
    ny, nx = 5, 6
    a, b, c, d = [(0, 2, 0, 2), (1, 4, 1, 4), (2, 6, 0, 5), (0, 6, 3, 5), (3, 5, 2, 4), (1, 2, 1, 2)][k]
    ring = [(T[0] + (j)*T[2], T[1] + (i)*T[3]) for i, j in ((c, a), (d, a), (d, b), (c, b))]
    ll = [tuple(float(v) for v in WebMercator.transform(LonLatWGS84, x, y)[:2]) for x, y in ring]
    g = RegularGrid(T, values=np.ones((ny, nx)), crs=WebMercator)
    r = g.mask_by_poly(Polygon(ll, crs=LonLatWGS84))
    ctx.op()
    ctx.trace()
    ctx.state(("maskcrs", k))
    want = {(i, j) for i in range(ny) for j in range(nx) if not (c <= i < d and a <= j < b)}
    ctx.eq(sorted(masked_cells(r)), sorted(want), "cells masked by a lon/lat polygon")
    ctx.outcome("maskcrs")

# ---- gridding ---------------------------------------------------------------

def run_points(k, ctx):
    places = [(i, j) for i in range(3) for j in range(3)]
    off = [(0.25, 0.25), (0.5, 0.75), (0.125, 0.875)]
    n = 4 if ctx.thorough else 3
    for rest in itertools.combinations_with_replacement(range(9), n-1):
        idx = (k,) + rest
        for T in ([0, 0, 1, 1, 0, 0], [-5, 3, 2, 0.5, 0, 0], [-5, 3, -2, -0.5, 0, 0], [1, 2, 1, -2, 0.5, 0.25]):
            for dt in ("float64", "int32", "float32", "list"):
                for crs in ((Cartesian, LonLatWGS84) if dt == "float64" else (Cartesian,)):
                  for Z in ((None,) if T[2:4] != [1, 1] else (None, (4, -4, 0, 2))):
                      xs, ys, zs = [], [], []
                      acc = {}
                      for m, p in enumerate(idx):
                          i, j = places[p]
                          u, v = i + off[m % 3][1], j + off[m % 3][0]
                          xs.append(T[0] + v*T[2] + u*T[4])
                          ys.append(T[1] + u*T[3] + v*T[5])
                          z = 3 + 10*m + p if Z is None else Z[m]
                          zs.append(z)
                          acc.setdefault((i, j), []).append(z)
                      args = (xs, ys, zs) if dt == "list" else (np.array(xs), np.array(ys), np.array(zs, dtype=getattr(np, dt)))
                      g = gridpoints(*(args + (T, crs)))
                      ctx.op()
                      ctx.trace()
                      ctx.state(("points", idx, tuple(T), dt))
                      size = (max(places[p][0] for p in idx)+1, max(places[p][1] for p in idx)+1)
                      ctx.eq(tuple(g.size), size, "size of the grid")
                      ctx.true(g.crs is crs, "crs")
                      ctx.eq(tuple(g.transform), tuple(map(float, T)), "transform")
                      for i in range(size[0]):
                          for j in range(size[1]):
                              v = float(g[i, j, 0])
                              ctx.evaluations += 1
                              if (i, j) in acc:
                                  w = sum(acc[i, j]) / float(len(acc[i, j]))
                                  if not abs(v - w) <= 1e-9:
                                      ctx.fail("cell (%d,%d) is %r, expected the mean %r of points %r" % (i, j, v, w, idx))
                              elif v == v:
                                  ctx.fail("cell (%d,%d) without points is %r" % (i, j, v))
    ctx.raises(IndexError, lambda: gridpoints(np.array([-3.0, 1.5]), np.array([0.5, 0.5]), np.array([1.0, 2.0]), [0, 0, 1, 1, 0, 0], Cartesian),
               "point outside the grid")
    # numbers of points beyond the range of small counters
    for n in (300, 40000, 70000):
        for z in (np.full(n, 2.0), np.full(n, 2), np.full(n, 2, dtype=np.uint8)):
            g = gridpoints(np.linspace(k + 0.25, k + 0.75, n), np.full(n, 0.5), z, [0, 0, 1, 1, 0, 0], Cartesian)
            ctx.op()
            ctx.eq(float(g[0, k, 0]), 2.0, "mean of %d equal points of type %s" % (n, z.dtype))
    ctx.outcome("points")

def run_defaults(ctx):
    ctx.trace()
    for dt, want in (("uint8", 255), ("uint16", 65535), ("uint32", 2**32-1), ("uint64", 2**64-1), ("int8", -128), ("int16", -2**15),
                     ("int32", -2**31), ("int64", -2**63), ("float32", None), ("float64", None), ("complex64", None), ("complex128", None)):
        got = get_nodata(getattr(np, dt))
        ctx.op()
        ctx.state(("default", dt))
        ctx.true((got != got) if want is None else int(got) == want, "default nodata of %s is %r", dt, got)
        g = RegularGrid([0, 0, 1, 1, 0, 0], values=np.zeros((2, 2), dtype=getattr(np, dt)))
        ctx.true((g.nodata != g.nodata) if want is None else int(g.nodata) == want, "default nodata of a %s grid is %r", dt, g.nodata)
        g[1, 1] = g.nodata
        ctx.eq(g.data_mask.tolist(), [[True, True], [True, False]], "data mask of a %s grid" % dt)
    ctx.raises(ValueError, lambda: get_nodata(str), "nodata of a non-numeric type")
    ctx.outcome("defaults")

def run(case, ctx):
    k = case[0]
    if k == "hist":
        run_hist(case[1], case[2], case[3], ctx)
    elif k == "rect":
        run_rect(case[1], case[2], case[3], ctx)
    elif k == "negdy":
        run_negdy(case[1], ctx)
    elif k == "tri":
        run_tri(case[1], case[2], ctx)
    elif k == "maskcrs":
        run_maskcrs(case[1], ctx)
    elif k == "points":
        run_points(case[1], ctx)
    else:
        run_defaults(ctx)
