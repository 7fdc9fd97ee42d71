"""Restructuring grids (clip, resize, chunk, mosaic, add/subtract) keeps every value at its place."""
import itertools
from fractions import Fraction as F
import numpy as np
import karta
from karta import errors
from karta.raster.grid import RegularGrid, merge
from karta.raster.band import SimpleBand, CompressedBand
from karta.crs import Cartesian, LonLatWGS84, WebMercator

RULE = ("a case is one grid (or pair/triple of grids) and one row of the half-cell lattice of boxes, chunk shapes or "
        "offsets; inside it every remaining choice of the box/shape/offset is executed and each cell of each result is "
        "compared, by its world position, with the cells of the inputs; non-trivial = at least one result was compared")
BOUNDS = {"quick": "clip and resize: 3x4 and 4x3 grids, every box with corners on the half-cell lattice from one cell outside to "
                   "one cell outside, 5 transforms; chunks: every size up to 6x6 and overlap up to 2 on grids up to 6x7; "
                   "mosaics: every pair of 2x3 grids at offsets within 4 cells, triples, 4 weightings, 6 dtypes, all "
                   "validity masks of 1x2 cells, 1-2 bands",
          "thorough": "as quick with quarter-cell boxes, larger grids, all 2x2 validity masks in mosaics"}
ASSUMPTIONS = ["a resized cell exactly halfway between two cells may take either value",
               "clip of a box holding no cell center raises GridError",
               "integer mosaics are rounded to the nearest integer (either one for ties)"]

def cellval(i, j, b):
    return 1 + i*20 + j*2 + b*200

def make(size, nb, t, dt="float64", cls=CompressedBand, crs=Cartesian, nodata=None):
    v = np.array([[[cellval(i, j, b) for b in range(nb)] for j in range(size[1])] for i in range(size[0])]).astype(getattr(np, dt))
    return RegularGrid(t, values=v[:, :, 0] if nb == 1 else v, crs=crs, nodata_value=nodata, bandclass=cls)

def center(t, i, j):
    a, b, c, d, e, f = [F(v) for v in t]
    i, j = F(i) + F(1, 2), F(j) + F(1, 2)
    return a + j*c + i*e, b + i*d + j*f

class Comp(CompressedBand):
    def __init__(self, size, dtype, initval=0):
        CompressedBand.__init__(self, size, dtype, chunksize=(2, 3), initval=initval)

CT = [[0, 0, 1, 1, 0, 0], [-6, 4, 2, 4, 0, 0], [10, 20, 1, -2, 0, 0], [5, 0, -1, 1, 0, 0], [0, 0, 1, 1, 0.25, 0], [0, 8, 2, 2, -0.5, 0.25]]
RT = [[0, 0, 1, 1, 0, 0], [-6, 4, 2, 4, 0, 0], [100, 30, 0.5, 0.25, 0, 0]]

def cases(tier):
    q = 4 if tier == "thorough" else 2
    for t in CT:
        for size, nb in [((3, 4), 1), ((4, 3), 2)]:
            lo, hi = -q, (size[1]+1)*q
            for a in range(lo, hi+1):
                yield ["clip", size, nb, t, a, q]
    for k in range(6):
        yield ["clipcrs", k]
    for t in RT:
        for size, nb, dt in [((3, 4), 1, "float64"), ((4, 3), 2, "int16"), ((2, 2), 1, "uint8"), ((1, 3), 1, "float32")]:
            for a in range(-2*q, (size[1]+2)*q + 1):
                yield ["resize", size, nb, dt, t, a, q]
    for t in [[0, 0, 1, 1, 0, 0], [3, 5, 2, -1, 0.25, 0.5]]:
        for size in [(1, 1), (1, 5), (5, 1), (2, 3), (4, 4), (6, 7), (5, 8)]:
            for nb in (1, 2):
                for sy in range(1, 7):
                    yield ["chunks", size, nb, t, sy]
    offs = [(di, dj) for di in range(-3, 4) for dj in range(-4, 5)]
    for di, dj in offs:
        for dt in ("float64", "float32", "int16", "int32", "uint8", "int64"):
            for nb in (1, 2):
                if dt == "float64" or (di + dj) % 2 == 0:
                    yield ["merge2", [di, dj], dt, nb]
    for k in range(len(offs)):
        yield ["merge3", offs[k], offs[(k*5+3) % len(offs)]]
    for k in range(12):
        yield ["mergebad", k]
    n = 2 if tier == "quick" else 4
    for m1 in range(2**n):
        for m2 in range(2**n):
            yield ["mergemask", n, m1, m2]
    for dt in ("float64", "int32", "uint8", "float32"):
        for nb in (1, 2, 3):
            yield ["arith", dt, nb]

# ---- clip -------------------------------------------------------------------

def same_place(ctx, r, g, size, nb, t, what):
    """Every cell of r is a cell of g: same center, same values.  Returns the set of g's cells in r."""
    cells = set()
    index = {center(t, i, j): (i, j) for i in range(size[0]) for j in range(size[1])}
    X, Y = r.center_coords()
    vals = r[:, :, :]
    for i in range(r.size[0]):
        for j in range(r.size[1]):
            ctx.evaluations += 1
            k = (F(float(X[i, j])), F(float(Y[i, j])))
            if k not in index:
                ctx.fail("%s: result has a cell at %r where the grid has none" % (what, (float(X[i, j]), float(Y[i, j]))))
            a, b = index[k]
            got = [float(v) for v in vals[i, j]]
            if got != [float(cellval(a, b, c)) for c in range(nb)]:
                ctx.fail("%s: cell at %r is %r, expected %r" % (what, (float(X[i, j]), float(Y[i, j])), got,
                                                               [cellval(a, b, c) for c in range(nb)]))
            if (a, b) in cells:
                ctx.fail("%s: cell %r appears twice" % (what, (a, b)))
            cells.add((a, b))
    ctx.true(r.crs is g.crs, what + ": coordinate system changed")
    ctx.eq(r.nbands, g.nbands, what + ": number of bands")
    ctx.true((r.nodata == g.nodata) or (r.nodata != r.nodata and g.nodata != g.nodata), what + ": nodata changed")
    ctx.eq(tuple(r.transform[2:]), tuple(g.transform[2:]), what + ": resolution and skew")
    return cells

def run_clip(size, nb, t, a, q, ctx):
    ny, nx = size
    g = make(size, nb, t, cls=Comp)
    corners = [(F(t[0]) + j*F(t[2]) + i*F(t[4]), F(t[1]) + i*F(t[3]) + j*F(t[5])) for i in (0, ny) for j in (0, nx)]
    xlo = min(p[0] for p in corners)
    ylo = min(p[1] for p in corners)
    ux, uy = abs(F(t[2])), abs(F(t[3]))
    skew = bool(t[4] or t[5])
    nmax = nx + (2 if skew else 0)
    mmax = ny + (2 if skew else 0)
    xmin = xlo + ux*F(a, q)
    for b in range(a, (nmax+1)*q + 1, 1 if not skew else 2):
        xmax = xlo + ux*F(b, q)
        for c in range(-q, (mmax+1)*q + 1, 1 if not skew else 3):
            for d in range(c, (mmax+1)*q + 1, 1 if q == 2 and nb == 1 else 3):
                ymin, ymax = ylo + uy*F(c, q), ylo + uy*F(d, q)
                inside = {(i, j) for i in range(ny) for j in range(nx)
                          if xmin <= center(t, i, j)[0] <= xmax and ymin <= center(t, i, j)[1] <= ymax}
                box = [float(v) for v in (xmin, xmax, ymin, ymax)]
                ctx.op()
                ctx.trace()
                ctx.state(("clip", size, nb, tuple(t), tuple(box)))
                if not inside:
                    try:
                        r = g.clip(*box)
                    except errors.GridError:
                        ctx.outcome("clip refused")
                        continue
                    if not skew:
                        ctx.fail("clip to %r, which holds no cell center, returned a grid of size %r" % (box, r.size))
                    same_place(ctx, r, g, size, nb, t, "clip to %r" % box)
                    continue
                r = g.clip(*box)
                cells = same_place(ctx, r, g, size, nb, t, "clip to %r" % box)
                if skew:
                    ctx.true(inside <= cells, "clip to %r lost cells %r", box, sorted(inside - cells))
                else:
                    ctx.eq(sorted(cells), sorted(inside), "cells kept by clip to %r" % box)
                ctx.outcome("clip kept %s" % ("all" if len(cells) == nx*ny else "some"))
    r = g.clip(*[float(v) for v in (xlo, xlo + 40*ux, ylo, ylo + 40*uy)])
    r[0, 0] = -77
    ctx.true(not np.any(g[:, :] == -77), "writing to a clipped grid changed the original")

def run_clipcrs(k, ctx):
    size, nb = (6, 7), 1
    t = [1000000, 6000000, 65536, 65536, 0, 0]
    g = make(size, nb, t, crs=WebMercator)
    for a in range(0, 6):
        for b in range(a+1, 8):
            x0, y0 = float(t[0] + t[2]*(k*0.5+0.3)), float(t[1] + t[3]*(a*0.75+0.2))
            x1, y1 = x0 + t[2]*(b*0.5+0.1), float(t[1] + t[3]*(b*0.75+0.1))
            lon0, lat0 = WebMercator.transform(LonLatWGS84, x0, y0)[:2]
            lon1, lat1 = WebMercator.transform(LonLatWGS84, x1, y1)[:2]
            inside = {(i, j) for i in range(6) for j in range(7)
                      if x0 <= center(t, i, j)[0] <= x1 and y0 <= center(t, i, j)[1] <= y1}
            ctx.op()
            ctx.trace()
            ctx.state(("clipcrs", k, a, b))
            if not inside:
                continue
            r = g.clip(float(lon0), float(lon1), float(lat0), float(lat1), crs=LonLatWGS84)
            ctx.eq(sorted(same_place(ctx, r, g, size, nb, t, "clip in lon/lat")), sorted(inside), "clip with a lon/lat box")
            ctx.outcome("clip crs")

# ---- resize -----------------------------------------------------------------

def run_resize(size, nb, dt, t, a, q, ctx):
    ny, nx = size
    nod = {"float64": None, "float32": -1.0, "int16": -5, "uint8": 255}[dt]
    g = make(size, nb, t, dt=dt, cls=[Comp, SimpleBand][nb-1], nodata=nod)
    dx, dy = F(t[2]), F(t[3])
    x0 = F(t[0]) + dx*F(a, q)
    for w in range(1, (nx+2)*q + 1, 1 if q == 2 else 3):
        for c in range(-2*q, (ny+2)*q + 1, 1 if q == 2 else 3):
            for h in ((1, 2*q, 3*q+1) if w % 2 else ((ny+3)*q,)):
                y0 = F(t[1]) + dy*F(c, q)
                x1, y1 = x0 + dx*F(w, q), y0 + dy*F(h, q)
                box = [float(v) for v in (x0, y0, x1, y1)]
                r = g.resize(box)
                ctx.op()
                ctx.trace()
                ctx.state(("resize", size, nb, dt, tuple(t), tuple(box)))
                what = "resize to %r" % box
                ctx.eq(tuple(map(F, map(float, r.transform))), (x0, y0, dx, dy, 0, 0), what + ": transform")
                nxn, nyn = -((-w)//q), -((-h)//q)
                ctx.eq(tuple(r.size), (nyn, nxn), what + ": size")
                ctx.eq(r.nbands, nb, what + ": bands")
                ctx.true(r.crs is g.crs, what + ": crs")
                ctx.true(np.dtype(r.bands[0].dtype) == np.dtype(getattr(np, dt)), what + ": dtype")
                vals = r[:, :, :]
                n_in = 0
                for i in range(nyn):
                    for j in range(nxn):
                        pi = F(i) + F(c, q)       # position of the new cell on the old grid's center-based rows
                        pj = F(j) + F(a, q)
                        ci = near(pi)
                        cj = near(pj)
                        for b in range(nb):
                            ok = set()
                            for u in ci:
                                for v in cj:
                                    ok.add(float(cellval(u, v, b) if 0 <= u < ny and 0 <= v < nx else
                                                 (g.nodata if g.nodata == g.nodata else -12345.0)))
                            if dt == "uint8":
                                ok = {o % 256 for o in ok}
                            got = float(vals[i, j, b])
                            got = -12345.0 if got != got else got
                            ctx.evaluations += 1
                            if got not in ok:
                                ctx.fail("%s: new cell (%d,%d) band %d is %r, expected one of %r" % (what, i, j, b, got, sorted(ok)))
                # a half-cell shift must be resolved the same way for the whole grid
                ctx.outcome("resize")
    ctx.true(np.array_equal(g[:, :], make(size, nb, t, dt=dt)[:, :]), "resize changed its input")

def near(p):
    lo = p.__floor__()
    f = p - lo
    return [lo] if f < F(1, 2) else ([lo+1] if f > F(1, 2) else [lo, lo+1])

# ---- chunks -----------------------------------------------------------------

def run_chunks(size, nb, t, sy, ctx):
    ny, nx = size
    g = make(size, nb, t, cls=Comp)
    def go(kw, sx_, sy_, ox, oy):
        want = {}
        seen = []
        rects = []
        i0 = 0
        while i0 < ny:
            j0 = 0
            while j0 < nx:
                rects.append((i0, j0, min(sy_, ny-i0), min(sx_, nx-j0)))
                j0 += sx_ - ox
            i0 += sy_ - oy
        chunks = list(g.aschunks(**kw))
        ctx.op()
        ctx.trace()
        ctx.state(("chunks", size, nb, tuple(t), sx_, sy_, ox, oy))
        count = {}
        for ch in chunks:
            cells = same_place(ctx, ch, g, size, nb, t, "chunk (%r)" % (kw,))
            for c in cells:
                count[c] = count.get(c, 0) + 1
            ctx.true(ch.size[0] <= sy_ and ch.size[1] <= sx_, "chunk larger than requested: %r", ch.size)
        ctx.eq(len(count), ny*nx, "cells covered by chunks %r" % (kw,))
        if ox == 0 and oy == 0:
            ctx.true(all(v == 1 for v in count.values()), "chunks %r overlap", kw)
        got = sorted((int(round(float(F(float(ch.center_coords()[0][0, 0]))))), ch.size) for ch in chunks)
        ctx.eq(len(chunks), len(rects), "number of chunks for %r" % (kw,))
        # order and position: row by row, starting at the origin
        for ch, (i, j, h, w) in zip(chunks, rects):
            ctx.eq(tuple(ch.size), (h, w), "chunk size at cell (%d,%d)" % (i, j))
            X, Y = ch.center_coords()
            ctx.eq((F(float(X[0, 0])), F(float(Y[0, 0]))), center(t, i, j), "chunk position")
    for sx in range(1, 7):
        for ox, oy in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 2)]:
            if ox < sx and oy < sy:
                for cp in (True, False):
                    go({"size": (sx, sy), "overlap": (ox, oy), "copy": cp}, sx, sy, ox, oy)
    if sy == 1:
        chunks = list(g.aschunks())
        ctx.op()
        count = {}
        for ch in chunks:
            for c in same_place(ctx, ch, g, size, nb, t, "default chunk"):
                count[c] = count.get(c, 0) + 1
        ctx.true(len(count) == ny*nx and all(v == 1 for v in count.values()), "default chunks do not tile the grid")
    ctx.outcome("chunks")

# ---- mosaics ----------------------------------------------------------------

NOD = {"float64": float("nan"), "float32": -1.0, "int16": -5, "int32": -7, "uint8": 255, "int64": -9}

def grid_from(vals, t, nod):
    return RegularGrid(t, values=vals, nodata_value=nod, bandclass=Comp)

def check_merge(ctx, parts, weights, T0, dt, nb, what):
    """parts: list of (i0, j0, array (h,w,nb), valid (h,w))."""
    nod = NOD[dt]
    grids = []
    for (i0, j0, v, valid) in parts:
        vv = v.copy()
        vv[~valid] = nod
        t = [T0[0] + j0*T0[2], T0[1] + i0*T0[3]] + list(T0[2:])
        grids.append(grid_from(vv[:, :, 0] if nb == 1 else vv, t, nod))
    copies = [g[:, :].copy() for g in grids]
    if weights is None:
        m = merge(grids)
        W = [F(1)]*len(grids)
    else:
        m = merge(grids, weights=weights)
        W = [F(w) for w in weights]
    ctx.op()
    ctx.trace()
    imin = min(p[0] for p in parts)
    jmin = min(p[1] for p in parts)
    imax = max(p[0] + p[2].shape[0] for p in parts)
    jmax = max(p[1] + p[2].shape[1] for p in parts)
    ctx.eq(tuple(m.size), (imax-imin, jmax-jmin), what + ": mosaic size")
    ctx.eq(tuple(map(float, m.transform)), tuple(map(float, [T0[0] + jmin*T0[2], T0[1] + imin*T0[3]] + list(T0[2:]))), what + ": transform")
    ctx.eq(m.nbands, nb, what + ": bands")
    ctx.true(np.dtype(m.bands[0].dtype) == np.dtype(getattr(np, dt)), what + ": dtype")
    ctx.true(m.nodata == nod or (m.nodata != m.nodata and nod != nod), what + ": nodata value")
    vals = m[:, :, :]
    for i in range(imin, imax):
        for j in range(jmin, jmax):
            for b in range(nb):
                num = den = F(0)
                for w, (i0, j0, v, valid) in zip(W, parts):
                    if i0 <= i < i0+v.shape[0] and j0 <= j < j0+v.shape[1] and valid[i-i0, j-j0]:
                        num += w*F(float(v[i-i0, j-j0, b]))
                        den += w
                got = float(vals[i-imin, j-jmin, b])
                ctx.evaluations += 1
                if den == 0:
                    good = (got != got) if nod != nod else got == nod
                    want = "nodata"
                else:
                    want = num/den
                    tol = 1e-5*max(1, abs(float(want))) if dt.startswith("float") else 0.5 + 1e-9
                    good = abs(got - float(want)) <= tol
                if not good:
                    ctx.fail("%s: mosaic cell (%d,%d) band %d is %r, expected %s" % (what, i, j, b, got, want))
    for g, c in zip(grids, copies):
        ctx.true(np.array_equal(np.nan_to_num(g[:, :].astype(float), nan=-1), np.nan_to_num(c.astype(float), nan=-1)), "merge changed an input")

def arr(h, w, nb, k, dt):
    return np.array([[[(3 + 7*i + 5*j + 11*b + 17*k) % 97 + 1 for b in range(nb)] for j in range(w)] for i in range(h)]).astype(getattr(np, dt))

def run_merge2(off, dt, nb, ctx):
    full = lambda h, w: np.ones((h, w), dtype=bool)
    a = arr(2, 3, nb, 0, dt)
    b = arr(3, 2, nb, 1, dt)
    holes = full(3, 2)
    holes[1, 0] = False
    for T0 in ([0, 0, 1, 1, 0, 0], [-7.5, 100, 2.5, 0.5, 0, 0], [0.3, 0.7, 0.1, 0.1, 0, 0]):
        if T0[2] == 0.1 and not translation_exact(T0, off):
            continue
        for weights in (None, [1, 1], [1, 3], [0.25, 0.5]):
            for order in (0, 1):
                for valid in (full(3, 2), holes):
                    parts = [(0, 0, a, full(2, 3)), (off[0], off[1], b, valid)]
                    if order:
                        parts = parts[::-1]
                    ctx.state(("merge2", tuple(off), dt, nb, tuple(T0), repr(weights), order, bool(valid.all())))
                    check_merge(ctx, parts, weights, T0, dt, nb, "offset %r %s weights %r" % (off, dt, weights))
    ctx.outcome("merge2 " + dt)

def translation_exact(T0, off):
    """The decimal steps for which the shifted origin is a multiple in floating point as well."""
    x = ((T0[0] + off[1]*T0[2]) - T0[0]) / T0[2]
    y = ((T0[1] + off[0]*T0[3]) - T0[1]) / T0[3]
    return x % 1 == 0 and y % 1 == 0

def run_merge3(o1, o2, ctx):
    full = lambda h, w: np.ones((h, w), dtype=bool)
    for dt in ("float64", "int32"):
        parts = [(0, 0, arr(2, 2, 1, 0, dt), full(2, 2)), (o1[0], o1[1], arr(2, 3, 1, 1, dt), full(2, 3)),
                 (o2[0], o2[1], arr(1, 4, 1, 2, dt), full(1, 4))]
        for weights in (None, [1, 2, 5]):
            ctx.state(("merge3", tuple(o1), tuple(o2), dt, repr(weights)))
            check_merge(ctx, parts, weights, [10, -20, 2, 2, 0, 0], dt, 1, "three grids")
    ctx.outcome("merge3")

def run_mergemask(n, m1, m2, ctx):
    h, w = (1, 2) if n == 2 else (2, 2)
    v1 = np.array([bool(m1 >> k & 1) for k in range(n)]).reshape(h, w)
    v2 = np.array([bool(m2 >> k & 1) for k in range(n)]).reshape(h, w)
    for dt in ("float64", "int16", "uint8"):
        for off in ((0, 0), (0, 1), (1, 0), (0, 2), (-1, 1)):
            for nb in (1, 2):
                for weights in (None, [1, 4]):
                    ctx.state(("mergemask", n, m1, m2, dt, off, nb, repr(weights)))
                    check_merge(ctx, [(0, 0, arr(h, w, nb, 0, dt), v1), (off[0], off[1], arr(h, w, nb, 3, dt), v2)],
                                weights, [0, 0, 1, 1, 0, 0], dt, nb, "masks")
    ctx.outcome("mergemask")

def run_mergebad(k, ctx):
    a = make((2, 3), 1, [0, 0, 2, 2, 0, 0])
    bad = [([0, 0, 1, 2, 0, 0], 1, errors.GridError), ([0, 0, 2, 1, 0, 0], 1, errors.GridError), ([0, 0, 2, 2, 0.5, 0], 1, errors.GridError),
           ([0, 0, 2, 2, 0, 0.5], 1, errors.GridError), ([1, 0, 2, 2, 0, 0], 1, ValueError), ([0, 1, 2, 2, 0, 0], 1, ValueError),
           ([0.5, 0, 2, 2, 0, 0], 1, ValueError), ([4, -0.25, 2, 2, 0, 0], 1, ValueError), ([-4.5, 2, 2, 2, 0, 0], 1, ValueError),
           ([2, 2, 2, 2, 0, 0], 2, ValueError), ([2, 2, 2, 2, 0, 0], 3, ValueError), ([2, 2.125, 2, 2, 0, 0], 1, ValueError)]
    t, nb, exc = bad[k]
    b = make((2, 2), nb, t)
    ctx.op()
    ctx.trace()
    ctx.state(("mergebad", k))
    ctx.raises(exc, lambda: merge([a, b]), "mosaic of incompatible grids %r" % (bad[k][:2],))
    ctx.raises(exc, lambda: merge([a, a, b]), "mosaic of incompatible grids %r" % (bad[k][:2],))
    ctx.raises(TypeError, lambda: merge([a, 3]), "mosaic of non-grids")
    ctx.outcome("mergebad")

def run_arith(dt, nb, ctx):
    T = [[0, 0, 1, 1, 0, 0], [1, 0, 1, 1, 0, 0], [0, 0, 1, 2, 0, 0], [0, 0, 1, 1, 0.5, 0]]
    sizes = [(2, 3), (3, 2), (2, 2)]
    for ta, tb in itertools.product(T, T):
        for sa, sb in itertools.product(sizes, sizes):
            va = arr(sa[0], sa[1], nb, 0, dt) % 60
            vb = arr(sb[0], sb[1], nb, 1, dt) % 60
            a = RegularGrid(ta, values=va, nodata_value=NOD[dt], bandclass=Comp)
            b = RegularGrid(tb, values=vb, nodata_value=NOD[dt], bandclass=SimpleBand)
            ctx.trace()
            ctx.op(2)
            ctx.state(("arith", dt, nb, tuple(ta), tuple(tb), sa, sb))
            if ta == tb and sa == sb:
                for r, want in ((a + b, va + vb), (a - b, va - vb)):
                    ctx.true(np.array_equal(r[:, :], want), "sum or difference of grids")
                    ctx.eq(tuple(r.transform), tuple(a.transform), "transform of the result")
                    ctx.true(r.crs is a.crs, "crs")
                ctx.true(np.array_equal(a[:, :], va) and np.array_equal(b[:, :], vb), "operands changed")
                ctx.outcome("arith ok")
            else:
                ctx.raises(ValueError, lambda: a + b, "sum of grids of different structure")
                ctx.raises(ValueError, lambda: a - b, "difference of grids of different structure")
                ctx.outcome("arith refused")

def run(case, ctx):
    k = case[0]
    if k == "clip":
        run_clip(tuple(case[1]), case[2], case[3], case[4], case[5], ctx)
    elif k == "clipcrs":
        run_clipcrs(case[1], ctx)
    elif k == "resize":
        run_resize(tuple(case[1]), case[2], case[3], case[4], case[5], case[6], ctx)
    elif k == "chunks":
        run_chunks(tuple(case[1]), case[2], case[3], case[4], ctx)
    elif k == "merge2":
        run_merge2(case[1], case[2], case[3], ctx)
    elif k == "merge3":
        run_merge3(case[1], case[2], ctx)
    elif k == "mergebad":
        run_mergebad(case[1], ctx)
    elif k == "mergemask":
        run_mergemask(case[1], case[2], case[3], ctx)
    else:
        run_arith(case[1], case[2], ctx)
