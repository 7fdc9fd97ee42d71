"""Slope, aspect, gradient, divergence, hillshade: the documented neighbourhood formulas at every interior cell."""
import itertools, math
import numpy as np
from karta.raster.grid import RegularGrid
from karta.raster import misc
from karta.raster.band import SimpleBand, CompressedBand
from karta.crs import Cartesian, WebMercator

RULE = ("a case is a grid size, resolution, dtype, band layout and a pattern family; inside it every pattern (one-hot cells, "
        "pairs of cells, ternary 3x3 neighbourhoods, single and paired nodata cells) is evaluated by every function and each "
        "cell is compared with a direct per-cell evaluation; non-trivial = at least one pattern was evaluated")
BOUNDS = {"quick": "sizes 3x3..5x6, 5 resolutions (both signs), 5 dtypes, all one-hot and two-hot patterns, all 0/1/2 patterns "
                   "of the eight neighbours of a cell (6561), every single nodata cell",
          "thorough": "additionally every pair of nodata cells on 5x6"}
ASSUMPTIONS = ["values are small integers, exact in single precision"]

RES = [(1, 1), (2, 5), (0.5, 0.25), (3, -2), (-1, 1)]
DT = ["float64", "float32", "int16", "int32", "uint8"]

def cases(tier):
    for size in [(3, 3), (3, 5), (5, 3), (4, 4), (5, 6)]:
        for r in range(len(RES)):
            for d in DT:
                if d == "float64" or (r + len(d)) % 2 == 0:
                    yield ["hot", size, r, d]
    for a in itertools.product((0, 1, 2), repeat=4):
        yield ["ring", a]
    for size in [(4, 4), (5, 6)]:
        for k in range(size[0]*size[1]):
            yield ["nodata", size, k]
    yield ["skew"]

def ref(D, res):
    """Per cell (gx, gy) of the 3x3 neighbourhood method and whether all eight neighbours are data; a component is None
    at the border and where one of the six cells it is made of is missing."""
    ny, nx = len(D), len(D[0])
    out = [[(None, None, False)]*nx for _ in range(ny)]
    def comb(cells, r):
        return None if any(c is None for c in cells) else sum(w*c for w, c in zip((1, 2, 1, -1, -2, -1), cells)) / (8.0*r)
    for i in range(1, ny-1):
        for j in range(1, nx-1):
            gx = comb([D[i-1][j+1], D[i][j+1], D[i+1][j+1], D[i-1][j-1], D[i][j-1], D[i+1][j-1]], res[0])
            gy = comb([D[i+1][j-1], D[i+1][j], D[i+1][j+1], D[i-1][j-1], D[i-1][j], D[i-1][j+1]], res[1])
            out[i][j] = (gx, gy, gx is not None and gy is not None)
    return out

def close(a, b):
    return abs(a - b) <= 1e-5*max(1.0, abs(b))

def check(g, D, res, band, ctx, what):
    ny, nx = g.size
    R = ref(D, res)
    gx, gy = misc.gradient(g, band=band)
    sl = misc.slope(g, band=band)
    asp = misc.aspect(g, band=band)
    ctx.op(3)
    ctx.trace()
    for nm, o in (("gradient", gx), ("gradient", gy), ("slope", sl), ("aspect", asp)):
        ctx.eq(tuple(o.size), (ny, nx), nm + " size")
        ctx.eq(tuple(o.transform), tuple(g.transform), nm + " transform")
        ctx.true(o.crs is g.crs, nm + " crs")
        ctx.eq(o.nbands, 1, nm + " bands")
    GX, GY, S, A = gx[:, :, 0], gy[:, :, 0], sl[:, :, 0], asp[:, :, 0]
    ctx.evaluations += ny*nx
    for i in range(ny):
        for j in range(nx):
            inner = 0 < i < ny-1 and 0 < j < nx-1
            v = (float(GX[i, j]), float(GY[i, j]), float(A[i, j]), float(S[i, j]))
            r = R[i][j]
            for q in (0, 1):
                # a missing cell outside the component's own six neighbours may or may not void the component
                if v[q] != v[q]:
                    if r[2]:
                        ctx.fail("%s: gradient component %d at (%d,%d) is missing" % (what, q, i, j))
                elif r[q] is None or not close(v[q], r[q]):
                    ctx.fail("%s: gradient component %d at (%d,%d) is %r, expected %r" % (what, q, i, j, v[q], r[q]))
            if not r[2]:
                if v[2] == v[2] or (inner and v[3] == v[3]):
                    ctx.fail("%s: cell (%d,%d) lacks a full neighbourhood but is %r" % (what, i, j, v))
                continue
            if not close(v[3], math.hypot(*r[:2])):
                ctx.fail("%s: slope at (%d,%d) is %r, expected %r" % (what, i, j, v[3], math.hypot(*r[:2])))
            if abs(r[0]) > 1e-9 or abs(r[1]) > 1e-9:
                w = math.atan2(r[1], -r[0])
                dd = (v[2] - w + math.pi) % (2*math.pi) - math.pi
                if abs(dd) > 1e-5:
                    ctx.fail("%s: aspect at (%d,%d) is %r, expected %r" % (what, i, j, v[2], w))
                if not (-math.pi - 1e-6 <= v[2] <= math.pi + 1e-6):
                    ctx.fail("aspect out of range: %r" % v[2])
    if tuple(res) != (1, 1) or ny*nx > 9:
        check_shade(g, R, band, ctx, what)
    flat = [math.hypot(*c[:2]) for row in R for c in row if c[2]]
    if flat and max(flat) > 0:
        u, w = misc.normed_potential_vectors(g, band=band)
        ctx.op()
        U, W = u[:, :, 0], w[:, :, 0]
        for i in range(ny):
            for j in range(nx):
                if R[i][j][2]:
                    ctx.evaluations += 1
                    if not (close(float(U[i, j]), R[i][j][0]/max(flat)) and close(float(W[i, j]), R[i][j][1]/max(flat))):
                        ctx.fail("%s: normed potential vector at (%d,%d)" % (what, i, j))

def check_shade(g, R, band, ctx, what):
    light = (330.0, 60.0) if band == 0 else (45.0 + 30*band, 20.0)
    az, el = math.radians(light[0]), math.radians(light[1])
    s = (math.cos(az), math.sin(az), math.sin(el))
    want = {}
    for i, row in enumerate(R):
        for j, c in enumerate(row):
            if c[2]:
                n = math.sqrt(c[0]*c[0] + c[1]*c[1] + 1)
                want[i, j] = (-c[0]*s[0] - c[1]*s[1] + s[2]) / n
    if not want or any((c[0] is None) != (c[1] is None) or (c[0] is not None and not c[2]) for row in R for c in row):
        return      # the contrast stretch depends on cells that may or may not be missing
    lo, hi = np.percentile(list(want.values()), [2, 98])
    h = misc.hillshade(g, band=band, azimuth=light[0], elevation=light[1]) if band else misc.hillshade(g)
    ctx.eq(tuple(h.transform), tuple(g.transform), "hillshade transform")
    ctx.true(h.crs is g.crs and h.nbands == 1 and tuple(h.size) == tuple(g.size), "placement of the hillshade")
    ctx.op()
    H, M = h[:, :, 0], h.data_mask
    for i in range(len(R)):
        for j in range(len(R[0])):
            v = float(H[i, j])
            if (i, j) in want:
                w = min(max(want[i, j], lo), hi)
                if not (M[i, j] and close(v, w)):
                    ctx.fail("%s: hillshade at (%d,%d) is %r, expected %r" % (what, i, j, v, w))
            elif v == v or M[i, j]:
                ctx.fail("%s: hillshade at (%d,%d) is %r, expected a missing cell" % (what, i, j, v))

def check_div(g, U, V, res, bands, ctx, what):
    ny, nx = g.size
    d = misc.divergence(g, bands=bands)[:, :, 0]
    ctx.op()
    for i in range(ny):
        for j in range(nx):
            v = float(d[i, j])
            ctx.evaluations += 1
            n = []
            if 0 < i < ny-1 and 0 < j < nx-1:
                n = [U[i][j+1], U[i][j-1], V[i+1][j], V[i-1][j]]
            if not n or any(x is None for x in n):
                if v == v:
                    ctx.fail("%s: divergence at (%d,%d) lacks neighbours but is %r" % (what, i, j, v))
                continue
            w = (n[0]-n[1])/(2.0*res[0]) + (n[2]-n[3])/(2.0*res[1])
            if not close(v, w):
                ctx.fail("%s: divergence at (%d,%d) is %r, expected %r" % (what, i, j, v, w))

def build(layers, res, dt, nod=None, cls=SimpleBand):
    fill = -1 if dt != "uint8" else 255
    nod = np.nan if dt.startswith("float") and nod is None else (fill if nod is None else nod)
    v = np.dstack([np.array([[nod if x is None else x for x in row] for row in L]) for L in layers]).astype(getattr(np, dt))
    return RegularGrid((10, 20, res[0], res[1], 0, 0), values=v, nodata_value=nod, crs=WebMercator, bandclass=cls)

def run_hot(size, r, dt, ctx):
    ny, nx = size
    res = RES[r]
    cells = [(i, j) for i in range(ny) for j in range(nx)]
    base = [[0]*nx for _ in range(ny)]
    pats = [()] + [(c,) for c in cells]
    if ny*nx <= 16:
        pats += list(itertools.combinations(cells, 2))[::(1 if ny*nx < 12 else 3)]
    for p in pats:
        D = [row[:] for row in base]
        for k, (i, j) in enumerate(p):
            D[i][j] = 8 + 5*k
        E = [[(3*i + 7*j*j) % 11 for j in range(nx)] for i in range(ny)]
        g = build([D], res, dt)
        check(g, D, res, 0, ctx, "pattern %r" % (p,))
        ctx.state(("hot", size, r, dt, p))
        if len(p) <= 1:
            g2 = build([E, D, E], res, dt, cls=CompressedBand if len(p) == 1 and p[0] == (1, 1) else SimpleBand)
            check(g2, D, res, 1, ctx, "second band, pattern %r" % (p,))
            check(g2, E, res, 2, ctx, "third band, pattern %r" % (p,))
            check_div(g2, E, D, res, (0, 1), ctx, "pattern %r" % (p,))
            check_div(g2, D, E, res, (1, 2), ctx, "pattern %r" % (p,))
    ctx.outcome("hot " + dt)

def run_ring(a, ctx):
    for b in itertools.product((0, 1, 2), repeat=4):
        n = list(a) + list(b)
        D = [[n[0], n[1], n[2]], [n[3], 1, n[4]], [n[5], n[6], n[7]]]
        for res in ((1, 1), (2, -5)):
            g = build([D], res, "float64")
            check(g, D, res, 0, ctx, "neighbourhood %r" % (D,))
        ctx.state(("ring", tuple(n)))
    ctx.outcome("ring")

def run_nodata(size, k, ctx):
    ny, nx = size
    cells = [(i, j) for i in range(ny) for j in range(nx)]
    others = [None] + (cells[k+1:] if ctx.thorough else cells[k+1::7])
    for o in others:
        D = [[(5*i*i + 3*j + i*j) % 17 for j in range(nx)] for i in range(ny)]
        E = [[(2*i + j*j) % 13 for j in range(nx)] for i in range(ny)]
        D[cells[k][0]][cells[k][1]] = None
        if o:
            D[o[0]][o[1]] = None
        for dt, nod in (("float64", None), ("float64", -99), ("int16", None), ("uint8", None), ("float32", 200)):
            for res in ((1, 1), (2, -3)):
                g = build([D], res, dt, nod)
                check(g, D, res, 0, ctx, "nodata at %r %r" % (cells[k], o))
                # a cell missing in one band is not data in the other either
                g2 = build([E, D], res, dt, nod)
                E2 = [[None if D[i][j] is None else E[i][j] for j in range(nx)] for i in range(ny)]
                check(g2, E2, res, 0, ctx, "two bands, nodata at %r %r" % (cells[k], o))
                check_div(g2, E2, D, res, (0, 1), ctx, "nodata at %r %r" % (cells[k], o))
        ctx.state(("nodata", size, k, o))
    ctx.outcome("nodata")

def run(case, ctx):
    if case[0] == "hot":
        run_hot(tuple(case[1]), case[2], case[3], ctx)
    elif case[0] == "ring":
        run_ring(case[1], ctx)
    elif case[0] == "nodata":
        run_nodata(tuple(case[1]), case[2], ctx)
    else:
        ctx.trace()
        for s in ((0.5, 0), (0, 0.5), (-1, 1)):
            g = RegularGrid((0, 0, 1, 1) + s, values=np.zeros((4, 4, 2)))
            ctx.state(("skew", s))
            for f in (misc.slope, misc.aspect, misc.gradient, misc.divergence, misc.normed_potential_vectors, misc.hillshade):
                ctx.op()
                ctx.raises(NotImplementedError, lambda: f(g), "%s of a skewed grid" % f.__name__)
        ctx.outcome("skew")
