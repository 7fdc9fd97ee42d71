"""Grid georeferencing: every coordinate/index/extent query agrees with one affine map."""
import itertools
from fractions import Fraction as F
import numpy as np
from karta.raster.grid import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand
from karta.raster.coordgen import CoordinateGenerator
from karta.crs import Cartesian, LonLatWGS84, WebMercator, ProjectedCRS

RULE = ("a case is one grid (size, transform, band layout, coordinate system); inside it every cell, every vertex, every "
        "quarter-cell position in and around the grid and a table of slice keys are queried through every public "
        "coordinate method and compared with exact rational evaluation of the affine map; non-trivial = at least one "
        "query was made")
BOUNDS = {"quick": "8 sizes up to 6x5 x 4 origins x 7 resolutions (both signs) x 7 skews, all cells/vertices, quarter-cell "
                   "positions one cell beyond the edge; all 0/1 validity masks of 2x2 and 2x3 grids, single-cell masks of "
                   "4x5 grids, for data extents; 3 coordinate systems",
          "thorough": "as quick with all 2x4/3x3 validity masks and a finer position lattice"}
ASSUMPTIONS = ["transforms are dyadic rationals so that the affine map is exact in binary floating point"]

SIZES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 4), (4, 3), (6, 5), (2, 5)]
ORIGINS = [(0, 0), (-3, 2), (1024.5, -512.25), (100000, 7000000)]
RES = [(1, 1), (2, 3), (0.5, 0.25), (1, -1), (-2, 1), (-0.5, -0.5), (30, 30)]
SKEWS = [(0, 0), (0.25, 0), (0, 0.25), (-0.125, 0), (0.125, -0.125), (-0.125, -0.0625), (0.0625, 0.125)]

def transforms():
    for (k, o), (m, r), (n, s) in itertools.product(enumerate(ORIGINS), enumerate(RES), enumerate(SKEWS)):
        yield list(o) + list(r) + [s[0]*abs(r[0]), s[1]*abs(r[1])]

def cases(tier):
    T = list(transforms())
    for a, t in enumerate(T):
        for b, size in enumerate(SIZES):
            if tier == "thorough" or (a + b) % 2 == 0 or a % 7 == 0:
                yield ["coords", size, t]
    ext = [[0, 0, 1, 1, 0, 0], [5, 9, 2, 3, 0, 0], [-40, -8, 1, 1, 0, 0], [3, 50, 1, -1, 0, 0], [1, 0, -2, 2, 0, 0],
           [1, 2, 4, 2, 0.5, 0], [1, 2, 4, 2, 0.5, 0.25], [10, 20, 4, 2, -0.5, 0.25], [2, 7, 4, -2, 1, 0.25]]
    for t in ext:
        for size in ([(2, 2), (2, 3)] if tier == "quick" else [(2, 2), (2, 3), (3, 3), (2, 4)]):
            for m in range(1, 2**(size[0]*size[1])):
                if tier == "thorough" or m % 3 == 0 or size == (2, 2):
                    yield ["dataext", size, t, m]
        for k in range(20):
            yield ["dataext1", (4, 5), t, k]
    for name in ("LonLatWGS84", "WebMercator", "utm33"):
        for t in [[10, 40, 0.5, 0.25, 0, 0], [-70, -30, 1, 1, 0, 0], [12, 50, 1, -0.5, 0, 0], [12, 50, 1, 0.5, 0.125, 0.25]]:
            for size in [(3, 4), (1, 3), (4, 1)]:
                yield ["crs", size, t, name]

CRS = {"LonLatWGS84": LonLatWGS84, "WebMercator": WebMercator, "Cartesian": Cartesian,
       "utm33": ProjectedCRS("+proj=utm +zone=33 +ellps=WGS84 +north=True", "UTM 33N")}

def fwd(t, i, j):
    """Exact world position of continuous (row, column) corner index."""
    a, b, c, d, e, f = [F(v) for v in t]
    return a + F(j)*c + F(i)*e, b + F(i)*d + F(j)*f

def run_coords(size, t, ctx):
    ny, nx = size
    ctx.state(("coords", tuple(size), tuple(t)))
    ctx.trace()
    g = RegularGrid(t, values=np.arange(ny*nx, dtype=np.float64).reshape(ny, nx))
    scale = max(1.0, max(abs(float(v)) for v in t[:2]), 10*abs(t[2])*nx, 10*abs(t[3])*ny)
    tol = scale*1e-12
    ctx.eq(tuple(g.transform), tuple(float(v) for v in t), "transform")
    ctx.eq(tuple(g.origin), (float(t[0]), float(t[1])), "origin")
    ctx.eq(tuple(g.resolution), (float(t[2]), float(t[3])), "resolution")
    ctx.eq(tuple(g.skew), (float(t[4]), float(t[5])), "skew")
    gd = RegularGrid(dict(zip(("xllcorner", "yllcorner", "dx", "dy", "sx", "sy"), t)), values=np.zeros((ny, nx)))
    ctx.eq(tuple(gd.transform), tuple(g.transform), "transform given as a dictionary")
    half = F(1, 2)
    C = [[fwd(t, i+half, j+half) for j in range(nx)] for i in range(ny)]
    V = [[fwd(t, i, j) for j in range(nx+1)] for i in range(ny+1)]
    ctx.eq(tuple(map(F, g.center_llref())), C[0][0], "center_llref")
    ctx.eq(tuple(map(F, g.corner_llref())), V[0][0], "corner_llref")
    for meth, ref in (("center_coords", C), ("coordmesh", C), ("vertex_coords", V)):
        X, Y = getattr(g, meth)()
        ctx.op()
        ctx.eq(X.shape, (len(ref), len(ref[0])), meth + " shape")
        ctx.eq(Y.shape, X.shape, meth + " shape")
        for i in range(len(ref)):
            for j in range(len(ref[0])):
                ctx.close(float(X[i, j]), float(ref[i][j][0]), tol, "%s x[%d,%d]" % (meth, i, j))
                ctx.close(float(Y[i, j]), float(ref[i][j][1]), tol, "%s y[%d,%d]" % (meth, i, j))
    # coordinate generator
    cg = g.coordinates()
    XY = np.array([[[float(c[0]), float(c[1])] for c in row] for row in C])
    for i in range(ny):
        for j in range(nx):
            x, y = cg[i, j]
            ctx.op()
            ctx.close(float(x), XY[i, j, 0], tol, "coordinates()[%d,%d] x" % (i, j))
            ctx.close(float(y), XY[i, j, 1], tol, "coordinates()[%d,%d] y" % (i, j))
    keys = [slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(None, None, 2), slice(0, 1), slice(-1, None)]
    for a in keys + [0, ny-1]:
        for b in keys + [0, nx-1]:
            want = XY[a, b]
            if want.size == 0:
                continue
            x, y = cg[a, b]
            ctx.op()
            ctx.eq(np.shape(x), want.shape[:-1], "coordinates()[%r,%r] shape" % (a, b))
            ctx.eq(np.shape(y), want.shape[:-1], "coordinates()[%r,%r] shape" % (a, b))
            ctx.true(np.all(np.abs(x - want[..., 0]) <= tol) and np.all(np.abs(y - want[..., 1]) <= tol),
                     "coordinates()[%r,%r] = %r %r, expected %r" % (a, b, x, y, want))
    # positions: the inverse map, at quarter-cell positions in and around the grid
    q = 8 if ctx.thorough else 4
    steps_i = range(-q, (ny+1)*q + 1) if ny < 3 or ctx.thorough else range(-q, (ny+1)*q + 1, 3)
    steps_j = range(-q, (nx+1)*q + 1) if nx < 3 or ctx.thorough else range(-q, (nx+1)*q + 1, 3)
    pts = [(F(i, q), F(j, q)) for i in steps_i for j in steps_j]
    W = [fwd(t, i, j) for i, j in pts]
    xs = [float(w[0]) for w in W]
    ys = [float(w[1]) for w in W]
    I, J = g.positions(xs, ys)
    I2, J2 = g.positions(np.array(xs), np.array(ys))
    ctx.op(2)
    ptol = 1e-9 * max(1.0, scale / min(abs(t[2]), abs(t[3])) / 1e3)
    for k, (i, j) in enumerate(pts):
        ctx.close(float(I[k]), float(i) - 0.5, ptol, "positions row at corner index (%s,%s)" % (i, j))
        ctx.close(float(J[k]), float(j) - 0.5, ptol, "positions column at corner index (%s,%s)" % (i, j))
    ctx.true(np.array_equal(I, I2) and np.array_equal(J, J2), "positions of lists and arrays differ")
    for k in range(0, len(pts), 7):
        a, b = g.positions(xs[k], ys[k])
        ctx.op()
        ctx.true(a == I[k] and b == J[k], "positions of a scalar differs from the vector form")
    # indices: nearest cell, refused outside
    inside_x, inside_y, inside_ij = [], [], []
    for k, (i, j) in enumerate(pts):
        fi, fj = i - half, j - half
        if (fi % 1) == half or (fj % 1) == half:
            continue        # a tie between cells (or the grid's edge)
        ri, rj = round(fi), round(fj)
        ctx.op()
        if 0 <= ri < ny and 0 <= rj < nx:
            a, b = g.indices(xs[k], ys[k])
            ctx.eq((int(a), int(b)), (ri, rj), "indices at corner index (%s,%s)" % (i, j))
            inside_x.append(xs[k]); inside_y.append(ys[k]); inside_ij.append((ri, rj))
        else:
            ctx.raises(IndexError, lambda: g.indices(xs[k], ys[k]), "indices outside the grid at (%s,%s)" % (i, j))
            if k % 5 == 0:
                cx, cy = float(C[0][0][0]), float(C[0][0][1])
                ctx.raises(IndexError, lambda: g.indices([cx, xs[k]], [cy, ys[k]]), "indices of a list with one point outside")
                ctx.raises(IndexError, lambda: g.indices(np.array([xs[k], cx]), np.array([ys[k], cy])), "indices, point outside")
    a, b = g.indices(inside_x, inside_y)
    ctx.op()
    ctx.eq([(int(p), int(r)) for p, r in zip(a, b)], inside_ij, "indices of a list")
    ctx.raises(ValueError, lambda: g.positions([0.0, 1.0], [0.0]), "positions of lists of unequal size")
    # extents
    corners = [V[0][0], V[0][nx], V[ny][0], V[ny][nx]]
    cent = [C[0][0], C[0][nx-1], C[ny-1][0], C[ny-1][nx-1]]
    for ref, P in (("edge", corners), ("center", cent)):
        want = (min(p[0] for p in P), max(p[0] for p in P), min(p[1] for p in P), max(p[1] for p in P))
        got = g.extent(reference=ref)
        ctx.op()
        for u, v, nm in zip(got, want, ("xmin", "xmax", "ymin", "ymax")):
            ctx.close(float(u), float(v), tol, "extent(%r) %s" % (ref, nm))
        if ref == "edge":
            bb = g.bbox()
            for u, v, nm in zip(bb, (want[0], want[2], want[1], want[3]), ("xmin", "ymin", "xmax", "ymax")):
                ctx.close(float(u), float(v), tol, "bbox %s" % nm)
            for u, v in zip(g.data_bbox(), bb):
                ctx.close(float(u), float(v), tol, "data_bbox of a full grid")
    ctx.close(*[float(g.extent()[k]) for k in (0,)] + [float(g.extent(reference="center")[0])] + [0, "default reference is the center"])
    ctx.outcome("signs %s skew %s" % (("+" if t[2] > 0 else "-") + ("+" if t[3] > 0 else "-"), bool(t[4] or t[5])))

def run_dataext(size, t, valid, ctx, key):
    ny, nx = size
    half = F(1, 2)
    for variant in ("nan", "int", "multi", "multipart", "custom"):
        ctx.trace()
        ctx.state((key, variant, tuple(t)))
        if variant == "nan":
            v = np.ones((ny, nx)); nod = np.nan
            for i in range(ny):
                for j in range(nx):
                    if not valid[i][j]:
                        v[i, j] = nod
            g = RegularGrid(t, values=v)
        elif variant == "int":
            v = np.where(np.array(valid), 4, -9).astype(np.int32)
            g = RegularGrid(t, values=v, nodata_value=-9, bandclass=SimpleBand)
        elif variant == "multi":
            v = np.dstack([np.where(np.array(valid), 4, -9)]*2).astype(np.int16)
            g = RegularGrid(t, values=v, nodata_value=-9)
        elif variant == "multipart":
            # cells count as data only where every band holds data
            a = np.array(valid)
            alt = (np.add.outer(np.arange(ny), np.arange(nx)) % 2).astype(bool)
            v = np.dstack([np.where(a | alt, 4.0, -9.0), np.where(a | ~alt, 4.0, -9.0)])
            g = RegularGrid(t, values=v, nodata_value=-9)
        else:
            v = np.where(np.array(valid), 4, -3).astype(np.int32)
            g = RegularGrid(t, values=v, nodata_value=-9)
        kw = {"nodata": -3} if variant == "custom" else {}
        P = {"center": [], "edge": []}
        for i in range(ny):
            for j in range(nx):
                if valid[i][j]:
                    P["center"].append(fwd(t, i+half, j+half))
                    P["edge"] += [fwd(t, i+a, j+b) for a in (0, 1) for b in (0, 1)]
        for ref in ("center", "edge"):
            want = (min(p[0] for p in P[ref]), max(p[0] for p in P[ref]), min(p[1] for p in P[ref]), max(p[1] for p in P[ref]))
            got = g.data_extent(ref, **kw)
            ctx.op()
            for u, w, nm in zip(got, want, ("xmin", "xmax", "ymin", "ymax")):
                ctx.close(float(u), float(w), 1e-9, "data_extent(%r) %s, %s" % (ref, nm, variant))
            if ref == "edge" and variant != "custom":
                for u, w in zip(g.data_bbox(), (want[0], want[2], want[1], want[3])):
                    ctx.close(float(u), float(w), 1e-9, "data_bbox, %s" % variant)
    ctx.outcome("dataext %d valid" % sum(map(sum, valid)))

def run_crs(size, t, name, ctx):
    ny, nx = size
    crs = CRS[name]
    # place the grid in its own system so that it covers the region around t in lon/lat
    if name != "LonLatWGS84":
        x0, y0 = LonLatWGS84.transform(crs, t[0], t[1])
        t = [round(float(x0)), round(float(y0)), t[2]*65536, t[3]*65536, t[4]*65536, t[5]*65536]
    g = RegularGrid(t, values=np.ones((ny, nx)), crs=crs)
    ctx.trace()
    ctx.state(("crs", name, tuple(size), tuple(t)))
    half = F(1, 2)
    for other in ("LonLatWGS84", "WebMercator", "utm33"):
        out = CRS[other]
        cg = g.coordinates(crs=out)
        X, Y = cg[:, :]
        ctx.op()
        pts = {}
        for i in range(ny):
            for j in range(nx):
                x, y = fwd(t, i+half, j+half)
                u, v = crs.transform(out, float(x), float(y))[:2] if other != name else (float(x), float(y))
                tol = 1e-9*max(1, abs(u), abs(v))
                ctx.close(float(X[i, j]), u, tol, "coordinates(crs)[:,:] x")
                ctx.close(float(Y[i, j]), v, tol, "coordinates(crs)[:,:] y")
                a, b = cg[i, j]
                ctx.op()
                ctx.close(float(a), u, tol, "coordinates(crs)[i,j] x")
                ctx.close(float(b), v, tol, "coordinates(crs)[i,j] y")
                pts[i, j] = (u, v)
        # extent in another system: the box spanned by the reprojected corners of the extent
        for ref in ("center", "edge"):
            xmin, xmax, ymin, ymax = g.extent(reference=ref)
            cs = [(xmin, ymin), (xmin, ymax), (xmax, ymin), (xmax, ymax)]
            tr = [crs.transform(out, p, q)[:2] if other != name else (p, q) for p, q in cs]
            want = (min(p[0] for p in tr), max(p[0] for p in tr), min(p[1] for p in tr), max(p[1] for p in tr))
            got = g.extent(reference=ref, crs=out)
            ctx.op()
            for p, q in zip(got, want):
                ctx.close(float(p), float(q), 1e-9*max(1, abs(q)), "extent(%s, crs)" % ref)
            if ref == "edge":
                for p, q in zip(g.bbox(crs=out), (want[0], want[2], want[1], want[3])):
                    ctx.close(float(p), float(q), 1e-9*max(1, abs(q)), "bbox(crs)")
        # data extent in another system
        de = g.data_extent("center", crs=out)
        ctx.op()
        want = (min(p[0] for p in pts.values()), max(p[0] for p in pts.values()),
                min(p[1] for p in pts.values()), max(p[1] for p in pts.values()))
        for p, q in zip(de, want):
            ctx.close(float(p), float(q), 1e-9*max(1, abs(q)), "data_extent(crs)")
    ctx.outcome("crs " + name)

def run(case, ctx):
    if case[0] == "coords":
        run_coords(tuple(case[1]), case[2], ctx)
    elif case[0] == "dataext":
        ny, nx = case[1]
        m = case[3]
        run_dataext((ny, nx), case[2], [[bool(m >> (i*nx+j) & 1) for j in range(nx)] for i in range(ny)], ctx, (ny, nx, m))
    elif case[0] == "dataext1":
        ny, nx = case[1]
        k = case[3]
        run_dataext((ny, nx), case[2], [[i*nx+j == k for j in range(nx)] for i in range(ny)], ctx, (ny, nx, -1, k))
    else:
        run_crs(tuple(case[1]), case[2], case[3], ctx)
