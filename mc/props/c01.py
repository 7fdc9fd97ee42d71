"""Raster storage behaves like one plain array under any history of writes."""
import itertools
import numpy as np
from karta.raster.band import SimpleBand, CompressedBand
from karta.raster.grid import RegularGrid

RULE = ("a case fixes a storage configuration (band class, size, chunk size, dtype, fill) and the first write; "
        "inside it every continuation up to the depth bound is replayed from scratch on real bands/grids and compared, "
        "cell by cell, with a plain numpy array that received the same writes; non-trivial = at least one write and "
        "one read were executed")
BOUNDS = {"quick": "bands up to 5x4 cells, chunks 1x1..7x3, every block write x every block write (depth 2) of different values and of one value (zero, the initial value, another one), every block "
                   "read after depth 1; grids up to 4x5x3 with 23 write keys x 3 value shapes, depth 2, 180 read keys; "
                   "300x520 grids with the default 256x256 chunks, writes straddling every chunk border; 11 dtypes",
          "thorough": "as quick with depth 3 on the small bands and grids and larger band sizes"}
ASSUMPTIONS = ["numpy array assignment is the reference semantics",
               "blosc is deterministic and lossless"]

INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
DT = {n: getattr(np, n) for n in INTS + ["float32", "float64", "complex64", "complex128"]}

def make_band(cfg):
    cls, size, chunk, dt, init = cfg
    size = tuple(size)
    if cls == "simple":
        return SimpleBand(size, DT[dt], initval=init)
    if chunk is None:
        return CompressedBand(size, DT[dt], initval=init)
    return CompressedBand(size, DT[dt], chunksize=tuple(chunk), initval=init)

def blocks(size):
    ny, nx = size
    return [(y, x, h, w) for h in range(1, ny+1) for w in range(1, nx+1)
            for y in range(ny-h+1) for x in range(nx-w+1)]

def pattern(h, w, step, dt):
    a = (np.arange(h*w).reshape(h, w) + 1 + 30*step)
    return a.astype(DT[dt])

def same(got, want, ctx, what):
    ctx.evaluations += 1
    if not (isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype == want.dtype
            and np.array_equal(got, want)):
        ctx.fail("%s:\n got %s %s\n%r\n expected %s %s\n%r" % (
            what, getattr(got, "shape", None), getattr(got, "dtype", None), got, want.shape, want.dtype, want))

# ---- cases ------------------------------------------------------------------

def band_cfgs(tier):
    out = []
    for size, chunks in [((1, 1), [(1, 1), (2, 3)]), ((1, 4), [(1, 1), (2, 2), (2, 3)]),
                         ((4, 1), [(1, 1), (2, 2), (3, 2)]),
                         ((3, 4), [(1, 1), (2, 2), (2, 3), (7, 3)]),
                         ((4, 3), [(2, 2), (3, 2), (1, 4), (3, 7)])]:
        for chunk in chunks:
            out.append(("compressed", size, chunk, "float64", 0))
    out.append(("compressed", (5, 4), (2, 3), "int32", -7))
    out.append(("compressed", (3, 4), None, "int16", 5))
    out.append(("simple", (3, 4), None, "float64", 0))
    out.append(("simple", (3, 4), None, "int32", -3))
    for dt in sorted(DT):
        out.append(("compressed", (3, 3), (2, 2), dt, 9))
    if tier == "thorough":
        for size in [(5, 5), (6, 4), (4, 6)]:
            for chunk in [(2, 2), (3, 2), (2, 3), (4, 4), (5, 1)]:
                out.append(("compressed", size, chunk, "float64", 1))
    return out

def cases(tier):
    for cfg in band_cfgs(tier):
        for b in range(len(blocks(cfg[1]))):
            yield ["band", cfg, b]
    for cfg in [((3, 4), 1, "comp23"), ((3, 4), 2, "comp"), ((4, 5), 3, "comp22"), ((3, 4), 2, "simple"),
                ((1, 4), 2, "comp23"), ((4, 1), 2, "comp23"), ((1, 1), 2, "comp"), ((4, 5), 1, "comp22")]:
        for dt in (["float64", "int16", "uint8"] if cfg == ((3, 4), 2, "comp") else ["float64"]):
            for k in range(len(write_ops(cfg[0], cfg[1]))):
                yield ["grid", cfg, dt, k]
    for size, nb in [((300, 520), 2), ((257, 255), 1), ((256, 256), 1), ((255, 513), 1)]:
        if True:
            for k in range(len(big_ops(size))):
                yield ["big", size, nb, k]
    for dt in sorted(DT):
        for nb in (1, 2, 3):
            for cls in ("comp", "simple"):
                yield ["alias", dt, nb, cls]

# ---- band level -------------------------------------------------------------

def run_band(cfg, b1, ctx):
    size = tuple(cfg[1])
    dt = cfg[3]
    B = blocks(size)
    def fresh(hist):
        band = make_band(cfg)
        model = np.full(size, cfg[4], dtype=DT[dt])
        for s, k in enumerate(hist):
            y, x, h, w = B[k]
            v = pattern(h, w, s, dt)
            band.setblock(y, x, v)
            model[y:y+h, x:x+w] = v
            v += v.dtype.type(1)     # the band must not keep a view of what it was given
            ctx.op()
        return band, model
    def check(band, model, hist, reads):
        ctx.trace()
        ctx.state((repr(cfg), model.tobytes()))
        for (y, x, h, w) in reads:
            ctx.op()
            same(band.getblock(y, x, h, w), model[y:y+h, x:x+w],
                 ctx, "getblock%r after block writes %r" % ((y, x, h, w), [B[k] for k in hist]))
    ctx.eq(tuple(make_band(cfg).size), size, "size")
    ctx.true(np.dtype(make_band(cfg).dtype) == np.dtype(DT[dt]), "dtype")
    full = (0, 0) + size
    if b1 == 0:
        band, model = fresh([])
        check(band, model, [], B)
    band, model = fresh([b1])
    check(band, model, [b1], B)
    # reads must not have disturbed anything
    check(band, model, [b1], [full])
    small = len(B) <= 36
    # blocks of one value: zero, the initial value, another one
    uniform = (0, cfg[4], 1)
    for u in uniform:
        def const(band, model, k, u):
            y, x, h, w = B[k]
            band.setblock(y, x, np.full((h, w), u, dtype=DT[dt]))
            model[y:y+h, x:x+w] = u
            ctx.op()
        band, model = fresh([])
        const(band, model, b1, u)
        check(band, model, [b1], [full, B[b1]])
        if cfg[1][0]*cfg[1][1] <= 12:
            for b2 in range(len(B)):
                band, model = fresh([b2])
                const(band, model, b1, u)
                check(band, model, [b2, b1], [full])
                const(band, model, b2, uniform[0])
                check(band, model, [b2, b1, b2], [full])
    for b2 in range(len(B)):
        band, model = fresh([b1, b2])
        check(band, model, [b1, b2], [full, B[b1], B[b2]])
        if ctx.thorough and small:
            for b3 in range(len(B)):
                band, model = fresh([b1, b2, b3])
                check(band, model, [b1, b2, b3], [full])
        if b2 % 16 == 0:
            ctx.beat()
    ctx.outcome("band:%s" % cfg[0])

# ---- grid level -------------------------------------------------------------

class Comp23(CompressedBand):
    def __init__(self, size, dtype, initval=0):
        CompressedBand.__init__(self, size, dtype, chunksize=(2, 3), initval=initval)

class Comp22(CompressedBand):
    def __init__(self, size, dtype, initval=0):
        CompressedBand.__init__(self, size, dtype, chunksize=(2, 2), initval=initval)

CLS = {"comp": CompressedBand, "comp23": Comp23, "comp22": Comp22, "simple": SimpleBand}

def axis_keys(n):
    """(label, key) list for one axis: integers, negative integers, slices (numpy semantics)."""
    ks = [0, -1, slice(None), slice(1, None), slice(None, -1), slice(0, 2)]
    if n > 2:
        ks += [n-1, -n, slice(1, 3), slice(-2, None)]
    return [k for k in ks if not (isinstance(k, slice) and len(range(*k.indices(n))) == 0)]

def read_keys(size, nb):
    ny, nx = size
    steps = [slice(None, None, 2), slice(None, None, -1), slice(ny, 0, -2), slice(None, None, 3), slice(-1, None, -2)]
    steps = [s for s in steps if len(range(*s.indices(ny))) and len(range(*s.indices(nx)))]
    rk = axis_keys(ny) + steps
    ck = axis_keys(nx) + steps
    out = [(r, c) for r in rk for c in ck]
    third = [0, -1, slice(None), slice(0, 1)] + ([slice(1, None), slice(None, None, -1)] if nb > 1 else [])
    for i, (r, c) in enumerate([(r, c) for r in rk for c in ck]):
        out.append((r, c, third[i % len(third)]))
    for t in third:
        out.append((slice(None), slice(None), t))
        out.append((0, -1, t))
    out += [(slice(2, 1), slice(None)), (slice(None), slice(nx, None)), (slice(0, 0), slice(3, 1), 0),
            (slice(ny+2, ny+5), 0), (slice(0, 1, -1), slice(None))]
    out += [slice(None), slice(1, None), slice(0, 1), slice(None, None, -1)]
    return [k for k in out if not (isinstance(k, slice) and len(range(*k.indices(ny))) == 0)]

def write_ops(size, nb):
    """JSON-free list of (name, key, valuekind)."""
    ny, nx = size
    rk = axis_keys(ny)[:6]
    ck = axis_keys(nx)[:6]
    pairs = [(r, c) for r in rk for c in ck]
    keep = []
    for i, p in enumerate(pairs):
        keep.append((p, ["scalar", "array2", "array3"][i % 3]))
        if isinstance(p[0], int) and isinstance(p[1], int) and nb > 1:
            keep.append((p, "vector"))
    third = [0, -1, slice(None)] + ([slice(1, None)] if nb > 1 else [])
    for i, t in enumerate(third):
        for j, (r, c) in enumerate([(slice(None), slice(None)), (slice(1, None), slice(None, -1)), (0, -1), (-1, slice(None))]):
            if len(range(*slice(*r.indices(ny)).indices(ny)) if isinstance(r, slice) else [0]) and \
                    len(range(*slice(*c.indices(nx)).indices(nx)) if isinstance(c, slice) else [0]):
                keep.append(((r, c, t), ["scalar", "array2"][(i+j) % 2]))
    keep.append((slice(None), "array3"))
    if ny > 1:
        keep.append((slice(1, None), "scalar"))
    for m in ("mask2", "mask2none", "mask2all", "mask3"):
        keep.append((m, "scalar"))
    keep.append(("mask2", "column"))
    keep.append(("mask2", "columns"))
    keep.append(("mask3", "percell"))
    keep.append(((slice(2, 1), slice(None)), "scalar"))
    keep.append(((slice(None), slice(nx, nx+3)), "scalar"))
    return keep

def mask_for(name, size, nb, step):
    ny, nx = size
    i, j = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    if name == "mask2":
        return (i*2 + j + step) % 3 == 0
    if name == "mask2none":
        return np.zeros(size, dtype=bool)
    if name == "mask2all":
        return np.ones(size, dtype=bool)
    m = [(i + 2*j + b + step) % (2 + b) == 0 for b in range(nb)]
    return np.dstack(m)

def apply_write(grid, model, op, step, dt, ctx):
    key, kind = op
    ny, nx, nb = model.shape
    base = 20*step + 1
    T = DT[dt]
    ctx.op()
    if isinstance(key, str):
        mask = mask_for(key, (ny, nx), nb, step)
        n = int(mask.sum())
        if kind == "scalar":
            grid[mask] = base
            model[mask] = base
        elif kind == "percell":
            v = (np.arange(n) % 100 + base).astype(T)
            grid[mask] = v
            model[mask] = v
        elif kind == "column":
            v = (np.arange(n) + base).astype(T)
            grid[mask] = v
            for b in range(nb):
                model[:, :, b][mask[:, :, b] if mask.ndim == 3 else mask] = v
        else:
            v = (np.arange(n*nb).reshape(n, nb) + base).astype(T)
            grid[mask] = v
            model[mask] = v
        return
    target = model[key]
    if kind == "scalar":
        grid[key] = base
        model[key] = base
        return
    full = key if isinstance(key, tuple) else (key, slice(None), slice(None))
    def span(k, n):
        return len(range(*k.indices(n))) if isinstance(k, slice) else 1
    h = span(full[0], ny)
    w = span(full[1], nx)
    d = span(full[2], nb) if len(full) == 3 else nb
    asl = tuple(k if isinstance(k, slice) else (slice(k, k+1) if k != -1 else slice(-1, None)) for k in full)
    if kind == "array2":
        v = (np.arange(h*w).reshape(h, w) + base).astype(T)
        grid[key] = v
        model[asl] = v[:, :, None]
    elif kind == "array3":
        v = (np.arange(h*w*d).reshape(h, w, d) + base).astype(T)
        grid[key] = v
        model[asl] = v
    elif kind == "vector":
        v = (np.arange(d) + base).astype(T)
        grid[key] = v
        model[asl] = v.reshape(1, 1, d)
    v += T(1)

def build(cfg, dt, ctx):
    size, nb, cls = cfg
    size = tuple(size)
    init = (np.arange(size[0]*size[1]*nb).reshape(size + (nb,)) % 50 + 100).astype(DT[dt])
    vals = init[:, :, 0].copy() if nb == 1 else init.copy()
    g = RegularGrid((0, 0, 1, 1, 0, 0), values=vals, bandclass=CLS[cls])
    vals += DT[dt](1)
    ctx.op()
    return g, init

def check_grid(g, model, ctx, what, keys):
    ctx.trace()
    for k in keys:
        ctx.op()
        got = g[k]
        same(np.asarray(got), np.asarray(model[k]), ctx, "%s: read [%r]" % (what, k))
    ctx.eq(tuple(g.size), model.shape[:2], "size")
    ctx.eq(g.nbands, model.shape[2], "number of bands")

def run_grid(cfg, dt, k1, ctx):
    size, nb = tuple(cfg[0]), cfg[1]
    ops = write_ops(size, nb)
    rk = read_keys(size, nb)
    whole = [(slice(None), slice(None), slice(None))]
    def hist(h):
        g, model = build(cfg, dt, ctx)
        for s, k in enumerate(h):
            apply_write(g, model, ops[k], s, dt, ctx)
        ctx.state((repr(cfg), dt, model.tobytes()))
        return g, model
    if k1 == 0:
        g, model = hist([])
        check_grid(g, model, ctx, "initial values", rk)
    g, model = hist([k1])
    name = repr([ops[k1]])
    check_grid(g, model, ctx, "after " + name, rk)
    for i, row in enumerate(g.values):
        want = model[i].T
        same(np.asarray(row), want, ctx, "row iteration after " + name)
    for nm in ("mask2", "mask2none", "mask2all", "mask3"):
        m = mask_for(nm, size, nb, 1)
        ctx.op()
        same(g[m], model[m], ctx, "masked read %s after %s" % (nm, name))
    g2 = g.copy()
    for k2 in range(len(ops)):
        g, model = hist([k1, k2])
        check_grid(g, model, ctx, "after %r" % ([ops[k1], ops[k2]],), whole + [rk[(k1*7+k2*5) % len(rk)]])
        if ctx.thorough and nb == 2:
            for k3 in range(0, len(ops)):
                g, model = hist([k1, k2, k3])
                check_grid(g, model, ctx, "after %r" % ([ops[k1], ops[k2], ops[k3]],), whole)
            ctx.beat()
    # stepped writes are documented as unsupported: they must be refused, not half-done
    if size[0] > 2 and size[1] > 2:
        g, model = hist([k1])
        for key in ((slice(None, None, 2), slice(None)), (slice(None), slice(None, None, -1))):
            ctx.raises(NotImplementedError, lambda: g.__setitem__(key, 1), "stepped write %r" % (key,))
        check_grid(g, model, ctx, "after refused writes", whole)
    # the deep copy taken after the first write is independent of the original
    _, model1 = hist([k1])
    check_grid(g2, model1, ctx, "copy", whole)
    ctx.outcome("grid:%s:%d" % (cfg[2], nb))

# ---- default chunk size -----------------------------------------------------

def big_ops(size):
    ny, nx = size
    ys = sorted(set(y for y in (0, 1, 254, 255, 256, 257, ny-1) if 0 <= y < ny))
    xs = sorted(set(x for x in (0, 255, 256, 511, 512, nx-1) if 0 <= x < nx))
    out = []
    for h, w in [(1, 1), (2, 2), (2, 300), (260, 3)]:
        for y in ys:
            for x in xs:
                out.append((y, x, min(h, ny-y), min(w, nx-x)))
    return out

def run_big(size, nb, k, ctx):
    size = tuple(size)
    ops = big_ops(size)
    g, model = None, np.zeros(size + (nb,), dtype=np.float64)
    bands = [CompressedBand(size, np.float64, initval=float(b+1)) for b in range(nb)]
    for b in range(nb):
        model[:, :, b] = b+1
    g = RegularGrid((0, 0, 1, 1, 0, 0), bands=bands)
    n = len(ops)
    for s, kk in enumerate([k, (k*5+3) % n, (k*11+7) % n, (k+1) % n]):
        y, x, h, w = ops[kk]
        if h*w <= 0:
            continue
        v = (np.arange(h*w*nb).reshape(h, w, nb) + 1000.0*(s+1))
        g[y:y+h, x:x+w] = v
        model[y:y+h, x:x+w] = v
        ctx.op(2)
        same(g[:, :], model, ctx, "300-class grid after %r" % ([ops[kk]],))
        for (y2, x2, h2, w2) in (ops[(kk*3+1) % n], ops[(kk+7) % n]):
            same(g[y2:y2+h2, x2:x2+w2], model[y2:y2+h2, x2:x2+w2], ctx, "block read")
    ctx.trace()
    ctx.state(("big", size, nb, k))
    ctx.outcome("big")

# ---- independence of objects ------------------------------------------------

def run_alias(dt, nb, cls, ctx):
    T = DT[dt]
    shape = (3, 4) if nb == 1 else (3, 4, nb)
    src = np.arange(int(np.prod(shape))).reshape(shape).astype(T)
    ref = src.copy().reshape(3, 4, nb)
    a = RegularGrid((0, 0, 1, 1, 0, 0), values=src, bandclass=CLS[cls])
    b = RegularGrid((0, 0, 1, 1, 0, 0), values=src, bandclass=CLS[cls])
    c = a.copy()
    want = {"a": ref.copy(), "b": ref.copy(), "c": ref.copy()}
    objs = {"a": a, "b": b, "c": c}
    src[...] = T(77)
    def verify(what):
        ctx.trace()
        for n in objs:
            ctx.op()
            same(objs[n][:, :], want[n], ctx, "%s, grid %s" % (what, n))
        ctx.state((dt, nb, cls, tuple(want[n].tobytes() for n in "abc")))
    verify("after mutating the source array")
    for perm in itertools.permutations("abc"):
        for i, n in enumerate(perm):
            got = objs[n][:, :]
            got[...] = T(88)          # results handed out are not views of the store
            g1 = objs[n][1:, :]
            g1[...] = T(89)
            verify("after mutating a result")
            objs[n][i, 1:3] = T(90 + i)
            want[n][i, 1:3] = T(90 + i)
            verify("after writing grid %s" % n)
            m = np.zeros((3, 4), dtype=bool)
            m[i, i] = True
            objs[n][m] = T(60 + i)
            want[n][m] = T(60 + i)
            verify("after masked write to %s" % n)
    ctx.true(a.values.dtype == a.bands[0].dtype, "dtype of values")
    ctx.outcome("alias")

def run(case, ctx):
    if case[0] == "band":
        run_band(case[1], case[2], ctx)
    elif case[0] == "grid":
        run_grid(case[1], case[2], case[3], ctx)
    elif case[0] == "big":
        run_big(case[1], case[2], case[3], ctx)
    else:
        run_alias(case[1], case[2], case[3], ctx)
