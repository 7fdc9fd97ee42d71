"""GeoTIFF files: the file on disk holds exactly the grid, and any GeoTIFF is read as the grid it holds."""
import gc, itertools, os, struct, warnings
import numpy as np
import pyproj
import karta
from karta import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand
from karta.crs import (ProjectedCRS, LonLatWGS84, LonLatNAD27, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth, NSIDCSouth, LambertEqualArea,
                       GallPetersEqualArea, UPSNorth, UPSSouth, Cartesian)
from karta.errors import GridError

RULE = ("a case is one grid shape, number type and transform; files written by karta are decoded by a TIFF reader written from the format "
        "specification, files written by a TIFF writer of the same kind are read by karta, and everything is compared cell by cell; non-trivial = "
        "one file compared")
BOUNDS = {"quick": "all grids of 1..3 x 1..3 cells in 1..3 bands, of 10 number types, 9 transforms (skewed, mirrored), 5 compressions, tiled or "
                   "not, both band classes; all slices of a grid on disk with bounds -4..4 and steps 1,2,-1; all lists of up to 3 bands; all pairs and triples out of 14 "
                   "files to combine; 15 coordinate systems; blocks of 1..300 cells; all histories of 4 writes and reads",
          "thorough": "grids of up to 4 x 4 cells, histories of 5"}
ASSUMPTIONS = ["transforms are compared to 1e-9 of their size", "a spherical geographical system may be read as WGS84 (PROJ treats them alike)",
               "64 bit integers are read back as such or as 32 bit integers with equal values", "a grid on disk is not written over while it is open"]
warnings.simplefilter("ignore")

DTYPES = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "float32", "float64", "complex64"]
TRANSFORMS = [(0, 0, 1, 1, 0, 0), (15, -20, 30, 40, 0, 0), (1.1, 2.3, 0.1, 0.3, 0, 0), (15, -20, 30, 40, 5, 2.5), (15, -20, 30, 40, 0, -7), (15, -20, 30, 40, 9, 0),
              (15, -20, 30, -40, 0, 0), (-1e6, 5e6, 250, -250, 50, 25), (3, 4, 0, 0, 2, 2.5)]
COMPRESS = [None, "PACKBITS", "LZW", "DEFLATE", "LZMA"]
CRSS = [Cartesian, LonLatWGS84, LonLatNAD27, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth, NSIDCSouth, LambertEqualArea, GallPetersEqualArea, UPSNorth,
        UPSSouth, ProjectedCRS("+proj=utm +zone=7 +north +datum=WGS84"), ProjectedCRS("+proj=utm +zone=12 +datum=NAD27 +units=m", name="NAD27 / UTM zone 12N"),
        ProjectedCRS("+proj=aea +lat_1=20 +lat_2=40 +lon_0=10 +ellps=bessel", name="Albers")]
EXTREMES = {"float32": [0.1, -0.0, 3.4e38, 1e-45, np.inf, -np.inf], "float64": [0.1, 1/3., -0.0, 1.7e308, 5e-324, np.inf, -np.inf], "complex64": [1+2j, -0.5j, 3.25]}

def values(dtype, ny, nx, nb, k=0):
    """All kinds of values of a type, no two neighbouring cells alike."""
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        info = np.iinfo(dt)
        pool = [int(info.max), int(info.min), 1, int(info.max)//2 + 3, 2, int(info.max)-1, int(info.min)+1, 77]
    else:
        pool = EXTREMES[dtype] + [1, 2.5, -3, np.nan]
    n = ny*nx*nb
    flat = [pool[(i + k) % len(pool)] for i in range(n)]
    return np.array(flat, dtype=dt).reshape(nb, ny, nx).transpose(1, 2, 0).copy()

def cases(tier):
    n = 4 if tier == "thorough" else 3
    for ny, nx in itertools.product(range(1, n+1), repeat=2):
        for d in range(len(DTYPES)):
            for t in range(len(TRANSFORMS)):
                yield ["write", ny, nx, d, t]
    for ny, nx in itertools.product(range(1, n+1), repeat=2):
        for d in range(len(DTYPES)):
            yield ["external", ny, nx, d]
            yield ["nodata", ny, nx, d]
    for ny, nx in itertools.product(range(1, 4), repeat=2):
        yield ["slices", ny, nx]
    for i in range(len(FILES)):
        yield ["combine", i]
    for i in range(len(CRSS)):
        yield ["crs", i]
    for ny in (1, 16, 127, 128, 129, 257):
        for nx in (1, 255, 256, 300):
            yield ["blocks", ny, nx]
    for h in itertools.product(range(len(OPS)), repeat=2):
        yield ["history"] + list(h)

# ---- TIFF, from the specification
TYPES = {1: "B", 2: "c", 3: "H", 4: "I", 6: "b", 8: "h", 9: "i", 11: "f", 12: "d", 16: "Q"}

def contents(path):
    with open(path, "rb") as f:
        return f.read()

def decode(path):
    """Tags of the image and its samples as [row][column][sample], or None where they are compressed."""
    b = contents(path)
    e = {b"II": "<", b"MM": ">"}[b[:2]]
    magic, at = struct.unpack(e + "HI", b[2:8])
    if magic != 42:
        raise ValueError("not a TIFF file")
    tags = {}
    for i in range(struct.unpack(e + "H", b[at:at+2])[0]):
        tag, typ, n = struct.unpack(e + "HHI", b[at+2+12*i:at+10+12*i])
        if typ not in TYPES:
            continue
        c = TYPES[typ]
        size = struct.calcsize("<" + c) * n
        pos = at+10+12*i if size <= 4 else struct.unpack(e + "I", b[at+10+12*i:at+14+12*i])[0]
        v = struct.unpack("%s%d%s" % (e, n, c), b[pos:pos+size])
        tags[tag] = b"".join(v) if typ == 2 else v
    nx, ny = tags[256][0], tags[257][0]
    spp = tags.get(277, (1,))[0]
    kind = {1: "u", 2: "i", 3: "f", 6: "c"}[tags.get(339, (1,))[0]]
    dt = np.dtype("%s%s%d" % (e, kind, tags[258][0]//8))
    planar = tags.get(284, (1,))[0] == 2
    if tags.get(259, (1,))[0] != 1:
        return tags, dt, (ny, nx, spp), None
    out = np.zeros((ny, nx, spp), dtype=dt)
    tw, th = (tags[322][0], tags[323][0]) if 322 in tags else (nx, tags.get(278, (ny,))[0])
    offs, counts = (tags[324], tags[325]) if 322 in tags else (tags[273], tags[279])
    across, down = -(-nx // tw), -(-ny // th)
    k = 0
    for plane in range(spp if planar else 1):
        for r in range(down):
            for c in range(across):
                h = th if 322 in tags else min(th, ny - r*th)
                m = 1 if planar else spp
                chunk = np.frombuffer(b[offs[k]:offs[k]+h*tw*m*dt.itemsize], dtype=dt) if counts[k] else np.zeros(h*tw*m, dtype=dt)
                chunk = chunk.reshape(h, tw, m)[:ny-r*th, :nx-c*tw]
                dst = out[r*th:(r+1)*th, c*tw:(c+1)*tw]
                if planar:
                    dst[:, :, plane] = chunk[:, :, 0]
                else:
                    dst[...] = chunk
                k += 1
    return tags, dt, (ny, nx, spp), out

def position(tags, col, row):
    """Coordinates of the raster position (col, row), from the GeoTIFF tags."""
    if 34264 in tags:
        m = tags[34264]
        return m[0]*col + m[1]*row + m[3], m[4]*col + m[5]*row + m[7]
    s, t = tags[33550], tags[33922]
    return t[3] + (col - t[0])*s[0], t[4] - (row - t[1])*s[1]

GEOKEYS = {None: None, "projected": [1024, 0, 1, 1, 1025, 0, 1, 1, 3072, 0, 1, 3857], "geographic": [1024, 0, 1, 2, 1025, 0, 1, 1, 2048, 0, 1, 4326],
           "local": [1024, 0, 1, 1, 1025, 0, 1, 1]}

def encode(path, samples, gt, nodata=None, big=False, matrix=False, planar=False, rps=None, keys=None):
    """Write samples (rows from the top) with the affine transform gt = (x0, dx/col, dx/row, y0, dy/col, dy/row)."""
    e = ">" if big else "<"
    ny, nx, nb = samples.shape
    rps = rps or ny
    dt = samples.dtype.newbyteorder(e)
    planes = [samples[:, :, [i]] for i in range(nb)] if planar else [samples]
    chunks = [np.ascontiguousarray(p[r:r+rps]).astype(dt).tobytes() for p in planes for r in range(0, ny, rps)]
    kind = {"u": 1, "i": 2, "f": 3, "c": 6}[dt.kind]
    tags = [(256, "I", [nx]), (257, "I", [ny]), (258, "H", [dt.itemsize*8]*nb), (259, "H", [1]), (262, "H", [1]), (273, "I", None),
            (277, "H", [nb]), (278, "I", [rps]), (279, "I", [len(c) for c in chunks]), (284, "H", [2 if planar else 1])]
    if nb > 1:
        tags.append((338, "H", [0]*(nb-1)))
    tags.append((339, "H", [kind]*nb))
    if matrix or gt[2] or gt[4] or gt[5] > 0:
        tags.append((34264, "d", [gt[1], gt[2], 0, gt[0], gt[4], gt[5], 0, gt[3], 0, 0, 0, 0, 0, 0, 0, 1]))
    else:
        tags.append((33550, "d", [gt[1], -gt[5], 0]))
        tags.append((33922, "d", [0, 0, 0, gt[0], gt[3], 0]))
    if keys is not None:
        tags.append((34735, "H", [1, 1, 0, len(GEOKEYS[keys])//4] + GEOKEYS[keys]))
    if nodata is not None:
        tags.append((42113, "s", repr(nodata).encode() + b"\0"))
    tags.sort(key=lambda t: t[0])
    head = 8 + 2 + 12*len(tags) + 4
    extra, body = b"", b"".join(chunks)
    total = sum(0 if t[2] is None else struct.calcsize(e + "%d%s" % (len(t[2]), t[1])) + 8 for t in tags) + 4*len(chunks) + 64
    offs, at = [], head + total
    for c in chunks:
        offs.append(at)
        at += len(c)
    rec = b""
    code = {"I": 4, "H": 3, "d": 12, "s": 2}
    for tag, c, v in tags:
        v = offs if v is None else v
        raw = v if c == "s" else struct.pack("%s%d%s" % (e, len(v), c), *v)
        rec += struct.pack(e + "HHI", tag, code[c], len(v))
        if len(raw) <= 4:
            rec += raw.ljust(4, b"\0")
        else:
            if (head + len(extra)) % 2:
                extra += b"\0"
            rec += struct.pack(e + "I", head + len(extra))
            extra += raw
    extra = extra.ljust(total, b"\0")
    with open(path, "wb") as f:
        f.write((b"MM" if big else b"II") + struct.pack(e + "HI", 42, 8) + struct.pack(e + "H", len(tags)) + rec + b"\0\0\0\0" + extra + body)

# ---- comparison
def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    eq = a == b
    if a.dtype.kind in "fc":
        eq = eq | (np.isnan(a) & np.isnan(b))
    return bool(eq.all())

def same_nodata(a, b):
    return (a != a and b != b) or a == b

def tol(T):
    return 1e-9 * max(abs(v) for v in T) or 1e-12

def same_transform(ctx, got, want, what):
    for a, b in zip(got, want):
        ctx.close(a, b, tol(want), what + " %r" % (tuple(want),))

def snapshot(g):
    return g[:, :].copy(), g.transform, g.nodata, g.crs

def is_open(path):
    """Whether this process has the file open."""
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + fd) == path:
                return True
        except OSError:
            pass
    return False

COUNT = itertools.count()
def fresh():
    """A name not used before; files on disk stay open until their grids are collected."""
    n = next(COUNT)
    if n % 100 == 99:
        gc.collect()
    return os.path.abspath("g%d.tif" % n)

def check_file(ctx, path, vals, T, nodata, what):
    """The file holds the values, at their positions."""
    tags, dt, shape, data = decode(path)
    ny, nx, nb = vals.shape
    ctx.eq(shape, vals.shape, "size of %s" % what)
    if data is not None:
        ctx.true(same(data, vals[::-1]), "%s: samples in the file are\n%r\nexpected\n%r", what, data, vals[::-1])
    for i, j in {(0, 0), (ny, 0), (0, nx), (ny, nx)}:
        x, y = position(tags, j, ny - i)
        ctx.close(x, T[0] + j*T[2] + i*T[4], tol(T), "%s: x of corner (%d, %d) in the file" % (what, i, j))
        ctx.close(y, T[1] + i*T[3] + j*T[5], tol(T), "%s: y of corner (%d, %d) in the file" % (what, i, j))
    if nodata is not None:
        ctx.true(42113 in tags, "%s: no missing value in the file", what)
        ctx.true(same_nodata(float(tags[42113].rstrip(b"\0 ")), float(nodata)) or
                 dt.kind in "fc" and np.dtype(dt).type(float(tags[42113].rstrip(b"\0 "))) == np.dtype(dt).type(nodata),
                 "%s: missing value %r in the file, expected %r", what, tags[42113], nodata)
    return tags

def check_grid(ctx, h, vals, T, nodata, what, dtype=None):
    ctx.eq(tuple(h.size), vals.shape[:2], "size of %s" % what)
    ctx.eq(h.nbands, vals.shape[2], "bands of %s" % what)
    got = h[:, :]
    ctx.true(same(got, vals), "%s: values read are\n%r\nexpected\n%r", what, got, vals)
    dt = np.dtype(dtype or vals.dtype)
    ctx.true(got.dtype == dt or dt == np.int64 and got.dtype == np.int32, "%s: type %s, expected %s", what, got.dtype, dt)
    same_transform(ctx, h.transform, T, "transform of " + what)
    if nodata is not None:
        ctx.true(same_nodata(h.nodata, nodata) or got.dtype.kind in "fc" and got.dtype.type(h.nodata) == got.dtype.type(nodata),
                 "%s: missing value %r, expected %r", what, h.nodata, nodata)

def roundtrip(ctx, g, what, keep=False, memory=(True, False), **kw):
    path = fresh()
    before = snapshot(g)
    ret = g.to_geotiff(path, **kw)
    ctx.op()
    ctx.true(ret is g, "%s: the writer returned %r", what, ret)
    tags = check_file(ctx, path, before[0], before[1], before[2], what)
    ctx.true(not is_open(path), "%s: the file is still open after writing", what)
    out = []
    for m in memory:
        h = karta.read_geotiff(path, in_memory=m)
        ctx.op()
        if m:
            ctx.true(not is_open(path), "%s: the file is still open after reading it into memory", what)
        check_grid(ctx, h, before[0], before[1], before[2], what + (" in memory" if m else " on disk"))
        ctx.eq(np.asarray(h.data_mask).tolist(), np.asarray(g.data_mask).tolist(), "cells with data of " + what)
        out.append(h)
    ctx.true(same(g[:, :], before[0]) and g.transform == before[1] and same_nodata(g.nodata, before[2]) and g.crs is before[3], "%s: writing changed the grid", what)
    if not keep:
        os.remove(path)
    return tags, out, path

def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)

def run_write(case, ctx):
    ny, nx, d, t = case[1:]
    dtype, T = DTYPES[d], TRANSFORMS[t]
    options = list(itertools.product(COMPRESS, (False, True)))
    for nb in (1, 2, 3):
        for cls in (SimpleBand, CompressedBand):
            v = values(dtype, ny, nx, nb, ny + 3*nx)
            ctx.state((ny, nx, dtype, T, nb))
            for comp, tiled in options if ctx.thorough or (t in (1, 3) and cls is SimpleBand and d in (0, 3, 8)) else [(None, False), (COMPRESS[(d + nb) % 5], True)]:
                g = RegularGrid(T, values=v.copy(), bandclass=cls)
                tags, _, path = roundtrip(ctx, g, "%dx%dx%d %s grid %r (%s, tiled=%s)" % (ny, nx, nb, dtype, T, comp, tiled), keep=True, compress=comp, tiled=tiled)
                ctx.eq(tags.get(259, (1,))[0] != 1, comp is not None, "compression of the file for %r" % comp)
                ctx.eq(322 in tags, tiled, "tiling of the file")
            # bands of the file in any order
            if cls is SimpleBand and (t == 1 and d in (0, 3, 8) or ctx.thorough):
                for m in (True, False):
                    for b in range(nb):
                        for arg in (b+1, [b+1]):
                            check_grid(ctx, karta.read_geotiff(path, in_memory=m, ibands=arg), v[:, :, [b]], T, g.nodata, "band %r" % (arg,))
                    for sel in itertools.chain(*[itertools.product(range(nb), repeat=k) for k in (2, 3)]):
                        check_grid(ctx, karta.read_geotiff(path, in_memory=m, ibands=[b+1 for b in sel]), v[:, :, list(sel)], T, g.nodata, "bands %r" % (sel,))
                        ctx.op()
                for bc in (SimpleBand, CompressedBand):
                    h = karta.read_geotiff(path, bandclass=bc)
                    ctx.true(all(type(b) is bc for b in h.bands), "bands are not of the class asked for")
                    check_grid(ctx, h, v, T, g.nodata, "with %s" % bc.__name__)
                # grids in memory are independent of the file, which is independent of them
                before = contents(path)
                h = karta.read_geotiff(path)
                h[:, :] = np.zeros_like(v)
                os.remove(path)
                ctx.true(same(h[:, :], np.zeros_like(v)), "values assigned to a grid that was read")
                with open(path, "wb") as f:
                    f.write(before)
                check_grid(ctx, karta.read_geotiff(path), v, T, g.nodata, "after changing a grid that was read")

def run_external(case, ctx):
    ny, nx, d = case[1:]
    dtype = DTYPES[d]
    path = os.path.abspath("x.tif")
    for nb in (1, 2, 3):
        v = values(dtype, ny, nx, nb, nx + 2*ny)
        for T in TRANSFORMS[:-1] if ctx.thorough or d == 8 else TRANSFORMS[1:5:2]:
            gt = (T[0] + ny*T[4], T[2], -T[4], T[1] + ny*T[3], T[5], -T[3])
            for big, matrix, planar, rps in itertools.product((False, True), (False, True), (False, True), {1, ny} if nb == 3 or ctx.thorough else (ny,)):
                nd = (None, 1)[planar]
                keys = (None, "projected", "geographic", "local")[big*2 + (rps == 1)] if T is TRANSFORMS[1] else None
                encode(path, v[::-1], gt, nd, big, matrix, planar, rps, keys)
                for m in (True, False):
                    h = karta.read_geotiff(path, in_memory=m)
                    ctx.op()
                    check_grid(ctx, h, v, T, nd, "file from elsewhere (%dx%dx%d %s %r big-endian=%s planar=%s)" % (ny, nx, nb, dtype, T, big, planar))
                    if nd is not None:
                        ctx.eq(np.asarray(h.data_mask_full).tolist(), (v != 1).tolist(), "cells with data")
                    same_crs(ctx, h.crs, {"projected": WebMercator, "geographic": LonLatWGS84}.get(keys, Cartesian))
                ctx.state(("x", ny, nx, nb, dtype, T, big, matrix, planar, rps))

def run_nodata(case, ctx):
    ny, nx, d = case[1:]
    dtype = DTYPES[d]
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        info = np.iinfo(dt)
        cand = [None, 0, 1, 77, int(info.max), int(info.min)]
    else:
        cand = [None, float("nan"), 0.0, -9999.0, 2.5, 0.1, -3.4e38, 1e-3]
    for nd in cand:
        for k in range(2**min(ny*nx, 9)) if nx*ny <= 6 else (0, 1, 170, 341, 511):
            v = np.array([5]*(ny*nx), dtype=dt).reshape(ny, nx)
            g = RegularGrid((15, -20, 30, 40, 0, 0), values=v, nodata_value=nd)
            hole = np.array([k >> b & 1 for b in range(ny*nx)], dtype=bool).reshape(ny, nx)
            v = v.copy()
            v[hole] = g.nodata
            g = RegularGrid((15, -20, 30, 40, 0, 0), values=v, nodata_value=nd)
            path = os.path.abspath("n.tif")
            g.to_geotiff(path)
            for m in (True, False):
                h = karta.read_geotiff(path, in_memory=m)
                ctx.op()
                ctx.eq(np.asarray(h.data_mask).tolist(), np.asarray(g.data_mask).tolist(), "cells with data of a %s grid with missing value %r read back" % (dtype, nd))
                check_grid(ctx, h, v[:, :, None], (15, -20, 30, 40, 0, 0), g.nodata, "%s grid with missing value %r" % (dtype, nd))
            ctx.state(("nd", ny, nx, dtype, repr(nd), k))

def run_slices(case, ctx):
    ny, nx = case[1:]
    path = os.path.abspath("s.tif")
    for nb in (1, 2):
        v = np.arange(ny*nx*nb, dtype=np.float32).reshape(ny, nx, nb)
        RegularGrid((15, -20, 30, 40, 5, 2), values=v).to_geotiff(path, tiled=nb == 2)
        h = karta.read_geotiff(path, in_memory=False)
        ends = [None] + list(range(-4, 5))
        rows = [slice(a, b, s) for a in ends for b in ends for s in (None, 2, -1)]
        few = [slice(None), slice(0, 1), slice(1, None), slice(None, None, -1), slice(2, 1), slice(-1, None)]
        for r in rows:
            for c in few:
                for k in ((r, c), (c, r)) if nx == ny else ((r, c),):
                    want = v[k[0], k[1]]
                    got = h[k]
                    ctx.op()
                    ctx.true(same(got, want), "cells %r of a grid on disk: got %r, expected %r", k, got, want)
        for i in range(ny):
            for j in range(nx):
                ctx.true(same(h[i, j], v[i, j]) and same(h[i-ny, j-nx], v[i, j]), "cell %r of a grid on disk", (i, j))
                for b in range(nb):
                    ctx.eq(float(h[i, j, b]), float(v[i, j, b]), "cell of a band on disk")
        for b in range(nb):
            ctx.true(same(np.array(list(h.bands[b])), v[:, :, b]), "rows of a band on disk")
        # everything that reads a grid gives the same as for the grid in memory
        m = karta.read_geotiff(path)
        ctx.eq(h.extent(), m.extent(), "extent of a grid on disk")
        ctx.true(same(h.clip(15, 60, -20, 60)[:, :], m.clip(15, 60, -20, 60)[:, :]), "clipped grid on disk")
        ctx.true(same(h.resample(15, 15)[:, :], m.resample(15, 15)[:, :]), "resampled grid on disk")
        x, y = 30.0, 0.0
        ctx.true(same(h.sample_nearest(x, y), m.sample_nearest(x, y)) and same(h.sample_bilinear(x, y), m.sample_bilinear(x, y)), "sampled grid on disk")
        ctx.true(same((h + m)[:, :], v*2) and same((m - h)[:, :], v*0), "sum of a grid on disk and one in memory")
        before = contents(path)
        try:
            h[0, 0] = np.ones(nb)
        except Exception:
            ctx.outcome("refused")
        else:
            ctx.true(same(h[0, 0], np.ones(nb)), "a value assigned to a grid on disk is lost")
        ctx.eq(contents(path), before, "file after assigning to a grid on disk")
        ctx.state(("s", ny, nx, nb))

BASE = dict(T=(15, -20, 30, 40, 5, 2), shape=(2, 3), crs=WebMercator, nb=1)
FILES = [dict(), dict(), dict(nb=2), dict(T=(16, -20, 30, 40, 5, 2)), dict(T=(15, -21, 30, 40, 5, 2)), dict(T=(15, -20, 31, 40, 5, 2)), dict(T=(15, -20, 30, 41, 5, 2)),
         dict(T=(15, -20, 30, 40, 5.5, 2)), dict(T=(15, -20, 30, 40, 5, 2.5)), dict(shape=(3, 3)), dict(shape=(2, 2)), dict(crs=NSIDCNorth), dict(crs=Cartesian),
         dict(crs=LonLatWGS84)]

def run_combine(case, ctx):
    specs = [dict(BASE, **f) for f in FILES]
    vals, paths = [], []
    for n, s in enumerate(specs):
        v = np.arange(np.prod(s["shape"])*s["nb"], dtype=np.float64).reshape(s["shape"] + (s["nb"],)) + 100*n
        path = os.path.abspath("f%d.tif" % n)
        RegularGrid(s["T"], values=v, crs=s["crs"]).to_geotiff(path)
        vals.append(v)
        paths.append(path)
    n = len(specs)
    combos = [()] + [(j,) for j in range(n)] + ([(j, k) for j in range(n) for k in range(n)] if case[1] < 3 else [(0, k) for k in range(n)] + [(case[1], k) for k in range(n)])
    for rest in combos:
        idx = (case[1],) + rest
        key = lambda i: (specs[i]["T"], specs[i]["shape"], CRSS.index(specs[i]["crs"]))
        ok = all(key(i) == key(idx[0]) for i in idx)
        for kw in ({}, dict(in_memory=True), dict(in_memory=False), dict(bandclass=SimpleBand)):
            ctx.op()
            if ok:
                h = karta.from_geotiffs(*[paths[i] for i in idx], **kw)
                check_grid(ctx, h, np.dstack([vals[i][:, :, 0] for i in idx]), specs[idx[0]]["T"], np.nan, "grid from files %r" % (idx,))
                same_crs(ctx, h.crs, specs[idx[0]]["crs"])
            else:
                ctx.raises(GridError, lambda: karta.from_geotiffs(*[paths[i] for i in idx], **kw), "files with headers %r" % (idx,))
        ctx.state(("c",) + idx)
    ctx.raises(ValueError, lambda: karta.from_geotiffs(), "no files")

MEMO = {}
def lonlat(crs, x, y):
    k = (crs.ref_proj4, x, y)
    if k not in MEMO:
        MEMO[k] = pyproj.transform(crs._proj, LonLatWGS84._proj, x, y)
    return MEMO[k]

def same_crs(ctx, got, want):
    if want is Cartesian:
        ctx.true(got is Cartesian or got.name == "Cartesian", "coordinate system read as %s", got)
        return
    ctx.eq(isinstance(got, ProjectedCRS), isinstance(want, ProjectedCRS), "kind of coordinate system")
    if want is not SphericalEarth:
        ctx.close(got.ellipsoid.a, want.ellipsoid.a, 1e-3, "semimajor axis of the coordinate system read")
        ctx.close(got.ellipsoid.b, want.ellipsoid.b, 1e-3, "semiminor axis of the coordinate system read")
    for x, y in ((4e5, 5e6), (-2e6, 1e6), (1e5, -3e5)) if isinstance(want, ProjectedCRS) else ((10, 20), (-100, 40), (-150, 60), (-66, -33)):
        a, b = lonlat(got, x, y), lonlat(want, x, y)
        ctx.close(a[0], b[0], 1e-7, "longitude of (%r, %r) in the coordinate system read, %s for %s" % (x, y, got.ref_proj4, want.ref_proj4))
        ctx.close(a[1], b[1], 1e-7, "latitude of (%r, %r) in the coordinate system read, %s for %s" % (x, y, got.ref_proj4, want.ref_proj4))

def run_crs(case, ctx):
    crs = CRSS[case[1]]
    for shape, nb in itertools.product(((1, 1), (1, 2), (2, 1), (2, 3)), (1, 2)):
        for T in TRANSFORMS[1:4]:
            g = RegularGrid(T, values=np.arange(np.prod(shape)*nb, dtype=float).reshape(shape + (nb,)), crs=crs)
            tags, hs, _ = roundtrip(ctx, g, "grid in %s" % crs.name, compress="LZW" if nb == 2 else None)
            for h in hs:
                same_crs(ctx, h.crs, crs)
            # a second generation is the same as the first
            tags, hs, _ = roundtrip(ctx, hs[0], "copy of a grid in %s" % crs.name)
            for h in hs:
                same_crs(ctx, h.crs, crs)
            ctx.state(("crs", case[1], shape, nb, T))

def run_blocks(case, ctx):
    ny, nx = case[1:]
    for dtype in ("uint8", "float64"):
        for nb in (1, 2):
            v = (np.arange(ny*nx*nb) % 251).astype(dtype).reshape(ny, nx, nb)
            for cls in (SimpleBand, CompressedBand):
                for comp, tiled in itertools.product((None, "DEFLATE"), (False, True)):
                    g = RegularGrid((15, -20, 30, 40, 0, 0), values=v, bandclass=cls)
                    path = roundtrip(ctx, g, "%dx%dx%d %s grid (%s, tiled=%s)" % (ny, nx, nb, dtype, comp, tiled), keep=True, compress=comp, tiled=tiled)[2]
            h = karta.read_geotiff(path, in_memory=False)
            for r in (slice(0, 1), slice(-1, None), slice(100, 140), slice(None, None, 7), slice(None, None, -1)):
                for c in (slice(0, 1), slice(250, 260), slice(None, None, -3)):
                    ctx.op()
                    ctx.true(same(h[r, c], v[r, c]), "cells %r, %r of a grid of %dx%d on disk", r, c, ny, nx)
            ctx.state(("b", ny, nx, dtype, nb))

OPS = ["write A", "write B", "read", "open", "change", "derive"]

def run_history(case, ctx):
    """Files and grids are independent of each other, whatever happens to either."""
    for tail in itertools.product(range(len(OPS)), repeat=3 if ctx.thorough else 2):
        ctx.trace()
        path = os.path.abspath("hist.tif")
        A = np.arange(6.0).reshape(2, 3, 1)
        B = np.arange(16.0).reshape(2, 4, 2) - 7
        TA, TB = (15, -20, 30, 40, 0, 0), (1, 2, 3, 4, 0.5, 0.25)
        gA, gB = RegularGrid(TA, values=A, crs=WebMercator, nodata_value=-1), RegularGrid(TB, values=B, crs=NSIDCNorth, nodata_value=3.0)
        for _, g in enumerate((gA,)):
            g.to_geotiff(path)
        disk, opened = (A, TA, -1), None
        mem = [[karta.read_geotiff(path), A.copy()]]
        for op in tuple(case[1:]) + tail:
            ctx.op()
            if OPS[op].startswith("write"):
                if opened is not None:
                    opened = None
                (gA if op == 0 else gB).to_geotiff(path)
                disk = (A, TA, -1) if op == 0 else (B, TB, 3.0)
            elif OPS[op] == "read":
                h = karta.read_geotiff(path)
                check_grid(ctx, h, disk[0], disk[1], disk[2], "file")
                mem = [[h, disk[0].copy()]] + mem[:1]
            elif OPS[op] == "open":
                opened = karta.read_geotiff(path, in_memory=False)
            elif OPS[op] == "change":
                mem[0][0][0, 0] = np.full(mem[0][1].shape[2], 55.0)
                mem[0][1][0, 0] = 55.0
            else:
                # write what was read, under another name, and read it
                other = os.path.abspath("other.tif")
                mem[0][0].to_geotiff(other)
                check_grid(ctx, karta.read_geotiff(other), mem[0][1], mem[0][0].transform, mem[0][0].nodata, "derived file")
            for g, want in mem:
                ctx.true(same(g[:, :], want), "a grid in memory: %r, expected %r", g[:, :], want)
            if opened is not None:
                check_grid(ctx, opened, disk[0], disk[1], disk[2], "open file")
            ctx.true(same(gA[:, :], A) and same(gB[:, :], B), "grids that were written have changed")
