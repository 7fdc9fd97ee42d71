"""ESRI ASCII grids: the text holds exactly the grid, and any such text is read as the grid it holds."""
import io, itertools, os, warnings
import numpy as np
import karta
from karta import RegularGrid
from karta.raster.band import SimpleBand, CompressedBand
from karta.crs import WebMercator
from karta.errors import GridError

RULE = ("a case is one grid shape with a number type, or one layout of a file; texts written by karta are parsed by a reader written from the "
        "format description, texts composed from it are read by karta, and all cells and positions are compared; non-trivial = one text compared")
BOUNDS = {"quick": "all grids of 1..3 x 1..3 cells with every subset of missing cells (up to 6 cells), 10 number types, 5 missing values of the grid, 4 of the file, "
                   "2 references, 6 positions, 4 cell sizes, names, streams and open files; all orders of the header records, with or without a "
                   "missing value, all ways of breaking up to 6 numbers into lines, 5 spellings",
          "thorough": "every subset of missing cells for 9 cells; grids of up to 4 x 4 cells"}
ASSUMPTIONS = ["the missing value of the file is none of the values of the grid", "positions are compared to 1e-12 of the size of the coordinates", "coordinate systems are not part of the format"]
warnings.simplefilter("ignore")

DTYPES = ["float64", "float32", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"]
POOL = [0.1, -1/3., 1e-300, 1.5e300, 0.0, 7.0, -2.5, 123456789.123456789, -1e-9, 4.0, 1e16, -7e-5]
NODATAS = [None, -1, 0, 77, 255]
FILE = [-9999, -1.5, -32768, 1e30]
# the corner or the center of the first cell at zero
ORIGINS = [(0, 0), (-15, -0.5), (-0.5, -15), (0.0, -10.0), (15.5, 100.25), (-1e6, 5.5e6), (0.1, 0.7), (1/3., -1e-3)]
SIZES = [1, 30, 0.1, 1/3.]

def cases(tier):
    n = 4 if tier == "thorough" else 3
    for ny, nx in itertools.product(range(1, n+1), repeat=2):
        for d in range(len(DTYPES)):
            yield ["write", ny, nx, d]
        yield ["place", ny, nx]
        for p in range(12):
            yield ["read", ny, nx, p]
        yield ["lines", ny, nx]
        yield ["refuse", ny, nx]
    yield ["large", 0]

KEYS = ("ncols", "nrows", "xllcorner", "yllcorner", "xllcenter", "yllcenter", "cellsize", "nodata_value")

def parse(ctx, text, what):
    """Header and rows (from the top), the numbers as written."""
    lines = text.split("\n")
    ctx.true(text.endswith("\n"), "%s: the last line is not complete", what)
    hdr, k = {}, 0
    while k < len(lines) and lines[k].split() and lines[k].split()[0].lower() in KEYS:
        words = lines[k].split()
        ctx.eq(len(words), 2, "words of the header line %r" % lines[k])
        ctx.true(words[0].lower() not in hdr, "%s: header %s is repeated", what, words[0])
        hdr[words[0].lower()] = words[1]
        k += 1
    rows = []
    for l in lines[k:-1]:
        try:
            rows.append([float(w) for w in l.split()])
        except ValueError:
            ctx.fail("%s: not a row of numbers: %r" % (what, l))
    return hdr, rows

def check_text(ctx, text, vals, missing, T, reference, nodata, what):
    hdr, rows = parse(ctx, text, what)
    ny, nx = vals.shape
    ctx.eq(set(hdr), {"ncols", "nrows", "xll" + reference, "yll" + reference, "cellsize", "nodata_value"}, "header of " + what)
    ctx.eq((int(hdr["ncols"]), int(hdr["nrows"])), (nx, ny), "size in the header of " + what)
    ctx.eq(float(hdr["cellsize"]), float(T[2]), "cell size in the header of " + what)
    half = 0.5*T[2] if reference == "center" else 0.0
    for k, w in (("xll", T[0] + half), ("yll", T[1] + half)):
        ctx.close(float(hdr[k + reference]), w, 1e-12*max(1, abs(w)), "%s in the header of %s" % (k, what))
    ctx.eq(float(hdr["nodata_value"]), float(nodata), "missing value in the header of " + what)
    want = [[float(nodata) if missing[i, j] else float(vals[i, j]) for j in range(nx)] for i in reversed(range(ny))]
    if vals.dtype == np.float32:
        rows = [[float(nodata) if v == float(nodata) else float(np.float32(v)) for v in r] for r in rows]
    ctx.eq(rows, want, "rows from the top of " + what)

def check_back(ctx, h, vals, missing, T, what):
    ny, nx = missing.shape
    ctx.eq(tuple(h.size), (ny, nx), "size of " + what)
    got = h[:, :, 0] if h[:, :].ndim == 3 else h[:, :]
    ctx.eq(np.isnan(got).tolist(), missing.tolist(), "missing cells of " + what)
    ctx.eq(np.asarray(h.data_mask).tolist(), (~missing).tolist(), "cells with data of " + what)
    for i in range(ny):
        for j in range(nx):
            if not missing[i, j]:
                a, b = float(got[i, j]), float(vals[i, j])
                ctx.true(a == b or vals.dtype == np.float32 and np.float32(a) == vals[i, j], "cell (%d, %d) of %s: got %r, expected %r", i, j, what, a, b)
    scale = max(1, abs(T[0]), abs(T[1]))
    for a, b in zip(h.transform, T):
        ctx.close(a, b, 1e-12*scale, "transform of " + what)

def values(dtype, ny, nx, k=0):
    dt = np.dtype(dtype)
    pool = POOL if dtype == "float64" else [0.1, -1/3., 3e38, 1e-30, 7.0, -2.5, 4.0] if dtype == "float32" else [1, 2, 3, int(np.iinfo(dt).max)//3, int(np.iinfo(dt).min)//3 + 4, 100, 31]
    return np.array([pool[(k + i) % len(pool)] for i in range(ny*nx)], dtype=dt).reshape(ny, nx)

def write(ctx, g, path, **kw):
    before, T, nd = g[:, :].copy(), g.transform, g.nodata
    ret = g.to_aai(path, **kw)
    ctx.op()
    ctx.true(ret is g, "the writer returned %r", ret)
    ctx.true(np.array_equal(g[:, :], before, equal_nan=before.dtype.kind == "f") and g.transform == T and (g.nodata == nd or nd != nd), "writing changed the grid")

def contents(path):
    with open(path) as f:
        return f.read()

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

def run_write(case, ctx):
    ny, nx, d = case[1:]
    dtype = DTYPES[d]
    dt = np.dtype(dtype)
    path = os.path.abspath("w.asc")
    T = (15, -20, 30, 30, 0, 0)
    subsets = range(2**(ny*nx)) if ny*nx <= 6 or ctx.thorough and ny*nx <= 9 else [0, 1, 2, 2**(ny*nx-1), 2**nx - 1, 0x155, 0xaa, 2**(ny*nx)-1]
    for nd in NODATAS:
        if nd is not None and dt.kind in "ui" and not np.iinfo(dt).min <= nd <= np.iinfo(dt).max:
            continue
        for k in subsets:
            hole = np.array([k >> b & 1 for b in range(ny*nx)], dtype=bool).reshape(ny, nx)
            base = values(dtype, ny, nx, k)
            base[base == (nd if nd is not None else -1)] = 5
            g = RegularGrid(T, values=base.copy(), nodata_value=nd)
            v = base.copy()
            v[hole] = g.nodata
            for cls, how in ((SimpleBand, "name"), (CompressedBand, "stream")):
                g = RegularGrid(T, values=v.copy(), nodata_value=nd, bandclass=cls)
                ref, fnd = ("corner", "center")[k % 2], FILE[(k // 2) % 4]
                kw = dict(reference=ref, nodata_value=fnd)
                if k % 3 == 0:
                    del kw["nodata_value"]
                    fnd = -9999
                if k % 4 == 0:
                    kw.pop("reference")
                    ref = "corner"
                what = "%s grid\n%r\nwith missing value %r and %r" % (dtype, v, g.nodata, kw)
                if how == "name":
                    write(ctx, g, path, **kw)
                    text = contents(path)
                else:
                    f = io.StringIO()
                    write(ctx, g, f, **kw)
                    ctx.true(not f.closed, "a stream was closed by the writer")
                    text = f.getvalue()
                check_text(ctx, text, base, hole, T, ref, fnd, what)
                if how == "name":
                    check_back(ctx, karta.read_aai(path), base, hole, T, what)
            ctx.state(("w", ny, nx, dtype, nd, k))

def run_place(case, ctx):
    ny, nx = case[1:]
    path = os.path.abspath("p.asc")
    v = values("float64", ny, nx)
    none = np.zeros((ny, nx), dtype=bool)
    for (x, y), s, ref in itertools.product(ORIGINS, SIZES, ("corner", "center")):
        T = (x, y, s, s, 0, 0)
        g = RegularGrid(T, values=v.copy(), crs=WebMercator)
        what = "grid %r by %s" % (T, ref)
        # replaces a longer file, by name and through an open file
        with open(path, "w") as f:
            f.write("old\n"*500)
        write(ctx, g, path, reference=ref)
        text = contents(path)
        check_text(ctx, text, v, none, T, ref, -9999, what)
        check_back(ctx, karta.read_aai(path), v, none, T, what)
        with open(path, "w") as f:
            write(ctx, g, f, reference=ref)
            ctx.true(not f.closed, "a file was closed by the writer")
        ctx.eq(contents(path), text, "text written to an open file")
        # and again from what was read
        write(ctx, karta.read_aai(path), path, reference=ref)
        check_back(ctx, karta.read_aai(path), v, none, T, "copy of " + what)
        ctx.state(("p", ny, nx, T, ref))

SPELL = [(str.upper, " ", "\n"), (str.lower, "  ", "\n"), (str.title, "\t", "\n"), (lambda s: s, "        ", "\r\n"), (lambda s: s[0] + s[1:].upper(), " ", " \n")]

def run_read(case, ctx):
    ny, nx, part = case[1:]
    path = os.path.abspath("r.asc")
    v = values("float64", ny, nx, 3)
    hole = np.zeros((ny, nx), dtype=bool)
    n = 0
    for ref, nd in itertools.product(("corner", "center"), (None, -9999, -1.5, 0)):
        keys = ["ncols", "nrows", "xll" + ref, "yll" + ref, "cellsize"] + (["nodata_value"] if nd is not None else [])
        for order in itertools.permutations(keys):
            n += 1
            if n % 12 != part:
                continue
            case_, sep, eol = SPELL[n // 12 % 5]
            k = n // 60 % 2**min(ny*nx, 6)
            hole = np.array([k >> b & 1 for b in range(ny*nx)], dtype=bool).reshape(ny, nx)
            miss = nd if nd is not None else -9999
            vals = v.copy()
            vals[vals == miss] = 11.0
            x, y = ORIGINS[n % len(ORIGINS)]
            s = SIZES[n % 4]
            half = s/2. if ref == "center" else 0.
            hdr = dict(ncols=nx, nrows=ny, cellsize=s, nodata_value=miss)
            hdr["xll" + ref], hdr["yll" + ref] = x + half, y + half
            text = "".join(case_(key) + sep + repr(hdr[key]) + eol for key in order)
            rows = [[repr(miss) if hole[i, j] else repr(float(vals[i, j])) for j in range(nx)] for i in reversed(range(ny))]
            text += "".join(sep.join(r) + eol for r in rows)
            with open(path, "w", newline="") as f:
                f.write(text)
            ctx.op()
            check_back(ctx, karta.read_aai(path), vals, hole, (x, y, s, s, 0, 0), "the text %r" % text)
            # without one of the records it is not a grid
            gone = order[n % len(order)]
            if gone != "nodata_value":
                with open(path, "w", newline="") as f:
                    f.write("".join(l + "\n" for l in text.replace("\r", "").split("\n")[:-1] if not l.lower().startswith(gone)))
                ctx.raises(ValueError, lambda: karta.read_aai(path), "text without %s" % gone)
    ctx.state(("r", ny, nx, part))

def run_lines(case, ctx):
    """Rows may be broken anywhere."""
    ny, nx = case[1:]
    path = os.path.abspath("l.asc")
    v = values("float64", ny, nx, 5)
    m = ny*nx
    words = [repr(float(x)) for x in v[::-1].ravel()]
    head = "ncols %d\nnrows %d\nxllcorner 15\nyllcorner -20\ncellsize 30\nnodata_value -9999\n" % (nx, ny)
    for k in range(2**(m-1)) if m <= 9 else range(0, 2**(m-1), 37):
        text = head + "".join(w + ("\n" if i == m-1 or k >> i & 1 else " ") for i, w in enumerate(words))
        for t in (text, text[:-1], text + "\n"):
            with open(path, "w") as f:
                f.write(t)
            ctx.op()
            check_back(ctx, karta.read_aai(path), v, np.zeros((ny, nx), dtype=bool), (15, -20, 30, 30, 0, 0), "the text %r" % t)
    for wrong in (words[:-1], words + ["1.0"]):
        with open(path, "w") as f:
            f.write(head + " ".join(wrong) + "\n")
        ctx.raises(ValueError, lambda: karta.read_aai(path), "text with %d numbers for %d x %d cells" % (len(wrong), ny, nx))
    ctx.state(("l", ny, nx))

def run_refuse(case, ctx):
    """What the format cannot hold is refused, and no file is touched."""
    ny, nx = case[1:]
    path = os.path.abspath("f.asc")
    with open(path, "w") as f:
        f.write("precious")
    v = values("float64", ny, nx)
    bad = [(RegularGrid(T, values=v), {}) for T in ((0, 0, 1, 2, 0, 0), (0, 0, 2, 1, 0, 0), (0, 0, 1, 1, 0.5, 0), (0, 0, 1, 1, 0, 0.5), (0, 0, 1, 1, 0.5, 0.5), (0, 0, 1, 1, 0.5, -0.5),
                                                    (0, 0, 1, 1, -1, 0.5), (0, 0, 1, -1, 0, 0), (0, 0, -1, 1, 0, 0), (0, 0, -1, -1, 0, 0))]
    bad += [(RegularGrid((0, 0, 1, 1, 0, 0), values=np.dstack([v]*n)), {}) for n in (2, 3)]
    bad += [(RegularGrid((0, 0, 1, 1, 0, 0), values=v), {"reference": r}) for r in ("centre", "", None)]
    for g, kw in bad:
        ctx.op()
        ctx.raises(GridError, lambda: g.to_aai(path, **kw), "writing a grid %r in %d bands with %r" % (g.transform, g.nbands, kw))
        ctx.eq(contents(path), "precious", "file of a grid that was refused")
        s = io.StringIO()
        ctx.raises(GridError, lambda: g.to_aai(s, **kw), "writing a grid %r in %d bands with %r" % (g.transform, g.nbands, kw))
        ctx.eq(s.getvalue(), "", "stream of a grid that was refused")
    ctx.state(("f", ny, nx))

def run_large(case, ctx):
    path = os.path.abspath("big.asc")
    for ny, nx in ((1, 300), (300, 1), (129, 257), (64, 64)):
        v = (np.arange(ny*nx) * 0.37 - 11).reshape(ny, nx)
        hole = (np.arange(ny*nx) % 7 == 3).reshape(ny, nx)
        w = v.copy()
        w[hole] = np.nan
        for cls in (SimpleBand, CompressedBand):
            g = RegularGrid((15, -20, 30, 30, 0, 0), values=w, bandclass=cls)
            write(ctx, g, path)
            check_text(ctx, contents(path), v, hole, g.transform, "corner", -9999, "%d x %d grid" % (ny, nx))
            check_back(ctx, karta.read_aai(path), v, hole, g.transform, "%d x %d grid" % (ny, nx))
        ctx.state(("large", ny, nx))
