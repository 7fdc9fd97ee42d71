"""Shapefiles: the files on disk hold exactly the geometries and attributes, and reading them back gives the same."""
import datetime, itertools, os, struct, warnings
import numpy as np
import pyproj
from osgeo import ogr
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon
from karta.vector import shp, read_shapefile
from karta.crs import (LonLatWGS84, LonLatNAD27, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth, NSIDCSouth, LambertEqualArea,
                       GallPetersEqualArea, UPSNorth, UPSSouth, Cartesian)
import geo

RULE = ("a case is one list of geometries with attributes; the files written are decoded byte by byte by a reader written from the format "
        "specification and compared with the geometries, then read by karta and compared again; non-trivial = one file compared")
BOUNDS = {"quick": "all rings with 3..4 vertices on 3x3 with every start and direction, without and with holes and height; all lines of 2..3 "
                   "vertices on 3x3; all columns of 1..2 values out of 32 and of 3 values out of 8; all sets of 1..3 out of 14 attribute names; all pairs of 11 coordinate "
                   "systems; all histories of 3 writes to one name; 1..3 features of every type",
          "thorough": "rings with 5 vertices, columns of 3 values out of 20, histories of 4 writes"}
ASSUMPTIONS = ["a set with a single member is read as that member, an empty string as no value, and attribute names are in capitals and of at most 10 "
               "characters: the format cannot tell them apart", "values in a column of several types may be read as text; lists and dictionaries are not stored",
               "reals are required to 15 decimals or digits", "polygons of a set are disjoint, and in any order when read", "per-member data are not stored"]

warnings.simplefilter("ignore")
ogr.UseExceptions()
P3 = [(x, y) for x in range(3) for y in range(3)]
WGS = LonLatWGS84
HOLES = [[(40.1, 0.1), (40.2, 0.1), (40.2, 0.3)], [(40.55, 0.55), (40.7, 0.7), (40.55, 0.7)]]
D = datetime
VALUES = [None, 0, 7, -3, True, 2**31-1, -2**31, 2**31, -2**31-1, 10**15+1, -10**15, 0.0, 2.5, -0.1, 1/3., 123456789.125, 1e-9, -1e12,
          "x", "", "text, with 'quotes'", "12", "é", "日本語", "y"*250, D.date(2012, 1, 2), D.date(1999, 12, 31), D.datetime(2012, 1, 2, 3, 4, 5), D.time(1, 2, 3),
          [1, 2], {"a": 1}, np.int64(2**40)]
NUMPY = [np.uint8(200), np.int16(-5), np.float32(0.5), np.bool_(True)]
FEW = [None, 1, 2.5, "s", True, 2**40, D.date(2001, 2, 3), [1]]
KEYS = ["a", "A", "b", "id", "ID", "longname_one", "longname_two", "LONGNAME_ONE", "é", "éééééééééééé", "日本語日本語", "a b", "_x", "x1"]
CRSS = [LonLatWGS84, LonLatNAD27, LonLatNAD83, SphericalEarth, WebMercator, NSIDCNorth, NSIDCSouth, LambertEqualArea, GallPetersEqualArea, UPSNorth, UPSSouth]

def cases(tier):
    t = tier == "thorough"
    for r in geo.rings(3, 3, 3, 5 if t else 4):
        yield ["ring", r]
    for a, b in itertools.product(P3, repeat=2):
        yield ["line", a, b]
    for i in range(len(VALUES)):
        yield ["values", i]
    n = len(FEW)
    for i, j in itertools.product(range(n), repeat=2):
        yield ["column", i, j]
    for i in range(len(KEYS)):
        yield ["keys", i]
    for i in range(len(CRSS)):
        yield ["crs", i]
    for k in itertools.product(range(8), repeat=2):
        yield ["history"] + list(k)
    for k in range(6):
        yield ["types", k]
    yield ["deleted", 0]
    yield ["many", 0]

# ---- decoding, from the ESRI and dBase specifications
def decode_shp(path):
    """[(shape type, [parts])], a part being a list of vertices; None for a null shape."""
    b = open(path, "rb").read()
    code, length, version, ftype = struct.unpack(">i", b[:4])[0], struct.unpack(">i", b[24:28])[0], *struct.unpack("<2i", b[28:36])
    if code != 9994 or version != 1000 or length*2 != len(b):
        raise ValueError("bad shapefile header %r in a file of %d bytes" % ((code, version, length), len(b)))
    box = struct.unpack("<4d", b[36:68])
    out, at, n = [], 100, 0
    while at < len(b):
        num, words = struct.unpack(">2i", b[at:at+8])
        n += 1
        if num != n:
            raise ValueError("record number %d, expected %d" % (num, n))
        c = b[at+8:at+8+2*words]
        at += 8 + 2*words
        t = struct.unpack("<i", c[:4])[0]
        if t == 0:
            out.append((0, None))
            continue
        if t != ftype:
            raise ValueError("shape type %d in a file of type %d" % (t, ftype))
        z = t > 10
        base = t - 10 if z else t
        if base == 1:
            out.append((t, [[struct.unpack("<3d" if z else "<2d", c[4:28 if z else 20])]]))
            continue
        if base == 8:
            k = struct.unpack("<i", c[36:40])[0]
            starts, p = [0], 40
        else:
            m, k = struct.unpack("<2i", c[36:44])
            starts, p = list(struct.unpack("<%di" % m, c[44:44+4*m])), 44 + 4*m
        xy = struct.unpack("<%dd" % (2*k), c[p:p+16*k])
        pts = list(zip(xy[::2], xy[1::2]))
        if z:
            p += 16*k + 16
            pts = [q + (h,) for q, h in zip(pts, struct.unpack("<%dd" % k, c[p:p+8*k]))]
        out.append((t, [pts[s:e] for s, e in zip(starts, starts[1:] + [k])]))
    shx = open(path[:-4] + ".shx", "rb").read()
    if len(shx) != 100 + 8*n:
        raise ValueError("index of %d bytes for %d shapes" % (len(shx), n))
    return out, box

def decode_dbf(path):
    """(field names, [raw record dictionaries])"""
    b = open(path, "rb").read()
    n, head, size = struct.unpack("<iHH", b[4:12])
    cpg = open(path[:-4] + ".cpg").read().strip() if os.path.exists(path[:-4] + ".cpg") else "ISO-8859-1"
    fields, at = [], 32
    while b[at] != 0x0d:
        name = b[at:at+11].split(b"\0")[0].decode(cpg)
        fields.append((name, chr(b[at+11]), b[at+16]))
        at += 32
    out = []
    for i in range(n):
        r = b[head + i*size:head + (i+1)*size]
        if r[0] != 0x20:
            raise ValueError("record %d is deleted or damaged" % i)
        d, p = {}, 1
        for name, t, w in fields:
            d[name] = (t, r[p:p+w].decode(cpg).strip())
            p += w
        out.append(d)
    return [f[0] for f in fields], out

def canon(ring):
    r = [tuple(p) for p in ring]
    while len(r) > 1 and r[0] == r[-1]:
        r.pop()
    return min(q[s:] + q[:s] for q in (r, r[::-1]) for s in range(len(q)))

def area2(r):
    return sum(a[0]*b[1] - b[0]*a[1] for a, b in zip(r, r[1:] + r[:1]))

def tup(v):
    return tuple(float(c) for c in v)

def polygons(g):
    if isinstance(g, Multipolygon):
        return [[[tup(p) for p in r] for r in poly] for poly in g.vertices()]
    return [[[tup(p) for p in g.vertices()]] + [[tup(p) for p in s.vertices()] for s in g.subs]]

def parts(g):
    if isinstance(g, Point):
        return [[tup(g.vertex())]]
    if isinstance(g, Multiline):
        return [[tup(p) for p in l] for l in g.vertices()]
    return [[tup(p) for p in g.vertices()]]

def shape_type(g):
    return {Point: 1, Line: 3, Multiline: 3, Polygon: 5, Multipolygon: 5, Multipoint: 8}[type(g)]

def content(g):
    if shape_type(g) == 5:
        return sorted([canon(p[0])] + sorted(canon(r) for r in p[1:]) for p in polygons(g))
    return parts(g)

def snapshot(g):
    return (content(g), repr(sorted(g.properties.items(), key=lambda kv: str(kv[0]))), g.crs)

def close(a, b, tol):
    return abs(a - b) <= tol

def expected_names(keys):
    """Name of the field of every key that has no rival."""
    short = {}
    for k in keys:
        short.setdefault(str(k)[:10].upper(), []).append(k)
    return dict((v[0], k) for k, v in short.items() if len(v) == 1 and k != "ID" and len(k.encode("utf8")) <= 10)

PLACES = {}
def place(crs, p):
    """Coordinates in *crs* of a place given in WGS84."""
    key = (crs._proj.srs, p)
    if key not in PLACES:
        PLACES[key] = tuple(pyproj.transform(LonLatWGS84._proj, crs._proj, *p)[:2])
    return PLACES[key]

def same_value(got, v, column):
    """Whether *got* stands for *v* in a column with these values."""
    some = [u for u in column if u is not None]
    if v is None or v == "":
        return got is None or got == ""
    if isinstance(v, np.generic):
        v = v.item()
    kinds = set("date" if type(u) is D.date else "time" if isinstance(u, (D.datetime, D.time)) else "text" if isinstance(u, str) else "number" for u in some)
    if len(kinds) == 1 and "number" in kinds:
        if all(isinstance(u, (int, np.integer, np.bool_)) for u in some):
            return type(got) is int and got == v
        return isinstance(got, (int, float)) and close(got, v, max(2e-15, abs(v)*1e-14))
    if len(kinds) == 1 and "date" in kinds:
        return got == v
    return got == v or got == str(v)

def unstorable(v):
    return isinstance(v, (list, dict))

def check_dbf(ctx, path, gs, what):
    names, rows = decode_dbf(path)
    ctx.eq(len(rows), len(gs), what + ": records on disk")
    ctx.eq(len(set(n.upper() for n in names)), len(names), what + ": field names on disk")
    return names

def expected(gs):
    keys = set.intersection(*[set(g.properties) for g in gs])
    return [k for k in sorted(keys, key=str) if not any(unstorable(g.properties[k]) for g in gs) and any(g.properties[k] is not None for g in gs)]

def check(ctx, gs, stem="out", crs=None, tol=0.0, coords=None, suffix=True):
    """Write the geometries, decode the files, read them with karta."""
    what = ", ".join("%s %r" % (type(g).__name__, g.properties) for g in gs[:3])
    crs = crs or gs[0].crs
    before = [snapshot(g) for g in gs]
    path = os.path.abspath(stem + ".shp")
    ctx.op()
    if len(gs) == 1 and not suffix:
        gs[0].to_shapefile(path[:-4])
    elif len(gs) == 1:
        gs[0].to_shapefile(path)
    else:
        shp.write_shapefile(path, *gs)
    for g, b in zip(gs, before):
        ctx.true(snapshot(g) == b, "%s: writing changed %s", what, type(g).__name__)
    want = [content(g) for g in gs] if coords is None else coords
    # what is on disk
    recs, box = decode_shp(path)
    ctx.eq(len(recs), len(gs), what + ": shapes on disk")
    rank3 = any(len(p) > 2 for g in gs for part in (polygons(g)[0] if shape_type(g) == 5 else parts(g)) for p in part)
    allx = []
    for (t, ps), g, w in zip(recs, gs, want):
        ctx.eq(t, shape_type(g) + (10 if rank3 else 0), what + ": shape type on disk")
        if shape_type(g) == 5:
            rings = [r for poly in w for r in ([poly[0]] + poly[1:])]
            if tol == 0.0:
                ctx.eq(sorted(canon(p) for p in ps), sorted(rings), what + ": rings on disk")
            ctx.eq(len(ps), len(rings), what + ": rings on disk")
            outer = [poly[0] for poly in w]
            for p in ps:
                ctx.true(p[0] == p[-1], "%s: ring %r on disk is not closed", what, p)
                if tol == 0.0:
                    ctx.true((area2(p[:-1]) < 0) == (canon(p) in outer), "%s: direction of ring %r on disk", what, p)
        else:
            ctx.eq(len(ps), len(w), what + ": parts on disk")
            for p, q in zip(ps, w):
                ctx.eq(len(p), len(q), what + ": vertices on disk")
                for a, b in zip(p, q):
                    ctx.true(len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b)), "%s: vertex %r on disk, expected %r", what, a, b)
        allx += [p for q in ps for p in q]
    ctx.eq(box, (min(p[0] for p in allx), min(p[1] for p in allx), max(p[0] for p in allx), max(p[1] for p in allx)), what + ": box on disk")
    check_dbf(ctx, path[:-4] + ".dbf", gs, what)
    # what karta reads
    ctx.op()
    back = read_shapefile(path if suffix else path[:-4])
    ctx.eq(len(back), len(gs), what + ": geometries read")
    probe = (12.0, 61.0) if crs not in (NSIDCSouth, UPSSouth) else (12.0, -61.0)
    for h, g, w in zip(back, gs, want):
        kind = type(g)
        n = len(g.vertices()) if kind in (Multiline, Multipolygon) else 2
        if n == 1:
            kind = Line if kind is Multiline else Polygon
        ctx.eq(type(h).__name__, kind.__name__, what + ": type read")
        c = content(h)
        if tol == 0.0:
            ctx.eq(c, w, what + ": coordinates read")
        else:
            fl = lambda v: [v] if isinstance(v, float) else [u for x in v for u in fl(x)]
            ctx.true(len(fl(c)) == len(fl(w)) and (shape_type(g) == 5 or all(close(x, y, tol) for x, y in zip(fl(c), fl(w)))), "%s: coordinates read %r, expected %r", what, c, w)
        if shape_type(g) == 5 and kind is Polygon:
            for s in h.subs:
                ctx.true(isinstance(s, Polygon) and s.crs == h.crs, "%s: hole read %r", what, s)
        if crs is not Cartesian:
            for p in (probe, (-100.0, probe[1])):
                a, b = place(crs, p), place(h.crs, p)
                ctx.true(close(a[0], b[0], 1e-6) and close(a[1], b[1], 1e-6), "%s: coordinate system %s read, %s written", what, h.crs.get_proj4(), crs.get_proj4())
    keys = expected(gs)
    names = expected_names(set.intersection(*[set(g.properties) for g in gs]))
    ctx.eq([h.properties["id"] for h in back], list(range(len(gs))), what + ": identifiers")
    found = [k for k in back[0].properties if k != "id"]
    for h in back:
        ctx.eq([k for k in h.properties if k != "id"], found, what + ": attribute names")
    free = set(found)
    for k in keys:
        col = [g.properties[k] for g in gs]
        ok = lambda f: all(same_value(h.properties[f], v, col) for h, v in zip(back, col))
        if k in names:
            ctx.true(names[k] in free, "%s: attribute %r is missing from %r", what, k, found)
            ctx.true(ok(names[k]), "%s: attribute %r read %r, written %r", what, k, [h.properties[names[k]] for h in back], col)
            free.discard(names[k])
    for k in keys:
        if k not in names:
            col = [g.properties[k] for g in gs]
            f = [f for f in sorted(free) if all(same_value(h.properties[f], v, col) for h, v in zip(back, col))]
            ctx.true(len(f) != 0, "%s: attribute %r with values %r is missing from %r", what, k, col, [h.properties for h in back])
            free.discard(f[0])
    ctx.state((repr(want), repr([sorted(g.properties.items(), key=str) for g in gs]), str(crs)))
    return back

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

def fl(v, dx=40.0, s=0.25):
    return [(dx + s*x, s*y) for x, y in v]

def with_z(v, z0=0.5):
    return [p + (z0 + i,) for i, p in enumerate(v)]

def hole_in(v, k):
    """A small hole strictly inside the ring v: around its 'ear' centroid."""
    n = len(v)
    for i in range(n):
        a, b, c = v[i-1], v[i], v[(i+1) % n]
        m = ((a[0]+b[0]+c[0])/3.0, (a[1]+b[1]+c[1])/3.0)
        if geo.in_ring(m, v) > 0 and all(geo.in_ring(p, v) > 0 for p in around(m)):
            h = around(m)
            return h if k % 2 else h[::-1]
    return None

def around(m, r=2.0**-6):
    return [(m[0]-r, m[1]-r), (m[0]+r, m[1]-r), (m[0], m[1]+r)]

def P(ring, subs=(), **kw):
    return Polygon(ring, subs=[Polygon(s, crs=WGS) for s in subs], crs=WGS, properties=kw)

def run_ring(case, ctx):
    r = tuple(tuple(p) for p in case[1])
    gs, g3, multi = [], [], []
    far = [(44.0, 0.0), (45.0, 0.0), (45.0, 1.0), (44.0, 1.0)]
    for k, q in enumerate(geo.variants(r)):
        v = fl(q)
        h = hole_in(v, k)
        gs.append(P(v, n=k))
        g3.append(P(with_z(v), n=k))
        m = [[v], [far, around((44.5, 0.5), 0.125)]]
        if h:
            gs.append(P(v, [h], n=k))
            gs.append(P(v + v[:1], [h], n=k))
            g3.append(P(with_z(v), [with_z(h)], n=k))
            m[0].append(h)
        multi.append(Multipolygon(m if k % 2 else m[::-1], crs=WGS, properties={"n": k}))
    check(ctx, gs)
    check(ctx, g3)
    check(ctx, multi)
    check(ctx, [Multipolygon([[with_z(r) for r in poly] for poly in polygons(multi[0])], crs=WGS)])
    check(ctx, gs[:1] + multi[:1])
    check(ctx, gs[:1], suffix=False)

def run_line(case, ctx):
    a, b = tuple(case[1]), tuple(case[2])
    L = lambda v: Line(v, crs=WGS, properties={"p": "q"})
    ls = [L(fl([a, b]))] + [L(fl([a, b, c])) for c in P3]
    check(ctx, ls)
    check(ctx, [L(with_z(fl([a, b, c]))) for c in P3])
    check(ctx, [Multiline([fl([a, b]), fl([c, a, b])], crs=WGS) for c in P3] + ls[:1])
    check(ctx, [Multiline([with_z(fl([a, b])), with_z(fl([b, a, b]))], crs=WGS)])
    check(ctx, [Multipoint(fl([a, b, c]), crs=WGS) for c in P3] + [Multipoint(fl([a, b]), crs=WGS)])
    check(ctx, [Multipoint(with_z(fl([a, b, a])), crs=WGS)])
    check(ctx, [Point(p, crs=WGS) for p in fl([a, b])])
    check(ctx, [Point(p, crs=WGS) for p in with_z(fl([a, b]), -1.5)])
    check(ctx, [Point(fl([a])[0], crs=WGS)], suffix=False)
    for conv in (int, np.int64, np.float32):
        v = [tuple(conv(c) for c in p) for p in (a, b, (5, 6))]
        for g in (Point(v[0], crs=WGS), Line(v, crs=WGS), Multipoint(v, crs=WGS), Multiline([v, v[:2]], crs=WGS)):
            check(ctx, [g])

def points(*values):
    return [Point((1.5 + i, 2.25), crs=WGS, properties=dict(v)) for i, v in enumerate(values)]

def run_values(case, ctx):
    v = VALUES[case[1]]
    check(ctx, points({"v": v}))
    check(ctx, points({"v": v, "w": 5}, {"v": v, "w": 6}))
    for w in VALUES + NUMPY:
        check(ctx, points({"v": v, "k": 1}, {"v": w, "k": 2}))
        check(ctx, points({"v": w, "k": v}))

def run_column(case, ctx):
    more = VALUES[:20] if ctx.thorough else FEW
    for w in more:
        check(ctx, points({"v": FEW[case[1]]}, {"v": FEW[case[2]]}, {"v": w}))

def run_keys(case, ctx):
    k = KEYS[case[1]]
    check(ctx, points({k: 11}))
    for j, k2 in enumerate(KEYS):
        check(ctx, points({k: 11, k2: "v"}, {k: 12, k2: "w"}))
        for k3 in KEYS[j+1:]:
            check(ctx, points({k: 11, k2: 22, k3: 33}))
    # keys that only some of the features have are left out
    check(ctx, points({k: 1, "common": 2}, {"common": 3}))
    many = dict(("attribute_%d" % i, i) for i in range(25))
    check(ctx, points(dict(many, **{k: 100})))

def geometry(k, crs, t=None):
    t = t or (lambda p: p)
    base = [t(p) for p in [(10.0, 60.0), (12.0, 61.0), (11.0, 62.0), (9.0, 61.5)]]
    hole = [t(p) for p in [(10.5, 60.8), (10.8, 61.0), (10.6, 61.2)]]
    if k == 0: return Point(base[0], crs=crs)
    if k == 1: return Line(base, crs=crs)
    if k == 2: return Polygon(base, subs=[Polygon(hole, crs=crs)], crs=crs)
    if k == 3: return Multipoint(base, crs=crs)
    if k == 4: return Multiline([base[:3], hole], crs=crs)
    return Multipolygon([[base, hole], [[t((20.0, 60.0)), t((21.0, 60.0)), t((21.0, 61.0))]]], crs=crs)

def run_crs(case, ctx):
    crs = CRSS[case[1]]
    sign = -1.0 if crs in (NSIDCSouth, UPSSouth) else 1.0
    pj = lambda c: (lambda p: place(c, (p[0], sign*p[1])))
    for k in range(6):
        check(ctx, [geometry(k, crs, pj(crs))])
        check(ctx, [geometry(k, Cartesian)], crs=LonLatWGS84)
        # a file has one coordinate system: that of its first geometry
        for other in CRSS:
            if (other in (NSIDCSouth, UPSSouth)) == (sign < 0) or other in CRSS[:5]:
                a, b = geometry(k, crs, pj(crs)), geometry(k, other, pj(other))
                check(ctx, [a, b], tol=2e-3 if a.crs not in CRSS[:4] else 2e-8, coords=[content(a), content(a)])

def run_history(case, ctx):
    """Every write replaces whatever the name held."""
    def make(k):
        g = geometry(k % 6, WGS)
        g.properties = {"h%d" % k: k, "s": "t%d" % k}
        return [g] if k < 6 else [geometry(k-6, WGS), geometry(k-6, NSIDCNorth, lambda p: place(NSIDCNorth, p))][::-1][:1]*3
    for tail in itertools.product(range(8), repeat=2 if ctx.thorough else 1):
        ctx.trace()
        for k in tuple(case[1:]) + tail:
            check(ctx, make(k), stem="history")

def run_types(case, ctx):
    """A shapefile has one type of shape; a mixture is refused, and nothing of it is lost silently."""
    k = case[1]
    for j in range(6):
        a, b = geometry(k, WGS), geometry(j, WGS)
        if shape_type(a) == shape_type(b):
            check(ctx, [a, b])
            check(ctx, [a, b, a])
        else:
            ctx.op()
            try:
                shp.write_shapefile(os.path.abspath("mixed.shp"), a, b)
            except Exception:
                ctx.outcome("refused")
            else:
                ctx.eq(len(read_shapefile(os.path.abspath("mixed.shp"))), 2, "geometries of a mixture of types")

def run_deleted(case, ctx):
    """Attributes stay with their geometry when features have been deleted from the file by other software."""
    for n in range(1, 6):
        for dead in itertools.chain(*[itertools.combinations(range(n), m) for m in range(n)]):
            gs = points(*[{"v": 10*i, "s": "t%d" % i} for i in range(n)])
            path = os.path.abspath("deleted.shp")
            shp.write_shapefile(path, *gs)
            ds = ogr.GetDriverByName("ESRI Shapefile").Open(path, 1)
            lyr = ds.GetLayer()
            for i in dead:
                lyr.DeleteFeature(i)
            del lyr
            ds.Destroy()
            ctx.op()
            back = read_shapefile(path)
            live = [i for i in range(n) if i not in dead]
            ctx.eq([(h.vertex()[0], h.properties["V"], h.properties["S"]) for h in back], [(1.5+i, 10*i, "t%d" % i) for i in live], "features left after deleting %r" % (dead,))
            ctx.state(("deleted", n, dead))

def run_many(case, ctx):
    for n in (99, 100, 101, 130, 300):
        for first in (0, 1, n-1):
            check(ctx, points(*[{"v": None if i < first else i, "w": i if i < first else i + 0.5, "x": "t"} for i in range(n)]))
            check(ctx, points(*[{"v": i if i < first else "t%d" % i, "w": None} for i in range(n)]))
