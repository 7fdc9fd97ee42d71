"""GeoJSON and the geo interface: what is written is what the geometry holds, and reading it back gives the same geometry."""
import io, itertools, json, os
import numpy as np
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon
from karta.vector.read import read_geojson, from_shape
from karta.crs import Cartesian, WebMercator, LonLatWGS84, LonLatNAD83, LambertEqualArea, NSIDCNorth, GeographicalCRS
import geo

RULE = ("a case is one geometry (or GeoJSON document) in every combination of writer options; the text is parsed by the standard JSON parser and "
        "compared with the geometry, read back and compared again, and the original is compared with what it was; non-trivial = one document compared")
BOUNDS = {"quick": "all rings with 3..5 vertices on 3x3 in every orientation and start, alone, closed twice and with each of 4 holes; all lines of 2..3 "
                   "vertices; all sets of 1..3 members; 2 and 3 dimensions; 6 coordinate systems, one on another datum; all property values from 16 alone and in pairs; "
                   "all documents of nested collections up to depth 3 and width 2 over 6 geometries",
          "thorough": "rings with 6 vertices, sets of 4 members, width 3"}
ASSUMPTIONS = ["rings are equal if they have the same vertices in cyclic order, in either direction, with or without a repeated first vertex at the end",
               "a property of a set that is a list with one value per member is its data",
               "a document that is a single geometry may be returned alone or in a list"]

P3 = [(x, y) for x in range(3) for y in range(3)]
HOLES = [[(40.1, 0.1), (40.2, 0.1), (40.2, 0.3)], [(40.1, 0.1), (40.2, 0.3), (40.2, 0.1)], [(40.0, 0.0), (41.0, 0.0), (41.0, 1.0), (40.0, 1.0)],
         [(40.5, 0.5), (40.5, 0.75), (40.75, 0.75), (40.75, 0.5), (40.5, 0.5)]]
VALUES = [None, True, False, 0, -3, 2**53, 1.5, 1e300, -0.1, "", "text", "é\"\\\n", [1, "a", None], {"k": [1, {"x": None}]}, [], {}]
NUMPY = [np.int64(5), np.int32(-5), np.uint8(200), np.float32(0.5), np.float64(0.1), np.bool_(True)]

def cases(tier):
    t = tier == "thorough"
    for r in geo.rings(3, 3, 3, 6 if t else 5):
        yield ["ring", r]
    for a, b in itertools.product(P3, repeat=2):
        yield ["line", a, b]
    for n in range(1, 5 if t else 4):
        for k in range(3):
            for d in range(4):
                yield ["set", k, n, d]
    for i in range(len(VALUES) + len(NUMPY)):
        yield ["values", i]
    for k in range(6):
        for c in range(6):
            yield ["crs", k, c]
    for k in range(36 if not t else 216):
        yield ["doc", k, 3 if t else 2]
    yield ["plain", 0]
    yield ["shape", 0]
    yield ["io", 0]

def lists(v):
    return [lists(u) for u in v] if isinstance(v, (list, tuple, np.ndarray)) else float(v)

def canon(ring):
    """A ring up to start, direction and repeated closing vertex."""
    r = [tuple(p) for p in ring]
    while len(r) > 1 and r[0] == r[-1]:
        r.pop()
    best = None
    for q in (r, r[::-1]):
        for s in range(len(q)):
            c = q[s:] + q[:s]
            if best is None or c < best:
                best = c
    return best

class G(object):
    """Expected content: kind, coordinates as nested lists (polygons: list of rings), properties, data, crs."""
    def __init__(self, kind, coords, props=None, data=None, crs=LonLatWGS84):
        self.kind, self.coords, self.props, self.data, self.crs = kind, coords, dict(props or {}), dict(data or {}), crs
    def build(self):
        kw = {"crs": self.crs, "properties": dict(self.props)}
        if self.kind.startswith("Multi"):
            kw["data"] = dict((k, list(v)) for k, v in self.data.items())
        if self.kind == "Polygon":
            return Polygon(self.coords[0], subs=[Polygon(r, crs=self.crs) for r in self.coords[1:]], **kw)
        return {"Point": Point, "LineString": Line, "MultiPoint": Multipoint, "MultiLineString": Multiline,
                "MultiPolygon": Multipolygon}[self.kind](self.coords, **kw)

def plain(v):
    return v.item() if hasattr(v, "item") else v

def same_coords(ctx, kind, got, want, what, tol=0.0):
    def cmp(a, b):
        ctx.eq(len(a), len(b), what + ": number of coordinates")
        for x, y in zip(a, b):
            if isinstance(y, (list, tuple)):
                cmp(x, y)
            elif tol == 0.0:
                ctx.true(x == y, "%s: coordinate %r, expected %r", what, x, y)
            else:
                ctx.close(x, y, tol, what + ": coordinate")
    def rings(a, b):
        ctx.eq(len(a), len(b), what + ": number of rings")
        for x, y in zip(a, b):
            if tol == 0.0:
                ctx.eq(canon(x), canon(lists(y)), what + ": ring")
            else:
                s = set(tuple(round(c, 6) for c in p) for p in x)
                u = set(tuple(round(c, 6) for c in p) for p in lists(y))
                for p in s:
                    ctx.true(any(all(abs(c-d) <= 2e-6 for c, d in zip(p, q)) for q in u), "%s: ring vertex %r is not one of %r", what, p, u)
                ctx.eq(len(s), len(u), what + ": ring vertices")
    if kind == "Polygon":
        rings(got, want)
    elif kind == "MultiPolygon":
        ctx.eq(len(got), len(want), what + ": number of polygons")
        for x, y in zip(got, want):
            rings(x, y)
    else:
        cmp(got, lists(want))

def area2(r):
    return sum(a[0]*b[1] - b[0]*a[1] for a, b in zip(r, r[1:]))

def check_rings(ctx, rings, what):
    for k, r in enumerate(rings):
        ctx.true(r[0] == r[-1] and len(r) >= 4, "%s: ring %r is not closed", what, r)
        ctx.true(r[1] != r[0] or r[-2] != r[0], "%s: ring %r is closed twice", what, r)

def check_doc(ctx, text, g, urn, what, coords=None, tol=0.0):
    d = json.loads(text)
    ctx.eq(d["type"], "Feature", what + ": type")
    ctx.eq(d["geometry"]["type"], g.kind, what + ": geometry type")
    c = d["geometry"]["coordinates"]
    same_coords(ctx, g.kind, c, g.coords if coords is None else coords, what, tol)
    if g.kind == "Polygon":
        check_rings(ctx, c, what)
    elif g.kind == "MultiPolygon":
        for r in c:
            check_rings(ctx, r, what)
    want = dict(g.props)
    want.update(g.data)
    ctx.eq(d["properties"], json.loads(json.dumps(want, default=plain)), what + ": properties")
    if urn is not None:
        ctx.eq(d["crs"], {"type": "name", "properties": {"name": urn}}, what + ": crs")

def flat(c):
    return [tuple(c)] if not isinstance(c[0], (list, tuple)) else [p for q in c for p in flat(q)]

def check_geom(ctx, h, g, what, crs=None, coords=None, tol=0.0):
    name = {"LineString": "Line", "MultiPoint": "Multipoint", "MultiLineString": "Multiline", "MultiPolygon": "Multipolygon"}.get(g.kind, g.kind)
    ctx.eq(type(h).__name__, name, what + ": type")
    ctx.true(h.crs == (crs or g.crs), "%s: crs %s", what, h.crs)
    if g.kind == "Point":
        c = list(h.vertex())
    elif g.kind == "Polygon":
        c = [lists(h.vertices())] + [lists(s.vertices()) for s in h.subs]
        for s in h.subs:
            ctx.true(isinstance(s, Polygon) and s.crs == (crs or g.crs), "%s: hole %r", what, s)
    else:
        c = lists(h.vertices())
    same_coords(ctx, g.kind, c, g.coords if coords is None else coords, what, tol)
    norm = lambda v: json.loads(json.dumps(v, default=plain))
    ctx.eq(norm(h.properties), norm(g.props), what + ": properties")
    if g.kind.startswith("Multi"):
        n = len(g.coords)
        ctx.eq(len(h), n, what + ": members")
        ctx.eq(set(h.data.fields), set(g.data), what + ": fields")
        for k, v in g.data.items():
            ctx.eq(norm(h.d[k]), norm(v), what + ": column " + k)
        if n and not (g.kind == "MultiPolygon" and False):
            h[0], h[n-1]

def one(ctx, got):
    """The only geometry of a parsed document."""
    if isinstance(got, list):
        ctx.eq(len(got), 1, "number of geometries read")
        return got[0]
    return got

def snapshot(h):
    v = lists(h.vertices()) if hasattr(h, "vertices") else list(h.vertex())
    d = [h.data.get(i) for i in range(len(h.data))] if hasattr(h, "data") else None
    return (v, repr(sorted(h.properties.items(), key=lambda kv: kv[0])), repr(d), [lists(s.vertices()) for s in getattr(h, "subs", ())], h.crs)

def whole(ctx, g, what, indents=(None,)):
    """Write in every way, compare, read back, compare, and write again."""
    h = g.build()
    before = snapshot(h)
    for indent in indents:
        for kw, urn in (({}, "urn:ogc:def:crs:OGC:1.3:CRS84"), ({"urn": "urn:x"}, "urn:x"), ({"force_wgs84": False}, None),
                        ({"force_wgs84": False, "urn": "urn:y"}, "urn:y")):
            ctx.op()
            text = h.as_geojson(indent=indent, **kw)
            check_doc(ctx, text, g, urn, "%s written with %r" % (what, kw))
            if snapshot(h) != before:
                ctx.fail("writing %s with %r changed it: %r became %r" % (what, kw, before, snapshot(h)))
            back = one(ctx, read_geojson(text))
            check_geom(ctx, back, g, "%s written with %r and read" % (what, kw))
            again = back.as_geojson(indent=indent, **kw)
            check_doc(ctx, again, g, urn, "%s written, read and written" % what)
            check_geom(ctx, one(ctx, read_geojson(again)), g, "%s written, read, written and read" % what)
    ctx.state((g.kind, repr(g.coords), repr(g.props), repr(g.data)))

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

def fl(v, dx=40.0, s=0.25):
    return [(dx + s*x, s*y) for x, y in v]

def run_ring(case, ctx):
    r = tuple(tuple(p) for p in case[1])
    for k, q in enumerate(geo.variants(r)):
        v = fl(q)
        whole(ctx, G("Polygon", [v]), "polygon %r" % (q,))
        whole(ctx, G("Polygon", [v + v[:1]]), "closed polygon %r" % (q,))
        whole(ctx, G("Polygon", [v, HOLES[k % 4]], {"a": 1}), "polygon %r with a hole" % (q,))
        if k < 2:
            whole(ctx, G("Polygon", [[p + (float(i),) for i, p in enumerate(v)], [p + (9.0,) for p in HOLES[k]]]), "polygon %r in three dimensions" % (q,))
            whole(ctx, G("Polygon", [v] + HOLES), "polygon %r with holes" % (q,))
            whole(ctx, G("MultiPolygon", [[v, HOLES[k]], [HOLES[2]]], {"a": 1}, {"b": ["x", 2]}), "polygons %r" % (q,))
            m = G("MultiPolygon", [[v + v[:1], HOLES[3]], [HOLES[3]]])
            whole(ctx, m, "closed polygons %r" % (q,))
        interface(ctx, G("Polygon", [v, HOLES[k % 4]], {"a": k}))

def run_line(case, ctx):
    a, b = tuple(case[1]), tuple(case[2])
    whole(ctx, G("LineString", fl([a, b])), "line")
    whole(ctx, G("Point", fl([a])[0], {"b": list(b)}), "point")
    for c in P3:
        v = fl([a, b, c])
        whole(ctx, G("LineString", v, {"p": "q"}), "line")
        interface(ctx, G("LineString", v))
    v3 = [p + (1.5,) for p in fl([a, b, a])]
    whole(ctx, G("LineString", v3), "line in three dimensions")
    whole(ctx, G("Point", v3[1], {"a": 1}), "point in three dimensions")
    whole(ctx, G("MultiPoint", fl([a, b])), "points")
    whole(ctx, G("MultiLineString", [fl([a, b]), fl([b, a, a])]), "lines")

def members(kind, n):
    if kind == 0:
        return "MultiPoint", fl(P3[2:2+n])
    if kind == 1:
        return "MultiLineString", [fl(P3[i:i+2+i]) for i in range(n)]
    return "MultiPolygon", [[fl([(0, 0), (2, 0), (2, 2+i), (0, 2)])] + HOLES[:i] for i in range(n)]

def run_set(case, ctx):
    _, k, n, d = case
    kind, coords = members(k, n)
    data = [{}, {"a": [None]*n}, {"a": list(range(n)), "b": ["s%d" % i for i in range(n)]}, {"c": [[i, {"x": i}] for i in range(n)]}][d]
    # strings and other values with as many parts as there are members are properties, not data
    for props in ({}, {"s": "x"*n, "t": "x"*(n+1), "n": n, "o": dict((str(i), i) for i in range(n)), "l": [0]*(n+1), "z": None}):
        whole(ctx, G(kind, coords, props, data), "%s of %d with data %r" % (kind, n, data), (None, 2))
        if d == 0:
            interface(ctx, G(kind, coords, props))
    if d == 2:
        for dt in ("int32", "uint16", "float64", "bool"):
            v = np.arange(n).astype(dt)
            g = G(kind, coords, {"n": v.dtype.type(1)}, {"v": v})
            h = g.build()
            ctx.op()
            text = h.as_geojson()
            ctx.eq(json.loads(text)["properties"]["v"], v.tolist(), "data of type %s" % dt)
            ctx.eq(one(ctx, read_geojson(text)).d["v"], v.tolist(), "data of type %s" % dt)

def run_values(case, ctx):
    vals = VALUES + NUMPY
    v = vals[case[1]]
    for w in vals:
        for kind, coords in (("Point", (1.0, 2.0)), ("LineString", fl(P3[:2])), ("Polygon", [fl([(0, 0), (1, 0), (0, 1)])]), ("MultiPoint", fl(P3[:3] + P3[:2])),
                             ("MultiLineString", [fl(P3[:2])]*5), ("MultiPolygon", [[fl([(0, 0), (1, 0), (0, 1)])]]*5)):
            whole(ctx, G(kind, coords, {"v": v, "type": w}, {"col": [v, w, v, w, None]} if kind.startswith("Multi") else None), "%s with %r and %r" % (kind, v, w))

# the last one is on another datum, so its coordinates change
CRSS = [WebMercator, LonLatNAD83, LambertEqualArea, NSIDCNorth, LonLatWGS84,
        GeographicalCRS("+ellps=bessel", "shifted", datum="+towgs84=500,-300,200")]

def run_crs(case, ctx):
    _, k, c = case
    crs = CRSS[c]
    base = [(10.0, 60.0), (12.0, 61.0), (11.0, 62.0), (9.0, 61.5)]
    hole = [(10.5, 60.8), (10.8, 61.0), (10.6, 61.2)]
    pj = lambda p: tuple(p) if crs is LonLatWGS84 else tuple(LonLatWGS84.transform(crs, p[0], p[1])[:2]) + tuple(p[2:])
    for z in (False, True):
        up = lambda ring: [tuple(p) + ((p[0]*10.0,) if z else ()) for p in ring]
        b, hl = up(base), up(hole)
        coords = [b[0], b, [b, hl], b, [b[:2], b], [[b], [b, hl]]][k]
        kind = ["Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"][k]
        def m(v):
            return pj(v) if not isinstance(v[0], (tuple, list)) else [m(u) for u in v]
        n = len(coords)
        data = {"d": list(range(n))} if kind.startswith("Multi") else {}
        g = G(kind, m(coords), {"p": 1}, data, crs)
        h = g.build()
        before = snapshot(h)
        ctx.op()
        text = h.as_geojson()
        check_doc(ctx, text, g, "urn:ogc:def:crs:OGC:1.3:CRS84", "%s in %s" % (kind, crs), coords=coords, tol=1e-6)
        ctx.true(snapshot(h) == before, "writing %s in %s changed it", kind, crs)
        check_geom(ctx, one(ctx, read_geojson(text)), g, "%s in %s" % (kind, crs), crs=LonLatWGS84, coords=coords, tol=1e-6)
        # without reprojection the coordinates are untouched, and the reader is told the system
        text = h.as_geojson(force_wgs84=False, urn="urn:z")
        check_doc(ctx, text, g, "urn:z", "%s in %s" % (kind, crs))
        check_geom(ctx, one(ctx, read_geojson(text, crs=crs)), g, "%s in %s" % (kind, crs))
        check_doc(ctx, h.as_geojson(force_wgs84=False), g, None, "%s in %s" % (kind, crs))
        check_geom(ctx, one(ctx, read_geojson(h.as_geojson(force_wgs84=False), crs=crs)), g, "%s in %s" % (kind, crs))
        ctx.state((kind, c, z))

SAMPLES = [G("Point", (1.0, 2.0), {"a": 1}), G("LineString", fl(P3[:3]), {"b": "x"}), G("Polygon", [fl([(0, 0), (2, 0), (2, 2)]), HOLES[0]], {"c": None}),
           G("MultiPoint", fl(P3[:2]), {"p": 5}, {"d": ["u", "v"]}), G("MultiLineString", [fl(P3[:2]), fl(P3[2:5])], {}, {"d": [1, 2]}),
           G("MultiPolygon", [[fl([(0, 0), (2, 0), (2, 2)])], [HOLES[2], HOLES[0]]], {"q": 1})]

def gj(g, bare=False):
    c = lists(g.coords)
    if g.kind == "Polygon":
        c = [r + r[:1] for r in c]
    elif g.kind == "MultiPolygon":
        c = [[r + r[:1] for r in p] for p in c]
    d = {"type": g.kind, "coordinates": c}
    if bare:
        return d
    return {"type": "Feature", "geometry": d, "properties": dict(g.props, **g.data)}

def flatten(x):
    return [h for y in x for h in flatten(y)] if isinstance(x, list) else [x]

def run_doc(case, ctx):
    """Documents of collections within collections give the geometries in order."""
    _, k, width = case
    pick = [SAMPLES[(k // 6**i) % 6] for i in range(width)]
    nopr = [G(g.kind, g.coords) for g in pick]
    docs = []
    docs.append(({"type": "FeatureCollection", "features": [gj(g) for g in pick]}, pick))
    docs.append(({"type": "FeatureCollection", "features": [gj(g) for g in pick], "crs": {"type": "name", "properties": {"name": "x"}}, "bbox": [0, 0, 1, 1]}, pick))
    docs.append(({"type": "GeometryCollection", "geometries": [gj(g, True) for g in pick]}, nopr))
    docs.append(({"type": "GeometryCollection", "geometries": [gj(pick[0], True), {"type": "GeometryCollection", "geometries": [gj(g, True) for g in pick[1:]]}]}, nopr))
    docs.append(({"type": "GeometryCollection", "geometries": [{"type": "GeometryCollection", "geometries": [gj(g, True) for g in pick]}, gj(pick[0], True)]}, nopr + nopr[:1]))
    feats = [dict(gj(g), properties=None) for g in pick]
    docs.append(({"type": "FeatureCollection", "features": feats}, nopr))
    docs.append(({"type": "FeatureCollection", "features": [dict(gj(g), id=i, extra={"x": 1}) for i, g in enumerate(pick)]}, pick))
    docs.append(({"type": "FeatureCollection", "features": []}, []))
    docs.append(({"type": "GeometryCollection", "geometries": []}, []))
    docs.append((gj(pick[0], True), nopr[:1]))
    docs.append((gj(pick[0]), pick[:1]))
    for d, want in docs:
        for crs in (None, WebMercator):
            ctx.op()
            text = json.dumps(d)
            got = flatten(read_geojson(text) if crs is None else read_geojson(text, crs=crs))
            ctx.eq(len(got), len(want), "geometries in %s" % text)
            for h, g in zip(got, want):
                check_geom(ctx, h, g, "member of %s" % text, crs=crs or LonLatWGS84)
            # members do not share their properties
            for i, h in enumerate(got):
                h.properties["mark"] = i
            for i, h in enumerate(got):
                ctx.eq(h.properties["mark"], i, "properties of members are shared")
    if k < 6:
        for c in (pick[0],):
            f = {"type": "Feature", "properties": {"shared": 1}, "geometry": {"type": "GeometryCollection", "geometries": [gj(g, True) for g in pick[:1] + SAMPLES[:2]]}}
            got = flatten(read_geojson(json.dumps(f)))
            ctx.eq(len(got), 3, "geometries of a feature with a collection")
            for h, g in zip(got, pick[:1] + SAMPLES[:2]):
                check_geom(ctx, h, G(g.kind, g.coords, {"shared": 1}), "geometry of a feature with a collection")

def run_plain(case, ctx):
    """Integer and numpy coordinates."""
    for conv in (int, np.int64, np.float32, np.float64):
        pts = [(conv(3), conv(4)), (conv(5), conv(6)), (conv(5), conv(9))]
        for g in (G("Point", pts[0]), G("LineString", pts), G("Polygon", [pts]), G("MultiPoint", pts), G("MultiLineString", [pts, pts]), G("MultiPolygon", [[pts]])):
            whole(ctx, g, "%s with %s coordinates" % (g.kind, conv.__name__))

def interface(ctx, g):
    g = G(g.kind, g.coords, g.props, g.data, Cartesian)
    h = g.build()
    ctx.op()
    d = h.__geo_interface__
    ctx.eq(d["type"], "Feature", "geo interface type")
    ctx.eq(d["geometry"]["type"], g.kind, "geo interface geometry type")
    same_coords(ctx, g.kind, lists(d["geometry"]["coordinates"]), g.coords, "geo interface of %s" % g.kind)
    if g.kind == "Polygon":
        check_rings(ctx, lists(d["geometry"]["coordinates"]), "geo interface")
    p = dict(d["properties"])
    ctx.eq(p.pop("_karta_proj4"), h.crs.get_proj4(), "geo interface crs")
    ctx.eq(p, g.props, "geo interface properties")
    ctx.eq(h.properties, g.props, "properties after asking for the geo interface")
    if "bbox" in d["geometry"]:
        pts = flat(g.coords if g.kind != "MultiPolygon" else [q[0] for q in g.coords]) if g.kind != "Polygon" else [tuple(q) for q in g.coords[0]]
        ctx.eq(tuple(d["geometry"]["bbox"]), (min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts)), "geo interface bbox")
    back = from_shape(h)
    q = dict(back.properties)
    q.pop("_karta_proj4")
    back.properties = q
    check_geom(ctx, back, G(g.kind, g.coords, g.props), "from the geo interface", crs=Cartesian)

class Shape(object):
    def __init__(self, d):
        self.__geo_interface__ = d

def run_shape(case, ctx):
    for g in SAMPLES:
        bare = gj(g, True)
        ctx.op()
        check_geom(ctx, from_shape(Shape(bare)), G(g.kind, g.coords), "from a shape", crs=Cartesian)
        check_geom(ctx, from_shape(Shape(bare), properties={"k": 1}), G(g.kind, g.coords, {"k": 1}), "from a shape with properties", crs=Cartesian)
        feat = {"type": "Feature", "geometry": bare, "properties": {"m": [1]}}
        check_geom(ctx, from_shape(Shape(feat)), G(g.kind, g.coords, {"m": [1]}), "from a feature", crs=Cartesian)
        ctx.eq(feat["properties"], {"m": [1]}, "the feature read from")
        interface(ctx, G(g.kind, g.coords, {"m": 2}))
    ctx.raises(NotImplementedError, lambda: from_shape(Shape({"type": "Curve", "coordinates": [(0, 0)]})), "unknown type")
    ctx.true(from_shape(Shape(None)) is None, "empty shape")
    ctx.true(from_shape(Shape({"type": "Feature", "geometry": None, "properties": {}})) is None, "feature without geometry")

def run_io(case, ctx):
    """Files, file-like objects and paths."""
    for i, g in enumerate(SAMPLES):
        h = g.build()
        ctx.op()
        want = h.as_geojson(indent=1)
        name = os.path.abspath("out%d.json" % i)
        h.to_geojson(name, indent=1)
        with open(name) as f:
            ctx.eq(f.read(), want, "file written")
        check_geom(ctx, one(ctx, read_geojson(name)), g, "read from a file name")
        with open(name) as f:
            check_geom(ctx, one(ctx, read_geojson(f)), g, "read from a file")
        s = io.StringIO()
        h.to_geojson(s, indent=1)
        ctx.eq(s.getvalue(), want, "written to a file-like object")
        s.seek(0)
        check_geom(ctx, one(ctx, read_geojson(s)), g, "read from a file-like object")
        # writing again replaces the contents
        h.to_geojson(name, indent=1)
        with open(name) as f:
            ctx.eq(f.read(), want, "file written twice")
        os.remove(name)
