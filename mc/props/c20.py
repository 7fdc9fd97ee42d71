"""GPX documents: the text holds exactly the waypoints, tracks and routes, and is read as them."""
import io, itertools, os, warnings
import xml.dom.minidom as dom
import numpy as np
import pyproj
from karta import vector
from karta.vector.geometry import Point, Line, Multipoint, Polygon
from karta.crs import LonLatWGS84, LonLatNAD83, WebMercator, NSIDCNorth, Cartesian

RULE = ("a case is one list of additions to a document, or one document composed by hand; the text is parsed by another parser and every position, "
        "property and extension compared, then it is read by karta and compared again; non-trivial = one document compared")
BOUNDS = {"quick": "all histories of 1..3 additions out of 14 geometries, with and without elevation, data, properties and extensions; 24 values for every "
                   "property; all subsets of 5 data fields; 5 coordinate systems; all selections of what is written; documents from elsewhere with every "
                   "order of 3 parts, 4 namespaces for extensions, 0..2 segments of 0..3 points, extensions at each one of 6 kinds of elements, at all and none",
          "thorough": "histories of 4 additions"}
ASSUMPTIONS = ["names of properties are XML names", "positions are read to 6 decimals", "only GPX 1.1 is read"]
warnings.simplefilter("ignore")
NS = "http://www.topografix.com/GPX/1/1"
STANDARD = ("ele", "time", "magvar", "geoidheight", "name", "cmt", "desc", "src", "link", "sym", "type", "fix", "sat", "hdop", "vdop", "pdop", "ageofdgpsdata", "dgpsid")
VALUES = ["x", "two words", "é", "日本語", "<b>", "a & b", "\"quoted\"", "'q'", "]]>", "&amp;", "<!-- -->", 0, 1, -3, 2.5, -0.1, 1e300, True, False, np.float64(0.25), np.int64(7),
          "2012-01-02T03:04:05Z", "12", "tab\there"]

def cases(tier):
    for n in (1, 2):
        for h in itertools.product(range(len(MAKERS)), repeat=n):
            yield ["history"] + list(h)
    for i in range(len(VALUES)):
        yield ["value", i]
    for k in range(32):
        yield ["fields", k]
    for i in range(5):
        yield ["crs", i]
    for order in itertools.permutations(range(3)):
        for e in range(4):
            yield ["external", list(order), e]

# ---- what a document holds: lists of points (lon, lat, properties, extensions)
def kids(node):
    return [c for c in node.childNodes if c.nodeType == c.ELEMENT_NODE]

def text(node):
    return "".join(c.data for c in node.childNodes if c.nodeType in (c.TEXT_NODE, c.CDATA_SECTION_NODE))

def read_node(ctx, node, pts):
    """(properties, extensions, children named pts)"""
    props, ext, inner = {}, {}, []
    for c in kids(node):
        if c.localName == pts:
            inner.append(c)
        elif c.localName == "extensions":
            for e in kids(c):
                ctx.true(e.localName not in ext, "extension %s is repeated", e.localName)
                ext[e.localName] = text(e)
        else:
            ctx.true(c.localName not in props, "property %s is repeated", c.localName)
            props[c.localName] = text(c)
    return props, ext, inner

def read_pt(ctx, node):
    p, e, _ = read_node(ctx, node, None)
    return float(node.getAttribute("lon")), float(node.getAttribute("lat")), p, e

def parse(ctx, s):
    root = dom.parseString(s.encode("utf-8")).documentElement
    ctx.eq((root.localName, root.namespaceURI, root.getAttribute("version")), ("gpx", NS, "1.1"), "root of the document")
    out = {"wpt": [], "trk": [], "rte": []}
    for c in kids(root):
        ctx.true(c.localName in out, "unexpected element %s", c.localName)
        if c.localName == "wpt":
            out["wpt"].append(read_pt(ctx, c))
        elif c.localName == "rte":
            p, e, pts = read_node(ctx, c, "rtept")
            out["rte"].append((p, e, [read_pt(ctx, q) for q in pts]))
        else:
            p, e, segs = read_node(ctx, c, "trkseg")
            out["trk"].append((p, e, [(lambda t: (t[0], t[1], [read_pt(ctx, q) for q in t[2]]))(read_node(ctx, s, "trkpt")) for s in segs]))
    return out

def split(d):
    return {k: str(v) for k, v in d.items() if k in STANDARD}, {k: str(v) for k, v in d.items() if k not in STANDARD}

MEMO = {}
def lonlat(crs, xy):
    if crs in (LonLatWGS84, Cartesian):
        return xy[:2]
    k = (crs.ref_proj4, tuple(xy[:2]))
    if k not in MEMO:
        MEMO[k] = tuple(pyproj.transform(crs._proj, LonLatWGS84._proj, xy[0], xy[1]))
    return MEMO[k]

def points(verts, crs, data):
    out = []
    for i, v in enumerate(verts):
        d = {k: c[i] for k, c in data.items()}
        if len(v) == 3:
            d["ele"] = float(v[2])
        out.append(lonlat(crs, v) + split(d))
    return out

def same_dict(ctx, got, want, what):
    ctx.eq(sorted(got), sorted(want), "names of " + what)
    for k in want:
        if got[k] != want[k]:
            try:
                ok = float(got[k]) == float(want[k])
            except (TypeError, ValueError):
                ok = False
            ctx.true(ok, "%s: %s is %r, expected %r", what, k, got[k], want[k])

def same_pts(ctx, got, want, what, tol):
    ctx.eq(len(got), len(want), "points of " + what)
    for g, w in zip(got, want):
        ctx.close(g[0], w[0], tol, "longitude in " + what)
        ctx.close(g[1], w[1], tol, "latitude in " + what)
        same_dict(ctx, g[2], w[2], "properties of a point of " + what)
        same_dict(ctx, g[3], w[3], "extensions of a point of " + what)

def compare(ctx, got, want, what, tol=1e-12):
    same_pts(ctx, got["wpt"], want["wpt"], what + ": waypoints", tol)
    ctx.eq([len(t[2]) for t in got["trk"]], [len(t[2]) for t in want["trk"]], what + ": segments of tracks")
    ctx.eq(len(got["rte"]), len(want["rte"]), what + ": routes")
    for g, w in zip(got["trk"], want["trk"]):
        same_dict(ctx, g[0], w[0], what + ": properties of a track")
        same_dict(ctx, g[1], w[1], what + ": extensions of a track")
    for g, w in [p for a, b in zip(got["trk"], want["trk"]) for p in zip(a[2], b[2])] + list(zip(got["rte"], want["rte"])):
        same_dict(ctx, g[0], w[0], what + ": properties of a line")
        same_dict(ctx, g[1], w[1], what + ": extensions of a line")
        same_pts(ctx, g[2], w[2], what, tol)

def of_karta(g):
    """The same for a karta document."""
    pt = lambda p: (p.lonlat[0], p.lonlat[1], {k: str(v) for k, v in p.properties.items()}, {k: str(v) for k, v in p.extensions.items()})
    s = lambda d: {k: str(v) for k, v in d.items()}
    return {"wpt": [pt(p) for p in g.waypts], "rte": [(s(r.properties), s(r.extensions), [pt(p) for p in r.rtepts]) for r in g.routes],
            "trk": [(s(t.properties), s(t.extensions), [(s(q.properties), s(q.extensions), [pt(p) for p in q.trkpts]) for q in t.trksegs]) for t in g.tracks]}

def check(ctx, g, want, what):
    """A karta document, its text, and what is read from the text."""
    ctx.op()
    compare(ctx, of_karta(g), want, what)
    for sel in itertools.product((True, False), repeat=3):
        t = g.as_string(waypts=sel[0], tracks=sel[1], routes=sel[2])
        part = {"wpt": want["wpt"] if sel[0] else [], "trk": want["trk"] if sel[1] else [], "rte": want["rte"] if sel[2] else []}
        compare(ctx, parse(ctx, t), part, what)
        if sel == (True, True, True):
            full = t
        elif not ctx.thorough and sel != (False, True, False):
            continue
        path = os.path.abspath("t.gpx")
        with open(path, "w") as f:
            f.write("x"*20000)
        g.writefile(path, waypts=sel[0], tracks=sel[1], routes=sel[2])
        with open(path, encoding="utf-8") as f:
            ctx.eq(f.read(), t, "text of the file")
        check_read(ctx, path, part, what)
    h = vector.gpx.GPX(io.StringIO(full))
    compare(ctx, of_karta(h), want, what + " from a stream", 5.1e-7)
    # a second generation is the same
    compare(ctx, parse(ctx, h.as_string()), want, what + " written again", 5.1e-7)
    compare(ctx, of_karta(g), want, what + " after writing")

def check_read(ctx, path, want, what):
    h = vector.gpx.GPX(path)
    compare(ctx, of_karta(h), want, what + " read", 5.1e-7)
    pts = vector.read_gpx_waypts(path)
    ctx.true(all(isinstance(p, Point) and p.crs == LonLatWGS84 for p in pts), "%s: waypoints read", what)
    same_pts(ctx, [(p.x, p.y, p.properties, {}) for p in pts], [w[:3] + ({},) for w in want["wpt"]], what + ": points read", 5.1e-7)
    if all(len(s[2]) for t in want["trk"] for s in t[2]):
        tracks = vector.read_gpx_tracks(path)
        ctx.eq([len(t) for t in tracks], [len(t[2]) for t in want["trk"]], what + ": lines of the tracks read")
        for t, w in zip(tracks, want["trk"]):
            for l, s in zip(t, w[2]):
                ctx.true(isinstance(l, Line) and l.crs == LonLatWGS84, "%s: line read", what)
                same_dict(ctx, l.properties, s[0], what + ": properties of a line read")
                same_pts(ctx, [tuple(v[:2]) + ({}, {}) for v in l.vertices()], [p[:2] + ({}, {}) for p in s[2]], what + ": vertices of a line read", 5.1e-7)

V = [(-123.25, 49.5), (10.000001, -60.5), (179.75, 0.125)]
Z = [v + (100.5*i - 7,) for i, v in enumerate(V)]

class Doc(object):
    """What the document should hold, next to karta's."""
    def __init__(self):
        self.gpx = vector.gpx.GPX()
        self.want = {"wpt": [], "trk": [], "rte": []}
        self.inputs = []

    def keep(self, *geoms):
        for g in geoms:
            self.inputs.append((g, repr(g.vertices() if hasattr(g, "vertices") else g.vertex()), dict(g.properties), g.crs))

    def unchanged(self, ctx):
        for g, v, p, c in self.inputs:
            ctx.true(repr(g.vertices() if hasattr(g, "vertices") else g.vertex()) == v and g.properties == p and g.crs is c, "a geometry was changed")

    def wpt(self, v, props, crs=LonLatWGS84):
        g = Point(v, properties=dict(props), crs=crs)
        self.keep(g)
        self.gpx.add_waypoint(g)
        d = dict(props)
        if len(v) == 3:
            d["ele"] = v[2]
        self.want["wpt"].append(lonlat(crs, v) + split(d))

    def line(self, cls, verts, props, data=None, crs=LonLatWGS84):
        kw = {} if data is None else {"data": data}
        g = cls(verts, properties=dict(props), crs=crs, **kw)
        self.keep(g)
        return g, split(props) + (points(verts, crs, data or {}),)

    def trk(self, lines, attributes=None):
        gs, ws = zip(*lines) if lines else ((), ())
        kw = {} if attributes is None else {"attributes": attributes}
        self.gpx.add_track(*gs, **kw)
        self.want["trk"].append(split(attributes or {}) + (list(ws),))

    def rte(self, line):
        self.gpx.add_route(line[0])
        self.want["rte"].append(line[1])

DATA = {"ele": [1.5, 2, -3], "name": ["a", "é", "<c>"], "speed": [0.5, 1, 2], "note": ["x", "y & z", "w"]}
PROPS = {"name": "n & m", "desc": "é", "colour": "red", "width": 2}
MAKERS = [lambda d: d.wpt(V[0], {}), lambda d: d.wpt(Z[1], PROPS), lambda d: d.wpt((1, 2), {"ele": 5, "name": "w"}),
          lambda d: d.trk([]), lambda d: d.trk([d.line(Line, V, {})]), lambda d: d.trk([d.line(Line, Z, PROPS), d.line(Line, V[:2], {"a": 1})], {"name": "t", "owner": "o"}),
          lambda d: d.trk([d.line(Multipoint, V, PROPS, DATA)], {"number": 3}), lambda d: d.trk([d.line(Multipoint, Z, {}, {"sym": ["p", "q", "r"]}), d.line(Multipoint, Z, {})]),
          lambda d: d.rte(d.line(Line, V, PROPS)), lambda d: d.rte(d.line(Line, Z, {})), lambda d: d.rte(d.line(Multipoint, V, {}, DATA)), lambda d: d.rte(d.line(Multipoint, Z, PROPS, {"speed": [1, 2, 3]})),
          lambda d: d.trk([d.line(Polygon, V, {})]), lambda d: d.trk([d.line(Multipoint, V[:1], {})])]

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

def run_history(case, ctx):
    tails = [()] + ([t for n in ((1, 2) if ctx.thorough else (1,)) for t in itertools.product(range(len(MAKERS)), repeat=n)] if len(case) == 3 else [])
    for tail in tails:
        d = Doc()
        for k in tuple(case[1:]) + tail:
            MAKERS[k](d)
        check(ctx, d.gpx, d.want, "document of %r" % (tuple(case[1:]) + tail,))
        d.unchanged(ctx)
        ctx.state(("h",) + tuple(case[1:]) + tail)

def run_value(case, ctx):
    v = VALUES[case[1]]
    for key in STANDARD + ("x", "_y", "Z9", "clé"):
        d = Doc()
        d.wpt(V[0], {key: v})
        d.trk([d.line(Line, V, {key: v})], {key: v})
        d.trk([d.line(Multipoint, V, {}, {key: [v, v, v]})])
        d.rte(d.line(Multipoint, V, {key: v}, {key: [v, "other", v]}))
        check(ctx, d.gpx, d.want, "document with %s = %r" % (key, v))
        d.unchanged(ctx)
        ctx.state(("v", case[1], key))
        if isinstance(v, str):
            pts = [Point(V[0], properties={key: v}, crs=LonLatWGS84), Point(V[1], crs=LonLatWGS84)]
            g = vector.gpx.GPX(waypoints=pts, tracks=[Line(V, properties={key: v}, crs=LonLatWGS84)], routes=[Line(V, crs=LonLatWGS84)])
            sp = split({key: v})
            compare(ctx, of_karta(g), {"wpt": [V[0] + sp, V[1] + ({}, {})], "trk": [({}, {}, [sp + ([p + ({}, {}) for p in V],)])], "rte": [({}, {}, [p + ({}, {}) for p in V])]}, "document from lists")

def run_fields(case, ctx):
    names = ["ele", "time", "speed", "name", "hr"]
    data = {n: [b + 10*i for i in range(3)] for b, n in enumerate(names) if case[1] >> b & 1}
    for verts in (V, Z):
        for kind in ("trk", "rte"):
            d = Doc()
            l = d.line(Multipoint, verts, {}, data or None)
            d.trk([l, l]) if kind == "trk" else d.rte(l)
            check(ctx, d.gpx, d.want, "%s with data %r" % (kind, sorted(data)))
            d.unchanged(ctx)
            ctx.state(("f", case[1], kind, len(verts[0])))

def run_crs(case, ctx):
    crs = (LonLatWGS84, Cartesian, LonLatNAD83, WebMercator, NSIDCNorth)[case[1]]
    base = V if case[1] < 3 else [(1e6, 2.5e6), (-3e5, 4e6), (2e6, -1e6)]
    for verts in (base, [v + (5.5,) for v in base]):
        d = Doc()
        d.wpt(verts[0], PROPS, crs)
        d.trk([d.line(Line, verts, {}, crs=crs), d.line(Multipoint, verts, {}, DATA, crs=crs), d.line(Line, V, {})])
        d.rte(d.line(Line, verts, {}, crs=crs))
        d.rte(d.line(Multipoint, verts, PROPS, DATA, crs=crs))
        check(ctx, d.gpx, d.want, "document in %s" % crs.name)
        d.unchanged(ctx)
        ctx.state(("c", case[1], len(verts[0])))

MASKS = [0, 63, 1, 2, 4, 8, 16, 32, 127, 64+28, 64+40]

def run_external(case, ctx):
    order, e = case[1:]
    tag, decl = [("x", ""), ("x:x", ' xmlns:x="http://example.com/x"'), ("x", None), ("g:x", ' xmlns:g="%s"' % NS)][e]
    pre, ns = ("", ' xmlns="%s"' % NS) if decl is not None and e != 3 else ("g:", ' xmlns:g="%s"' % NS)
    ext = "<%sextensions><%s>v &lt; &#233;</%s></%sextensions>" % (pre, tag, tag, pre)
    n = itertools.count(1)
    def pt(t, extra):
        k = next(n)
        x, y = -100 - k*1.25, 40 + k*0.5
        return ('<%s%s lat="%r" lon="%r"><%sele>%d</%sele>\n <%sname>p%d</%sname>%s</%s%s>' % (pre, t, y, x, pre, k, pre, pre, k, pre, ext if extra else "", pre, t),
                (x, y, {"ele": str(k), "name": "p%d" % k}, {"x": "v < é"} if extra else {}))
    for sizes in itertools.chain([()], *[itertools.product(range(0, 4), repeat=m) for m in (1, 2)]):
        # which of waypoints, tracks, segments, their points, routes and their points have extensions; 64: only the last one of each
        for extra in MASKS:
            want = {"wpt": [], "trk": [], "rte": []}
            text = ["", "", ""]
            has = lambda bit, k=0, m=1: bool(extra & bit) and (not extra & 64 or k == m-1)
            X = lambda yes: ({"x": "v < é"} if yes else {})
            for m in sizes:
                for k in range(m):
                    t, w = pt("wpt", has(1, k, m))
                    text[0] += t + "\n"
                    want["wpt"].append(w)
            segs, ws = "", []
            for q, m in enumerate(sizes):
                ps = [pt("trkpt", has(8, k, m)) for k in range(m)]
                segs += "<%strkseg>%s%s</%strkseg>" % (pre, " ".join(p[0] for p in ps), ext if has(4, q, len(sizes)) else "", pre)
                ws.append(({}, X(has(4, q, len(sizes))), [p[1] for p in ps]))
                ps = [pt("rtept", has(32, k, m)) for k in range(m)]
                text[2] += "<%srte><%sname>r</%sname>%s%s</%srte>" % (pre, pre, pre, ext if has(16, q, len(sizes)) else "", "".join(p[0] for p in ps), pre)
                want["rte"].append(({"name": "r"}, X(has(16, q, len(sizes))), [p[1] for p in ps]))
            text[1] = "<%strk><%sname>t</%sname>%s%s</%strk>" % (pre, pre, pre, ext if has(2) else "", segs, pre)
            want["trk"].append(({"name": "t"}, X(has(2)), ws))
            s = '<?xml version="1.0" encoding="UTF-8"?>\n<%sgpx version="1.1" creator="else"%s%s>\n<!-- comment --><%smetadata><%sname>m</%sname></%smetadata>%s</%sgpx>' % (
                pre, ns, decl if e == 1 else "", pre, pre, pre, pre, "\n".join(text[k] for k in order), pre)
            parse_ok = dom.parseString(s.encode("utf-8"))
            path = os.path.abspath("e.gpx")
            with open(path, "w", encoding="utf-8") as f:
                f.write(s)
            ctx.op()
            check_read(ctx, path, want, "document from elsewhere %r" % (s[:300],))
            g = vector.gpx.GPX(path)
            compare(ctx, parse(ctx, g.as_string()), want, "document from elsewhere written again")
            ctx.state(("e", tuple(order), e, sizes, extra))
