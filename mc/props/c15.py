"""Geometry histories: slicing, editing, transforming, joining and splitting keep vertices, data, properties and holes in step."""
import itertools, math
import numpy as np
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon, affine_matrix
from karta.crs import Cartesian, WebMercator, LonLatWGS84, NSIDCNorth, ProjectedCRS, LambertEqualArea

RULE = ("a case is an initial geometry and the first operations of a history; every continuation is executed; after every operation every geometry "
        "made so far is read in every way and compared with a record of what it must hold; non-trivial = at least one geometry was compared")
BOUNDS = {"quick": "all histories of 3 applicable operations out of 32 (19 in last place) from 20 geometries of every type, with and without data, properties, holes, "
                   "third dimension and coordinate system; all affine maps with entries from {-1,0,2} on 4 geometries",
          "thorough": "histories of 4 operations"}
ASSUMPTIONS = ["slices of a polygon with holes and the order of fields after a join are not constrained",
               "a Multipolygon made from polygons without any common property is covered by a known finding"]

# ---- the model: kind, crs, vertices, properties, fields, rows, holes
class M(object):
    def __init__(self, kind, verts, crs=Cartesian, props=(), fields=(), rows=(), subs=()):
        self.kind, self.crs = kind, crs
        self.verts = verts
        self.props = dict(props)
        self.fields = list(fields)
        self.rows = [dict(r) for r in rows]
        self.subs = [list(s) for s in subs]     # holes of a Polygon
    def copy(self, **kw):
        m = M(self.kind, self.verts, self.crs, self.props, self.fields, self.rows, self.subs)
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    @property
    def multi(self):
        return self.kind.startswith("Multi")
    def key(self, order=False):
        return (self.kind, deep(self.verts), str(self.crs), repr(sorted(self.props.items())), tuple(self.fields if order else sorted(self.fields)),
                repr([sorted(r.items()) for r in self.rows]), deep(self.subs))

def deep(v):
    if type(v) is float:
        return v
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return tuple([deep(u) for u in v])
    return float(v)

def deep_map(f, v):
    """Apply f to every vertex of a nested list."""
    if len(v) and not isinstance(v[0], (list, tuple)):
        return f(tuple(v))
    return [deep_map(f, u) for u in v]

def flat(v):
    return [tuple(v)] if len(v) and not isinstance(v[0], (list, tuple)) else [p for u in v for p in flat(u)]

LINE = [(0.0, 0.0), (2.0, 1.0), (3.0, -1.0), (5.0, 5.0)]
RING = [(0.0, 0.0), (8.0, 0.0), (8.0, 6.0), (0.0, 6.0)]
HOLE = [(1.0, 1.0), (1.0, 3.0), (2.0, 3.0)]
HOLE2 = [(4.0, 4.0), (6.0, 4.0), (6.0, 5.0), (4.0, 5.0)]
PARTS = [[(0.0, 0.0), (1.0, 2.0)], [(3.0, 3.0), (4.0, 4.0), (5.0, 3.0)], [(-1.0, 2.0), (-1.0, -2.0), (0.0, -3.0), (1.0, 1.0)]]
POLYS = [[RING, HOLE], [[(20.0, 0.0), (21.0, 0.0), (20.0, 1.0)]],
         [[(30.0, 0.0), (36.0, 0.0), (36.0, 9.0), (30.0, 9.0)], [(31.0, 1.0), (31.0, 2.0), (32.0, 2.0)], [(33.0, 4.0), (34.0, 4.0), (34.0, 5.0)]]]
def z(v):
    return deep_map(lambda p: p + (p[0] + 10.0,), v)
ROWS = [{"a": "r0", "b": 1}, {"a": "r1", "b": 2}, {"a": "r2", "b": 3}, {"a": "r3", "b": 4}]

INIT = [M("Point", (1.0, 2.0)), M("Point", (1.0, 2.0, 3.0), WebMercator, {"n": "p"}),
        M("Line", LINE), M("Line", z(LINE), Cartesian, {"n": 1}), M("Line", LINE[:2], WebMercator, {"n": 1}),
        M("Polygon", RING), M("Polygon", z(RING[:3]), Cartesian, {"n": 2}), M("Polygon", RING, WebMercator, {"n": 2}, subs=[HOLE, HOLE2]),
        M("Multipoint", LINE), M("Multipoint", LINE, WebMercator, {"n": 3}, "ab", ROWS), M("Multipoint", z(LINE), Cartesian, {}, "ab", ROWS),
        M("Multipoint", LINE[:1], Cartesian, {}, "a", [{"a": None}]),
        M("Multiline", PARTS), M("Multiline", PARTS, WebMercator, {"n": 4}, "ab", ROWS[:3]), M("Multiline", z(PARTS), Cartesian, {}, "ab", ROWS[:3]),
        M("Multiline", [PARTS[0], PARTS[0]], Cartesian, {}, "b", [{"b": 1}, {"b": 1}]),
        M("Multipolygon", POLYS), M("Multipolygon", POLYS, WebMercator, {"n": 5}, "ab", ROWS[:3]), M("Multipolygon", z(POLYS), Cartesian, {}, "ab", ROWS[:3]),
        M("Multipolygon", POLYS[1:2], Cartesian, {}, "a", [{"a": 5}])]
CLS = {c.__name__: c for c in (Point, Line, Polygon, Multipoint, Multiline, Multipolygon)}

def build(m):
    kw = {"crs": m.crs}
    if m.props:
        kw["properties"] = dict(m.props)
    if m.multi and m.fields:
        kw["data"] = dict((f, [r[f] for r in m.rows]) for f in m.fields)
    if m.kind == "Polygon" and m.subs:
        kw["subs"] = [Polygon(s, crs=m.crs) for s in m.subs]
    if m.multi and not m.rows:
        m.rows = [{} for _ in m.verts]
    return CLS[m.kind](m.verts, **kw)

def check(ctx, g, m, what):
    ctx.eq(type(g).__name__, m.kind, what + ": type")
    ctx.true(g.crs == m.crs, "%s: crs %s, expected %s", what, g.crs, m.crs)
    ctx.eq(g.properties, m.props, what + ": properties")
    if m.kind == "Point":
        ctx.eq(deep(g.vertex()), deep(m.verts), what + ": vertex")
        ctx.eq((g.x, g.y), tuple(m.verts[:2]), what + ": x, y")
        hash(g)
        return
    ctx.eq(len(g), len(m.verts), what + ": length")
    if m.verts:
        ctx.eq(deep(g.vertices()), deep(m.verts), what + ": vertices")
        pts = flat(m.verts if m.kind != "Multipolygon" else [p[0] for p in m.verts])
        if not (m.kind in ("Multiline", "Multipolygon") and not pts):
            x, y = [p[0] for p in pts], [p[1] for p in pts]
            ctx.eq(tuple(g.bbox()), (min(x), min(y), max(x), max(y)), what + ": bbox")
            ctx.eq(tuple(g.extent()), (min(x), max(x), min(y), max(y)), what + ": extent")
        if m.kind in ("Line", "Polygon", "Multipoint"):
            ctx.eq(deep(np.array(g.coords()).T), deep([v[:2] for v in m.verts]), what + ": coords")
            ctx.eq(deep(g.vertices(drop_z=True)), deep([v[:2] for v in m.verts]), what + ": vertices without z")
        elif m.kind == "Multiline":
            ctx.eq([deep(np.array(c).T[:, :2]) for c in g.coords()], [deep([v[:2] for v in l]) for l in m.verts], what + ": coords")
        else:
            ctx.eq([[deep(np.array(c).T[:, :2]) for c in p] for p in g.coords()], [[deep([v[:2] for v in r]) for r in p] for p in m.verts], what + ": coords")
    if m.multi:
        ctx.eq(len(g.data), len(m.rows), what + ": rows")
        ctx.eq(set(g.data.fields), set(m.fields), what + ": fields")
        for f in m.fields:
            ctx.eq(g.d[f], [r[f] for r in m.rows], what + ": column " + f)
        for i in range(len(m.rows)):
            ctx.eq(g.d[i], m.rows[i], what + ": row")
    if m.kind == "Polygon":
        ctx.eq([deep(s.vertices()) for s in g.subs], [deep(s) for s in m.subs], what + ": holes")
        for s in g.subs:
            ctx.true(isinstance(s, Polygon) and s.crs == m.crs, "%s: hole %r", what, s)
    if m.kind in ("Line", "Polygon"):
        e = list(zip(m.verts, m.verts[1:] + m.verts[:1]))[:len(m.verts) if m.kind == "Polygon" else -1]
        if len(m.verts) > 1:
            ctx.eq([deep(s.vertices()) for s in g.segments], [deep(s) for s in e], what + ": segments")
    hash(g)
    ctx.state((m.kind, len(m.verts), len(m.fields), len(m.props), len(m.subs)))

def member(m, i):
    props = dict(m.rows[i]) if m.multi else {}
    props.update(m.props)
    if m.kind in ("Line", "Polygon", "Multipoint"):
        return M("Point", m.verts[i], m.crs, props)
    if m.kind == "Multiline":
        return M("Line", m.verts[i], m.crs, props)
    return M("Polygon", m.verts[i][0], m.crs, props, subs=m.verts[i][1:])

def take(m, idx):
    kind = m.kind
    if kind == "Polygon" and len(idx) != len(m.verts):
        kind = "Line"
    return m.copy(kind=kind, verts=[m.verts[i] for i in idx], rows=[m.rows[i] for i in idx] if m.multi else [], subs=[])

def transform(m, A):
    """Affine map given as a 2x3 or 3x4 list of lists."""
    def f(p):
        if len(A) == 2:
            return tuple(A[k][0]*p[0] + A[k][1]*p[1] + A[k][2] for k in range(2)) + p[2:]
        q = p + (0.0,) if len(p) == 2 else p
        return tuple(A[k][0]*q[0] + A[k][1]*q[1] + A[k][2]*q[2] + A[k][3] for k in range(3))[:len(p)]
    return m.copy(verts=deep_map(f, m.verts), subs=[deep_map(f, s) for s in m.subs])

A23 = [[0.0, -2.0, 1.0], [1.0, 0.5, -3.0]]
A34 = [[2.0, 0.0, 1.0, 5.0], [0.0, -1.0, 0.0, 1.0], [1.0, 0.0, 3.0, -2.0]]
SLICES = [slice(None), slice(1, None), slice(None, None, -1), slice(None, None, 2), slice(-2, None), slice(2, 0, -1), slice(1, 1), slice(5, 9)]

def op_slice(s):
    def f(ctx, g, m, others):
        if m.kind == "Point" or not m.verts:
            return None
        idx = range(len(m.verts))[s]
        if m.kind == "Polygon" and (m.subs or len(idx) == len(m.verts)):
            return None
        return g[s], take(m, list(idx))
    return f

def op_item(i, t):
    def f(ctx, g, m, others):
        if m.kind == "Point" or not m.verts:
            return None
        for bad in (len(m.verts),):
            ctx.raises(IndexError, lambda: g[bad], "index %d of %d" % (bad, len(m.verts)))
        return g[t(i)], member(m, i)
    return f

def op_iter(ctx, g, m, others):
    if m.kind == "Point":
        return None
    parts = list(g)
    ctx.eq(len(parts), len(m.verts), "members")
    for i, p in enumerate(parts):
        check(ctx, p, member(m, i), "member %d" % i)
        if m.multi:
            ctx.true(p in g, "member %d is not in the geometry", i)
    if m.multi and m.verts:
        ctx.true(Point((1e9, 1e9)) not in g, "a stranger is in the geometry")
    return (parts[-1], member(m, len(m.verts)-1)) if parts else None

def op_shift(ctx, g, m, others):
    if m.kind in ("Multiline", "Multipolygon") or not m.verts:
        return None
    ctx.raises(ValueError, lambda: g.shift((1.0,)), "short shift")
    return g.shift((3.0, -4.0)), transform(m, [[1.0, 0.0, 3.0], [0.0, 1.0, -4.0]])

def op_rotate(ctx, g, m, others):
    if m.kind in ("Multiline", "Multipolygon") or not m.verts:
        return None
    r = g.rotate(90.0, origin=(1.0, 2.0))
    want = transform(m, [[0.0, -1.0, 3.0], [1.0, 0.0, 1.0]])
    return rounded(ctx, r, want), want

def rounded(ctx, g, m):
    """The same geometry with coordinates rounded to the exact ones, after checking they are close."""
    got = deep(g.vertex() if m.kind == "Point" else g.vertices())
    pts, exp = flat(got), flat(m.verts)
    ctx.eq(len(pts), len(exp), "number of vertices after rotation")
    for p, q in zip(pts, exp):
        ctx.eq(len(p), len(q), "rank after rotation")
        for a, b in zip(p, q):
            ctx.close(a, b, 1e-9, "coordinate after rotation")
    n = build(m)
    if m.kind == "Polygon":
        ctx.eq(len(g.subs), len(m.subs), "holes after rotation")
        for s, t in zip(g.subs, m.subs):
            for p, q in zip(flat(deep(s.vertices())), t):
                for a, b in zip(p, q):
                    ctx.close(a, b, 1e-9, "coordinate of a hole after rotation")
    ctx.eq(type(g).__name__, m.kind, "type after rotation")
    ctx.eq(g.properties, m.props, "properties after rotation")
    ctx.true(g.crs == m.crs, "crs after rotation")
    if m.multi:
        ctx.eq([g.d[i] for i in range(len(g))], m.rows, "data after rotation")
    return n

def op_affine(A):
    def f(ctx, g, m, others):
        if not m.verts:
            return None
        return g.apply_transform(np.array(A)), transform(m, A)
    return f

def op_extend(ctx, g, m, others):
    if m.kind != "Line" or not m.verts:
        return None
    rank = len(m.verts[0])
    extra = [(7.0, -7.0), (8.0, 0.5)] if rank == 2 else [(7.0, -7.0, 1.0), (8.0, 0.5, 2.0)]
    bad = [(0.0, 0.0, 0.0), (1.0, 1.0, 1.0)] if rank == 2 else [(0.0, 0.0), (1.0, 1.0)]
    ctx.raises(ValueError, lambda: g.extend(Line(bad, crs=m.crs)), "extending with another rank")
    r = g.extend(Line(extra, properties={"other": 1}, crs=m.crs))
    ctx.true(r is g, "extend does not return the line itself")
    m.verts = list(m.verts) + extra
    return g, m

def op_setitem(i, kind):
    def f(ctx, g, m, others):
        if m.kind != "Multipoint" or not m.verts:
            return None
        rank = len(m.verts[0])
        v = (-9.0, 11.0, 4.0)[:rank]
        ctx.raises(ValueError, lambda: g.__setitem__(0, (1.0, 2.0, 3.0)[:5-rank]), "replacement of another rank")
        row = dict((f, None) for f in m.fields)
        if kind == "point":
            g[i] = Point(v, properties={"a": "new", "zz": 0}, crs=m.crs)
            if "a" in row:
                row["a"] = "new"
        else:
            g[i] = v
        verts, rows = list(m.verts), list(m.rows)
        verts[i], rows[i] = v, row
        m.verts, m.rows = verts, rows
        return g, m
    return f

def op_poly(ctx, g, m, others):
    if m.kind == "Line" and len(m.verts) > 2:
        return g.to_polygon(), m.copy(kind="Polygon")
    if m.kind == "Polygon":
        return g.to_line(), m.copy(kind="Line", verts=list(m.verts) + [m.verts[0]], subs=[])
    return None

def op_add(ctx, g, m, others):
    if m.multi or not m.verts:
        return None
    o = transform(m, [[1.0, 0.0, 50.0], [0.0, 1.0, 0.0]])
    r = g + build(o)
    kind = {"Point": "Multipoint", "Line": "Multiline", "Polygon": "Multipolygon"}[m.kind]
    verts = [m.verts, o.verts] if m.kind != "Polygon" else [[m.verts], [o.verts]]
    # holes are not part of the sum of polygons
    return r, M(kind, verts, m.crs, rows=[{}, {}])

def op_collect(ctx, g, m, others):
    """Make the multipart geometry again from its members."""
    if not m.multi or not m.verts:
        return None
    fields = m.fields + list(m.props)
    if m.kind == "Multipolygon" and not fields:
        return None
    rows = [dict(r, **m.props) for r in m.rows]
    return CLS[m.kind](list(g)), m.copy(fields=fields, rows=rows, props={})

def op_pair(ctx, g, m, others):
    """Join two single geometries with different properties."""
    if m.multi or not m.verts:
        return None
    props = {"n": "second", "only": 1}
    o = transform(m, [[1.0, 0.0, 40.0], [0.0, 1.0, 0.0]]).copy(props=props)
    fields = [f for f in m.props if f in props]
    if m.kind == "Polygon" and not fields:
        return None
    kind = {"Point": "Multipoint", "Line": "Multiline", "Polygon": "Multipolygon"}[m.kind]
    verts = [m.verts, o.verts] if m.kind != "Polygon" else [[m.verts] + m.subs, [o.verts] + o.subs]
    rows = [dict((f, q[f]) for f in fields) for q in (m.props, props)]
    return CLS[kind]([g, build(o)], properties={"whole": 1}), M(kind, verts, m.crs, {"whole": 1}, fields, rows)

def op_merge(ctx, g, m, others):
    if not m.verts:
        return None
    kind = m.kind if m.multi else {"Point": "Multipoint", "Line": "Multiline", "Polygon": "Multipolygon"}[m.kind]
    rank = len(flat(m.verts)[0])
    o = {"Multipoint": M("Multipoint", [(1.0, 1.0), (2.0, 2.0)], m.crs, {}, "ca", [{"c": 1, "a": "m"}, {"c": 2, "a": "k"}]),
         "Multiline": M("Multiline", [PARTS[1]], m.crs, {}, "ca", [{"c": 1, "a": "m"}]),
         "Multipolygon": M("Multipolygon", [POLYS[2]], m.crs, {}, "ca", [{"c": 1, "a": "m"}])}[kind]
    single = member(o, 0).copy(props={"a": "single", "q": 0})
    fields = [f for f in (m.fields if m.multi else m.props) if f == "a"]
    def rec(x):
        if x.multi:
            return x.verts, [dict((f, r[f]) for f in fields) for r in x.rows]
        return [[x.verts] + x.subs if x.kind == "Polygon" else x.verts], [dict((f, x.props[f]) for f in fields)]
    verts, rows = [], []
    for x in (o, m, single):
        v, r = rec(x)
        verts += v; rows += r
    verts = deep_map(lambda p: p[:2], verts) if rank == 3 else verts
    return CLS[kind].merge(build(o), g, build(single)), M(kind, verts, m.crs, {}, fields, rows)

def op_box(ctx, g, m, others):
    if not m.multi or not m.verts:
        return None
    box = (-100.0, -100.0, 6.0, 100.0)
    ext = [flat(v if m.kind != "Multipolygon" else v[0]) if m.kind != "Multipoint" else [v] for v in m.verts]
    if any(not e for e in ext):
        return None
    idx = [i for i, e in enumerate(ext) if all(-100.0 < p[0] < 6.0 and -100.0 < p[1] < 100.0 for p in e)]
    if any(p[0] == 6.0 or abs(p[0]) >= 100.0 or abs(p[1]) >= 100.0 for e in ext for p in e):
        return None
    return g.within_bbox(box), take(m, idx)

def op_props(ctx, g, m, others):
    g.properties["n"] = "changed"
    g.properties["extra"] = 2
    m.props = dict(m.props, n="changed", extra=2)
    return g, m

def op_data(ctx, g, m, others):
    if not m.multi or not m.verts:
        return None
    vals = [10*i for i in range(len(m.verts))]
    g.data.setfield("b", vals)
    vals[0] = "leak"
    m.rows = [dict(r, b=10*i) for i, r in enumerate(m.rows)]
    if "b" not in m.fields:
        m.fields = m.fields + ["b"]
    return g, m

def op_array(ctx, g, m, others):
    """Arrays handed out do not lead back into the geometry."""
    if m.kind == "Point" or not m.verts:
        return None
    v = g.vertices()
    while isinstance(v, list):
        v = v[0]
    v[:] = 777.0
    if m.kind in ("Line", "Polygon", "Multipoint"):
        for c in g.coords():
            try:
                c[:] = 555.0
            except (ValueError, TypeError):
                pass
    b = g.bbox()
    return g, m

def op_rebuild(ctx, g, m, others):
    """A geometry made from the vertices of another is independent of it."""
    if m.kind in ("Point",) or not m.verts or m.kind == "Multipolygon":
        return None
    v = g.vertices()
    src = [list(map(tuple, p)) for p in v] if m.kind == "Multiline" else [tuple(p) for p in v]
    n = CLS[m.kind](src, crs=m.crs)
    if m.kind != "Multiline":
        for form in (iter(src), np.array(src), tuple(src), [list(p) for p in src], CLS[m.kind](src, crs=m.crs)._vertices):
            ctx.eq(deep(CLS[m.kind](form, crs=m.crs).vertices()), deep(src), "vertices given as %s" % type(form).__name__)
    else:
        for form in ([np.array(l) for l in src], tuple(src), [Line(l, crs=m.crs) for l in src]):
            ctx.eq(deep(Multiline(form, crs=m.crs).vertices()), deep(src), "vertices given as %s" % type(form).__name__)
    src[0] = src[-1]
    return n, m.copy(props={}, fields=[], rows=[{}]*len(m.verts) if m.multi else [], subs=[])

OPS = ([("slice %r" % s, op_slice(s)) for s in SLICES] + [("item 0", op_item(0, int)), ("item -1", op_item(-1, np.int32)), ("item 1", op_item(-2, np.int64))] +
       [("iter", op_iter), ("shift", op_shift), ("rotate", op_rotate), ("affine2", op_affine(A23)), ("affine3", op_affine(A34)), ("extend", op_extend),
        ("set point", op_setitem(0, "point")), ("set vertex", op_setitem(-1, "vertex")), ("to_polygon/to_line", op_poly), ("add", op_add),
        ("collect", op_collect), ("pair", op_pair), ("merge", op_merge), ("box", op_box), ("props", op_props), ("data", op_data), ("array", op_array),
        ("rebuild", op_rebuild)])

# the last operation of a history in the quick tier: one of every kind
LAST = [i for i, (name, f) in enumerate(OPS) if name not in ("slice %r" % SLICES[0], "slice %r" % SLICES[3], "slice %r" % SLICES[4], "slice %r" % SLICES[5],
        "slice %r" % SLICES[6], "slice %r" % SLICES[7], "item 0", "item 1", "affine2", "rebuild", "to_polygon/to_line", "set vertex")]

def cases(tier):
    t = tier == "thorough"
    for k in range(len(INIT)):
        for i in range(len(OPS)):
            if t:
                for j in range(len(OPS)):
                    yield ["history", k, (i, j), 4]
            else:
                yield ["history", k, (i,), 3]
    for row in itertools.product((-1, 0, 2), repeat=3):
        yield ["affine", row]
    for k in range(len(INIT)):
        yield ["crs", k]
    yield ["equality", 0]
    yield ["points", 0]
    yield ["data", 0]
    yield ["bare", 0]

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

def usable(name, m):
    n = 1 if m.kind == "Point" else len(m.verts)
    return not (name == "item 1" and n < 2)

def run_history(case, ctx):
    _, k, first, length = case
    last = range(len(OPS)) if ctx.thorough else LAST
    for rest in itertools.product(*([range(len(OPS))]*(length - len(first) - 1) + [last])):
        hist = tuple(first) + rest
        m = INIT[k].copy()
        g = build(m)
        pool = [(g, m)]
        done = []
        dead = False
        for step, i in enumerate(hist):
            name, f = OPS[i]
            if not usable(name, m):
                dead = True; break
            done.append(name)
            r = f(ctx, g, m, pool)
            if r is None:
                dead = True; break
            ctx.op()
            g, m = r
            if not any(g is p for p, _ in pool):
                pool.append((g, m))
            what = "%s after %s" % (INIT[k].kind, ", ".join(done))
            if step == length - 1:
                for p, q in pool:
                    check(ctx, p, q, what)
            elif step < len(first) or not any(r != (LAST[0] if not ctx.thorough and k == len(rest)-1 else 0) for k, r in enumerate(rest) if k >= step+1-len(first)):
                check(ctx, g, m, what)
            elif m.kind != "Point" and len(flat(m.verts)):
                g.bbox(); g.extent()        # fill the caches
        if dead and len(done) <= len(first):
            break       # the prefix itself does not apply
        if not dead:
            for (p, a), (q, b) in itertools.combinations(pool, 2):
                if p == q:
                    ctx.eq(a.key(), b.key(), "equal geometries")
                    ctx.eq(hash(p), hash(q), "hashes of equal geometries")
                elif a.kind == b.kind and len(a.verts) == len(b.verts) and a.key(True) == b.key(True) and a.kind != "Point":
                    ctx.fail("geometries with the same content are not equal after %r: %r" % (done, a.key()))
    ctx.op()

def run_affine(case, ctx):
    """All small matrices, exactly, and recovery of the matrix from control points."""
    r0 = case[1]
    for r1 in itertools.product((-1, 0, 2), repeat=3):
        A = [[float(v) for v in r0], [float(v) for v in r1]]
        for k in (0, 3, 7, 9, 13, 17):
            m = INIT[k].copy()
            g = build(m)
            ctx.op()
            check(ctx, g.apply_transform(np.array(A)), transform(m, A), "transformed by %r" % A)
            check(ctx, g, m, "original after transformation")
        m = INIT[8]
        a, b = build(m.copy()), build(transform(m.copy(), A))
        got = affine_matrix(a, b)
        for i in range(2):
            for j in range(3):
                ctx.close(got[i][j], A[i][j], 1e-9, "fitted matrix of %r" % A)
    for r1, r2 in itertools.product(((0, 1, 2), (-1, 2, 0), (2, 0, -1)), repeat=2):
        A = [[float(v) for v in r] + [float(t)] for r, t in ((r0, 1), (r1, -2), (r2, 3))]
        for k in (1, 3, 2, 6, 10, 14, 18):
            m = INIT[k].copy()
            g = build(m)
            ctx.op()
            check(ctx, g.apply_transform(np.array(A)), transform(m, A), "transformed by %r" % A)
    for bad in (np.eye(2), np.eye(3), np.eye(4), np.zeros((3, 2))):
        for k in (0, 2, 5, 8, 12, 16):
            ctx.raises(ValueError, lambda: build(INIT[k].copy()).apply_transform(bad), "matrix of shape %r" % (bad.shape,))

def run_crs(case, ctx):
    """Vertices in another coordinate system are the reprojected ones, in order, with their heights."""
    m = INIT[case[1]].copy(crs=WebMercator)
    m = transform(m, [[1e4, 0.0, 3e5], [0.0, 1e4, 4e6]])
    g = build(m)
    for crs in (LonLatWGS84, LambertEqualArea, WebMercator):
        ctx.op()
        def f(p):
            return tuple(p) if crs is WebMercator else tuple(WebMercator.transform(crs, p[0], p[1])[:2]) + tuple(p[2:])
        got = deep(g.vertex(crs) if m.kind == "Point" else g.vertices(crs))
        want = deep(deep_map(f, m.verts))
        a, b = flat(got), flat(want)
        ctx.eq([len(p) for p in a], [len(p) for p in b], "ranks of vertices in %s" % crs)
        for p, q in zip(a, b):
            for u, v in zip(p, q):
                ctx.close(u, v, 1e-6, "vertex in %s" % crs)
        if m.kind in ("Line", "Polygon", "Multipoint"):
            for c, d in zip(np.array(g.coords(crs)).T, flat(want)):
                ctx.close(c[0], d[0], 1e-6, "coords in %s" % crs)
                ctx.close(c[1], d[1], 1e-6, "coords in %s" % crs)
            if crs is LambertEqualArea:
                bb = g.bbox(crs=crs)
                x, y = [p[0] for p in b], [p[1] for p in b]
                for u, v in zip(bb, (min(x), min(y), max(x), max(y))):
                    ctx.close(u, v, 1e-6, "bbox in %s" % crs)
        elif m.kind == "Multiline":
            for v, c in zip(g.vertices(crs), g.coords(crs)):
                ctx.true(np.array_equal(np.array(c)[:2].T, v[:, :2]), "coords in %s", crs)
        elif m.kind == "Multipolygon":
            for vs, cs in zip(g.vertices(crs), g.coords(crs)):
                for v, c in zip(vs, cs):
                    ctx.true(np.array_equal(np.array(c)[:2].T, v[:, :2]), "coords in %s", crs)
        # asking for another system does not change what is reported next
        check(ctx, g, m, "after asking for %s" % crs)
        if m.multi or m.kind == "Point":
            # joining pieces given in different systems
            kind = {"Point": "Multipoint"}.get(m.kind, m.kind)
            n = CLS[kind].merge(g, g, crs=crs)
            want2 = flat(want) * 2 if m.kind == "Point" else flat(want) + flat(want)
            for p, q in zip(flat(deep(n.vertices())), want2):
                for u, v in zip(p, q):
                    ctx.close(u, v, 1e-6, "merged in %s" % crs)
            ctx.true(n.crs == crs, "crs of merged geometry")
    ctx.state((case[1], m.kind))

def run_points(case, ctx):
    """Points from different coordinate systems form lines, polygons and point sets at the right places."""
    base = [(3e5, 4e6), (4e5, 4.5e6), (3.5e5, 5e6)]
    for crss in itertools.product((WebMercator, LonLatWGS84, LambertEqualArea), repeat=3):
        pts = [Point(p, crs=WebMercator) for p in base]
        pts = [Point(p.vertex(c), crs=c) for p, c in zip(pts, crss)]
        for target in (None, WebMercator, LambertEqualArea):
            for cls in (Line, Polygon, Multipoint):
                ctx.op()
                g = cls(pts) if target is None else cls(pts, crs=target)
                t = target or crss[0]
                ctx.true(g.crs == t, "crs of %s of points", cls.__name__)
                for v, p in zip(g.vertices(), base):
                    w = Point(p, crs=WebMercator).vertex(t)
                    ctx.close(v[0], w[0], 1e-2, "vertex of %s of points" % cls.__name__)
                    ctx.close(v[1], w[1], 1e-2, "vertex of %s of points" % cls.__name__)
        lines = [Line([a, b], crs=c) for a, b, c in zip(pts, pts[1:], crss)]
        ctx.op()
        g = Multiline(lines)
        for part, (p, q) in zip(g.vertices(), zip(base, base[1:])):
            for v, u in zip(part, (p, q)):
                w = Point(u, crs=WebMercator).vertex(crss[0])
                ctx.close(v[0], w[0], 1e-2, "vertex of Multiline of lines")
                ctx.close(v[1], w[1], 1e-2, "vertex of Multiline of lines")

def run_equality(case, ctx):
    """Geometries are equal exactly when their content is, and then have the same hash."""
    pool = []
    for m in INIT:
        variants = [m.copy()]
        variants.append(m.copy(verts=deep_map(lambda p: (p[0] + 1e-9,) + p[1:], m.verts)))
        variants.append(m.copy(props=dict(m.props, w=1)))
        if m.fields:
            r = [dict(x) for x in m.rows]; r[-1]["a" if "a" in m.fields else "b"] = "other"
            variants.append(m.copy(rows=r))
        if m.kind != "Point" and len(m.verts) > 2:
            variants.append(m.copy(verts=m.verts[:-1], rows=m.rows[:-1]))
            variants.append(m.copy(verts=m.verts[::-1], rows=m.rows[::-1]))
        if m.subs:
            variants.append(m.copy(subs=m.subs[:1]))
            variants.append(m.copy(subs=[]))
        if len(flat(m.verts)[0]) == 3:
            variants.append(m.copy(verts=deep_map(lambda p: p[:2], m.verts)))
        variants.append(m.copy(crs=NSIDCNorth))
        variants.append(m.copy(verts=deep_map(lambda p: tuple(-0.0 if c == 0.0 else c for c in p), m.verts)))
        pool += [(build(v), v) for v in variants]
        pool.append((build(m.copy()), m.copy()))
    for g, m in pool:
        if m.multi and not m.rows:
            m.rows = [{} for _ in m.verts]
    for (p, a), (q, b) in itertools.product(pool, repeat=2):
        ctx.op()
        same = a.key(True) == b.key(True)
        ctx.true(bool(p == q) == same, "equality of %r and %r is %r", a.key(True), b.key(True), p == q)
        ctx.true(bool(p != q) == (not same), "inequality of %r and %r is %r", a.key(True), b.key(True), p != q)
        if same:
            ctx.eq(hash(p), hash(q), "hash of equal geometries %r" % (a.key(),))
    for p, a in pool:
        for junk in (None, 1, "x", (1.0, 2.0), [(0.0, 0.0)]):
            ctx.true(not (p == junk), "geometry equals %r", junk)
    # the same coordinate system under another name
    twin = ProjectedCRS(WebMercator.ref_proj4, name="another name")
    for m in INIT:
        if m.crs is WebMercator:
            p, q = build(m.copy()), build(m.copy(crs=twin))
            if p == q:
                ctx.eq(hash(p), hash(q), "hash of equal geometries in equal coordinate systems")

def run_data(case, ctx):
    """All accepted ways to give data, and wrong lengths."""
    for kind, verts in (("Multipoint", LINE), ("Multiline", PARTS), ("Multipolygon", POLYS)):
        n = len(verts)
        cls = CLS[kind]
        vals = ["v%d" % i for i in range(n)]
        from karta.vector.table import Table
        for data, fields in ((None, {}), ({}, {}), ({"a": vals}, {"a": vals}), ({"a": tuple(vals), "b": np.arange(n)}, {"a": vals, "b": list(range(n))}),
                             (Table(data={"a": vals}), {"a": vals}), (list(vals), {"value": vals}), (Table(data=[(v,) for v in vals], fields=("q",)), {"q": vals})):
            ctx.op()
            g = cls(verts, data=data)
            rows = [dict((f, fields[f][i]) for f in fields) for i in range(n)]
            check(ctx, g, M(kind, verts, Cartesian, {}, list(fields), rows), "%s with data %r" % (kind, data))
            if isinstance(data, dict) and data:
                data["a"] = None
            elif isinstance(data, Table):
                data[0] = ("gone",)
            elif isinstance(data, list):
                data[0] = "gone"
            check(ctx, g, M(kind, verts, Cartesian, {}, list(fields), rows), "%s after changing its data source" % kind)
        for bad in ({"a": vals + ["x"]}, {"a": vals[1:]}, Table(data={"a": vals[1:]}), vals[1:], vals + ["x"]):
            ctx.raises(ValueError, lambda: cls(verts, data=bad), "%s with data of another length" % kind)
        props = {"p": 1}
        g = cls(verts, properties=props)
        props["p"] = 2
        ctx.eq(g.properties, {"p": 1}, "properties after changing the dictionary")
        ctx.raises(TypeError, lambda: cls(verts, properties=["p"]), "properties that are not a dictionary")
    for bad in ((1.0,), (1.0, 2.0, 3.0, 4.0), ()):
        ctx.raises(TypeError, lambda: Point(bad), "point %r" % (bad,))

def run_bare(case, ctx):
    """A Multipolygon made from polygons that share no property has one (empty) row for each of them."""
    for n in (1, 2, 3):
        g = Multipolygon([Polygon(p[0], properties={"p%d" % i: i} if n > 1 else None) for i, p in enumerate(POLYS[:n])])
        ctx.op()
        ctx.eq(deep(g.vertices()), deep([[p[0]] for p in POLYS[:n]]), "vertices of a Multipolygon of polygons")
        try:
            parts = [g[i] for i in range(n)]
        except IndexError:
            ctx.fail("members of a Multipolygon made from polygons without common properties cannot be reached", key="C15-multipolygon-of-bare-polygons")
        for i in range(n):
            check(ctx, parts[i], M("Polygon", POLYS[i][0]), "member of a Multipolygon of polygons")
