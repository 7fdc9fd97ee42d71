"""Point set queries: boxes, radii and polygons select exactly the right points, with or without an index."""
import itertools, math
from fractions import Fraction as F
import numpy as np
from karta.vector.geometry import Point, Polygon, Multipoint
from karta.vector.quadtree import QuadTree
from karta.crs import Cartesian, WebMercator, LonLatWGS84, SphericalEarth, NSIDCNorth
import geo

RULE = ("a case is a point set or an insertion order; every box, radius and polygon of the stated families is queried on it through the "
        "index and without it and compared with a direct evaluation of every point; non-trivial = at least one query was compared")
BOUNDS = {"quick": "all insertion orders of 1..4 points (repeats allowed) on the 3x3 lattice with leaf capacities 2 and 3 against all 100 "
                   "boxes; all multisets of 1..3 points against all boxes, radii and polygons, after every single replacement; large sets of "
                   "49..400 points in 11 arrangements; all orders of 2..3 out of 10 positions and of 4 out of 5 that are neighbours in floating point, leaf capacities 1..3",
          "thorough": "insertion orders of 5 points, multisets of 4 points, two successive replacements, large sets up to 2000 points"}
ASSUMPTIONS = ["coordinates are finite"]

PTS = [(x, y) for x in range(3) for y in range(3)]
EDGES = (-1.0, 0.0, 0.5, 1.0, 2.0, 3.0)
BOXES = [(a, c, b, d) for a, b in itertools.combinations(EDGES[:5], 2) for c, d in itertools.combinations(EDGES[:5], 2)]
BOXES2 = [(a, c, b, d) for a, b in itertools.combinations(EDGES, 2) for c, d in itertools.combinations(EDGES, 2)]

def cases(tier):
    n = 5 if tier == "thorough" else 4
    for k in range(1, n):
        for first in itertools.product(range(9), repeat=min(k, 2)):
            yield ["tree", k, first]
    for first in itertools.product(range(9), repeat=2):
        yield ["tree", n, first]
    for k in range(1, 5 if tier == "thorough" else 4):
        for m in itertools.combinations_with_replacement(range(9), k):
            if k < 3 or sum(m) % 2 == 0 or tier == "thorough":
                yield ["set", m]
    for m in itertools.product(range(9), repeat=2):
        yield ["replace", m]
    for name in ARR:
        for n in (49, 50, 51, 64, 100, 400) + ((65, 127, 1024, 2000) if tier == "thorough" else ()):
            yield ["large", name, n]
    for n in range(3, 7):
        yield ["polygon", n]
    for i in range(len(GEOSETS)):
        yield ["geographic", i]
    for base in range(3):
        for i in range(10):
            yield ["close", base, i]

def near(base, k):
    for _ in range(k):
        base = np.nextafter(base, np.inf)
    return float(base)

NEAR = [(near(x, i), near(y, j)) for x, y in ((4.3, 4.3), (0.0, 1.0), (-2.0, 1e6)) for i in range(3) for j in range(3)]

def close_tree(case, ctx):
    """Positions that are neighbours in floating point."""
    _, base, first = case
    P = NEAR[9*base:9*base+9] + [NEAR[(9*base+13) % 27]]
    for k in (1, 2, 3):
        for rest in itertools.product(range(0, 10, 2 if k == 3 else 1), repeat=k):
            order = [first] + list(rest)
            V = [P[i] for i in order]
            cs = Multipoint(V, build_index=False)._vertices
            xs, ys = sorted({p[0] for p in V}), sorted({p[1] for p in V})
            ctx.state((base, tuple(order)))
            for cap in (1, 2, 3):
                q = QuadTree(cs, leaf_capacity=cap)
                ctx.eq(len(q), k+1, "number of points in the tree")
                for b in ((xs[0]-1, ys[0]-1, xs[-1]+1, ys[-1]+1), (xs[0], ys[0]-1, xs[-1]+1, ys[-1]+1), (xs[0]-1, ys[0]-1, xs[-1], ys[-1]), (xs[0]-1, ys[-1], xs[-1]+1, ys[-1]+1),
                          (xs[len(xs)//2], ys[0], xs[-1]+1, ys[-1]+1)):
                    ctx.op()
                    ctx.eq(sorted(q.search_within(*b)), [i for i, p in enumerate(V) if inside(p, b)], "search of %r in a tree of %r, capacity %d" % (b, V, cap))
    ctx.trace()
    ctx.outcome("close")

def inside(p, b):
    return b[0] < p[0] < b[2] and b[1] < p[1] < b[3]

def tree(case, ctx):
    _, k, first = case
    for rest in itertools.product(range(9), repeat=k-len(first)):
        order = list(first) + list(rest)
        V = [(float(PTS[i][0]), float(PTS[i][1])) for i in order]
        mp = Multipoint(V, build_index=False)
        ctx.state(tuple(order))
        for cap in (2, 3):
            q = QuadTree(mp._vertices, leaf_capacity=cap)
            ctx.trace()
            ctx.op(k)
            ctx.eq(len(q), k, "number of points in the tree")
            ctx.eq(tuple(q.bbox), (min(p[0] for p in V), min(p[1] for p in V), max(p[0] for p in V), max(p[1] for p in V)), "tree bounds")
            for b in BOXES:
                ctx.op()
                ctx.eq(sorted(q.search_within(*b)), [i for i, p in enumerate(V) if inside(p, b)],
                       "search of %r in a tree of %r, capacity %d" % (b, V, cap))
    ctx.outcome("tree%d" % k)

def expect(ctx, mp, got, idx, what):
    """got must be the members idx of mp, in order, with their data."""
    ctx.eq(got._geotype, "Multipoint", what)
    ctx.eq([tuple(v) for v in got.vertices().tolist()] if len(got) else [], [tuple(mp._vertices[i]) for i in idx], what)
    ctx.eq([got.d[j] for j in range(len(idx))], [mp.d[i] for i in idx], "data of " + what)
    ctx.eq(len(got.data), len(idx), "rows of " + what)
    ctx.eq(got.properties, mp.properties, "properties of " + what)
    ctx.true(got.crs == mp.crs, "coordinate system of " + what)

def make(V, **kw):
    return Multipoint(V, data={"label": ["p%d" % i for i in range(len(V))], "n": list(range(len(V)))},
                      properties={"survey": 3}, **kw)

def queries(mp, V, ctx, boxes, what):
    ctx.trace()
    for b in boxes:
        ctx.op()
        expect(ctx, mp, mp.within_bbox(b), [i for i, p in enumerate(V) if inside(p, b)], "%s within box %r" % (what, b))

def radii(mp, V, ctx, what):
    for c in ((0.0, 0.0), (1.0, 0.5), (-1.0, 1.0), (2.0, 2.0)):
        for r in (0.5, 1.0, 1.5, 2.0, 3.0):
            ctx.op()
            idx = [i for i, p in enumerate(V) if (F(p[0])-F(c[0]))**2 + (F(p[1])-F(c[1]))**2 < F(r)**2]
            expect(ctx, mp, mp.within_radius(Point(c, crs=mp.crs), r), idx, "%s within %r of %r" % (what, r, c))

RINGS = [((0, 0), (2, 0), (2, 2), (0, 2)), ((0, 0), (2, 0), (0, 2)), ((0, 0), (1, 1), (2, 0), (1, 2)), ((1, 0), (2, 2), (0, 1)),
         ((0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2))]

def polys(mp, V, ctx, what, rings=RINGS):
    for r in rings:
        ctx.op()
        idx = [i for i, p in enumerate(V) if geo.in_ring((F(p[0]), F(p[1])), r) >= 0]
        expect(ctx, mp, mp.within_polygon(Polygon([(float(x), float(y)) for x, y in r], crs=mp.crs)), idx, "%s within %r" % (what, r))

def pointset(case, ctx):
    m = case[1]
    V = [(float(PTS[i][0]), float(PTS[i][1])) for i in m]
    ctx.state(tuple(m))
    for index in (True, False):
        mp = make(V, build_index=index)
        what = "%r (index %s)" % (V, index)
        queries(mp, V, ctx, BOXES2[::1 if index else 3], what)
        radii(mp, V, ctx, what)
        polys(mp, V, ctx, what)
        ctx.eq([tuple(v) for v in mp.vertices().tolist()], V, "points after queries")
    Z = [p + (float(i)*50,) for i, p in enumerate(V)]
    mp = make(Z)
    queries(mp, V, ctx, BOXES2[::11], "three-dimensional %r" % V)
    mp = make(V, crs=WebMercator)
    queries(mp, V, ctx, BOXES2[::11], "projected %r" % V)
    radii(mp, V, ctx, "projected %r" % V)
    polys(mp, V, ctx, "projected %r" % V)
    hole = Polygon([(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)], subs=[Polygon([(0.5, 0.5), (1.5, 0.5), (1.5, 1.5), (0.5, 1.5)])])
    mp = make(V)
    expect(ctx, mp, mp.within_polygon(hole), [i for i, p in enumerate(V) if p != (1.0, 1.0)], "%r within a polygon with a hole" % V)
    ctx.outcome("set%d" % len(m))

def replace(case, ctx):
    m = case[1]
    for extra in range(-1, 9, 2):
        order = list(m) + ([extra] if extra >= 0 else [])
        for key in range(-len(order), len(order)):
            for new in range(9):
                for kind in ("tuple", "point"):
                    V = [(float(PTS[i][0]), float(PTS[i][1])) for i in order]
                    mp = make(V)
                    mp.bbox(), mp.extent()
                    p = (float(PTS[new][0])+0.25, float(PTS[new][1]))
                    labels = ["p%d" % i for i in range(len(V))]
                    mp[key] = p if kind == "tuple" else Point(p, properties={"label": "new", "other": 9})
                    V[key] = p
                    labels[key] = None if kind == "tuple" else "new"
                    if ctx.thorough:
                        mp[0] = (2.0, 0.75)
                        V[0], labels[0] = (2.0, 0.75), None
                    ctx.state((tuple(order), key, new, kind))
                    ctx.trace()
                    ctx.op(2)
                    what = "%r after replacing %d" % (V, key)
                    ctx.eq([tuple(v) for v in mp.vertices().tolist()], V, what)
                    ctx.eq(mp.d["label"], labels, "labels of " + what)
                    ctx.eq(tuple(mp.bbox()), (min(q[0] for q in V), min(q[1] for q in V), max(q[0] for q in V), max(q[1] for q in V)),
                           "bbox of " + what)
                    ctx.eq(tuple(mp.extent()), (min(q[0] for q in V), max(q[0] for q in V), min(q[1] for q in V), max(q[1] for q in V)),
                           "extent of " + what)
                    queries(mp, V, ctx, BOXES2[5::29], what)
                    expect(ctx, mp, mp.within_radius(Point((1.0, 1.0)), 1.25),
                           [i for i, q in enumerate(V) if (q[0]-1)**2 + (q[1]-1)**2 < 1.25**2], what + " within a radius")
                    polys(mp, V, ctx, what, RINGS[:1])
    mp = make([(0.0, 0.0), (1.0, 1.0)])
    ctx.raises((ValueError, TypeError), lambda: mp.__setitem__(0, (1.0, 2.0, 3.0)), "a three-dimensional point in a planar set")
    ctx.eq(mp.d["label"], ["p0", "p1"], "labels after a refused replacement")
    ctx.outcome("replace")

ARR = ["grid", "vertical", "horizontal", "diagonal", "same", "pairs", "cluster", "spiral", "corners", "rounded", "rounded line"]

def arrange(name, n):
    if name == "grid":
        k = int(math.ceil(math.sqrt(n)))
        return [(float(i % k), float(i // k)) for i in range(n)]
    if name == "vertical":
        return [(3.0, float(i)) for i in range(n)]
    if name == "horizontal":
        return [(float(n-i), 7.0) for i in range(n)]
    if name == "diagonal":
        return [(float(i)/4, float(i)/4) for i in range(n)]
    if name == "same":
        return [(5.0, 5.0)]*(n-2) + [(0.0, 0.0), (10.0, 10.0)]
    if name == "pairs":
        return [(float((i//2) % 10), float(i//20)) for i in range(n)]
    if name == "cluster":
        return [(2.0**(-(i % 20)), 2.0**(-(i // 20))) for i in range(n)]
    if name == "rounded":
        return [(near(4.3, i % 8), near(1e5, (i // 8) % 8)) for i in range(n)]
    if name == "rounded line":
        return [(i*0.07, 4.3*(1-i*0.01) + 4.3*(i*0.01)) for i in range(n)]
    if name == "spiral":
        return [(round(i*math.cos(i*0.7)), round(i*math.sin(i*0.7))) for i in range(n)]
    return [((0.0, 64.0)[i % 2] + i*0.125, (0.0, 64.0)[(i//2) % 2]) for i in range(n)]

def large(case, ctx):
    _, name, n = case
    V = [(float(x), float(y)) for x, y in arrange(name, n)]
    xs, ys = sorted(set(p[0] for p in V)), sorted(set(p[1] for p in V))
    def cuts(v):
        c = [v[0]-1, v[0], v[len(v)//3], v[len(v)//2], (v[0]+v[-1])/2, v[-1], v[-1]+1]
        return [(a, b) for a in c for b in c if a < b]
    ctx.state((name, n))
    for order in (V, V[::-1], V[1::2] + V[::2]):
        mp = make(order)
        bx = [(a[0], b[0], a[1], b[1]) for a in cuts(xs) for b in cuts(ys)]
        step = max(1, len(bx)//(200 if ctx.thorough else 40))
        queries(mp, order, ctx, bx[::step], "%d points in a %s" % (n, name))
        q = QuadTree(mp._vertices, leaf_capacity=4)
        for b in bx:
            ctx.op()
            ctx.eq(sorted(q.search_within(*b)), [i for i, p in enumerate(order) if inside(p, b)], "search %r among %d in a %s" % (b, n, name))
        c = (xs[len(xs)//2], ys[len(ys)//2])
        for r in (0.0, 0.5, 2.0, 5.0, 13.0, 1e6):
            idx = [i for i, p in enumerate(order) if (F(p[0])-F(c[0]))**2 + (F(p[1])-F(c[1]))**2 < F(r)**2]
            ctx.op()
            expect(ctx, mp, mp.within_radius(Point(c), r), idx, "%d points in a %s within %r" % (n, name, r))
        x0, x1, y0, y1 = xs[0], xs[-1], ys[0], ys[-1]
        for r in (((x0, y0), (x1, y0), (x1, y1), (x0, y1)), ((x0, y0), (x1+1, y0), (x0, y1+1))):
            if geo.area2(r) != 0:
                polys(mp, order, ctx, "%d points in a %s" % (n, name), [r])
    ctx.outcome("large " + name)

def polygon(case, ctx):
    """Every ring against every lattice and half-lattice point."""
    n = case[1]
    pts = [(F(x, 2), F(y, 2)) for x in range(-1, 6) for y in range(-1, 6)]
    V = [(float(x), float(y)) for x, y in pts]
    mp = make(V)
    for r in geo.rings(3, 3, n, n):
        for v in ((r, tuple(reversed(r))) if n < 5 else (r,)):
            ctx.state(v)
            ctx.trace()
            polys(mp, V, ctx, "lattice", [v])
    ctx.outcome("polygon%d" % n)

GEOSETS = [
    (LonLatWGS84, [(179.0, 0.0), (-179.0, 0.0), (180.0, 10.0), (-180.0, -10.0), (170.0, 60.0), (-170.0, -60.0)]),
    (SphericalEarth, [(179.0, 0.0), (-179.0, 0.0), (180.0, 10.0), (0.0, 89.0), (180.0, 89.0), (90.0, 80.0), (-90.0, 85.0)]),
    (LonLatWGS84, [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (10.0, 50.0), (11.0, 50.0), (10.0, 51.0), (0.0, -89.5), (180.0, -89.5)]),
    (SphericalEarth, [(float(10*i), float(5*j)) for i in range(9) for j in range(-3, 4)]),
]

def geographic(case, ctx):
    crs, V = GEOSETS[case[1]]
    ctx.state(case[1])
    for index in (True, False):
        mp = make(V, crs=crs, build_index=index)
        for c in V[:8] + [(-179.5, 5.0), (0.0, 90.0), (45.0, 30.0)]:
            for r in (50e3, 200e3, 1500e3, 5000e3, 1.2e7):
                d = [crs.inverse(c[0], c[1], p[0], p[1])[2] if p != c else 0.0 for p in V]
                if min(abs(x - r) for x in d) < 1.0:
                    continue
                ctx.op()
                ctx.trace()
                expect(ctx, mp, mp.within_radius(Point(c, crs=crs), r), [i for i in range(len(V)) if d[i] < r],
                       "%r within %r of %r" % (V, r, c))
        rings = [[(170.5, -20.0), (-170.5, -20.0), (-170.5, 20.0), (170.5, 20.0)], [(-0.5, -0.5), (0.5, -0.5), (0.5, 20.5), (-0.5, 20.5)],
                 [(0.0, 0.0), (20.0, 0.0), (20.0, 10.0), (0.0, 10.0)], [(0.0, 70.0), (90.0, 70.0), (180.0, 70.0), (-90.0, 70.0)]]
        for r in rings:
            pg = Polygon(r, crs=crs)
            ctx.op()
            expect(ctx, mp, mp.within_polygon(pg), [i for i in range(len(V)) if pg.contains(Point(V[i], crs=crs))],
                   "%r within %r" % (V, r))
    # other coordinate system for the query
    lonlat = [(x, y) for x, y in V if abs(y) < 80]
    for target in (WebMercator, NSIDCNorth):
        pts = [Point(p, crs=LonLatWGS84).vertex(target) for p in lonlat if target is WebMercator or p[1] > 5] or \
              [Point((3.0, 80.0), crs=LonLatWGS84).vertex(target)]
        for index in (True, False):
            mp = make(pts, crs=target, build_index=index)
            for c in lonlat[:4]:
                pt = Point(c, crs=LonLatWGS84)
                for r in (50e3, 1500e3, 5000e3):
                    d = [pt.distance(Point(p, crs=target)) for p in pts]
                    if min(abs(x - r) for x in d) < 1.0:
                        continue
                    ctx.op()
                    expect(ctx, mp, mp.within_radius(pt, r), [i for i in range(len(pts)) if d[i] < r],
                           "%r within %r of %r in other coordinates" % (pts, r, c))
            pg = Polygon([(-20.0, 10.5), (40.0, 10.5), (40.0, 63.0), (-20.0, 63.0)], crs=LonLatWGS84)
            expect(ctx, mp, mp.within_polygon(pg), [i for i in range(len(pts)) if pg.contains(Point(pts[i], crs=target))],
                   "%r within a polygon in other coordinates" % (pts,))
    ctx.outcome("geographic")

def run(case, ctx):
    {"tree": tree, "close": close_tree, "set": pointset, "replace": replace, "large": large, "polygon": polygon, "geographic": geographic}[case[0]](case, ctx)
