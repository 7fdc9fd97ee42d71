"""Map tiles: every position is in exactly the tile whose box contains it, and tiles divide into their four children."""
import itertools, math
from karta.vector.geometry import Point
from karta.tile import Tile, tile_from_point
from karta.crs import LonLatWGS84, SphericalEarth, WebMercator, LonLatNAD83, LonLatNAD27, NSIDCNorth

RULE = "a case is one zoom level and a row of tiles, or one position in several systems; corners and tiles are compared with the formulas of the map projection in its own coordinates; non-trivial = a row of tiles compared"
BOUNDS = {"quick": "all tiles of zoom levels 0..5 with 13 positions each, 34 rows and columns of each of the levels 6..19, 40 positions in 6 systems at 8 levels",
          "thorough": "all tiles of levels 0..7, 134 rows and columns of each of the levels 8..22"}
ASSUMPTIONS = ["positions are between the latitudes that the map shows, and not nearer to an edge of a tile than its 10^-6 part, except at the antimeridian", "the antimeridian is the western edge of the map"]
SPOTS = [(lon, lat) for lon in (-179.99, -120.3, -75.5, -0.01, 12.25, 100.0, 151.2, 179.9) for lat in (-84.9, -33.8, 0.01, 45.3, 85.0)]

def cases(tier):
    t = tier == "thorough"
    for z in range(0, 8 if t else 6):
        for y in range(2**z):
            yield ["row", z, y]
    for z in range(8 if t else 6, 23 if t else 20):
        yield ["deep", z, 134 if t else 34]
    for i in range(len(SPOTS)):
        yield ["point", i]
    for z in range(20):
        yield ["edge", z]

def unmap(v):
    """Latitude at the part v of the map from its top."""
    t = math.pi*(1-2*v)
    return math.degrees(2*math.atan(math.exp(t)) - math.pi/2)

def part(lon, lat):
    s = math.sin(math.radians(lat))
    return (lon+180)/360.0, 0.5 - math.atanh(s)/(2*math.pi)

def look(ctx, z, x, y, fractions):
    n = 2**z
    t = Tile(z, x, y)
    c = t.nw_corner()
    ctx.eq(c.crs, LonLatWGS84, "system of corners")
    w, e, s, nn = x/n*360-180, (x+1)/n*360-180, unmap((y+1)/n), unmap(y/n)
    ctx.close(c.x, w, 1e-9, "longitude of the corner of %r" % ((z, x, y),))
    ctx.close(c.y, nn, 1e-9, "latitude of the corner of %r" % ((z, x, y),))
    bb = t.bbox
    for g, v in zip(bb, (w, s, e, nn)):
        ctx.close(g, v, 1e-9, "box of %r" % ((z, x, y),))
    ctx.eq(len(bb), 4, "box")
    for u, v in fractions:
        lon, lat = (x+u)/n*360-180, unmap((y+v)/n)
        p = Point((lon, lat), crs=LonLatWGS84)
        got = tile_from_point(p, z)
        ctx.true(got == t and not (got != t), "%r of level %d is in %r, expected %r", p, z, (got.z, got.x, got.y), (z, x, y))
        ctx.true(bb[0] <= lon <= bb[2] and bb[1] <= lat <= bb[3], "%r is outside of the box of its tile", p)
        kid = tile_from_point(p, z+1)
        ctx.eq((kid.z, kid.x, kid.y), (z+1, 2*x+(u > 0.5), 2*y+(v > 0.5)), "tile of the next level of %r" % ((lon, lat),))
        ctx.op(2)
    other = [Tile(z+1, x, y), Tile(z, x+1, y), Tile(z, x, y+1), (z, x, y)]
    ctx.true(not any(t == o for o in other) and all(t != o for o in other), "equality of %r", (z, x, y))
    ctx.true(t == Tile(z, x, y) and not (t != Tile(z, x, y)), "equality of %r", (z, x, y))
    ctx.state((z, x, y))
    ctx.evaluations += 1

FR = [(u, v) for u in (1e-5, 0.3, 0.9, 1-1e-5) for v in (1e-5, 0.7, 1-1e-5)] + [(0.49, 0.51)]

def run_row(case, ctx):
    _, z, y = case
    for x in range(2**z):
        look(ctx, z, x, y, FR)
    ctx.trace()
    ctx.outcome("row")

def run_deep(case, ctx):
    _, z, m = case
    n = 2**z
    xs = sorted({0, 1, n-1, n-2, n//2, n//2-1} | {(k*n)//(m//2) for k in range(m//2)})
    for k, x in enumerate(xs):
        for y in xs:
            look(ctx, z, x, y, FR[k % 3::3] if z < 21 else [(0.3, 0.7)])
    ctx.trace()
    ctx.outcome("deep")

def run_point(case, ctx):
    lon, lat = SPOTS[case[1]]
    p = Point((lon, lat), crs=LonLatWGS84)
    for crs in (LonLatWGS84, LonLatNAD27, LonLatNAD83, WebMercator, NSIDCNorth, SphericalEarth):
        if crs is NSIDCNorth and lat < -30 or crs is LonLatNAD27 and not (-130 < lon < -60 and 20 < lat < 60):
            continue
        q = Point(p.vertex(crs), crs=crs)
        q3 = Point(tuple(q.vertex()) + (5.0,), crs=crs)
        for z in (0, 1, 4, 8, 11, 14, 17, 19):
            n = 2**z
            u, v = part(lon, lat)
            if min((u*n) % 1, 1-(u*n) % 1, (v*n) % 1, 1-(v*n) % 1) < 1e-4:
                continue
            for r in (q, q3) if z == 8 else (q,):
                t = tile_from_point(r, z)
                ctx.eq((t.z, t.x, t.y), (z, int(u*n), int(v*n)), "tile of %r in %s" % ((lon, lat), crs.name))
                ctx.op()
        ctx.state((lon, lat, crs.name))
        ctx.evaluations += 1
    ctx.trace()
    ctx.outcome("point")

def run_edge(case, ctx):
    z = case[1]
    n = 2**z
    for lat in (-80.0, -1.0, 3.3, 66.0):
        tiles = []
        for lon in (-180.0, 180.0):
            t = tile_from_point(Point((lon, lat), crs=LonLatWGS84), z)
            ctx.true(t.x == 0 and 0 <= t.y < n and t.z == z, "tile %r at the antimeridian", (t.z, t.x, t.y))
            tiles.append(t)
            ctx.op()
        ctx.eq(tiles[0] == tiles[1], True, "tiles at the antimeridian")
        t = tile_from_point(Point((179.9999999, lat), crs=LonLatWGS84), z)
        ctx.eq(t.x, n-1, "tile before the antimeridian")
        ctx.eq(tile_from_point(Point((0.0, lat), crs=LonLatWGS84), z).x, n//2, "tile at the meridian of Greenwich")
        ctx.state((z, lat))
    t = tile_from_point(Point((0.0, 0.0), crs=LonLatWGS84), float(z))
    ctx.eq((t.z, t.x, t.y), (z, n//2, n//2), "tile of the origin")
    ctx.trace()
    ctx.outcome("edge")

def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)
