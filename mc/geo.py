"""Exact planar predicates on integer (or Fraction) coordinates, used as reference by the vector checks."""
import itertools
from fractions import Fraction as F

def orient(a, b, c):
    v = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
    return (v > 0) - (v < 0)

def on_segment(p, a, b):
    return (orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))

def seg_meet(a, b, c, d):
    """0 disjoint, 1 proper crossing, 2 touching in exactly one point, 3 overlapping in more than a point."""
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if a == b or c == d:
        if a == b and c == d:
            return 2 if a == c else 0
        p, (s, t) = (a, (c, d)) if a == b else (c, (a, b))
        return 2 if on_segment(p, s, t) else 0
    if o1 == o2 == 0:
        k = 0 if a[0] != b[0] else 1
        lo = max(min(a[k], b[k]), min(c[k], d[k]))
        hi = min(max(a[k], b[k]), max(c[k], d[k]))
        return 0 if lo > hi else (2 if lo == hi else 3)
    if o1*o2 < 0 and o3*o4 < 0:
        return 1
    if on_segment(c, a, b) or on_segment(d, a, b) or on_segment(a, c, d) or on_segment(b, c, d):
        return 2
    return 0

def seg_point(a, b, c, d):
    """The single common point of two segments that meet in one point, as Fractions."""
    den = (b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0])
    if den == 0:
        for p in (a, b):
            if p == c or p == d or (c != d and on_segment(p, c, d)):
                return (F(p[0]), F(p[1]))
        for p in (c, d):
            if a != b and on_segment(p, a, b):
                return (F(p[0]), F(p[1]))
        return None
    t = F((c[0]-a[0])*(d[1]-c[1]) - (c[1]-a[1])*(d[0]-c[0])) / F(den)
    return (a[0] + t*(b[0]-a[0]), a[1] + t*(b[1]-a[1]))

def ring_edges(r):
    return [(r[i-1], r[i]) for i in range(len(r))]

def line_edges(r):
    return [(r[i], r[i+1]) for i in range(len(r)-1)]

def in_ring(p, r):
    """1 inside, 0 on the boundary, -1 outside of a simple ring."""
    c = False
    for a, b in ring_edges(r):
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            # x of the edge at p's height compared with p, without division
            o = orient(a, b, p)
            if (o > 0) == (b[1] > a[1]):
                c = not c
    return 1 if c else -1

def is_simple(r):
    n = len(r)
    if len(set(r)) != n:
        return False
    e = ring_edges(r)
    for i in range(n):
        for j in range(i+1, n):
            m = seg_meet(e[i][0], e[i][1], e[j][0], e[j][1])
            adjacent = (j == i+1) or (i == 0 and j == n-1)
            if m and not (adjacent and m == 2):
                return False
            if adjacent and n == 3 and m == 3:
                return False
    return area2(r) != 0

def area2(r):
    """Twice the signed area (positive counter-clockwise)."""
    return sum(a[0]*b[1] - b[0]*a[1] for a, b in ring_edges(r))

def rings(nx, ny, nmin, nmax):
    """Every simple ring on the integer lattice, each once: starts at its smallest vertex, counter-clockwise."""
    pts = sorted((x, y) for x in range(nx) for y in range(ny))
    for n in range(nmin, nmax+1):
        for k, first in enumerate(pts):
            for rest in itertools.permutations(pts[k+1:], n-1):
                r = (first,) + rest
                if area2(r) > 0 and is_simple(r):
                    yield r

def variants(r):
    """The same ring from every starting vertex in both directions."""
    for s in range(len(r)):
        q = r[s:] + r[:s]
        yield q
        yield (q[0],) + tuple(reversed(q[1:]))

def halves(nx, ny):
    """All half-lattice points from one half step outside the lattice to one outside, as exact halves."""
    return [(F(i, 2), F(j, 2)) for i in range(-1, 2*nx) for j in range(-1, 2*ny)]
