"""Exhaustive enumerators of small geometries (pure integers, no SUT code).

Specs are plain tuples:

    ('E',)                      empty
    ('S', (p, q))               segment
    ('M', ((p, q), ...))        multisegment
    ('C', (p, q, r, ...))       contour
    ('P', (border, (hole, ...)))       polygon, border/hole as for contour
    ('MP', ((border, holes), ...))     multipolygon
"""

from itertools import combinations
from math import gcd

from .universe import cross


def orient(o, a, b):
    c = cross(*o, *a, *b)
    return (c > 0) - (c < 0)


def between(a, b, p):
    """p lies on the closed segment ab."""
    return orient(a, b, p) == 0 and min(a, b) <= p <= max(a, b)


def segments_meet(a, b, c, d):
    """Closed segments share a point."""
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return (
        between(a, b, c)
        or between(a, b, d)
        or between(c, d, a)
        or between(c, d, b)
    )


def segments_cross_or_overlap(a, b, c, d):
    """Share a point interior to both, i.e. are not fit for a multisegment."""
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    if o1 == o2 == 0:
        lo = max(min(a, b), min(c, d))
        hi = min(max(a, b), max(c, d))
        return lo < hi
    return False


def doubled_area(ring):
    return sum(
        p[0] * q[1] - p[1] * q[0]
        for p, q in zip(ring, ring[1:] + ring[:1])
    )


def is_simple(ring):
    """Simple closed polyline, consecutive edges not collinear."""
    n = len(ring)
    if n < 3 or len(set(ring)) != n:
        return False
    for i in range(n):
        if orient(ring[i - 2], ring[i - 1], ring[i]) == 0:
            return False
    for i in range(n):
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if segments_meet(
                ring[i], ring[(i + 1) % n], ring[j], ring[(j + 1) % n]
            ):
                return False
    return True


def simple_rings(points, min_size=3, max_size=None):
    """Every simple ring on the points once, counterclockwise, least first."""
    points = sorted(points)
    max_size = max_size or len(points)
    result = []

    def extend(ring, used):
        n = len(ring)
        if n >= min_size and ring[1] < ring[-1] and closes(ring):
            result.append(
                tuple(ring)
                if doubled_area(ring) > 0
                else (ring[0], *reversed(ring[1:]))
            )
        if n == max_size:
            return
        for p in points:
            if p <= ring[0] or p in used:
                continue
            if n >= 2 and orient(ring[-2], ring[-1], p) == 0:
                continue
            if any(
                segments_meet(ring[i], ring[i + 1], ring[-1], p)
                for i in range(n - 2)
            ):
                continue
            # a vertex may not lie on an edge either
            if n >= 2 and between(ring[-1], p, ring[-2]):
                continue
            extend([*ring, p], used | {p})

    def closes(ring):
        n = len(ring)
        if orient(ring[-2], ring[-1], ring[0]) == 0:
            return False
        if orient(ring[-1], ring[0], ring[1]) == 0:
            return False
        return not any(
            segments_meet(ring[i], ring[i + 1], ring[-1], ring[0])
            for i in range(1, n - 2)
        )

    for p in points:
        extend([p], {p})
    result.sort(key=lambda r: (len(r), r))
    return result


def grid_points(width, height):
    return [(x, y) for x in range(width) for y in range(height)]


def grid_segments(width, height):
    return list(combinations(grid_points(width, height), 2))


def valid_multisegments(segments, size):
    """Subsets of the given size without crossing or overlapping members."""
    ok = {
        (s, t)
        for s, t in combinations(segments, 2)
        if not segments_cross_or_overlap(*s, *t)
    }
    result = []

    def extend(chosen, start):
        if len(chosen) == size:
            result.append(tuple(chosen))
            return
        for k in range(start, len(segments)):
            if all((c, segments[k]) in ok for c in chosen):
                chosen.append(segments[k])
                extend(chosen, k + 1)
                chosen.pop()

    extend([], 0)
    return result


# --- regions from face sets -------------------------------------------------


def region_spec(universe, faces):
    """The unique valid region whose interior is that of closure(faces).

    The interior of a polygon is connected and its rings are simple, so
    components give the polygons, and splitting closed boundary walks at
    repeated vertices gives the rings.
    """
    polygons = [
        component_polygon(universe, c) for c in universe.components(faces)
    ]
    polygons.sort()
    if not polygons:
        return ('E',)
    if len(polygons) == 1:
        return ('P', polygons[0])
    return ('MP', tuple(polygons))


def component_polygon(universe, faces):
    _, boundary = universe.region_edges(faces)
    nexts = {}
    e = boundary
    while e:
        low = e & -e
        i = low.bit_length() - 1
        e ^= low
        u, v = universe.edges[i]
        l, _ = universe.edge_sides[i]
        if not (l >= 0 and faces >> l & 1):
            u, v = v, u
        nexts.setdefault(u, []).append(v)
    rings = []
    # the interior stays on the left of every boundary edge; at a vertex
    # passed several times, walks are cut so that each ring is simple
    while nexts:
        start = next(iter(nexts))
        walk, where = [start], {start: 0}
        while True:
            u = walk[-1]
            targets = nexts.get(u)
            if not targets:
                break
            v = targets.pop()
            if not targets:
                del nexts[u]
            if v in where:
                cut = where[v]
                rings.append(walk[cut:])
                for w in walk[cut + 1 :]:
                    del where[w]
                del walk[cut + 1 :]
                if cut == 0 and v not in nexts:
                    break
            else:
                where[v] = len(walk)
                walk.append(v)
    borders, holes = [], []
    for ring in rings:
        points = [universe.vertices[w] for w in ring]
        points = tuple(
            p
            for i, p in enumerate(points)
            if orient(points[i - 1], p, points[(i + 1) % len(points)])
        )
        least = points.index(min(points))
        points = points[least:] + points[:least]
        area = doubled_area(points)
        assert area
        (borders if area > 0 else holes).append(points)
    assert len(borders) == 1, (borders, holes)
    s = universe.scale
    unscale = lambda ring: tuple(_unscaled(p, s) for p in ring)
    return unscale(borders[0]), tuple(sorted(map(unscale, holes)))


def _unscaled(p, s):
    from fractions import Fraction

    x, y = Fraction(p[0], s), Fraction(p[1], s)
    return (
        int(x) if x.denominator == 1 else x,
        int(y) if y.denominator == 1 else y,
    )
