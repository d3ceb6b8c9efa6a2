"""Executable cases: each runs the real code and compares with the model."""

import itertools
import math
import re
import sys
from fractions import Fraction
from functools import lru_cache

from . import families, impl, model
from .families import canonical_ring, canonical_spec
from .shapes import between, doubled_area, is_simple, orient, region_spec
from .universe import universe

CASES = {}
EXPANSIONS = {}


class Violation(Exception):
    pass


def case(function):
    CASES[function.__name__] = function
    return function


def expansion(function):
    EXPANSIONS[function.__name__] = function
    return function


def expand(row):
    return EXPANSIONS[row[0]](*row[1:])


def cells(key, spec):
    return _cells(key, spec)


@lru_cache(maxsize=200_000)
def _cells(key, spec):
    return model.cells(universe(key), spec)


@lru_cache(maxsize=100_000)
def _canonical_region(key, faces):
    return canonical_spec(region_spec(universe(key), faces))


@lru_cache(maxsize=100_000)
def _region_boundary(key, faces):
    return universe(key).region_edges(faces)[1]


_F = Fraction
AFFINES = {
    'id': impl.IDENTITY,
    'rot90': impl.Affine(0, -1, 0, 1, 0, 0),
    'rot180': impl.Affine(-1, 0, 0, 0, -1, 0),
    'transpose': impl.Affine(0, 1, 0, 1, 0, 0),
    'mirror': impl.Affine(-1, 0, 0, 0, 1, 0),
    'shear': impl.Affine(1, 1, 0, 0, 1, 0),
    'shear_y': impl.Affine(1, 0, 0, -3, 1, 0),
    'thirds': impl.Affine(
        _F(1, 3), _F(1, 7), _F(-5, 11), _F(-2, 5), _F(1, 3), _F(1, 2)
    ),
    'far': impl.Affine(1, 0, 2**60 + 1, 0, 1, -(2**61) - 3),
    'huge': impl.Affine(
        10**25 + 7, 3, -(10**30), -5, 10**25 + 9, 10**29 + 1
    ),
    'tiny': impl.Affine(
        _F(1, 10**21), 0, 1, 0, _F(1, 10**21), _F(-1, 10**9 + 7)
    ),
    'needle': impl.Affine(10**18, 0, 0, 0, _F(1, 10**18), 0),
    'steep': impl.Affine(1, 0, 0, 10**19, 1, 0),
    'similar': impl.Affine(3, -4, 1, 4, 3, -7),
    'similar_tiny': impl.Affine(
        _F(3, 10**17), _F(-4, 10**17), 1, _F(4, 10**17), _F(3, 10**17), 2
    ),
    'similar_far': impl.Affine(-5, 12, 2**70, -12, -5, -(2**71)),
    # all coordinates have the same hash
    'collide': impl.Affine(2**61 - 1, 0, 0, 0, 2**61 - 1, 1 - 2**61),
    # -1 and -2 have the same hash
    'negative': impl.Affine(1, 0, -2, 0, 1, -2),
    'quarter': impl.Affine(_F(1, 4), 0, _F(-3, 8), 0, _F(1, 4), _F(5, 16)),
}


def fmt(spec):
    text = repr(spec)
    return text if len(text) < 400 else text[:400] + '...'


# --- boolean operations --------------------------------------------------------

OPERATORS = {
    'and': lambda a, b: a & b,
    'or': lambda a, b: a | b,
    'sub': lambda a, b: a - b,
    'xor': lambda a, b: a ^ b,
}


def expected_cells(op, a, b):
    """(faces, edges) that the result has to have (edges None: any)."""
    if (a.kind in model.LINEAR or b.kind in model.LINEAR) and (
        a.faces or b.faces
    ):
        if op == 'and':
            line, region = (b, a) if a.faces else (a, b)
            return 0, line.edges & (region.edges | region.inner_edges)
        assert op == 'sub' and b.faces, op
        return 0, a.edges & ~(b.edges | b.inner_edges)
    rule = model.OPS[op][1]
    if a.faces or b.faces:
        return rule(a.faces, b.faces), None
    return 0, rule(a.edges, b.edges)


def check_result(key, result, faces, edges, strict):
    """The spec read from the code under test against the expected cells."""
    if result[0] == '?':
        return f'result is not a geometry: {result[1]}'
    u = universe(key)
    try:
        got = model.cells(u, result)
    except model.Mismatch as error:
        return f'result {fmt(result)} is not valid: {error}'
    if edges is None:
        if result[0] not in ('E', 'P', 'MP'):
            return f'result {fmt(result)} is not a region'
        if got.faces != faces:
            return f'result {fmt(result)} is not the expected point set'
        if got.edges != _region_boundary(key, faces):
            return f'result {fmt(result)} has another boundary'
        if strict:
            redundant = model.redundant_vertices(result)
            if redundant:
                return (
                    f'result {fmt(result)} has redundant vertices {redundant}'
                )
            want = _canonical_region(key, faces)
            if canonical_spec(result) != want and not (
                model.has_linked_holes(u, result)
            ):
                return (
                    f'result {fmt(result)} is not the canonical form of the '
                    f'point set, which is {fmt(want)}'
                )
    else:
        if got.faces:
            return f'result {fmt(result)} is not linear'
        if got.edges != edges:
            return f'result {fmt(result)} is not the expected point set'
    return None


@case
def op(case, rec, strict=False):
    """('op', universe, affine, operation, first, second)"""
    _, key, affine, name, first, second = case
    transform = AFFINES[affine]
    a, b = cells(key, first), cells(key, second)
    rec.state(key, a.kind, a.faces, a.edges, b.kind, b.faces, b.edges)
    faces, edges = expected_cells(name, a, b)
    value = OPERATORS[name](
        impl.build(first, transform), impl.build(second, transform)
    )
    result = impl.read(value, transform)
    rec.call(3)  # two constructions and the operation
    rec.outcome(f'{name} -> {result[0]}')
    message = check_result(key, result, faces, edges, strict)
    if message is None:
        rec.state(key, faces, edges or 0)
        return None
    return f'{name}: {message}'


@case
def canonical(case, rec):
    """As op, and the result has to be the unique minimal presentation."""
    return op(case, rec, strict=True)


@expansion
def product(kind, names, affine, first, i, second, lo, hi):
    """Operations `names` on first[i] and second[lo:hi]."""
    key, firsts = families.get(first)
    key_, seconds = families.get(second)
    assert key == key_, (first, second)
    a = firsts[i]
    for b in seconds[lo:hi]:
        for name in names:
            if name == 'sub' and a[0] == 'S' and b[0] in ('P', 'MP'):
                continue  # not supported
            yield (kind, key, affine, name, a, b)


def product_rows(
    kind, names, affine, first, second, chunk=40, triangle=False
):
    """Rows for all pairs, or for i <= j only."""
    key, firsts = families.get(first)
    _, seconds = families.get(second)
    rows = []
    for i in range(len(firsts)):
        start = i if triangle else 0
        for lo in range(start, len(seconds), chunk):
            rows.append(
                (
                    'product',
                    kind,
                    tuple(names),
                    affine,
                    first,
                    i,
                    second,
                    lo,
                    min(lo + chunk, len(seconds)),
                )
            )
    return rows


# --- relations ------------------------------------------------------------------


@case
def relate(case, rec):
    """('relate', universe, affine, -, first, second): both directions."""
    _, key, affine, _, first, second = case
    transform = AFFINES[affine]
    a, b = cells(key, first), cells(key, second)
    rec.state(key, a.kind, a.faces, a.edges, b.kind, b.faces, b.edges)
    u = universe(key)
    expected = model.relation(u, a, b)
    x, y = impl.build(first, transform), impl.build(second, transform)
    got = x.relate_to(y)
    rec.call()
    rec.outcome(f'{first[0]}-{second[0]} {got.name}')
    if got.name not in expected:
        return f'relation is {got.name}, should be {_names(expected)}'
    back = y.relate_to(x)
    rec.call()
    if back.name != model.COMPLEMENT[got.name]:
        return (
            f'relation is {got.name}, but the reverse one is {back.name}, '
            f'should be {_names({model.COMPLEMENT[r] for r in expected})}'
        )
    if getattr(got, 'complement', back) is not back:
        return f'complement of {got.name} is {got.complement}'
    return None


def _names(names):
    return ' or '.join(sorted(names))


@case
def relate_equal(case, rec):
    """relate_to of two presentations/copies of one geometry."""
    _, key, affine, _, first, second = case
    transform = AFFINES[affine]
    x, y = impl.build(first, transform), impl.build(second, transform)
    got = x.relate_to(y)
    rec.call()
    rec.state(key, canonical_spec(first))
    if got.name != 'EQUAL':
        return f'relation of equal geometries is {got.name}'
    return None


# --- location -------------------------------------------------------------------


@lru_cache(maxsize=None)
def probe_points(key):
    """Every vertex, a point of every face and edge, and points around."""
    u = universe(key)
    s = u.scale
    vertices = [
        (Fraction(x, s), Fraction(y, s), 'v', i)
        for i, (x, y) in enumerate(u.vertices)
    ]
    faces = [
        (Fraction(sx, k * s), Fraction(sy, k * s), 'f', i)
        for i, (sx, sy, k) in enumerate(u.face_points)
    ]
    edges = [
        (
            Fraction(u.vertices[a][0] + u.vertices[b][0], 2 * s),
            Fraction(u.vertices[a][1] + u.vertices[b][1], 2 * s),
            'e',
            i,
        )
        for i, (a, b) in enumerate(u.edges)
    ]
    xs, ys = ({p[i] for p in u.grid} for i in (0, 1))
    left, right = min(xs) - 1, max(xs) + 1
    bottom, top = min(ys) - 1, max(ys) + 1
    around = []
    for x in sorted({left, right, *xs}):
        for y in (bottom, top):
            around.append((x, y, 'o', 0))
    for y in sorted(ys):
        for x in (left, right):
            around.append((x, y, 'o', 0))
    around += [(10**20, 1, 'o', 0), (0, -(10**20), 'o', 0)]
    return tuple(vertices + faces + edges + around)


def expected_location(geometry, probe):
    _, _, kind, i = probe
    bit = 1 << i
    if kind == 'o':
        return 'EXTERIOR'
    if kind == 'v':
        if geometry.verts & bit:
            return 'BOUNDARY'
        return 'INTERIOR' if geometry.inner_verts & bit else 'EXTERIOR'
    if kind == 'e':
        if geometry.edges & bit:
            return 'BOUNDARY'
        return 'INTERIOR' if geometry.inner_edges & bit else 'EXTERIOR'
    return 'INTERIOR' if geometry.faces & bit else 'EXTERIOR'


@case
def locate(case, rec):
    """('locate', universe, affine, spec): every probe point."""
    _, key, affine, spec = case
    transform = AFFINES[affine]
    geometry = cells(key, spec)
    rec.state(key, geometry.kind, geometry.faces, geometry.edges)
    value = impl.build(spec, transform)
    for probe in probe_points(key):
        point = impl.make_point(probe[:2], transform)
        want = expected_location(geometry, probe)
        got = value.locate(point)
        rec.call(2)
        if got.name != want:
            return f'{fmt_point(probe)} is located {got.name}, not {want}'
        if (point in value) is not (want != 'EXTERIOR'):
            return f'{fmt_point(probe)}: `in` contradicts location {want}'
    rec.outcome(spec[0])
    return None


def fmt_point(probe):
    return f'({probe[0]}, {probe[1]})'


@expansion
def unary(kind, affine, name, lo, hi, *extra):
    key, specs = families.get(name)
    for spec in specs[lo:hi]:
        yield (kind, key, affine, spec, *extra)


def unary_rows(kind, affine, name, chunk=8, *extra):
    _, specs = families.get(name)
    return [
        ('unary', kind, affine, name, lo, min(lo + chunk, len(specs)), *extra)
        for lo in range(0, len(specs), chunk)
    ]


# --- trapezoidation -------------------------------------------------------------


@case
def trapezoidation(case, rec):
    """('trapezoidation', universe, affine, spec, first seed, last seed)"""
    _, key, affine, spec, first, last = case
    return _trapezoidations(
        key, affine, spec, rec, lambda value: range(first, last)
    )


@case
def trapezoidation_large(case, rec):
    """('trapezoidation_large', universe, affine, spec): seeds of any size."""
    _, key, affine, spec = case
    orders = math.factorial(size_in_segments(spec))
    return _trapezoidations(
        key,
        affine,
        spec,
        rec,
        lambda value: sorted(
            {
                seed
                for power in range(64)
                for seed in (
                    2**power - 1,
                    2**power,
                    3**power,
                    orders * power,
                    orders + power,
                )
                if seed <= sys.maxsize
            }
            | {sys.maxsize - offset for offset in range(3)}
        ),
    )


@case
def trapezoidation_deep(case, rec):
    """('trapezoidation_deep', universe, affine, spec): degenerate orders.

    The search graph is a list then: its depth is a multiple of the count of
    edges, and no more than about 200 of the probes can be afforded.
    """
    _, key, affine, spec = case
    return _trapezoidations(
        key, affine, spec, rec, lambda value: (0, 1), limit=200
    )


def _trapezoidations(key, affine, spec, rec, seeds, limit=None):
    transform = AFFINES[affine]
    geometry = cells(key, spec)
    value = impl.build(spec, transform)
    probes = [
        (probe, impl.make_point(probe[:2], transform))
        for probe in probe_points(key)
        if probe[2] != 'e' or len(probe_points(key)) < 300
    ]
    if limit is not None:
        probes = probes[:: max(1, len(probes) // limit)] + probes[-5:]
    make = (
        impl.exact.Trapezoidation.from_polygon
        if spec[0] == 'P'
        else impl.exact.Trapezoidation.from_multisegment
    )
    for seed in seeds(value):
        graph = make(value, seeder=lambda: seed)
        rec.state(key, geometry.faces, geometry.edges, seed)
        rec.call()
        for probe, point in probes:
            want = expected_location(geometry, probe)
            got = graph.locate(point)
            if got.name != want:
                return (
                    f'seed {seed}: {fmt_point(probe)} is located {got.name}, '
                    f'not {want}'
                )
            if (point in graph) is not (want != 'EXTERIOR'):
                return f'seed {seed}: {fmt_point(probe)}: `in` contradicts'
        rec.call(2 * len(probes))
        if not graph.height >= 1:
            return f'height is {graph.height}'
    return None


@case
def trapezoidation_default(case, rec):
    """('trapezoidation_default', universe, affine, spec): seeder omitted.

    The seed is random then, so the assertion has to hold for any: all
    values of the seed are explored by the case above.
    """
    _, key, affine, spec = case
    geometry = cells(key, spec)
    value = impl.build(spec)
    make = (
        impl.exact.Trapezoidation.from_polygon
        if spec[0] == 'P'
        else impl.exact.Trapezoidation.from_multisegment
    )
    import random

    count = size_in_segments(spec)
    state = random.getstate()
    original = random.randint
    try:
        for seed in range(-2, count + 3):
            # own the nondeterminism: every value the library may draw
            def randint(lo, hi, seed=seed):
                return min(max(lo, seed), hi)

            random.randint = randint
            graph = make(value)
            rec.call()
            for probe in probe_points(key):
                got = graph.locate(impl.make_point(probe[:2]))
                rec.call()
                want = expected_location(geometry, probe)
                if got.name != want:
                    return (
                        f'default seeder: {fmt_point(probe)} is located '
                        f'{got.name}, not {want}'
                    )
    finally:
        random.randint = original
        random.setstate(state)
    rec.state(key, geometry.faces, geometry.edges)
    return None


def size_in_segments(spec):
    return len(spec[1]) if spec[0] == 'M' else families.size(spec)


# --- triangulations --------------------------------------------------------------


def in_circle(p, a, b, c):
    """Positive if p is inside of the circle of the ccw triangle abc."""
    ax, ay = a[0] - p[0], a[1] - p[1]
    bx, by = b[0] - p[0], b[1] - p[1]
    cx, cy = c[0] - p[0], c[1] - p[1]
    return (
        (ax * ax + ay * ay) * (bx * cy - by * cx)
        - (bx * bx + by * by) * (ax * cy - ay * cx)
        + (cx * cx + cy * cy) * (ax * by - ay * bx)
    )


def convex_hull(points):
    points = sorted(points)

    def half(ps):
        result = []
        for p in ps:
            while len(result) > 1 and orient(result[-2], result[-1], p) <= 0:
                result.pop()
            result.append(p)
        return result[:-1]

    return half(points) + half(points[::-1])


def read_triangles(triangles, transform):
    result = []
    for triangle in triangles:
        kind, ring = impl.read(triangle, transform)
        if kind != 'C' or len(ring) != 3:
            raise Violation(f'not a triangle: {ring}')
        area = doubled_area(ring)
        if not area:
            raise Violation(f'degenerate triangle {ring}')
        result.append(ring if area > 0 else ring[::-1])
    return result


@case
def delaunay(case, rec):
    """('delaunay', affine, points)"""
    _, affine, points = case
    transform = AFFINES[affine]
    value = impl.exact.DelaunayTriangulation.from_points(
        [impl.make_point(p, transform) for p in points]
    )
    rec.call()
    triangles = read_triangles(value.triangles, transform)
    rec.call()
    given = set(points)
    sites = sorted(given)
    rec.state(affine, *sites)
    rec.outcome(f'{len(triangles)} triangles')
    if bool(value) is not (len(sites) >= 2):
        return f'truth value is {bool(value)} for {len(sites)} sites'
    hull = convex_hull(sites)
    if len(hull) < 3:
        if triangles:
            return f'triangles of collinear points: {triangles}'
        try:
            border = value.border
        except ValueError:
            return None
        return f'border of collinear points: {border}'
    border = impl.read(value.border, transform)[1]
    rec.call()
    if canonical_ring(border) != canonical_ring(tuple(hull)):
        return f'border is {border}, the convex hull is {hull}'
    if len({frozenset(t) for t in triangles}) != len(triangles):
        return 'triangle is repeated'
    area = 0
    for t in triangles:
        area += doubled_area(t)
        for p in t:
            if p not in given:
                return f'vertex {p} is not a site'
        for p in sites:
            if in_circle(p, *t) > 0:
                return f'site {p} is inside of the circle of {t}'
    if area != doubled_area(hull):
        return f'doubled area is {area}, of the hull {doubled_area(hull)}'
    on_hull = sum(
        any(
            orient(a, b, p) == 0 and min(a, b) <= p <= max(a, b)
            for a, b in zip(hull, hull[1:] + hull[:1])
        )
        for p in sites
    )
    if len(triangles) != 2 * len(sites) - 2 - on_hull:
        return f'{len(triangles)} triangles for {len(sites)} sites'
    return None


@expansion
def point_sets(affine, w, h, lo, hi, order):
    grid = [(x, y) for x in range(w) for y in range(h)]
    for bits in range(lo, hi):
        points = [p for k, p in enumerate(grid) if bits >> k & 1]
        if not points:
            continue
        if order == 'sorted':
            yield ('delaunay', affine, tuple(points))
        elif order == 'reversed':
            yield ('delaunay', affine, tuple(points[::-1]))
        elif order == 'repeated':
            yield ('delaunay', affine, tuple(points + points[::-1]))
        else:
            assert order == 'orders'
            for permutation in itertools.permutations(points):
                yield ('delaunay', affine, permutation)


def point_set_rows(affine, w, h, order='sorted', chunk=256):
    total = 1 << (w * h)
    return [
        ('point_sets', affine, w, h, lo, min(lo + chunk, total), order)
        for lo in range(0, total, chunk)
    ]


@expansion
def small_point_sets(affine, w, h, count, lo, hi, order):
    grid = [(x, y) for x in range(w) for y in range(h)]
    for points in itertools.islice(
        itertools.combinations(grid, count), lo, hi
    ):
        if order == 'orders':
            for permutation in itertools.permutations(points):
                yield ('delaunay', affine, permutation)
        else:
            yield ('delaunay', affine, points)


def small_point_set_rows(affine, w, h, count, order='sorted', chunk=128):
    from math import comb

    total = comb(w * h, count)
    return [
        (
            'small_point_sets',
            affine,
            w,
            h,
            count,
            lo,
            min(lo + chunk, total),
            order,
        )
        for lo in range(0, total, chunk)
    ]


@expansion
def listed(cases_):
    yield from cases_


def listed_rows(cases_, chunk=4):
    cases_ = list(cases_)
    return [
        ('listed', tuple(cases_[lo : lo + chunk]))
        for lo in range(0, len(cases_), chunk)
    ]


def crosses_properly(a, b, c, d):
    return (
        orient(a, b, c) * orient(a, b, d) < 0
        and orient(c, d, a) * orient(c, d, b) < 0
    )


def inside(point, scale, edges):
    """Whether point / scale is inside of the edges by the parity rule."""
    x, y = point
    result = False
    for (ax, ay), (bx, by) in edges:
        ax, ay, bx, by = ax * scale, ay * scale, bx * scale, by * scale
        if (ay > y) is not (by > y):
            if ay > by:
                ax, ay, bx, by = bx, by, ax, ay
            if (bx - ax) * (y - ay) - (by - ay) * (x - ax) > 0:
                result = not result
    return result


def separated(first, second):
    """Whether a side of one of the ccw triangles separates them."""
    return any(
        all(orient(t[i - 1], t[i], p) <= 0 for p in other)
        for t, other in ((first, second), (second, first))
        for i in range(3)
    )


@case
def constrained(case, rec):
    """('constrained', universe, affine, spec)

    The affine map has to be a similarity.
    """
    _, key, affine, spec = case
    transform = AFFINES[affine]
    geometry = cells(key, spec)
    border, holes = spec[1]
    value = impl.exact.ConstrainedDelaunayTriangulation.from_polygon(
        impl.build(spec, transform)
    )
    rec.call()
    triangles = read_triangles(value.triangles, transform)
    rec.call()
    rec.state(key, geometry.faces, geometry.edges)
    rec.outcome(f'{len(triangles)} triangles')
    if not value:
        return 'truth value is False'
    corners = {p for ring in (border, *holes) for p in ring}
    edges = [
        (p, ring[i - 1]) for ring in (border, *holes)
        for i, p in enumerate(ring)
    ]  # fmt: skip
    sides = {}
    for t in triangles:
        for p in t:
            if p not in corners:
                return f'vertex {p} of a triangle is not one of polygon'
        a, b, c = t
        for p in corners.difference(t):
            if min(orient(a, b, p), orient(b, c, p), orient(c, a, p)) >= 0:
                return f'vertex {p} of polygon lies on triangle {t}'
        for i in range(3):
            a, b, c = t[i], t[(i + 1) % 3], t[(i + 2) % 3]
            for p, q in edges:
                if crosses_properly(a, b, p, q):
                    return f'side {a}-{b} of a triangle crosses {p}-{q}'
            sides.setdefault(frozenset((a, b)), []).append((a, b, c))
        x, y, k = sum(p[0] for p in t), sum(p[1] for p in t), 3
        if not inside((x, y), k, edges):
            return f'triangle {t} is not inside of the polygon'
    for t, o in itertools.combinations(triangles, 2):
        if not separated(t, o):
            return f'triangles {t} and {o} overlap'
    area = abs(doubled_area(border)) - sum(map(abs, map(doubled_area, holes)))
    if sum(map(doubled_area, triangles)) != area:
        return f'triangles {triangles} do not tile the polygon'
    for side, uses in sides.items():
        a, b = side
        on_boundary = any(
            orient(p, q, a) == orient(p, q, b) == 0
            and between(p, q, a) and between(p, q, b)
            for p, q in edges
        )  # fmt: skip
        if len(uses) != (1 if on_boundary else 2):
            return f'side {a}-{b} belongs to {len(uses)} triangles'
        if not on_boundary:
            (p, q, r), (_, _, s) = uses
            if in_circle(s, p, q, r) > 0:
                return f'side {a}-{b} is not locally Delaunay'
    want = [
        p
        for i, p in enumerate(border)
        if orient(border[i - 1], p, border[(i + 1) % len(border)])
    ]
    got = impl.read(value.border, transform)[1]
    rec.call()
    if canonical_ring(got) != canonical_ring(tuple(want)):
        return f'border is {got}'
    return None


# --- validity -------------------------------------------------------------------


@case
def valid_contour(case, rec):
    """('valid_contour', universe, affine, vertices)"""
    _, key, affine, ring = case
    try:
        model.cells(universe(key), ('C', ring))
        want = not model._collinear_vertices(ring)
    except model.Mismatch:
        want = False
    got = impl.build(('C', ring), AFFINES[affine]).is_valid()
    rec.call(2)
    rec.state(key, affine, ring)
    rec.outcome(f'contour {got}')
    if got is not want:
        return f'is_valid() of contour {ring} is {got}'
    return None


@case
def valid_ring(case, rec):
    """('valid_ring', affine, vertices): of any coordinates"""
    _, affine, ring = case
    want = is_simple(ring)
    got = impl.build(('C', ring), AFFINES[affine]).is_valid()
    rec.call(2)
    rec.state(affine, ring)
    rec.outcome(f'ring {got}')
    if got is not want:
        return f'is_valid() of contour {ring} is {got}'
    return None


@case
def valid_multisegment(case, rec):
    """('valid_multisegment', universe, affine, segments)"""
    _, key, affine, segments = case
    try:
        model.cells(universe(key), ('M', segments))
        want = True
    except model.Mismatch:
        want = False
    got = impl.build(('M', segments), AFFINES[affine]).is_valid()
    rec.call(2)
    rec.state(key, affine, segments)
    rec.outcome(f'multisegment {got}')
    if got is not want:
        return f'is_valid() of multisegment {segments} is {got}'
    return None


@expansion
def vertex_sequences(key, affine, count, first, permutations):
    """All sequences of grid points that start with the given ones."""
    u = universe(key)
    grid = u.grid
    rest = count - len(first)
    if permutations:
        pool = [p for p in grid if p not in first]
        tails = itertools.permutations(pool, rest)
    else:
        tails = itertools.product(grid, repeat=rest)
    for tail in tails:
        yield ('valid_contour', key, affine, (*first, *tail))


def vertex_sequence_rows(key, affine, count, permutations, prefix=1):
    grid = universe(key).grid
    firsts = (
        itertools.permutations(grid, prefix)
        if permutations
        else itertools.product(grid, repeat=prefix)
    )
    return [
        ('vertex_sequences', key, affine, count, first, permutations)
        for first in firsts
    ]


@expansion
def segment_sets(key, affine, count, first, flips):
    """All multisets of grid segments whose least one is given."""
    u = universe(key)
    segments = list(itertools.combinations(u.grid, 2))
    for tail in itertools.combinations_with_replacement(
        range(first, len(segments)), count - 1
    ):
        chosen = [segments[first], *(segments[i] for i in tail)]
        yield ('valid_multisegment', key, affine, tuple(chosen))
        if flips:
            yield (
                'valid_multisegment',
                key,
                affine,
                tuple(
                    s if k % 2 else s[::-1]
                    for k, s in enumerate(reversed(chosen))
                ),
            )


def segment_set_rows(key, affine, count, flips=False):
    grid = universe(key).grid
    total = len(grid) * (len(grid) - 1) // 2
    return [
        ('segment_sets', key, affine, count, first, flips)
        for first in range(total)
    ]


@expansion
def arranged_subsets(key, affine, segments, lo, hi):
    """All parts of the listed segments (in their order)."""
    for bits in range(lo, hi):
        part = tuple(s for i, s in enumerate(segments) if bits >> i & 1)
        if len(part) > 1:
            yield ('valid_multisegment', key, affine, part)


def arranged_subset_rows(key, affine, segments, chunk=256):
    return [
        ('arranged_subsets', key, affine, segments, lo, lo + chunk)
        for lo in range(0, 1 << len(segments), chunk)
    ]


@expansion
def disturbed(affine, name, lo, hi):
    """Rings with a vertex moved to any place or any two vertices swapped."""
    key, specs = families.get(name)
    grid = universe(key).grid
    for _, ring in specs[lo:hi]:
        yield ('valid_ring', affine, ring)
        for i in range(len(ring)):
            for p in grid:
                if p != ring[i]:
                    yield (
                        'valid_ring',
                        affine,
                        (*ring[:i], p, *ring[i + 1 :]),
                    )
            for j in range(i):
                other = list(ring)
                other[i], other[j] = other[j], other[i]
                yield ('valid_ring', affine, tuple(other))


def disturbed_rows(affine, name, chunk=2):
    return [
        ('disturbed', affine, name, lo, lo + chunk)
        for lo in range(0, len(families.get(name)[1]), chunk)
    ]


@expansion
def spoiled(affine, key, spec, lo, hi):
    """A large contour or multisegment with one spoiled place."""
    kind, data = spec
    for i in range(lo, hi):
        if kind == 'C':
            other = list(data)
            other[i - 1], other[i] = other[i], other[i - 1]
            yield ('valid_ring', affine, tuple(other))
            yield ('valid_ring', affine, (*data[:i], data[i - 3], *data[i:]))
            middle = tuple(
                Fraction(a + b, 2) for a, b in zip(data[i - 1], data[i])
            )
            yield ('valid_ring', affine, (*data[:i], middle, *data[i:]))
        else:
            yield (
                'valid_multisegment',
                key,
                affine,
                (*data[i:], data[i][::-1], *data[:i]),
            )
            yield ('valid_multisegment', key, affine, (*data[i:], *data[:i]))


def spoiled_rows(affine, name, chunk=8, step=1):
    key, specs = families.get(name)
    return [
        ('spoiled', affine, key, spec, lo, min(lo + chunk, len(spec[1])))
        for spec in specs
        if spec[0] in 'CM'
        for lo in range(0, len(spec[1]), chunk * step)
    ]


@expansion
def subsets_of(kind, affine, points, lo, hi):
    """All parts of the listed points (in their order)."""
    for bits in range(lo, hi):
        part = tuple(p for i, p in enumerate(points) if bits >> i & 1)
        yield (kind, affine, part)


@expansion
def prefixes_of(kind, affine, points, lo, hi, step):
    """The first points of the list, for any count."""
    for count in range(lo, hi, step):
        yield (kind, affine, points[:count])


def subset_rows(kind, affine, points, chunk=64):
    return [
        (
            'subsets_of',
            kind,
            affine,
            points,
            lo,
            min(lo + chunk, 1 << len(points)),
        )
        for lo in range(0, 1 << len(points), chunk)
    ]


# --- boxes ----------------------------------------------------------------------


def _interval(a, b):
    """Order type of two proper intervals as sets of the line."""
    return {
        'interiors': max(a[0], b[0]) < min(a[1], b[1]),
        'closures': max(a[0], b[0]) <= min(a[1], b[1]),
    }


@case
def box(case, rec):
    """('box', affine factor, first, second): (min_x, max_x, min_y, max_y)"""
    _, factor, first, second = case
    scale, offset = {
        'id': (1, 0),
        'huge': (10**30 + 1, -(10**31)),
        'tiny': (Fraction(1, 10**20), 1),
    }[factor]

    def make(b):
        return impl.exact.Box(
            *(impl._coordinate(scale * c + offset) for c in b)
        )

    x, y = make(first), make(second)
    rec.state(first, second)
    (ax, aX, ay, aY), (bx, bX, by, bY) = first, second
    disjoint = aX < bx or bX < ax or aY < by or bY < ay
    covers = ax < bx and bX < aX and ay < by and bY < aY
    within = bx < ax and aX < bX and by < ay and aY < bY
    equal = first == second
    proper = ax < aX and ay < aY and bx < bX and by < bY
    checks = [
        ('disjoint_with', disjoint),
        ('covers', covers),
        ('within', within),
        ('equals_to', equal),
    ]
    if proper:
        interiors = max(ax, bx) < min(aX, bX) and max(ay, by) < min(aY, bY)
        a_in_b = bx <= ax and aX <= bX and by <= ay and aY <= bY
        b_in_a = ax <= bx and bX <= aX and ay <= by and bY <= aY
        enclosed = a_in_b and not within and not equal
        encloses = b_in_a and not covers and not equal
        touches = not disjoint and not interiors
        overlaps = interiors and not a_in_b and not b_in_a
        checks += [
            ('enclosed_by', enclosed),
            ('encloses', encloses),
            ('touches', touches),
            ('overlaps', overlaps),
        ]
        relation = (
            'DISJOINT' if disjoint
            else 'TOUCH' if touches
            else 'EQUAL' if equal
            else 'COVER' if covers
            else 'WITHIN' if within
            else 'ENCLOSES' if encloses
            else 'ENCLOSED' if enclosed
            else 'OVERLAP'
        )  # fmt: skip
        got = x.relate_to(y).name
        rec.call()
        rec.outcome(got)
        if got != relation:
            return f'relation of boxes is {got}, not {relation}'
    for name, want in checks:
        got = getattr(x, name)(y)
        rec.call()
        if got is not want:
            return f'{name} is {got}'
    if (x == y) is not equal or (x != y) is equal:
        return 'equality of boxes'
    if equal and hash(x) != hash(y):
        return 'hash of equal boxes'
    got = tuple(
        impl.scalar(c) for c in (x.min_x, x.max_x, x.min_y, x.max_y)
    )
    if got != tuple(scale * c + offset for c in first):
        return f'coordinates of box are {got}'
    if not x.is_valid():
        return 'is_valid is False'
    return None


@case
def box_valid(case, rec):
    """('box_valid', -, box): bounds in any order."""
    _, _, b = case
    rec.state(b)
    rec.call()
    want = b[0] <= b[1] and b[2] <= b[3]
    got = impl.exact.Box(*b).is_valid()
    if got is not want:
        return f'is_valid of Box{b} is {got}'
    return None


@case
def bounding(case, rec):
    """('bounding', universe, affine, spec)"""
    _, key, affine, spec = case
    transform = AFFINES[affine]
    points = [transform.apply(p) for p in spec_points(spec)]
    b = impl.build(spec, transform).bounding_box
    rec.call(2)
    rec.state(key, affine, spec)
    got = tuple(
        impl.scalar(c) for c in (b.min_x, b.max_x, b.min_y, b.max_y)
    )
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    want = min(xs), max(xs), min(ys), max(ys)
    if got != want:
        return f'bounding box is {got}, not {want}'
    return None


@case
def bounding_cyclic(case, rec):
    """('bounding_cyclic', universe, affine, spec): whichever part is first."""
    _, key, affine, spec = case
    for other in cyclic_presentations(spec):
        message = bounding(('bounding', key, affine, other), rec)
        if message is not None:
            return f'{message} of {other}'
    return None


def spec_points(spec):
    kind = spec[0]
    if kind == 'E':
        return []
    data = spec[1]
    if kind in ('S', 'C'):
        return list(data)
    if kind == 'M':
        return [p for s in data for p in s]
    polygons = [data] if kind == 'P' else data
    return [
        p for border, holes in polygons for r in (border, *holes) for p in r
    ]


# --- presentations --------------------------------------------------------------


def ring_presentations(ring):
    n = len(ring)
    for start in range(n):
        rotated = (*ring[start:], *ring[:start])
        yield rotated
        yield (rotated[0], *reversed(rotated[1:]))


def few_ring_presentations(ring):
    yield ring
    yield ring[::-1]
    k = len(ring) // 2
    yield (*ring[k:], *ring[:k])


def presentations(spec, thorough=False):
    """Other presentations of the same geometry (with the given one)."""
    kind = spec[0]
    if kind == 'E':
        yield spec
        return
    data = spec[1]
    if kind == 'S':
        yield (kind, data)
        yield (kind, data[::-1])
    elif kind == 'C':
        for ring in ring_presentations(data):
            yield (kind, ring)
    elif kind == 'M':
        for order in itertools.permutations(data):
            for flips in itertools.product((1, -1), repeat=len(data)):
                yield (kind, tuple(s[::f] for s, f in zip(order, flips)))
    elif kind == 'P':
        border, holes = data
        if not holes:
            for ring in ring_presentations(border):
                yield (kind, (ring, ()))
        else:
            for order in itertools.permutations(holes):
                for rings in itertools.product(
                    few_ring_presentations(border),
                    *map(few_ring_presentations, order),
                ):
                    yield (kind, (rings[0], rings[1:]))
    else:
        for order in itertools.permutations(data):
            for flip in range(2):
                for shift in range(2):
                    for odd in range(2):
                        yield (
                            kind,
                            tuple(
                                _represent_polygon(
                                    p, flip ^ (odd & k), shift
                                )
                                for k, p in enumerate(order)
                            ),
                        )


def cyclic_presentations(spec):
    """A large geometry from every start, in both directions."""
    kind, data = spec
    border, holes = data if kind == 'P' else (data, ())
    for k in range(len(border)):
        for part in (
            (*border[k:], *border[:k]),
            (*border[k::-1], *border[:k:-1]),
        ):
            if kind == 'M' and k & 1:
                part = tuple(s[::-1] for s in part)
            if kind == 'P':
                n = len(holes)
                yield kind, (part, tuple(holes[(k + i) % n] for i in range(n)))
            else:
                yield kind, part


def _moved(spec):
    """The geometry with one coordinate of one of its points changed."""
    if isinstance(spec, (int, Fraction)):
        yield spec + Fraction(1, 1000)
        return
    for i, part in enumerate(spec):
        if isinstance(part, str):
            continue
        for other in _moved(part):
            yield (*spec[:i], other, *spec[i + 1 :])


def few_presentations(spec):
    """Some presentations of a large geometry."""
    kind, data = spec
    if kind in 'CSM':
        n = len(data)
        for k in sorted({0, 1, n // 2}):
            part = (*data[k:], *data[:k])
            if kind == 'M':
                yield (kind, part)
                yield (kind, tuple(s[::-1] for s in reversed(part)))
                yield (
                    kind,
                    tuple(s[:: 1 - 2 * (i & 1)] for i, s in enumerate(part)),
                )
            else:
                yield (kind, part)
                yield (kind, part[::-1])
    else:
        polygons = [data] if kind == 'P' else list(data)
        for flip, shift, odd in itertools.product((0, 1), (0, 1, 3), (0, 1)):
            parts = [
                _represent_polygon(p, flip ^ (odd & k), shift % len(p[0]))
                for k, p in enumerate(polygons)
            ]
            if kind == 'P':
                border, holes = parts[0]
                yield kind, ((border[::-1], holes) if odd else parts[0])
            else:
                yield kind, tuple(parts[::-1] if shift else parts)


def _represent_polygon(polygon, flip, shift):
    def ring(r):
        r = (*r[shift:], *r[:shift])
        return r[::-1] if flip else r

    border, holes = polygon
    holes = tuple(map(ring, holes))
    return ring(border), holes[::-1] if flip else holes


def all_operations(first, second):
    """Names of operations that are defined for the kinds."""
    a, b = first[0], second[0]
    if a in model.LINEAR and b in model.SHAPED:
        return ('and',) if a == 'S' else ('and', 'sub')
    if a in model.SHAPED and b in model.LINEAR:
        return ('and',)
    return ('and', 'or', 'sub', 'xor')


@case
def presentation(case, rec):
    """('presentation', universe, affine, -, first, second)

    Every presentation of first with the given one of second.
    """
    return _presented(case, rec, presentations(case[4]))


@case
def presentation_few(case, rec):
    """As above, some presentations of first."""
    return _presented(case, rec, few_presentations(case[4]))


def _presented(case, rec, specs):
    _, key, affine, _, first, second = case
    transform = AFFINES[affine]
    a, b = cells(key, first), cells(key, second)
    u = universe(key)
    relations = model.relation(u, a, b)
    y = impl.build(second, transform)
    before_y = impl.read(y, transform)
    for spec in specs:
        rec.state(key, spec, second)
        x = impl.build(spec, transform)
        before = impl.read(x, transform)
        for left, right, l_spec, r_spec, l_cells, r_cells in (
            (x, y, spec, second, a, b),
            (y, x, second, spec, b, a),
        ):
            for name in all_operations(l_spec, r_spec):
                value = OPERATORS[name](left, right)
                result = impl.read(value, transform)
                rec.call()
                message = check_result(
                    key, result, *expected_cells(name, l_cells, r_cells), True
                )
                if message is not None:
                    return (
                        f'{name} of {l_spec} and {r_spec}: {message}'
                    )
                again = impl.read(OPERATORS[name](left, right), transform)
                rec.call()
                if again != result:
                    return (
                        f'{name} of {l_spec} and {r_spec} gives {result} '
                        f'and then {again}'
                    )
        got = x.relate_to(y).name, y.relate_to(x).name
        rec.call(2)
        if got[0] not in relations or got[1] != model.COMPLEMENT[got[0]]:
            return f'relations of {spec} and {second} are {got}'
        if impl.read(x, transform) != before:
            return f'operand {spec} is changed to {impl.read(x, transform)}'
        if impl.read(y, transform) != before_y:
            return (
                f'operand {second} is changed to {impl.read(y, transform)}'
            )
    return None


# --- equality -------------------------------------------------------------------


@case
def equality(case, rec):
    """('equality', universe, affine, -, first, second)"""
    _, key, affine, _, first, second = case
    transform = AFFINES[affine]
    want = canonical_spec(first) == canonical_spec(second)
    x, y = impl.build(first, transform), impl.build(second, transform)
    rec.state(key, first, second)
    rec.outcome(f'{first[0]}{second[0]} {want}')
    rec.call(4)
    for left, right in ((x, y), (y, x)):
        if (left == right) is not want:
            return f'equality of {first} and {second} is not {want}'
        if (left != right) is want:
            return f'inequality of {first} and {second} is {want}'
    if want and hash(x) != hash(y):
        return f'hashes of equal {first} and {second} differ'
    if want != (len({x, y}) == 1):
        return f'set of {first} and {second}'
    return None


@case
def equal_presentations(case, rec):
    """('equal_presentations', universe, affine, spec)"""
    return _equal_presentations(case, rec, presentations(case[3]))


@case
def equal_few(case, rec):
    """As above, some presentations."""
    return _equal_presentations(case, rec, few_presentations(case[3]))


def _equal_presentations(case, rec, specs):
    _, key, affine, spec = case
    transform = AFFINES[affine]
    x = impl.build(spec, transform)
    h = hash(x)
    for other in specs:
        y = impl.build(other, transform)
        rec.state(key, other)
        rec.call(3)
        if not (x == y and y == x) or x != y or y != x:
            return f'{spec} and {other} are not equal'
        if hash(y) != h:
            return f'hashes of {spec} and {other} differ'
    return None


@case
def equal_cyclic(case, rec):
    """As above, every start of a large geometry."""
    return _equal_presentations(case, rec, cyclic_presentations(case[3]))


@case
def unequal_moved(case, rec):
    """('unequal_moved', universe, affine, spec): every point moved a bit."""
    _, key, affine, spec = case
    transform = AFFINES[affine]
    x = impl.build(spec, transform)
    for other in _moved(spec):
        y = impl.build(other, transform)
        rec.call(2)
        rec.state(key, affine, other)
        if x == y or not x != y or y == x or not y != x:
            return f'{spec} and {other} are equal'
    return None


@case
def distinct_from_others(case, rec):
    """Geometry is not equal to anything that is not a geometry."""
    _, key, affine, spec = case
    x = impl.build(spec)
    rec.state(key, spec)
    values = [x]
    if spec[0] != 'E':
        values.append(x.bounding_box)
        values.append(impl.make_point(spec_points(spec)[0]))
    others = (None, 0, 1.5, 'x', (), [], object(), impl.exact.Box(0, 1, 0, 1))
    for value in values:
        for other in (*others, *values, impl.make_point((-7, -7))):
            if type(other) is type(value):
                continue
            rec.call(2)
            if value == other or other == value or not value != other:
                return f'{value!r} is equal to {other!r}'
    return None


# --- chains ---------------------------------------------------------------------


@case
def step(case, rec):
    """('step', universe, affine, name, accumulator, operand)

    The accumulator is a result of earlier steps as it was presented.
    Emits the presentation of the result.
    """
    _, key, affine, name, first, second = case
    transform = AFFINES[affine]
    a, b = cells(key, first), cells(key, second)
    rec.state(key, a.faces, a.edges)
    faces, edges = expected_cells(name, a, b)
    value = OPERATORS[name](
        impl.build(first, transform), impl.build(second, transform)
    )
    result = impl.read(value, transform)
    rec.call(3)  # two constructions and the operation
    rec.outcome(f'{name} -> {result[0]}')
    message = check_result(key, result, faces, edges, True)
    if message is not None:
        return f'{name}: {message}'
    if edges is None and not model.has_linked_holes(universe(key), result):
        want = impl.build(region_spec(universe(key), faces), transform)
        if not value == want or hash(value) != hash(want):
            return (
                f'{name}: result is not equal to the same region reached '
                f'on another way: {value} != {want}'
            )
    rec.state(key, faces, edges or 0)
    rec.emit(result)
    return None


@case
def history(case, rec):
    """('history', universe, affine, start, ((op, operand, side), ...))

    Live objects: operands are shared by the steps, results are fed back.
    """
    _, key, affine, start, steps = case
    transform = AFFINES[affine]
    pool = {start: impl.build(start, transform)}
    for _, operand, _ in steps:
        if operand is not None and operand not in pool:
            pool[operand] = impl.build(operand, transform)
    before = {spec: impl.read(v, transform) for spec, v in pool.items()}
    value = pool[start]
    state = cells(key, start)
    result = start
    trace = []
    for name, operand, side in steps:
        if operand is None:  # the result so far with itself
            other, other_state, spec = value, state, result
        else:
            other, other_state = pool[operand], cells(key, operand)
            spec = operand
        specs = (result, spec) if side == 'l' else (spec, result)
        if name not in all_operations(*specs):
            break
        left, right = (value, other) if side == 'l' else (other, value)
        l, r = (state, other_state) if side == 'l' else (other_state, state)
        faces, edges = expected_cells(name, l, r)
        value = OPERATORS[name](left, right)
        result = impl.read(value, transform)
        trace.append(result)
        rec.call()
        message = check_result(key, result, faces, edges, True)
        if message is not None:
            return f'step {len(trace)} ({name}): {message}'
        state = model.cells(universe(key), result)
        rec.state(key, faces, edges or 0)
        for spec, v in pool.items():
            message = _queries(key, transform, spec, v, value, state, rec)
            if message is not None:
                return f'after step {len(trace)} ({name}): {message}'
    for spec, v in pool.items():
        if impl.read(v, transform) != before[spec]:
            return f'operand {spec} is changed to {impl.read(v, transform)}'
    return None


def _queries(key, transform, spec, operand, value, state, rec):
    """Questions to live objects between the steps of a history."""
    u = universe(key)
    a = cells(key, spec)
    got = operand.relate_to(value).name
    want = model.relation(u, a, state)
    rec.call()
    if got not in want:
        return f'relation of {spec} to result is {got}, not {_names(want)}'
    probes = probe_points(key)
    for geometry, asked in ((operand, a), (value, state)):
        if asked.kind == 'E':
            continue
        for probe in probes[:: max(len(probes) // 5, 1)]:
            expected = expected_location(asked, probe)
            point = impl.make_point(probe[:2], transform)
            rec.call()
            if geometry.locate(point).name != expected:
                return f'{fmt_point(probe)} is not located {expected}'
        b = geometry.bounding_box
        rec.call()
        points = [
            transform.apply(p)
            for p in spec_points(impl.read(geometry, transform))
        ]
        xs, ys = [p[0] for p in points], [p[1] for p in points]
        got = tuple(
            impl.scalar(c) for c in (b.min_x, b.max_x, b.min_y, b.max_y)
        )
        if got != (min(xs), max(xs), min(ys), max(ys)):
            return f'bounding box is {got}'
    return None


@expansion
def steps_of(key, affine, accumulator, operands):
    for operand in operands:
        for a, b in ((accumulator, operand), (operand, accumulator)):
            for name in all_operations(a, b):
                yield ('step', key, affine, name, a, b)


@expansion
def histories(key, affine, start, alphabet, first, depth):
    for rest in itertools.product(alphabet, repeat=depth - 1):
        yield ('history', key, affine, start, (first, *rest))


# --- text and sequences ----------------------------------------------------------


def _namespace():
    from rithm.fraction import Fraction as RithmFraction
    from rithm.integer import Int

    names = {
        n: getattr(impl.exact, n)
        for n in (
            'Box', 'Contour', 'Empty', 'Multipolygon', 'Multisegment',
            'Point', 'Polygon', 'Segment',
        )
    }  # fmt: skip
    names['Fraction'] = RithmFraction
    names['Int'] = Int
    return names


@case
def text(case, rec):
    """('text', universe, affine, spec): repr (and str) can be read back."""
    _, key, affine, spec = case
    transform = AFFINES[affine]
    rec.state(key, affine, spec)
    x = impl.build(spec, transform)
    names = _namespace()
    for kind, source in (
        ('repr', repr(x)),
        ('str', _plain(x)),
    ):
        rec.call()
        y = eval(source, {**names, 'F': _parse_scalar})
        if type(y) is not type(x) or impl.read(y, transform) != spec:
            return f'{kind} is {source}'
        if not x == y:
            return f'{kind} evaluates to unequal {y}'
    if spec[0] != 'E':
        b = x.bounding_box
        for value in (b, impl.make_point(transform.apply(spec_points(spec)[0]))):
            for kind, source in (('repr', repr(value)), ('str', _plain(value))):
                rec.call()
                again = eval(source, {**names, 'F': _parse_scalar})
                if type(again) is not type(value) or not value == again:
                    return f'{kind} of {type(value).__name__} is {source}'
    return None


def _plain(value):
    return re.sub(
        r'-?\d+(/\d+)?', lambda m: f"F('{m.group()}')", str(value)
    )


def _parse_scalar(source):
    return impl._coordinate(Fraction(source))


def views_of(value, spec):
    """(name, view, the same items as a tuple, reader)."""
    kind = spec[0]
    if kind == 'C':
        ring = spec[1]
        yield 'vertices', value.vertices, ring, impl.point_of
        yield (
            'segments',
            value.segments,
            tuple(zip(ring, ring[1:] + ring[:1])),
            lambda s: impl.read(s)[1],
        )
    elif kind == 'M':
        yield 'segments', value.segments, spec[1], lambda s: impl.read(s)[1]
    elif kind == 'P':
        yield 'holes', value.holes, spec[1][1], lambda c: impl.read(c)[1]
    elif kind == 'MP':
        yield 'polygons', value.polygons, spec[1], lambda p: impl.read(p)[1]


@case
def views(case, rec):
    """('views', universe, affine, spec): views behave as tuples do."""
    _, key, affine, spec = case
    rec.state(key, spec)
    x, twin = impl.build(spec), impl.build(spec)
    twins = {name: view for name, view, _, _ in views_of(twin, spec)}
    for name, view, items, read in views_of(x, spec):
        message = _check_view(rec, view, twins[name], items, read)
        if message is None:
            message = _check_rebuilt(rec, x, name, view, items, read)
        if message is not None:
            return f'{name} of {spec}: {message}'
    return None


def _check_rebuilt(rec, owner, name, view, items, read):
    """Geometries made of views and their parts are those made of lists."""
    e = impl.exact
    make, least = {
        'vertices': (e.Contour, 3),
        'segments': (e.Multisegment, 2),
        'holes': (lambda holes: e.Polygon(owner.border, holes), 0),
        'polygons': (e.Multipolygon, 2),
    }[name]
    bounds = [None, 0, 1, -1, len(items) // 2, len(items)]
    for start, stop, by in itertools.product(bounds, bounds, (None, -1, 2)):
        part, want = view[start:stop:by], items[start:stop:by]
        if len(want) < least:
            continue
        rec.call(4)
        first, second = make(part), make(list(view)[start:stop:by])
        for value in (first, second):
            remade = getattr(value, name)
            if tuple(read(i) for i in remade) != tuple(want):
                return f'what is made of [{start}:{stop}:{by}] is {value}'
            if type(remade) is type(part) and (
                not remade == part or hash(remade) != hash(part)
            ):
                return f'made of [{start}:{stop}:{by}] it is not equal to it'
        if first != second or hash(first) != hash(second):
            return f'made of [{start}:{stop}:{by}] and of list are not equal'
    return None


def _limits(n):
    """Bounds of slices of n items: all, or those at the ends and middle."""
    if n < 18:
        return list(range(-n - 1, n + 2))
    return [-n - 1, -n, -n + 1, -n // 2, -2, -1, 0, 1, n // 3, n - 1, n, n + 1]


def _check_view(rec, view, twin, items, read, depth=1):
    n = len(items)
    as_tuple = lambda v: tuple(read(i) for i in v)
    rec.call(6)
    if len(view) != n:
        return f'length is {len(view)}'
    if as_tuple(view) != tuple(items):
        return 'iteration differs'
    if as_tuple(reversed(view)) != tuple(items[::-1]):
        return 'reversed iteration differs'
    if n < 18:
        rec.call(2 + n)
        partly = iter(view)
        next(partly, None)
        nested = tuple((read(i), read(j)) for i in view for j in view)
        if nested != tuple(itertools.product(items, repeat=2)):
            return 'nested iteration differs'
        if tuple(map(read, partly)) != tuple(items[1:]):
            return 'interrupted iteration differs'
        if tuple((read(i), read(j)) for i, j in zip(view, view)) != tuple(
            zip(items, items)
        ):
            return 'iteration in step differs'
    if not view == twin or view != twin or hash(view) != hash(twin):
        return 'views of equal geometries are not equal'
    if view == as_tuple(view) or view == list(view):
        return 'view is equal to a tuple'
    objects = list(view)
    classes = [next(j for j in range(n) if objects[j] == o) for o in objects]
    for i in range(-n - 2, n + 2):
        rec.call()
        try:
            want = items[i]
        except IndexError:
            want = IndexError
        try:
            got = read(view[i])
        except IndexError:
            got = IndexError
        if got != want:
            return f'item {i} is {got}'
    for k, o in enumerate(objects):
        if n >= 18 and k not in (0, 1, n // 3, n - 1):
            continue
        equal = [j for j in range(n) if objects[j] == o]
        rec.call(3)
        if view.count(o) != len(equal):
            return f'count of item {k} is {view.count(o)}'
        if view.count(twin[k]) != len(equal):
            return f'count of an equal of item {k} is {view.count(twin[k])}'
        if twin[k] not in view or view.index(twin[k]) != equal[0]:
            return f'an equal of item {k} is not found'
        if o not in view:
            return f'item {k} is not contained'
        if view.index(o) != equal[0]:
            return f'index of item {k} is {view.index(o)}'
        bounds = [None, *_limits(n), -(10**30), 10**30]
        for start in bounds[1:]:
            for stop in bounds:
                rec.call()
                args = (start,) if stop is None else (start, stop)
                span = range(n)[start:stop]
                found = [j for j in equal if j in span]
                want = found[0] if found else ValueError
                try:
                    got = view.index(o, *args)
                except ValueError:
                    got = ValueError
                if got != want:
                    return f'index{args} of item {k} is {got}, not {want}'
    for stranger in (impl.make_point((97, 89)), None, 0):
        rec.call(2)
        if view.count(stranger) or stranger in view:
            return f'{stranger!r} is contained'
        try:
            view.index(stranger)
        except ValueError:
            continue
        return f'index of {stranger!r} is found'
    limits = [None, *_limits(n)[:: 1 + (n >= 18)]]
    if depth:
        limits += [-(10**30), 10**30]
    for start, stop, by in itertools.product(
        limits, limits, (None, 1, -1, 2, -2, 3)
    ):
        rec.call()
        part, want = view[start:stop:by], items[start:stop:by]
        if type(part) is not type(view):
            return f'type of slice is {type(part)}'
        if as_tuple(part) != tuple(want):
            return f'slice [{start}:{stop}:{by}] is {as_tuple(part)}'
        same = classes[start:stop:by] == classes
        if (part == view) is not same:
            return f'slice [{start}:{stop}:{by}] compares {not same}'
        if depth and len(want) == n - 1 and n < 12:
            message = _check_view(
                rec, part, twin[start:stop:by], want, read, 0
            )
            if message is not None:
                return f'slice [{start}:{stop}:{by}]: {message}'
    try:
        view[::0]
    except ValueError:
        pass
    else:
        return 'step zero is accepted'
    return None


# --- aliasing ---------------------------------------------------------------------


@case
def aliasing(case, rec):
    """('aliasing', universe, affine, spec): constructors copy their lists."""
    _, key, affine, spec = case
    rec.state(key, spec)
    e = impl.exact
    kind, data = spec
    if kind == 'C':
        items = [impl.make_point(p) for p in data]
        make = e.Contour
    elif kind == 'M':
        items = [impl.make_segment(s) for s in data]
        make = e.Multisegment
    elif kind == 'P':
        items = [impl.make_contour(h) for h in data[1]]
        border = impl.make_contour(data[0])
        make = lambda holes: e.Polygon(border, holes)
    else:
        items = [impl.make_polygon(p) for p in data]
        make = e.Multipolygon
    value = make(items)
    h, other = hash(value), impl.build(spec)
    for change in (
        lambda: items.reverse(),
        lambda: items.append(items[0] if items else other),
        lambda: items.clear(),
    ):
        change()
        rec.call()
        if impl.read(value) != spec:
            return f'{spec} follows the list it was made of'
        if hash(value) != h or not value == other:
            return 'hash or equality changes with the list'
    return None


# --- orientation and order ---------------------------------------------------------


@case
def orientation(case, rec):
    """('orientation', universe, affine, spec)"""
    _, key, affine, spec = case
    transform = AFFINES[affine]
    area = doubled_area(spec[1]) * transform.det
    for ring in ring_presentations(spec[1]):
        sign = 1 if doubled_area(ring) * transform.det > 0 else -1
        want = 'COUNTERCLOCKWISE' if sign > 0 else 'CLOCKWISE'
        got = impl.build(('C', ring), transform).orientation.name
        rec.call()
        rec.state(key, ring)
        if got != want:
            return f'orientation of {ring} is {got}'
    assert area
    return None


@case
def point_order(case, rec):
    """('point_order', -, first, second): coordinate pairs."""
    _, _, p, q = case
    a, b = impl.make_point(p), impl.make_point(q)
    rec.state(p, q)
    rec.call(6)
    checks = [
        ('<', a < b, p < q),
        ('<=', a <= b, p <= q),
        ('>', a > b, p > q),
        ('>=', a >= b, p >= q),
        ('==', a == b, p == q),
        ('!=', a != b, p != q),
    ]
    for name, got, want in checks:
        if got is not want:
            return f'{p} {name} {q} is {got}'
    if p == q and hash(a) != hash(b):
        return f'hashes of equal points differ: {p}'
    if (impl.point_of(a), impl.point_of(b)) != (p, q):
        return f'coordinates of {p} are {impl.point_of(a)}'
    return None


@case
def point_kinds(case, rec):
    """('point_kinds', -, x, y): number types give one and the same point."""
    from rithm.fraction import Fraction as RithmFraction
    from rithm.integer import Int

    _, _, x, y = case
    rec.state(x, y)

    def variants(v):
        v = Fraction(v)
        yield RithmFraction(v.numerator, v.denominator)
        yield v
        if v.denominator == 1:
            yield int(v)
            yield Int(int(v))
        if abs(v) < 2**60 and Fraction(float(v)) == v:
            yield float(v)

    points = [
        impl.Point(i, j) for i in variants(x) for j in variants(y)
    ]
    for p in points:
        rec.call(2)
        if impl.point_of(p) != (x, y):
            return f'Point is {p!r}'
        if not p == points[0] or hash(p) != hash(points[0]):
            return f'{p!r} is not equal to {points[0]!r}'
    low = x - 1, y - 1
    boxes = [
        impl.exact.Box(i, k, j, m)
        for i, k in zip(variants(low[0]), variants(x))
        for j, m in zip(variants(low[1]), variants(y))
    ]
    for b in boxes:
        rec.call(2)
        got = tuple(
            impl.scalar(c) for c in (b.min_x, b.min_y, b.max_x, b.max_y)
        )
        if got != (*low, x, y) or not b == boxes[0]:
            return f'Box is {b!r}'
    return None


# --- rejection ---------------------------------------------------------------------


def _raises(errors, function):
    try:
        value = function()
    except errors as error:
        return type(error) in errors, type(error).__name__
    except Exception as error:
        return False, f'{type(error).__name__}: {error}'
    return False, f'returned {value!r}'[:120]


@case
def rejection(case, rec):
    """('rejection', -, what, argument)"""
    _, _, what, argument = case
    rec.state(what, argument)
    rec.call()
    e = impl.exact
    expect, function = REJECTIONS[what](e, argument)
    if expect is None:  # has to be accepted
        function()
        return None
    ok, got = _raises(expect, function)
    rec.outcome(f'{what}: {got}'[:40])
    if not ok:
        names = ' or '.join(x.__name__ for x in expect)
        return f'{what} with {argument!r}: {got}, should raise {names}'
    return None


RING = ((0, 0), (4, 0), (4, 4), (0, 4), (-1, 2))
KIND_SAMPLES = {
    'E': ('E',),
    'S': ('S', ((0, 0), (1, 2))),
    'M': ('M', (((0, 0), (1, 2)), ((0, 0), (2, 1)))),
    'C': ('C', ((0, 0), (2, 0), (0, 2))),
    'P': ('P', (((0, 0), (2, 0), (0, 2)), ())),
    'MP': (
        'MP',
        (
            (((0, 0), (2, 0), (0, 2)), ()),
            (((2, 2), (2, 1), (1, 2)), ()),
        ),
    ),
}
STRANGERS = {
    'None': lambda e: None,
    'int': lambda e: 1,
    'str': lambda e: 'x',
    'tuple': lambda e: (),
    'point': lambda e: e.Point(0, 0),
    'box': lambda e: e.Box(0, 1, 0, 1),
    'object': lambda e: object(),
}


def _count(cls, least):
    def make(e, count):
        def function():
            items = {
                'Contour': [impl.make_point(p) for p in RING],
                'Multisegment': [
                    impl.make_segment(s)
                    for s in zip(RING, RING[1:] + RING[:1])
                ],
                'Multipolygon': [
                    impl.make_polygon(
                        (((x, 0), (x + 1, 0), (x, 1)), ())
                    )
                    for x in range(0, 10, 2)
                ],
            }[cls][:count]
            value = getattr(e, cls)(items)
            length = len(
                {
                    'Contour': lambda v: v.vertices,
                    'Multisegment': lambda v: v.segments,
                    'Multipolygon': lambda v: v.polygons,
                }[cls](value)
            )
            if length != count:
                raise Violation(f'{cls} of {count} has {length}')
            return value

        return ((ValueError,) if count < least else None), function

    return make


def _seed(method):
    def make(e, seed):
        import sys

        spec = KIND_SAMPLES['M' if method == 'from_multisegment' else 'P']
        seed = {'max': (sys.maxsize << 1) + 1, 'over': (sys.maxsize << 1) + 2,
                'huge': 1 << 200, 'float': 1.0, 'str': '1', 'none': None,
                'true': True}.get(seed, seed)  # fmt: skip
        if not isinstance(seed, int):
            expect = (TypeError,)
        elif seed < 0:
            expect = (ValueError,)
        elif seed > (sys.maxsize << 1) + 1:
            expect = (OverflowError,)
        else:
            expect = None
        return expect, lambda: getattr(e.Trapezoidation, method)(
            impl.build(spec), seeder=lambda: seed
        )

    return make


def _operand(e, argument):
    kind, name, stranger, side = argument
    value = impl.build(KIND_SAMPLES[kind])
    other = STRANGERS[stranger](e)
    return (TypeError,), (
        (lambda: OPERATORS[name](value, other))
        if side == 'l'
        else (lambda: OPERATORS[name](other, value))
    )


def _related(e, argument):
    kind, stranger = argument
    value = impl.build(KIND_SAMPLES[kind])
    return (TypeError,), lambda: value.relate_to(STRANGERS[stranger](e))


def _kinds(e, argument):
    first, name, second = argument
    x, y = (impl.build(KIND_SAMPLES[k]) for k in (first, second))

    def function():
        result = OPERATORS[name](x, y)
        if type(result) not in impl.KINDS:
            raise Violation(f'result is {result!r}')
        return result

    a, b = first in model.SHAPED, second in model.SHAPED
    mixed = a != b and 'E' not in (first, second)
    if not mixed or name == 'and':
        return None, function
    if name == 'sub' and b and first != 'S':
        return None, function
    return (TypeError,), function


def _readonly(e, argument):
    kind, attribute = argument
    value = (
        e.Point(1, 2)
        if kind == 'point'
        else e.Box(0, 1, 0, 1)
        if kind == 'box'
        else impl.build(KIND_SAMPLES[kind])
    )
    getattr(value, attribute)
    return (AttributeError,), lambda: setattr(value, attribute, None)


def _subclass(e, argument):
    return (TypeError,), lambda: type('Sub', (getattr(e, argument),), {})


REJECTIONS = {
    'contour of count': _count('Contour', 3),
    'multisegment of count': _count('Multisegment', 2),
    'multipolygon of count': _count('Multipolygon', 2),
    'seed of polygon': _seed('from_polygon'),
    'seed of multisegment': _seed('from_multisegment'),
    'operand': _operand,
    'related': _related,
    'kinds': _kinds,
    'read-only attribute': _readonly,
    'subclass': _subclass,
}


from . import interleave  # noqa: E402, F401
