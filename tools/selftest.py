"""setup_cmd: the model against a second, independent way to compute.

Everything here runs without the code under test.
"""

import itertools
import os
import sys
from fractions import Fraction

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import families, model  # noqa: E402
from mc.shapes import between, region_spec  # noqa: E402
from mc.universe import universe  # noqa: E402


def parity(point, rings):
    """'b'oundary, 'i'nside or 'o'utside of rings by crossing numbers."""
    x, y = point
    inside = False
    for ring in rings:
        for i, b in enumerate(ring):
            a = ring[i - 1]
            if between(a, b, point):
                return 'b'
            if (a[1] > y) != (b[1] > y):
                at = a[0] + Fraction((y - a[1]) * (b[0] - a[0]), b[1] - a[1])
                if at > x:
                    inside = not inside
    return 'i' if inside else 'o'


def rings_of(spec):
    polygons = [spec[1]] if spec[0] == 'P' else spec[1]
    return [r for border, holes in polygons for r in (border, *holes)]


def probes(u):
    s = u.scale
    for i, (x, y) in enumerate(u.vertices):
        yield 'v', i, (Fraction(x, s), Fraction(y, s))
    for i, (a, b) in enumerate(u.edges):
        (ax, ay), (bx, by) = u.vertices[a], u.vertices[b]
        yield 'e', i, (Fraction(ax + bx, 2 * s), Fraction(ay + by, 2 * s))
    for i, (sx, sy, k) in enumerate(u.face_points):
        yield 'f', i, (Fraction(sx, k * s), Fraction(sy, k * s))


def check_regions():
    count = 0
    for name in (
        'rings.3.3.3.9', 'fan/reps', 'onion.3', 'plugs.2.1', 'diamonds.3',
        'squares.2.2.full', 'holed.4.4.3.3/reps', 'pairs.3.3.3.3/reps',
        'comb.4',
    ):  # fmt: skip
        key, specs = families.get(name)
        u = universe(key)
        points = list(probes(u))
        for spec in specs:
            c = model.cells(u, spec)
            rings = rings_of(spec) if spec[0] != 'E' else []
            for kind, i, point in points:
                bit = 1 << i
                got = {
                    'v': (c.verts, c.inner_verts),
                    'e': (c.edges, c.inner_edges),
                    'f': (0, c.faces),
                }[kind]
                state = (
                    'b' if got[0] & bit else 'i' if got[1] & bit else 'o'
                )
                assert state == parity(point, rings), (name, spec, point)
                count += 1
            if spec[0] != 'E':
                again = region_spec(u, c.faces)
                assert model.cells(u, again).faces == c.faces, (name, spec)
                assert not model.redundant_vertices(again), (name, spec)
    return count


def check_faces():
    """All sets of faces can be presented and read back."""
    count = 0
    for key in ('full:2x2', 'axis:4x4', 'axis:4x3'):
        u = universe(key)
        n = len(u.face_points)
        for faces in range(1 << n):
            spec = region_spec(u, faces)
            c = model.cells(u, spec)
            assert c.faces == faces, (key, faces, spec)
            assert c.edges == u.region_edges(faces)[1], (key, faces)
            count += 1
    return count


def check_complements():
    """The model of relations obeys the definition of complements."""
    count = 0
    key = 'full:3x3'
    u = universe(key)
    specs = []
    for name in (
        'segments.3.3/reps', 'contours.3.3.3.3/reps', 'rings.3.3.3.3/reps',
        'multisegments.3.2.2/reps', 'fan/reps',
    ):  # fmt: skip
        k, members = families.get(name)
        if k == key:
            specs += [s for s in members if s[0] != 'E']
    cells = [model.cells(u, s) for s in specs]
    for a, b in itertools.product(cells, repeat=2):
        (r,) = model.relation(u, a, b)
        (q,) = model.relation(u, b, a)
        assert q == model.COMPLEMENT[r], (r, q)
        count += 1
    return count


if __name__ == '__main__':
    print(
        f'model self-test: {check_regions()} located points, '
        f'{check_faces()} sets of faces, {check_complements()} relations'
    )
