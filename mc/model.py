"""Specs as cells of a universe, and what the library promises about them."""

from .shapes import orient
from .universe import Universe  # noqa: F401


class Cells:
    """The bit sets of one geometry."""

    __slots__ = (
        'kind',
        'faces',
        'edges',
        'verts',
        'inner_edges',
        'inner_verts',
    )


class Mismatch(Exception):
    """The geometry is not one that the model can represent/accept."""


def _ring_masks(u, ring):
    n = len(ring)
    if n < 3:
        raise Mismatch('contour with fewer than three vertices')
    ids = []
    for p in ring:
        v = u.vertex(p)
        if v is None:
            raise Mismatch(f'vertex {_fmt(p)} is not a possible vertex')
        ids.append(v)
    edges = verts = below = 0
    total = 0
    for a, b in zip(ids, ids[1:] + ids[:1]):
        span = u.span(a, b) if a != b else None
        if span is None:
            raise Mismatch(
                f'edge {_fmt_v(u, a)}-{_fmt_v(u, b)} is not a possible edge'
            )
        if edges & span[0]:
            raise Mismatch('contour overlaps itself')
        edges |= span[0]
        total += span[1].bit_count() - 1
        verts |= span[1]
        below ^= u.below(a, b)
    if verts.bit_count() != total:
        raise Mismatch('contour touches or crosses itself')
    return below, edges, verts


def _fmt(p):
    return '({}, {})'.format(*p)


def _fmt_v(u, v):
    from fractions import Fraction

    x, y = u.vertices[v]
    return _fmt((Fraction(x, u.scale), Fraction(y, u.scale)))


def _collinear_vertices(ring):
    n = len(ring)
    return [
        ring[i]
        for i in range(n)
        if orient(ring[i - 1], ring[i], ring[(i + 1) % n]) == 0
    ]


def polygon_cells(u, polygon):
    """(faces, edges, verts) of a polygon, Mismatch if it is not valid."""
    result = loose_polygon_cells(u, polygon)
    if polygon[1] and len(u.components(result[0])) != 1:
        raise Mismatch('interior of polygon is not connected')
    return result


def loose_polygon_cells(u, polygon):
    """The same, but holes may be linked: separate a part of the interior."""
    border, holes = polygon
    faces, edges, verts = _ring_masks(u, border)
    for hole in holes:
        h_faces, h_edges, h_verts = _ring_masks(u, hole)
        if h_faces & ~faces:
            raise Mismatch('hole is not inside border or overlaps a hole')
        if h_edges & edges:
            raise Mismatch('hole has a common edge with another ring')
        faces &= ~h_faces
        edges |= h_edges
        verts |= h_verts
    return faces, edges, verts


def region_cells(u, polygons):
    faces = edges = verts = 0
    for polygon in polygons:
        p_faces, p_edges, p_verts = loose_polygon_cells(u, polygon)
        if faces & p_faces:
            raise Mismatch('polygons of multipolygon overlap')
        if edges & p_edges:
            raise Mismatch('polygons of multipolygon have a common edge')
        faces |= p_faces
        edges |= p_edges
        verts |= p_verts
    return faces, edges, verts


def segments_cells(u, segments):
    """(edges, verts) of segments that neither overlap nor cross."""
    edges = verts = 0
    for a, b in segments:
        i, j = u.vertex(a), u.vertex(b)
        if i is None or j is None or i == j:
            raise Mismatch(f'segment {_fmt(a)}-{_fmt(b)} is not possible')
        span = u.span(i, j)
        if span is None:
            raise Mismatch(f'segment {_fmt(a)}-{_fmt(b)} is not possible')
        if edges & span[0]:
            raise Mismatch('segments overlap')
        edges |= span[0]
        verts |= span[1]
    return edges, verts


def segments_cross(u, segments):
    """Some vertex is strictly inside two of the segments."""
    inner = 0
    for a, b in segments:
        i, j = u.vertex(a), u.vertex(b)
        own = u.span(i, j)[1] & ~(1 << i) & ~(1 << j)
        if own & inner:
            return True
        inner |= own
    return False


def cells(u, spec):
    """Bit sets of a valid geometry (Mismatch if it is not valid).

    Polygons may have linked holes, see DESIGN.md.
    """
    result = Cells()
    kind = result.kind = spec[0]
    result.faces = result.edges = result.verts = 0
    result.inner_edges = result.inner_verts = 0
    if kind == 'E':
        pass
    elif kind == 'S':
        result.edges, result.verts = segments_cells(u, [spec[1]])
    elif kind == 'M':
        if len(spec[1]) < 2:
            raise Mismatch('multisegment with fewer than two segments')
        result.edges, result.verts = segments_cells(u, spec[1])
        if segments_cross(u, spec[1]):
            raise Mismatch('segments cross')
    elif kind == 'C':
        _, result.edges, result.verts = _ring_masks(u, spec[1])
    elif kind == 'P':
        result.faces, result.edges, result.verts = loose_polygon_cells(
            u, spec[1]
        )
    elif kind == 'MP':
        if len(spec[1]) < 2:
            raise Mismatch('multipolygon with fewer than two polygons')
        result.faces, result.edges, result.verts = region_cells(u, spec[1])
    else:
        raise Mismatch(f'unexpected value {spec[1]}')
    if result.faces:
        result.inner_edges, _ = u.region_edges(result.faces)
        result.inner_verts, _ = u.region_vertices(result.faces)
    return result


def redundant_vertices(spec):
    if spec[0] == 'P':
        polygons = [spec[1]]
    elif spec[0] == 'MP':
        polygons = spec[1]
    elif spec[0] == 'C':
        return _collinear_vertices(spec[1])
    else:
        return []
    return [
        v
        for border, holes in polygons
        for ring in (border, *holes)
        for v in _collinear_vertices(ring)
    ]


def has_linked_holes(u, spec):
    """Some holes of a polygon separate its interior."""
    polygons = (
        [spec[1]] if spec[0] == 'P' else spec[1] if spec[0] == 'MP' else []
    )
    return any(
        len(u.components(loose_polygon_cells(u, p)[0])) != 1
        for p in polygons
        if len(p[1]) > 1
    )


SHAPED = ('P', 'MP')
LINEAR = ('S', 'M', 'C')

OPS = {
    'and': ('&', lambda a, b: a & b),
    'or': ('|', lambda a, b: a | b),
    'sub': ('-', lambda a, b: a & ~b),
    'xor': ('^', lambda a, b: a ^ b),
}


def relation(u, a, b):
    """Relation of a to b by the definitions in the docs of Relation.

    Returns the set of acceptable names.
    """
    if a.kind == 'E' or b.kind == 'E':
        return {'EQUAL'} if a.kind == b.kind == 'E' else {'DISJOINT'}
    if a.faces and b.faces:
        return {_shaped_relation(a, b)}
    if a.faces:
        return {COMPLEMENT[r] for r in relation(u, b, a)}
    if b.faces:
        return {_mixed_relation(a, b)}
    return _linear_relation(u, a, b)


COMPLEMENT = {
    'COMPONENT': 'COMPOSITE',
    'COMPOSITE': 'COMPONENT',
    'COVER': 'WITHIN',
    'WITHIN': 'COVER',
    'ENCLOSED': 'ENCLOSES',
    'ENCLOSES': 'ENCLOSED',
    'CROSS': 'CROSS',
    'DISJOINT': 'DISJOINT',
    'EQUAL': 'EQUAL',
    'OVERLAP': 'OVERLAP',
    'TOUCH': 'TOUCH',
}


def _shaped_relation(a, b):
    meet = bool(a.edges & b.edges or a.verts & b.verts)
    if a.faces == b.faces:
        return 'EQUAL'
    if not a.faces & ~b.faces:
        if not meet:
            return 'WITHIN'
        return 'ENCLOSED' if a.edges & ~b.edges else 'COMPONENT'
    if not b.faces & ~a.faces:
        if not meet:
            return 'COVER'
        return 'ENCLOSES' if b.edges & ~a.edges else 'COMPOSITE'
    if a.faces & b.faces:
        return 'OVERLAP'
    return 'TOUCH' if meet else 'DISJOINT'


def _mixed_relation(a, b):
    """a is linear, b is a region."""
    inside = bool(a.edges & b.inner_edges or a.verts & b.inner_verts)
    meet = bool(a.edges & b.edges or a.verts & b.verts)
    if not a.edges & ~(b.edges | b.inner_edges):
        if not inside:
            return 'COMPONENT'
        return 'ENCLOSED' if meet else 'WITHIN'
    if inside:
        return 'CROSS'
    return 'TOUCH' if meet else 'DISJOINT'


def _linear_relation(u, a, b):
    if a.edges == b.edges:
        return {'EQUAL'}
    if not a.edges & ~b.edges:
        return {'COMPONENT'}
    if not b.edges & ~a.edges:
        return {'COMPOSITE'}
    if a.edges & b.edges:
        return {'OVERLAP'}
    common = a.verts & b.verts
    if not common:
        return {'DISJOINT'}
    while common:
        low = common & -common
        v = low.bit_length() - 1
        common ^= low
        sides = []
        for w in u.around[v]:
            e = 1 << u.edge_index[(v, w) if v < w else (w, v)]
            if a.edges & e:
                sides.append('a')
            elif b.edges & e:
                sides.append('b')
        if sum(x != y for x, y in zip(sides, sides[1:] + sides[:1])) >= 4:
            return {'CROSS'}
    return {'TOUCH'}


def location(a, u, point):
    v = u.vertex(point)
    assert v is not None
    bit = 1 << v
    if a.verts & bit:
        return 'BOUNDARY'
    return 'INTERIOR' if a.inner_verts & bit else 'EXTERIOR'
