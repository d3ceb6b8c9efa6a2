"""Named finite families of operands, each complete within its own bound.

Every family is (universe key, [spec, ...]) with specs in increasing size.
"""

from fractions import Fraction
from functools import lru_cache
from itertools import combinations, permutations

from . import model
from .shapes import (
    doubled_area,
    grid_points,
    grid_segments,
    region_spec,
    simple_rings,
    valid_multisegments,
)
from .universe import universe

FAMILIES = {}


def family(name):
    def register(function):
        FAMILIES[name] = function
        return function

    return register


@lru_cache(maxsize=None)
def get(name):
    """'name' or 'name/reps' (least of each orbit of grid symmetries)."""
    if '/' in name:
        base, modifier = name.rsplit('/', 1)
        key, specs = get(base)
        if modifier == 'reps':
            return key, representatives(universe(key), specs)
        if modifier.startswith('first'):
            return key, specs[: int(modifier[5:])]
        raise KeyError(name)
    head, *args = name.split('.')
    return FAMILIES[head](*args)


# --- symmetries ---------------------------------------------------------------


def symmetries(w, h):
    w, h = w - 1, h - 1
    result = [
        lambda p: p,
        lambda p: (w - p[0], p[1]),
        lambda p: (p[0], h - p[1]),
        lambda p: (w - p[0], h - p[1]),
    ]
    if w == h:
        result += [
            lambda p: (p[1], p[0]),
            lambda p: (w - p[1], p[0]),
            lambda p: (p[1], h - p[0]),
            lambda p: (w - p[1], h - p[0]),
        ]
    return result


def canonical_ring(ring):
    if doubled_area(ring) < 0:
        ring = ring[::-1]
    least = ring.index(min(ring))
    return (*ring[least:], *ring[:least])


def canonical_spec(spec):
    """One tuple per geometry: the order of presentation is dropped."""
    kind = spec[0]
    if kind == 'E':
        return spec
    data = spec[1]
    if kind == 'S':
        return (kind, tuple(sorted(data)))
    if kind == 'M':
        return (kind, tuple(sorted(tuple(sorted(s)) for s in data)))
    if kind == 'C':
        return (kind, canonical_ring(tuple(data)))
    if kind == 'P':
        return (kind, _canonical_polygon(data))
    return (kind, tuple(sorted(map(_canonical_polygon, data))))


def _canonical_polygon(polygon):
    border, holes = polygon
    return (
        canonical_ring(tuple(border)),
        tuple(sorted(canonical_ring(tuple(h)) for h in holes)),
    )


def map_spec(f, spec):
    kind = spec[0]
    if kind == 'E':
        return spec
    data = spec[1]
    if kind in ('S', 'C'):
        return (kind, tuple(map(f, data)))
    if kind == 'M':
        return (kind, tuple(tuple(map(f, s)) for s in data))

    def polygon(p):
        return tuple(map(f, p[0])), tuple(tuple(map(f, h)) for h in p[1])

    if kind == 'P':
        return (kind, polygon(data))
    return (kind, tuple(map(polygon, data)))


def representatives(u, specs):
    group = symmetries(u.width, u.height)
    return [
        spec
        for spec in specs
        for own in [canonical_spec(spec)]
        if all(own <= canonical_spec(map_spec(f, spec)) for f in group)
    ]


def size(spec):
    kind = spec[0]
    if kind == 'E':
        return 0
    data = spec[1]
    if kind == 'S':
        return 2
    if kind == 'M':
        return 2 * len(data)
    if kind == 'C':
        return len(data)
    polygons = [data] if kind == 'P' else data
    return sum(
        len(ring) for border, holes in polygons for ring in (border, *holes)
    )


# --- linear -----------------------------------------------------------------


@family('segments')
def segments(w, h):
    w, h = int(w), int(h)
    return f'full:{w}x{h}', [('S', s) for s in grid_segments(w, h)]


@family('multisegments')
def multisegments(w, h, k, key=None):
    w, h, k = int(w), int(h), int(k)
    return key or f'full:{w}x{h}', [
        ('M', m) for m in valid_multisegments(grid_segments(w, h), k)
    ]


@family('contours')
def contours(w, h, least, most):
    w, h = int(w), int(h)
    return f'full:{w}x{h}', [
        ('C', r) for r in simple_rings(grid_points(w, h), int(least), int(most))
    ]


# --- on the points of any universe ------------------------------------------


@family('chords')
def chords(key, count=1):
    """Segments or multisegments between the points of the universe."""
    segments, count = list(combinations(universe(key).grid, 2)), int(count)
    if count == 1:
        return key, [('S', s) for s in segments]
    return key, [('M', m) for m in valid_multisegments(segments, count)]


@family('loops')
def loops(key, least, most, kind='P', chunk=1):
    """Every `chunk`-th simple ring, as a polygon or a contour."""
    rings = simple_rings(universe(key).grid, int(least), int(most))
    return key, [
        ('P', (r, ())) if kind == 'P' else ('C', r)
        for r in rings[:: int(chunk)]
    ]


@family('rooms')
def rooms(key, least, most):
    """Polygons with a triangular hole on the points of the universe."""
    u = universe(key)
    result = []
    rings = simple_rings(u.grid, int(least), int(most))
    cells = {r: model.polygon_cells(u, (r, ())) for r in rings}
    for border in rings:
        faces, _, border_verts = cells[border][:3]
        for hole in rings:
            if len(hole) > 3 or set(hole) & set(border):
                continue
            inner, _, verts = cells[hole][:3]
            if inner & ~faces == 0 and not verts & border_verts:
                result.append(('P', (border, (hole,))))
    return key, result


# --- regions ----------------------------------------------------------------


@family('rings')
def rings(w, h, least, most):
    w, h = int(w), int(h)
    return f'full:{w}x{h}', [
        ('P', (r, ()))
        for r in simple_rings(grid_points(w, h), int(least), int(most))
    ]


def _from_cells(key, cells):
    """All non-empty unions of the given disjoint face sets."""
    u = universe(key)
    specs = []
    for bits in range(1, 1 << len(cells)):
        faces = 0
        for i, cell in enumerate(cells):
            if bits >> i & 1:
                faces |= cell
        specs.append(region_spec(u, faces))
    specs.sort(key=lambda s: (size(s), repr(s)))
    return key, specs


def ring_faces(key, ring):
    return model.polygon_cells(universe(key), (ring, ()))[0]


def unit_square(x, y):
    return (x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)


@family('squares')
def squares(w, h, kind='axis'):
    """Unions of the unit squares of a w x h board."""
    w, h = int(w), int(h)
    key = f'{kind}:{w + 1}x{h + 1}'
    return _from_cells(
        key,
        [ring_faces(key, unit_square(x, y)) for x in range(w) for y in range(h)],
    )


@family('triangles')
def triangles(w, h, kind='diag'):
    """Unions of the quarters of the unit squares of a w x h board."""
    w, h = int(w), int(h)
    key = f'{kind}:{w + 1}x{h + 1}'
    half = Fraction(1, 2)
    cells = []
    for x in range(w):
        for y in range(h):
            corners = unit_square(x, y)
            centre = (x + half, y + half)
            for i in range(4):
                cells.append(
                    ring_faces(
                        key, (corners[i], corners[(i + 1) % 4], centre)
                    )
                )
    return _from_cells(key, cells)


@family('fan')
def fan(kind='full'):
    """Unions of the 8 triangles around the centre of a 3x3 grid."""
    key = f'{kind}:3x3'
    around = [
        (2, 1), (2, 2), (1, 2), (0, 2), (0, 1), (0, 0), (1, 0), (2, 0),
    ]  # fmt: skip
    return _from_cells(
        key,
        [
            ring_faces(key, ((1, 1), around[i], around[(i + 1) % 8]))
            for i in range(8)
        ],
    )


def rectangle(x0, y0, x1, y1):
    return (x0, y0), (x1, y0), (x1, y1), (x0, y1)


@family('onion')
def onion(n):
    """Unions of n concentric square rings (the innermost is a square)."""
    n = int(n)
    side = 2 * n - 1
    key = f'axis:{side + 1}x{side + 1}'
    full = [
        ring_faces(key, rectangle(i, i, side - i, side - i)) for i in range(n)
    ] + [0]
    return _from_cells(key, [full[i] & ~full[i + 1] for i in range(n)])


@family('onions')
def onions(left, right):
    """Unions of the rings of two onions side by side, inside one frame."""
    left, right = int(left), int(right)
    ls, rs = 2 * left - 1, 2 * right - 1
    height = max(ls, rs) + 2
    width = ls + rs + 3
    key = f'axis:{width + 1}x{height + 1}'
    frame = ring_faces(key, rectangle(0, 0, width, height))
    cells = []
    for n, side, x in ((left, ls, 1), (right, rs, ls + 2)):
        full = [
            ring_faces(key, rectangle(x + i, 1 + i, x + side - i, 1 + side - i))
            for i in range(n)
        ] + [0]
        cells += [full[i] & ~full[i + 1] for i in range(n)]
        frame &= ~full[0]
    return _from_cells(key, [frame, *cells])


@family('plugs')
def plugs(w, h):
    """A plate with w x h square windows: unions of plate and windows."""
    w, h = int(w), int(h)
    key = f'axis:{2 * w + 2}x{2 * h + 2}'
    plate = ring_faces(key, rectangle(0, 0, 2 * w + 1, 2 * h + 1))
    windows = [
        ring_faces(key, unit_square(2 * x + 1, 2 * y + 1))
        for x in range(w)
        for y in range(h)
    ]
    for window in windows:
        plate &= ~window
    return _from_cells(key, [plate, *windows])


@family('diamonds')
def diamonds(n):
    """Unions of n diamonds in a row that touch at their tips."""
    n = int(n)
    key = f'diag:{2 * n + 1}x3'
    cells = []
    for i in range(n):
        x = 2 * i
        cells.append(
            ring_faces(key, ((x, 1), (x + 1, 0), (x + 2, 1), (x + 1, 2)))
        )
    return _from_cells(key, cells)


@family('comb')
def comb(n):
    """Large figures on one n x n board (sizes up to n)."""
    n = int(n)
    key = f'axis:{n + 1}x{n + 1}'
    u = universe(key)
    cell = {
        (x, y): ring_faces(key, unit_square(x, y))
        for x in range(n)
        for y in range(n)
    }

    def pick(predicate):
        faces = 0
        for (x, y), f in cell.items():
            if predicate(x, y):
                faces |= f
        return region_spec(u, faces)

    m = n - 1
    figures = [
        pick(lambda x, y: x % 2 == 0),
        pick(lambda x, y: y % 2 == 0),
        pick(lambda x, y: (x + y) % 2 == 0),
        pick(lambda x, y: (x + y) % 2 == 1),
        pick(lambda x, y: x % 2 == 0 or y == 0),
        pick(lambda x, y: x % 2 == 0 or y == m),
        pick(lambda x, y: y % 2 == 0 or x == 0),
        pick(lambda x, y: y % 2 == 0 or x == m),
        pick(lambda x, y: x % 2 == 0 or y % 2 == 0),
        pick(lambda x, y: x % 2 == 1 or y % 2 == 1),
        pick(lambda x, y: x % 2 == 1 and y % 2 == 1),
        pick(lambda x, y: x % 2 == 0 and y % 2 == 0),
        pick(lambda x, y: min(x, y, m - x, m - y) % 2 == 0),
        pick(lambda x, y: min(x, y, m - x, m - y) % 2 == 1),
        pick(lambda x, y: x <= y),
        pick(lambda x, y: x >= y),
        pick(lambda x, y: x + y <= m),
        pick(lambda x, y: x == y),
        pick(lambda x, y: x + y == m),
        pick(lambda x, y: max(x, y) % 2 == 0),
        pick(lambda x, y: True),
        pick(lambda x, y: _spiral(x, y, n)),
        pick(lambda x, y: (x // 2 + y // 2) % 2 == 0),
        pick(lambda x, y: (x + 2 * y) % 3 == 0),
    ]
    return key, figures


@lru_cache(maxsize=None)
def _spiral_cells(n):
    x = y = 0
    dx, dy = 1, 0
    path = {(0, 0)}
    bound = [0, 0, n - 1, n - 1]  # left, bottom, right, top
    while True:
        moved = False
        while bound[0] <= x + dx <= bound[2] and bound[1] <= y + dy <= bound[3]:
            x, y = x + dx, y + dy
            path.add((x, y))
            moved = True
        if not moved:
            return frozenset(path)
        if (dx, dy) == (1, 0):
            bound[1] = y + 2
        elif (dx, dy) == (0, 1):
            bound[2] = x - 2
        elif (dx, dy) == (-1, 0):
            bound[3] = y - 2
        else:
            bound[0] = x + 2
        dx, dy = -dy, dx


def _spiral(x, y, n):
    return (x, y) in _spiral_cells(n)


@family('holed')
def holed(w, h, least, most):
    """Every polygon: the whole board with one hole on its grid points."""
    w, h = int(w), int(h)
    key = f'full:{w}x{h}'
    u = universe(key)
    border = rectangle(0, 0, w - 1, h - 1)
    result = []
    for hole in simple_rings(grid_points(w, h), int(least), int(most)):
        spec = ('P', (border, (hole,)))
        try:
            model.polygon_cells(u, spec[1])
        except model.Mismatch:
            continue
        result.append(spec)
    return key, result


@family('holed2')
def holed2(w, h, least, most):
    """The whole board with two holes."""
    key, single = holed(w, h, least, most)
    u = universe(key)
    result = []
    for (_, (border, a)), (_, (_, b)) in combinations(single, 2):
        spec = ('P', (border, (*a, *b)))
        try:
            model.polygon_cells(u, spec[1])
        except model.Mismatch:
            continue
        result.append(spec)
    return key, result


@family('pairs')
def pairs(w, h, least, most):
    """Every valid multipolygon of two rings."""
    key, single = rings(w, h, least, most)
    u = universe(key)
    masks = [model.cells(u, s) for s in single]
    result = []
    for (a, ca), (b, cb) in combinations(zip(single, masks), 2):
        if ca.faces & cb.faces or ca.edges & cb.edges:
            continue
        result.append(('MP', (a[1], b[1])))
    return key, result


@family('empty')
def empty(key):
    return key, [('E',)]


@family('ladder')
def ladder(n):
    """Linear figures on the grid lines of an n x n board."""
    n = int(n)
    key = f'axis:{n + 1}x{n + 1}'
    rows = [((0, y), (n, y)) for y in range(n + 1)]
    columns = [((x, 0), (x, n)) for x in range(n + 1)]
    unit_rows = [
        ((x, y), (x + 1, y)) for y in range(n + 1) for x in range(n)
    ]
    stairs = []
    for i in range(n):
        stairs += [((i, i), (i + 1, i)), ((i + 1, i), (i + 1, i + 1))]
    zigzag = [(0, 0)]
    for i in range(n):
        zigzag += [(i + 1, i), (i + 1, i + 1)]
    zigzag.append((0, n))
    comb_ring = [(0, 0), (n, 0)]
    for x in range(n, 0, -2):
        comb_ring += [(x, n), (x - 1, n)]
        if x > 2:
            comb_ring += [(x - 1, 1), (x - 2, 1)]
    if comb_ring[-1] == (1, n):
        comb_ring += [(1, 1), (0, 1)]
    return key, [
        ('M', tuple(rows)),
        ('M', tuple(columns)),
        ('M', tuple(rows[::2])),
        ('M', tuple(columns[1::2])),
        ('M', tuple(unit_rows)),
        ('M', tuple(unit_rows[::2])),
        ('M', tuple(unit_rows[1::3])),
        ('M', tuple(stairs)),
        ('M', tuple(stairs[::2])),
        ('M', (rows[0], rows[-1], columns[0], columns[-1])),
        ('C', tuple(zigzag)),
        ('C', rectangle(0, 0, n, n)),
        ('C', rectangle(1, 1, n - 1, n - 1)),
        ('C', tuple(comb_ring)),
        ('S', rows[1]),
        ('S', columns[-1]),
        ('S', ((1, 2), (n - 1, 2))),
    ]


@family('waves')
def waves(n):
    """Polygon between two zigzags with a row of holes, and its segments.

    It has hundreds of edges for n of some tens, so the indices of its edges
    are larger than the numbers that Python keeps one object for.
    """
    n = int(n)
    key = f'diag:{n + 1}x6'
    top = [(x, 5 - x % 2) for x in range(n, -1, -1)]
    bottom = [(x, x % 2) for x in range(n + 1)]
    holes = tuple(
        ((x, 2), (x, 3), (x + 1, 2)) if x % 3 else ((x, 2), (x, 3), (x + 1, 3))
        for x in range(1, n - 1, 2)
    )
    border = (*bottom, *top)
    rings = (border, *holes)
    return key, [
        ('P', (border, holes)),
        ('M', tuple(s for r in rings for s in zip(r, r[1:] + r[:1]))),
    ]


@family('towers')
def towers(n):
    """Figures whose trapezoidations are as deep as they have edges.

    Edges that are added from the bottom to the top (or backwards) make
    a search graph in which each is one level below the former.
    """
    n = int(n)
    key = f'diag:3x{n + 1}'
    right = [(1 + y % 2, y) for y in range(n + 1)]
    border = ((0, 0), *right, (0, n))
    rungs = tuple(((0, y), (2, y)) for y in range(n + 1))
    return key, [
        ('M', rungs),
        ('M', rungs[::-1]),
        ('P', (border, ())),
        ('M', tuple(zip(right, right[1:]))),
    ]


@family('tides')
def tides(n):
    """Figures to be combined with waves(n): regions."""
    n = int(n)
    key, ((_, wave), _) = waves(n)
    columns = tuple(
        (rectangle(x, 0, x + 1, 5), ()) for x in range(0, n, 2)
    )
    teeth = [(0, 0), (n, 0)]
    for x in range(n, 0, -2):
        teeth += [(x, 3), (x - 1, 2)]
    teeth.append((0, 3))
    return key, [
        ('P', wave),
        ('P', (wave[0], ())),
        ('P', (rectangle(0, 1, n, 4), ())),
        ('P', (tuple(teeth), ())),
        ('MP', columns),
        ('MP', tuple((hole, ()) for hole in wave[1])),
    ]


@family('currents')
def currents(n):
    """Figures to be combined with waves(n): linear ones."""
    n = int(n)
    key, ((_, wave), (_, sides)) = waves(n)
    crosses = []
    for x in range(0, n - 4, 5):
        crosses.append(((x, 0), (x + 5, 5)))
    return key, [
        ('S', ((0, 2), (n, 2))),
        ('C', wave[0]),
        ('C', rectangle(0, 2, n, 3)),
        ('M', sides),
        ('M', tuple(crosses)),
        ('M', tuple(((0, y), (n, y)) for y in range(6))),
        ('M', tuple(((x, 0), (x, 5)) for x in range(n + 1))),
    ]


@family('boxes')
def box_contours(w, h):
    """Rectangles around the middle, and segments, on the grid lines."""
    w, h = int(w), int(h)
    key = f'axis:{w + 1}x{h + 1}'
    result = []
    for i in range((min(w, h) + 1) // 2):
        result.append(('C', rectangle(i, i, w - i, h - i)))
    result.append(('C', rectangle(0, 0, w, 1)))
    result.append(('C', rectangle(1, 0, w - 1, h)))
    result.append(('C', rectangle(w // 2, 1, w, h - 1)))
    for y in range(h + 1):
        result.append(('M', (((0, y), (w, y)), ((w, 0), (w, h)))))
    for x in range(w + 1):
        result.append(('M', (((x, 0), (x, h)), ((0, 0), (1, 0)))))
    for x in range(1, w):
        result.append(('M', (((x, 0), (x, h - 1)), ((x, 1), (x + 1, 1)))))
    for y in range(1, h):
        result.append(('M', (((1, y), (2, y)), ((w - 2, y), (w - 1, y)))))
    return key, [
        s
        for s in result
        if s[0] == 'C' or not _overlapping(universe(key), s)
    ]


def _overlapping(u, spec):
    try:
        model.cells(u, spec)
    except model.Mismatch:
        return True
    return False


@family('polygons')
def polygons(*name):
    """The polygons among the members and parts of another family."""
    key, specs = get('.'.join(name))
    result = {}
    for spec in specs:
        if spec[0] not in ('P', 'MP'):
            continue
        for polygon in [spec[1]] if spec[0] == 'P' else spec[1]:
            result[('P', polygon)] = None
    return key, sorted(result, key=lambda s: (size(s), repr(s)))


@family('only')
def only(kind, *name):
    """The members of one kind."""
    key, specs = get('.'.join(name))
    return key, [s for s in specs if s[0] == kind]


@family('partners')
def partners(*name):
    """Multipolygons with a polygon replaced by its copy without holes."""
    key, specs = get('.'.join(name))
    result = []
    for kind, data in specs:
        if kind == 'P' and data[1]:
            result.append(('P', (data[0], ())))
            result.append(('P', (data[0], data[1][:1])))
            result.append(('P', (data[0], data[1][1:])))
    return key, sorted(set(result), key=lambda s: (size(s), repr(s)))


def _on_line(n):
    """Sets of segments between n points of a line that do not overlap."""

    def complete(start):
        yield ()
        for a in range(start, n - 1):
            for b in range(a + 1, n):
                for rest in complete(b):
                    yield ((a, b), *rest)

    return list(complete(0))


@family('line')
def line(n):
    """Every segment between n points of the middle line."""
    n = int(n)
    pairs = sorted(combinations(range(n), 2), key=lambda s: s[1] - s[0])
    return f'axis:{n}x3', [
        ('S', ((a, 1), (b, 1)) if flip else ((b, 1), (a, 1)))
        for a, b in pairs
        for flip in (True, False)
    ]


def _orders(pieces):
    """All orders of a few, each with two patterns of directions."""
    orders = (
        permutations(pieces)
        if len(pieces) < 5
        else (pieces, pieces[::-1], pieces[1:] + pieces[:1])
    )
    for i, order in enumerate(orders):
        yield tuple(
            s if (i + j) % 2 else s[::-1] for j, s in enumerate(order)
        )


@family('piles')
def piles(n):
    """Every set of segments on a line that do not overlap, in every order."""
    n = int(n)
    result = []
    for pieces in _on_line(n):
        if len(pieces) > 1:
            pieces = tuple(((a, 1), (b, 1)) for a, b in pieces)
            result += [('M', order) for order in _orders(pieces)]
    result.sort(key=size)
    return f'axis:{n}x3', result


@family('spines')
def spines(n):
    """Segments on a line with a branch that starts there or crosses it."""
    n = int(n)
    result = []
    for pieces in _on_line(n):
        if not pieces:
            continue
        pieces = tuple(((a, 1), (b, 1)) for a, b in pieces)
        for x in range(n):
            for branch in (((x, 0), (x, 1)), ((x, 2), (x, 1))):
                for order in (
                    (branch, *pieces),
                    (*pieces, branch),
                    (*pieces[::-1], branch[::-1]),
                ):
                    result.append(('M', order))
    result.sort(key=size)
    return f'axis:{n}x3', list(dict.fromkeys(result))


@family('walls')
def walls(n):
    """Borders of two rows of squares with n points on their common line."""
    n = int(n)
    key, specs = squares(n - 1, 2)
    return key, list(
        dict.fromkeys(
            ('C', data[0]) for kind, data in specs if kind == 'P'
        )
    )


@family('sides')
def sides(w, h):
    """Multisegments of the sides of triangles and quadrangles."""
    key, specs = contours(w, h, 3, 4)
    return key, [
        ('M', tuple(zip(r, r[1:] + r[:1]))) for _, r in specs
    ]


@family('presented')
def presented(w, h):
    """Every presentation of every ring on a grid."""
    key, specs = rings(w, h, 3, 5)
    result = []
    for _, (ring, _) in specs:
        n = len(ring)
        for start in range(n):
            rotated = (*ring[start:], *ring[:start])
            result.append(('P', (rotated, ())))
            result.append(('P', (rotated[::-1], ())))
    return key, result


@family('repeating')
def repeating(w, h):
    """Degenerate sequences with repeated members (views only)."""
    key = f'full:{w}x{h}'
    a, b, c = (0, 0), (1, 0), (0, 1)
    return key, [
        ('C', (a, b, a)),
        ('C', (a, a, b, b)),
        ('C', (a, b, a, b, c)),
        ('M', ((a, b), (b, a))),
        ('M', ((a, b), (a, b), (b, c))),
        ('M', ((a, b), (b, c), (b, a), (a, b))),
        ('P', ((a, b, c), ((a, b, c), (b, c, a), (a, b, (1, 1))))),
        (
            'MP',
            (
                ((a, b, c), ()),
                ((c, a, b), ()),
                ((a, b, (1, 1)), ()),
            ),
        ),
    ]


# --- irregular figures ------------------------------------------------------------


def _dice(seed):
    """A fixed sequence of numbers: the families are the same in every run."""
    state = int(seed) * 7919 + 12345
    while True:
        state = (state * 6364136223846793005 + 1442695040888963407) % 2**64
        yield state >> 33


def blobs(key, k, seed, share=1):
    """k disjoint connected irregular sets of faces of the universe.

    They grow in turns from faces far from each other until they cover
    the given share of the universe.
    """
    u = universe(key)
    dice = _dice(seed)
    adjacent = u._adjacency()
    count = len(u.faces)
    cells, free = [], (1 << count) - 1
    for _ in range(k):
        candidates = [i for i in range(count) if free >> i & 1]
        i = candidates[next(dice) % len(candidates)]
        cells.append(1 << i)
        free &= ~(1 << i)
    target = int(count * share)
    stuck = 0
    while free and count - free.bit_count() < target and stuck < 50 * k:
        j = next(dice) % k
        border = 0
        for i in range(count):
            if cells[j] >> i & 1:
                border |= adjacent[i]
        border &= free
        options = [i for i in range(count) if border >> i & 1]
        if not options:
            stuck += 1
            continue
        i = options[next(dice) % len(options)]
        cells[j] |= 1 << i
        free &= ~(1 << i)
    return cells


@family('patches')
def patches(key, k, seed):
    """All unions of k irregular pieces that nearly tile the universe."""
    return _from_cells(key, blobs(key, int(k), seed, 0.85))


@family('islands')
def islands(key, k, seed):
    """All unions of k small irregular pieces with gaps between them."""
    return _from_cells(key, blobs(key, int(k), seed, 0.3))


def _chains(u):
    """All (vertex, vertex) pairs joined by a straight line of edges."""
    n = len(u.vertices)
    return [(a, b) for a in range(n) for b in range(a + 1, n) if u.span(a, b)]


@family('trails')
def trails(key, k, seed):
    """All parts of k segments that may touch, but do not cross or overlap."""
    from .shapes import _unscaled, segments_cross_or_overlap

    u = universe(key)
    dice = _dice(seed)
    chains = _chains(u)
    chosen = []
    for _ in range(2000):
        if len(chosen) == int(k):
            break
        a, b = chains[next(dice) % len(chains)]
        s = _unscaled(u.vertices[a], u.scale), _unscaled(
            u.vertices[b], u.scale
        )
        if next(dice) & 1:
            s = s[::-1]
        if not any(segments_cross_or_overlap(*t, *s) for t in chosen):
            chosen.append(s)
    result = []
    for bits in range(1, 1 << len(chosen)):
        part = tuple(s for i, s in enumerate(chosen) if bits >> i & 1)
        result.append(('S', part[0]) if len(part) == 1 else ('M', part))
    return key, sorted(result, key=lambda s: (size(s), repr(s)))


@family('shards')
def shards(key, k, seed):
    """All unions of a frame and k disjoint triangles cut out of it.

    Triangles are long and thin and often share vertices, also with
    the frame and in the middle of its edges.
    """
    from .shapes import _unscaled

    u = universe(key)
    dice = _dice(seed)
    chained = {}
    for a, b in _chains(u):
        chained.setdefault(a, set()).add(b)
        chained.setdefault(b, set()).add(a)
    n = len(u.vertices)

    def triangle(starts):
        a = starts[next(dice) % len(starts)]
        others = sorted(chained.get(a, ()))
        b = others[next(dice) % len(others)]
        common = sorted(chained[a] & chained[b])
        if not common:
            return None
        c = common[next(dice) % len(common)]
        ring = tuple(_unscaled(u.vertices[i], u.scale) for i in (a, b, c))
        return ((a, b, c), ring) if doubled_area(ring) else None

    frame = 0
    for _ in range(60):
        found = triangle(range(n))
        if found is not None:
            faces = ring_faces(key, found[1])
            if faces.bit_count() > frame.bit_count():
                frame, corners = faces, found[0]
    ends = list(corners)
    for i in range(n):
        if any(
            i in chained[a] and i in chained[b]
            and _between(u.vertices[a], u.vertices[i], u.vertices[b])
            for a, b in combinations(corners, 2)
        ):
            ends.append(i)
    cells, starts = [], ends
    for _ in range(4000):
        if len(cells) == int(k):
            break
        found = triangle(starts)
        if found is None:
            continue
        faces = ring_faces(key, found[1])
        if faces & ~frame or faces == frame:
            continue
        frame &= ~faces
        cells.append(faces)
        starts = [*found[0], *ends] if next(dice) & 1 else list(found[0])
    return _from_cells(key, [*cells, frame] if frame else cells)


@family('hinges')
def hinges(key, k, seed):
    """All unions of a board and k triangles cut out of it.

    All the triangles share the middle of the bottom side of the board.
    """
    from .shapes import _unscaled

    u = universe(key)
    dice = _dice(seed)
    apex = (u.width - 1) // 2, 0
    start = u.vertex(apex)
    chained = {}
    for a, b in _chains(u):
        chained.setdefault(a, set()).add(b)
        chained.setdefault(b, set()).add(a)
    board, cells = u.all_faces, []
    for _ in range(4000):
        if len(cells) == int(k):
            break
        ends = sorted(chained[start])
        a = ends[next(dice) % len(ends)]
        common = sorted(chained[a] & chained[start])
        if not common:
            continue
        b = common[next(dice) % len(common)]
        ring = tuple(_unscaled(u.vertices[i], u.scale) for i in (a, b))
        if not doubled_area((apex, *ring)):
            continue
        faces = ring_faces(key, (apex, *ring))
        if faces & ~board or faces == board or (
            faces.bit_count() * 4 > board.bit_count()
        ):
            continue
        board &= ~faces
        cells.append(faces)
    return _from_cells(key, [*cells, board])


@family('bands')
def bands(key):
    """All unions of the rows of a board, and all unions of its columns."""
    u = universe(key)
    w, h = u.width - 1, u.height - 1
    rows = [ring_faces(key, rectangle(0, y, w, y + 1)) for y in range(h)]
    columns = [ring_faces(key, rectangle(x, 0, x + 1, h)) for x in range(w)]
    return key, [*_from_cells(key, rows)[1], *_from_cells(key, columns)[1]]


def _between(a, p, b):
    (ax, ay), (px, py), (bx, by) = a, p, b
    return (bx - ax) * (py - ay) == (by - ay) * (px - ax) and (
        min(a, b) < p < max(a, b)
    )


@family('outlines')
def outlines(key, k, seed):
    """The borders and holes of all unions of k irregular pieces."""
    _, specs = patches(key, k, seed)
    result = {}
    for i, (kind, data) in enumerate(specs):
        for border, holes in [data] if kind == 'P' else data:
            for ring in (border, *holes):
                shift = i % len(ring)
                result.setdefault(
                    canonical_ring(ring), (*ring[shift:], *ring[:shift])
                )
    return key, sorted(
        (('C', r) for r in result.values()), key=lambda s: (size(s), repr(s))
    )


def dealt_segments(key, k, seed):
    """k segments of the universe which may cross and overlap."""
    from .shapes import _unscaled

    u = universe(key)
    dice = _dice(seed)
    chains = _chains(u)
    result = []
    while len(result) < k:
        a, b = chains[next(dice) % len(chains)]
        if next(dice) & 1:
            a, b = b, a
        s = tuple(_unscaled(u.vertices[i], u.scale) for i in (a, b))
        if s not in result and s[::-1] not in result:
            result.append(s)
    return tuple(result)


def dealt_overlaps(n, seed):
    """All segments between n points of a line, in some order."""
    dice = _dice(seed)
    result = [
        ((a, 1), (b, 1)) if next(dice) & 1 else ((b, 1), (a, 1))
        for a, b in combinations(range(n), 2)
    ]
    return tuple(shuffled(result, dice))


def shuffled(items, dice):
    items = list(items)
    for i in range(len(items) - 1, 0, -1):
        j = next(dice) % (i + 1)
        items[i], items[j] = items[j], items[i]
    return items


def dealt_points(w, h, k, seed):
    """k points of a w x h grid in some order."""
    dice = _dice(seed)
    grid = [(x, y) for x in range(w) for y in range(h)]
    return tuple(shuffled(grid, dice)[:k])
