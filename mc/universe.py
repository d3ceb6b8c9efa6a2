"""Finite reference model of the plane.

A universe is the arrangement of a set of lines over an integer grid.  In the
full universes these are *all* lines that join two points of a small grid; in
the axis/diagonal ones, meant for large inputs, only the grid lines (and the
diagonals).  Every geometry whose vertices are grid points, and every
geometry that boolean operations can make from those (histories of any length
included, because boundaries never leave the lines of the operands), is a
union of cells of the arrangement.  So a geometry is three integers used as
bit sets:

    faces    cells of dimension 2 that belong to the interior of a region
    edges    cells of dimension 1 that belong to its boundary (regions)
             or to it (linear geometries)
    verts    cells of dimension 0 that lie on those edges

and the reference semantics of the library is bit arithmetic.  Nothing in
this module imports the code under test; the coordinates are integers
(multiplied by `scale`, the common denominator of all vertices).
"""

from fractions import Fraction
from functools import lru_cache
from math import gcd


def _lcm(a, b):
    return a // gcd(a, b) * b


def cross(ox, oy, ax, ay, bx, by):
    return (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)


# kind: (distance of grid points, how far they are moved at most)
ROUGH = {
    'jagged': (700, 230),
    'bumpy': (10**12, 10**12 // 3),
    'near': (2**61, 1),
}


def rough_grid(kind, width, height):
    step, shift = ROUGH[kind]
    state = width * 1000 + height
    result = []
    for x in range(width):
        for y in range(height):
            moves = []
            for _ in range(2):
                for _ in range(3):
                    state = (
                        state * 6364136223846793005 + 1442695040888963407
                    ) % 2**64
                moves.append((state >> 11) % (2 * shift + 1) - shift)
            result.append((x * step + moves[0], y * step + moves[1]))
    return sorted(result)


class Universe:
    """kind: 'full' (every line), 'axis' (grid lines), 'diag' (and diagonals)

    or 'star' (grid lines and rays from the middles of bottom and left side),
    or one of ROUGH (every segment between the points of a grid which are
    moved, so that almost no three of them are collinear);

    width and height count grid points.
    """

    def __init__(self, kind, width, height):
        self.key = f'{kind}:{width}x{height}'
        self.width, self.height = width, height
        self.grid = [(x, y) for x in range(width) for y in range(height)]
        if kind in ROUGH:
            self.grid = rough_grid(kind, width, height)
        if kind == 'full' or kind in ROUGH:
            segments = self._maximal_segments()
        else:
            segments = [
                ((x, 0), (x, height - 1)) for x in range(width)
            ] + [((0, y), (width - 1, y)) for y in range(height)]
            if kind == 'diag':
                for dy in (1, -1):
                    for p in self.grid:
                        q = p
                        if (
                            0 <= p[1] - dy < height and p[0] > 0
                        ):  # not the first point of its diagonal
                            continue
                        while (
                            q[0] + 1 < width and 0 <= q[1] + dy < height
                        ):
                            q = q[0] + 1, q[1] + dy
                        if p != q:
                            segments.append((p, q))
            elif kind == 'star':
                right, top = width - 1, height - 1
                around = [
                    (x, y)
                    for x, y in self.grid
                    if x in (0, right) or y in (0, top)
                ]
                for p in ((right // 2, 0), (0, top // 2)):
                    segments += [
                        tuple(sorted((p, q)))
                        for q in around
                        if p[0] != q[0] and p[1] != q[1]
                    ]
                segments += [((0, 0), (right, top)), ((0, top), (right, 0))]
                segments = list(set(segments))
            else:
                assert kind == 'axis', kind
            segments.sort()
        points = {(Fraction(x), Fraction(y)) for x, y in self.grid}
        on_segment = [set() for _ in segments]
        for i, (a, b) in enumerate(segments):
            for p in self.grid:
                if self._on(a, b, p):
                    on_segment[i].add((Fraction(p[0]), Fraction(p[1])))
            for j in range(i):
                c, d = segments[j]
                p = self._meet(a, b, c, d)
                if p is not None:
                    points.add(p)
                    on_segment[i].add(p)
                    on_segment[j].add(p)
        scale = 1
        for x, y in points:
            scale = _lcm(scale, x.denominator)
            scale = _lcm(scale, y.denominator)
        self.scale = scale
        self.vertices = sorted(
            (int(x * scale), int(y * scale)) for x, y in points
        )
        self.index = {p: i for i, p in enumerate(self.vertices)}
        self.edges = []
        self.edge_index = {}
        self.lines = []
        for members in on_segment:
            chain = sorted(
                self.index[(int(x * scale), int(y * scale))]
                for x, y in members
            )
            self.lines.append(chain)
            for u, v in zip(chain, chain[1:]):
                self.edge_index[(u, v)] = len(self.edges)
                self.edges.append((u, v))
        self._trace_faces()
        self._span = {}
        self._below = {}
        self._adjacent = None
        self.all_faces = (1 << len(self.faces)) - 1
        self.vertex_faces = [0] * len(self.vertices)
        for f, cycle in enumerate(self.faces):
            for v in cycle:
                self.vertex_faces[v] |= 1 << f
        self.outer_vertices = 0
        for u, v in self.edges:
            if -1 in self.edge_sides[self.edge_index[(u, v)]]:
                self.outer_vertices |= (1 << u) | (1 << v)

    # --- construction ----------------------------------------------------

    def _maximal_segments(self):
        """Maximal chains: one segment per line that joins grid points."""
        result = {}
        for i, a in enumerate(self.grid):
            for b in self.grid[i + 1 :]:
                dx, dy = b[0] - a[0], b[1] - a[1]
                g = gcd(dx, dy)
                dx, dy = dx // g, dy // g
                if dx < 0 or (dx == 0 and dy < 0):
                    dx, dy = -dx, -dy
                key = (dx, dy, dx * a[1] - dy * a[0])
                lo, hi = result.get(key, (a, a))
                result[key] = (min(lo, a, b), max(hi, a, b))
        return sorted(result.values())

    @staticmethod
    def _on(a, b, p):
        return cross(*a, *b, *p) == 0 and min(a, b) <= p <= max(a, b)

    @staticmethod
    def _meet(a, b, c, d):
        rx, ry = b[0] - a[0], b[1] - a[1]
        sx, sy = d[0] - c[0], d[1] - c[1]
        den = rx * sy - ry * sx
        if den == 0:
            return None
        t = Fraction((c[0] - a[0]) * sy - (c[1] - a[1]) * sx, den)
        w = Fraction((c[0] - a[0]) * ry - (c[1] - a[1]) * rx, den)
        if 0 <= t <= 1 and 0 <= w <= 1:
            return (a[0] + t * rx, a[1] + t * ry)
        return None

    def _trace_faces(self):
        out = [[] for _ in self.vertices]
        for u, v in self.edges:
            out[u].append(v)
            out[v].append(u)

        def angle_key(u):
            ux, uy = self.vertices[u]

            def half(v):
                vx, vy = self.vertices[v]
                return 0 if (vy > uy or (vy == uy and vx > ux)) else 1

            def compare(v, w):
                if half(v) != half(w):
                    return half(v) - half(w)
                c = cross(ux, uy, *self.vertices[v], *self.vertices[w])
                return -1 if c > 0 else (1 if c < 0 else 0)

            from functools import cmp_to_key

            return cmp_to_key(compare)

        for u in range(len(out)):
            out[u].sort(key=angle_key(u))
        self.around = out
        position = {
            (u, v): i for u, vs in enumerate(out) for i, v in enumerate(vs)
        }
        seen = {}
        self.faces = []
        self.face_points = []
        for u, v in [*self.edges, *((v, u) for u, v in self.edges)]:
            if (u, v) in seen:
                continue
            cycle = []
            a, b = u, v
            while (a, b) not in seen:
                seen[(a, b)] = None
                cycle.append(a)
                # next edge of the face on the left: clockwise neighbour
                a, b = b, out[b][position[(b, a)] - 1]
            area = sum(
                self.vertices[p][0] * self.vertices[q][1]
                - self.vertices[p][1] * self.vertices[q][0]
                for p, q in zip(cycle, cycle[1:] + cycle[:1])
            )
            if area <= 0:
                ident = -1
            else:
                ident = len(self.faces)
                self.faces.append(cycle)
                self.face_points.append(
                    (
                        sum(self.vertices[p][0] for p in cycle),
                        sum(self.vertices[p][1] for p in cycle),
                        len(cycle),
                    )
                )
            for p, q in zip(cycle, cycle[1:] + cycle[:1]):
                seen[(p, q)] = ident
        # the mean of the vertices is interior only to a convex face
        for cycle in self.faces:
            n = len(cycle)
            for i in range(n):
                assert (
                    cross(
                        *self.vertices[cycle[i - 2]],
                        *self.vertices[cycle[i - 1]],
                        *self.vertices[cycle[i]],
                    )
                    >= 0
                ), 'face is not convex'
        self.edge_sides = [(seen[(u, v)], seen[(v, u)]) for u, v in self.edges]

    # --- bit sets of segments ---------------------------------------------

    def vertex(self, point):
        """Index of the vertex at a point given in grid units, or None."""
        x, y = point
        if isinstance(x, int):
            return self.index.get((x * self.scale, y * self.scale))
        xn, xd = x.numerator, x.denominator
        yn, yd = y.numerator, y.denominator
        if self.scale % xd or self.scale % yd:
            return None
        return self.index.get(
            (int(xn) * (self.scale // int(xd)), int(yn) * (self.scale // int(yd)))
        )

    def span(self, u, v):
        """(edges, vertices) of the segment uv, None if it is off the lines."""
        key = (u, v) if u < v else (v, u)
        try:
            return self._span[key]
        except KeyError:
            pass
        (ax, ay), (bx, by) = self.vertices[key[0]], self.vertices[key[1]]
        chain = [
            w
            for w in range(key[0], key[1] + 1)
            if cross(ax, ay, bx, by, *self.vertices[w]) == 0
        ]
        edges = vertices = 0
        result = None
        for p, q in zip(chain, chain[1:]):
            e = self.edge_index.get((p, q))
            if e is None:
                break
            edges |= 1 << e
            vertices |= (1 << p) | (1 << q)
        else:
            if edges:
                result = (edges, vertices)
        self._span[key] = result
        return result

    def below(self, u, v):
        """Faces met by the downward rays from the segment (half-open)."""
        key = (u, v) if u < v else (v, u)
        try:
            return self._below[key]
        except KeyError:
            pass
        (ax, ay), (bx, by) = self.vertices[key[0]], self.vertices[key[1]]
        mask = 0
        for f, (sx, sy, k) in enumerate(self.face_points):
            if ax * k <= sx < bx * k and (
                cross(ax * k, ay * k, bx * k, by * k, sx, sy) < 0
            ):
                mask |= 1 << f
        self._below[key] = mask
        return mask

    # --- derived bit sets --------------------------------------------------

    def region_edges(self, faces):
        """(edges inside, edges on the boundary) of the closure of faces."""
        inside = boundary = 0
        for e, (l, r) in enumerate(self.edge_sides):
            in_l = l >= 0 and faces >> l & 1
            in_r = r >= 0 and faces >> r & 1
            if in_l and in_r:
                inside |= 1 << e
            elif in_l or in_r:
                boundary |= 1 << e
        return inside, boundary

    def edge_vertices(self, edges):
        result = 0
        while edges:
            low = edges & -edges
            u, v = self.edges[low.bit_length() - 1]
            result |= (1 << u) | (1 << v)
            edges ^= low
        return result

    def region_vertices(self, faces):
        """(vertices inside, vertices on the boundary)."""
        inside = boundary = 0
        for v, around in enumerate(self.vertex_faces):
            common = around & faces
            if common:
                if common == around and not self.outer_vertices >> v & 1:
                    inside |= 1 << v
                else:
                    boundary |= 1 << v
        return inside, boundary

    def components(self, faces):
        """Connected components of the interior of the closure of faces."""
        adjacent = self._adjacency()
        result = []
        while faces:
            low = faces & -faces
            component, frontier = low, low
            while frontier:
                grown = 0
                while frontier:
                    bit = frontier & -frontier
                    grown |= adjacent[bit.bit_length() - 1]
                    frontier ^= bit
                frontier = grown & faces & ~component
                component |= frontier
            result.append(component)
            faces &= ~component
        return result

    def _adjacency(self):
        if self._adjacent is not None:
            return self._adjacent
        adjacent = [0] * len(self.faces)
        for l, r in self.edge_sides:
            if l >= 0 and r >= 0:
                adjacent[l] |= 1 << r
                adjacent[r] |= 1 << l
        self._adjacent = adjacent
        return adjacent


@lru_cache(maxsize=None)
def universe(key):
    """'full:3x3' -> Universe('full', 3, 3)"""
    kind, size = key.split(':')
    width, height = map(int, size.split('x'))
    return Universe(kind, width, height)
