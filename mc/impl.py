"""The only module that touches the code under test (rene from /repo)."""

import os
import sys
from fractions import Fraction

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

import rene  # noqa: E402

assert os.path.dirname(os.path.dirname(os.path.abspath(rene.__file__))) == (
    os.path.abspath(REPO)
), rene.__file__

from rene import exact  # noqa: E402
from rene.enums import Location, Orientation, Relation  # noqa: E402, F401

Point = exact.Point
KINDS = {
    exact.Empty: 'E',
    exact.Segment: 'S',
    exact.Multisegment: 'M',
    exact.Contour: 'C',
    exact.Polygon: 'P',
    exact.Multipolygon: 'MP',
}


class Affine:
    """(x, y) -> (a x + b y + c, d x + e y + f), rational coefficients."""

    def __init__(self, a, b, c, d, e, f):
        self.args = (a, b, c, d, e, f)
        self.a, self.b, self.c, self.d, self.e, self.f = self.args
        det = a * e - b * d
        assert det
        self.det = det
        self.identity = self.args == (1, 0, 0, 0, 1, 0)

    def __repr__(self):
        return 'Affine({})'.format(', '.join(map(str, self.args)))

    def apply(self, p):
        x, y = p
        if self.identity:
            return x, y
        return (
            self.a * x + self.b * y + self.c,
            self.d * x + self.e * y + self.f,
        )

    def invert(self, p):
        if self.identity:
            return p
        x, y = p[0] - self.c, p[1] - self.f
        return (
            Fraction(self.e * x - self.b * y) / self.det,
            Fraction(self.a * y - self.d * x) / self.det,
        )


IDENTITY = Affine(1, 0, 0, 0, 1, 0)


def scalar(value):
    """rene coordinate -> Fraction (or int)."""
    n, d = int(value.numerator), int(value.denominator)
    return n if d == 1 else Fraction(n, d)


def point_of(p):
    return scalar(p.x), scalar(p.y)


def _coordinate(value):
    if isinstance(value, Fraction):
        if value.denominator == 1:
            return int(value)
        from rithm.fraction import Fraction as RithmFraction

        return RithmFraction(value.numerator, value.denominator)
    return value


def make_point(p, affine=IDENTITY):
    x, y = affine.apply(p)
    return Point(_coordinate(x), _coordinate(y))


def make_segment(s, affine=IDENTITY):
    return exact.Segment(make_point(s[0], affine), make_point(s[1], affine))


def make_contour(ring, affine=IDENTITY):
    return exact.Contour([make_point(p, affine) for p in ring])


def make_polygon(polygon, affine=IDENTITY):
    border, holes = polygon
    return exact.Polygon(
        make_contour(border, affine), [make_contour(h, affine) for h in holes]
    )


def build(spec, affine=IDENTITY):
    kind = spec[0]
    if kind == 'E':
        return exact.Empty()
    data = spec[1]
    if kind == 'S':
        return make_segment(data, affine)
    if kind == 'M':
        return exact.Multisegment([make_segment(s, affine) for s in data])
    if kind == 'C':
        return make_contour(data, affine)
    if kind == 'P':
        return make_polygon(data, affine)
    assert kind == 'MP', spec
    return exact.Multipolygon([make_polygon(p, affine) for p in data])


def read(value, affine=IDENTITY):
    """Geometry of the code under test -> spec as it is presented."""
    inv = affine.invert

    def ring(contour):
        return tuple(inv(point_of(v)) for v in contour.vertices)

    def polygon(p):
        return ring(p.border), tuple(ring(h) for h in p.holes)

    def segment(s):
        return inv(point_of(s.start)), inv(point_of(s.end))

    kind = KINDS.get(type(value))
    if kind is None:
        return ('?', repr(value))
    if kind == 'E':
        return ('E',)
    if kind == 'S':
        return ('S', segment(value))
    if kind == 'M':
        return ('M', tuple(segment(s) for s in value.segments))
    if kind == 'C':
        return ('C', ring(value))
    if kind == 'P':
        return ('P', polygon(value))
    return ('MP', tuple(polygon(p) for p in value.polygons))
