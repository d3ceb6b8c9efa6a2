"""Interleaved and abandoned operations on shared geometries.

A controlled scheduler runs two operations of the real code as two threads:
the first one is stopped at a chosen point (a line of the library that it
is about to execute), the second one runs, wholly or up to a chosen point of
its own, and so on.  All points are enumerated.  A thread that waits for the
other one (a lock) is let go after a while, so a library that synchronizes
its operations raises no alarm.
"""

import os
import sys
import threading

from . import cases, impl
from .families import canonical_spec

LIBRARY = os.path.join(os.path.abspath(impl.REPO), 'rene', '')
PATIENCE = 2.0
MAX_BLOCKED = 3

PAIRS = {
    'regions': (
        ('P', (((0, 0), (4, 0), (0, 4)), (((1, 1), (1, 2), (2, 1)),))),
        ('P', (((1, 0), (4, 1), (1, 3)), ())),
    ),
    'others': (
        ('P', (((10, 9), (13, 9), (13, 12), (10, 12)), ())),
        ('P', (((11, 9), (12, 9), (12, 12), (11, 12)), ())),
    ),
    'lines': (
        ('M', (((0, 0), (2, 2)), ((0, 2), (2, 0)), ((3, 0), (3, 2)))),
        ('M', (((0, 1), (3, 1)), ((1, 1), (2, 2)))),
    ),
    'mixed': (
        ('MP', ((((0, 0), (2, 0), (0, 2)), ()), (((2, 0), (4, 0), (4, 2)), ()))),
        ('M', (((0, 1), (4, 1)), ((0, 0), (2, 0)), ((3, -1), (3, 3)))),
    ),
    'small': (
        ('P', (((0, 0), (1, 0), (0, 1)), ())),
        ('P', (((0, 0), (1, 0), (1, 1)), ())),
    ),
    'small_lines': (
        ('M', (((0, 0), (1, 1)), ((1, 1), (2, 0)))),
        ('M', (((0, 1), (1, 0)), ((1, 1), (2, 0)))),
    ),
    'small_mixed': (
        ('P', (((5, 5), (7, 5), (5, 7)), ())),
        ('M', (((5, 5), (6, 6)), ((7, 5), (8, 5)))),
    ),
    'small_pieces': (
        ('MP', ((((0, 0), (1, 0), (0, 1)), ()), (((1, 0), (2, 0), (2, 1)), ()))),
        ('C', ((0, 0), (2, 0), (1, 1))),
    ),
}


# --- operations: (first, second) -> plain value -------------------------------


def _plain(value):
    return canonical_spec(impl.read(value))


def _contours(value):
    if hasattr(value, 'polygons'):
        return [c for p in value.polygons for c in _contours(p)]
    if hasattr(value, 'border'):
        return [value.border, *value.holes]
    return [value] if hasattr(value, 'vertices') else []


def _polygons(value):
    if hasattr(value, 'polygons'):
        return list(value.polygons)
    return [value] if hasattr(value, 'border') else []


def _segments(value):
    if hasattr(value, 'segments'):
        return list(value.segments)
    return [s for c in _contours(value) for s in c.segments]


def _points(value):
    return sorted({p for s in _segments(value) for p in (s.start, s.end)})


def _triangles(triangulation):
    return sorted(_plain(t) for t in triangulation.triangles)


def _locate(first, second):
    return [
        (first.locate(p).name, p in first) for p in _points(second)
    ] + [second.locate(p).name for p in _points(first)]


def _valid(first, second):
    return [
        [c.is_valid() for c in _contours(value)]
        if _contours(value)
        else value.is_valid()
        for value in (first, second)
    ]


def _values(first, second):
    again = impl.build(impl.read(first))
    return (
        first == second,
        first == again,
        hash(first) == hash(again),
        str(first) == str(again),
        repr(first) == repr(again),
    )


def _views(first, second):
    result = []
    for value in (first, second):
        for name in ('polygons', 'holes', 'segments', 'vertices'):
            view = getattr(value, name, None)
            if view is None:
                continue
            items = list(view)
            result.append(
                (
                    name,
                    len(items),
                    [view.index(item) for item in items],
                    [view.count(item) for item in items],
                    [item in view for item in items],
                    list(view[::-1]) == items[::-1],
                    list(view[1:]) == items[1:],
                    view[:] == view,
                )
            )
    return result


def _box(first, second):
    first, second = first.bounding_box, second.bounding_box
    return (
        first.relate_to(second).name,
        [impl.scalar(getattr(first, n)) for n in ('min_x', 'max_x')],
        [impl.scalar(getattr(second, n)) for n in ('min_y', 'max_y')],
        [first.disjoint_with(second), first.equals_to(second)],
        [first == second, second.is_valid()],
    )


def _orient(first, second):
    return [
        c.orientation.name for c in (*_contours(first), *_contours(second))
    ]


def _delaunay(first, second):
    triangulation = impl.exact.DelaunayTriangulation.from_points(
        _points(first)
    )
    return (
        _triangles(triangulation),
        sorted(impl.point_of(p) for p in triangulation.border.vertices),
    )


def _constrained(first, second):
    make = impl.exact.ConstrainedDelaunayTriangulation.from_polygon
    return [
        _triangles(make(p)) for p in (*_polygons(first), *_polygons(second))
    ]


def _trapezoids(first, second):
    graph = _graph(first)
    return [graph.locate(p).name for p in _points(second)], graph.height


OPERATIONS = {
    'and': lambda a, b: _plain(a & b),
    'or': lambda a, b: _plain(a | b),
    'sub': lambda a, b: _plain(a - b),
    'xor': lambda a, b: _plain(a ^ b),
    'rsub': lambda a, b: _plain(b - a),
    'relate': lambda a, b: (a.relate_to(b).name, b.relate_to(a).name),
    'locate': _locate,
    'valid': _valid,
    'values': _values,
    'views': _views,
    'box': _box,
    'orient': _orient,
    'delaunay': _delaunay,
    'constrained': _constrained,
    'trapezoids': _trapezoids,
}


def _graph(first):
    return (
        impl.exact.Trapezoidation.from_polygon(
            _polygons(first)[0], seeder=lambda: 5
        )
        if _polygons(first)
        else impl.exact.Trapezoidation.from_multisegment(
            first, seeder=lambda: 5
        )
    )


def _search(first, second, graph):
    points = _points(first) + _points(second)
    return [(graph.locate(p).name, p in graph) for p in points], graph.height


def _mesh(first):
    return impl.exact.DelaunayTriangulation.from_points(_points(first))


def _collect(first, second, mesh):
    return (
        _triangles(mesh),
        sorted(impl.point_of(p) for p in mesh.border.vertices),
        bool(mesh),
    )


# what the operations share besides of the operands
SHARED = {'search': _graph, 'collect': _mesh}
OPERATIONS['search'] = _search
OPERATIONS['collect'] = _collect


def _run(name, operands):
    try:
        if name in SHARED:
            return OPERATIONS[name](*operands, operands.shared[name])
        return OPERATIONS[name](*operands)
    except Exception as error:
        return f'{type(error).__name__}: {error}'


class Program:
    """An operation with its operands, and what it gives on its own."""

    def __init__(self, name, pair):
        self.name, self.pair = name, pair

    def expect(self):
        values = fresh(self.pair, self.name)
        self.alone = _run(self.name, values)
        return self


class Operands(tuple):
    shared: dict


def fresh(pair, *names):
    """New geometries, with what the named operations share."""
    result = Operands(impl.build(spec) for spec in PAIRS[pair])
    result.shared = {
        name: SHARED[name](result[0]) for name in names if name in SHARED
    }
    return result


# --- scheduler -----------------------------------------------------------------

_known = {}


def _ours(code):
    try:
        return _known[code]
    except KeyError:
        result = _known[code] = os.path.abspath(code.co_filename).startswith(
            LIBRARY
        )
        return result


def traced(point, action, function, grain):
    """Result of the function, and how many points it has passed.

    The action is taken when the given point is reached, once.  Points are
    all executions of lines of the library ('line'), or those executions
    which are the first, 4th, 16th, 64th and so on of their line
    ('sparse'), or the first entry into each function ('entry').
    """
    passed = 0
    seen = {}

    def reach():
        nonlocal passed
        passed += 1
        if passed - 1 == point:
            sys.settrace(None)
            action()

    def on_line(frame, event, _):
        if event == 'line' and (point is None or passed <= point):
            if grain == 'sparse':
                place = frame.f_code, frame.f_lineno
                times = seen[place] = seen.get(place, 0) + 1
                if times & (times - 1) or not times & 0x55555555:
                    return on_line
            reach()
        return on_line

    def on_call(frame, event, _):
        code = frame.f_code
        if not _ours(code) or (point is not None and passed > point):
            return None
        if grain != 'entry':
            return on_line
        if code not in seen:
            seen[code] = 1
            reach()
        return None

    sys.settrace(on_call)
    try:
        return function(), passed
    finally:
        sys.settrace(None)


class Abandoned(BaseException):
    pass


def _abandon():
    raise Abandoned


class Other:
    """The second operation, in a thread of its own."""

    def __init__(self, program, operands, point=None):
        self.result = None
        self.passed = 0
        self.held = threading.Event()
        self.go = threading.Event()
        self.blocked = False

        def hold():
            self.held.set()
            if not self.go.wait(PATIENCE):
                self.blocked = True

        def run():
            try:
                if point is None:
                    self.result = _run(program.name, operands)
                else:
                    self.result, self.passed = traced(
                        point,
                        hold,
                        lambda: _run(program.name, operands),
                        'entry',
                    )
            finally:
                self.held.set()

        self.thread = threading.Thread(target=run, daemon=True)

    def start(self):
        self.thread.start()
        if not self.held.wait(PATIENCE):
            self.blocked = True

    def finish(self):
        self.go.set()
        self.thread.join(60 + PATIENCE)
        return not self.thread.is_alive()


def _check(label, program, got):
    if got != program.alone:
        return (
            f'{label}: {program.name} of {program.pair} gives '
            f'{str(got)[:200]}, alone it gives {str(program.alone)[:200]}'
        )
    return None


def _unchanged(label, pair, operands):
    for spec, value in zip(PAIRS[pair], operands):
        if impl.read(value) != spec:
            return f'{label}: operand {spec} became {impl.read(value)}'
    return None


@cases.case
def interleaved(case, rec):
    """('interleaved', first, pair, second, other pair, grain, part, parts).

    The second operation runs as a whole at every point of the first one.
    Operations on the same pair share the geometries.
    """
    _, name, pair, other_name, other_pair, grain, part, parts = case
    first = Program(name, pair).expect()
    second = Program(other_name, other_pair).expect()
    _, count = traced(
        None, None, lambda: _run(name, fresh(pair, name)), grain
    )
    rec.call(3)
    blocked = 0
    for point in range(part, count, parts):
        operands = fresh(pair, name, other_name)
        others = operands if other_pair == pair else fresh(other_pair, other_name)
        thread = Other(second, others)
        got, passed = traced(
            point, thread.start, lambda: _run(name, operands), grain
        )
        if passed <= point:
            thread.start()
        if not thread.finish():
            return f'{other_name} never ends if begun at point {point}'
        rec.call(2)
        rec.state(case[:5], point)
        label = f'{other_name} of {other_pair} at point {point} of {name}'
        message = (
            _check(label, first, got)
            or _check(label, second, thread.result)
            or _unchanged(label, pair, operands)
            or _unchanged(label, other_pair, others)
        )
        if message:
            return message
        blocked += thread.blocked
        if blocked >= MAX_BLOCKED:
            rec.outcome('blocked')
            break
    return None


@cases.case
def interleaved_twice(case, rec):
    """('interleaved_twice', first, pair, second, other pair, part, parts).

    The first operation is stopped, the second one begins and is stopped,
    the first one ends, the second one ends: for all pairs of points where
    a function of the library is entered for the first time.
    """
    _, name, pair, other_name, other_pair, part, parts = case
    first = Program(name, pair).expect()
    second = Program(other_name, other_pair).expect()
    _, count = traced(None, None, lambda: _run(name, fresh(pair, name)), 'entry')
    _, other_count = traced(
        None, None, lambda: _run(other_name, fresh(other_pair, other_name)), 'entry'
    )
    rec.call(4)
    blocked = 0
    for point in range(part, count, parts):
        for other_point in range(other_count):
            operands = fresh(pair, name, other_name)
            others = operands if other_pair == pair else fresh(other_pair, other_name)
            thread = Other(second, others, other_point)
            got, passed = traced(
                point, thread.start, lambda: _run(name, operands), 'entry'
            )
            if passed <= point:
                thread.start()
            if not thread.finish():
                return f'{other_name} never ends if begun at point {point}'
            rec.call(2)
            rec.state(case[:5], point, other_point)
            label = (
                f'{other_name} of {other_pair} up to {other_point} at point '
                f'{point} of {name}'
            )
            message = (
                _check(label, first, got)
                or _check(label, second, thread.result)
                or _unchanged(label, pair, operands)
                or _unchanged(label, other_pair, others)
            )
            if message:
                return message
            blocked += thread.blocked
            if blocked >= MAX_BLOCKED:
                rec.outcome('blocked')
                return None
    return None


@cases.case
def abandoned(case, rec):
    """('abandoned', name, pair, next name, next pair, grain, part,
    parts).

    The operation is interrupted at every point by an exception.
    """
    _, name, pair, next_name, next_pair, grain, part, parts = case
    first = Program(name, pair).expect()
    second = Program(next_name, next_pair).expect()
    _, count = traced(
        None, None, lambda: _run(name, fresh(pair, name)), grain
    )
    rec.call(3)
    for point in range(part, count, parts):
        operands = fresh(pair, name, next_name)
        others = operands if next_pair == pair else fresh(next_pair, next_name)
        label = f'after {name} of {pair} abandoned at point {point}'
        try:
            traced(point, _abandon, lambda: _run(name, operands), grain)
        except Abandoned:
            rec.outcome('abandoned')
        rec.call(3)
        rec.state(case[:5], point)
        message = (
            _unchanged(label, pair, operands)
            or _check(label, second, _run(next_name, others))
            or _check(label, first, _run(name, operands))
            or _unchanged(label, pair, operands)
        )
        if message:
            return message
    return None


@cases.expansion
def schedules(kind, name, pair, other_name, other_pair, *rest):
    yield (kind, name, pair, other_name, other_pair, *rest)
