"""Writes properties.jsonl (run after editing the table below)."""

import json
from pathlib import Path

EXACT = 'rene/_exact'


def prop(id_, title, statement, over, text, tests, files, mechanism, **more):
    anchors = {
        'files': files,
        'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
        'observe_at': more.pop('observe_at', []),
        'hook_needed': None,
    }
    if 'state' in more:
        anchors['state'] = [
            {'name': n, 'meaning': m, 'where': w}
            for n, m, w in more.pop('state')
        ]
    assert not more, more
    assert len(title) <= 80, title
    return {
        'id': id_,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': tests,
        'anchors': anchors,
    }


PROPERTIES = [
    prop(
        'C01',
        'Boolean operations on regions give exactly the set-theoretic region',
        'For all valid polygons, multipolygons and the empty geometry, the '
        'result of `&`, `|`, `-` and `^` is an empty geometry, a polygon or '
        'a multipolygon whose interior and boundary are exactly those of the '
        'regularized intersection, union, difference and symmetric '
        'difference of the operands. No area, hole or piece of boundary is '
        'lost, added or moved, whatever vertices, edges, holes and bounding '
        'boxes the operands share.',
        ['inputs'],
        'all pairs of valid regions (polygons with and without holes, '
        'multipolygons, empty), all four operations, either operand order',
        'Hypothesis samples random polygons with coordinates that seldom '
        'share vertices, overlap edges or touch; it asserts algebraic laws '
        '(commutativity, absorption, ...) that a consistently wrong result '
        'satisfies, and never compares the point set of a result with an '
        'independent model.',
        [
            'rene/_clipping/shaped.py',
            'rene/_clipping/intersection.py',
            'rene/_clipping/union.py',
            'rene/_clipping/difference.py',
            'rene/_clipping/symmetric_difference.py',
            'rene/_geometries/base_polygon.py',
            'rene/_geometries/base_multipolygon.py',
        ],
        [
            ('sweep line clipping of regions', 'rene/_clipping/shaped.py'),
            (
                'shortcuts by bounding boxes before the sweep',
                'rene/_clipping/intersection.py, union.py, difference.py, '
                'symmetric_difference.py',
            ),
            ('order of events and of edges at the sweep line',
             'rene/_clipping/events_queue_key.py, sweep_line_key.py'),
        ],
        observe_at=['operators of rene.exact.Polygon, Multipolygon, Empty'],
    ),
    prop(
        'C02',
        'Boolean operations on linear geometries give the exact point set',
        'For all valid segments, multisegments, contours and the empty '
        'geometry, the result of `&`, `|`, `-` and `^` is a valid linear or '
        'empty geometry that covers exactly the pieces of positive length '
        'of the set-theoretic result. Overlapping pieces are covered once, '
        'and segments of the result meet only at their endpoints.',
        ['inputs'],
        'all pairs of valid linear geometries, all four operations, either '
        'operand order',
        'Sampled operands rarely have collinear overlaps, T-junctions or '
        'several segments through one point, and the assertions are '
        'algebraic laws between results of the same code.',
        [
            'rene/_clipping/linear.py',
            'rene/_clipping/intersection.py',
            'rene/_clipping/union.py',
            'rene/_clipping/difference.py',
            'rene/_clipping/symmetric_difference.py',
            'rene/_geometries/base_segment.py',
            'rene/_geometries/base_multisegment.py',
            'rene/_geometries/base_contour.py',
        ],
        [
            ('sweep line clipping of segments', 'rene/_clipping/linear.py'),
            (
                'pairwise rules for two segments and segment with many',
                'rene/_clipping/intersection.py, difference.py, union.py, '
                'symmetric_difference.py',
            ),
        ],
        observe_at=['operators of rene.exact.Segment, Multisegment, Contour'],
    ),
    prop(
        'C03',
        'Clipping of linear geometry by region gives exactly its part in or out',
        'For every valid segment, multisegment or contour and every valid '
        'polygon or multipolygon, `&` in either order covers exactly the '
        'pieces of positive length of the linear geometry that lie in the '
        'closed region. For multisegments and contours `-` covers exactly '
        'the remaining pieces, each piece once.',
        ['inputs'],
        'all pairs of a valid linear geometry and a valid region',
        'Mixed operations are asserted by algebraic laws on random '
        'operands; segments that run along edges, end on them or pass '
        'through vertices of the region are hardly ever drawn.',
        [
            'rene/_clipping/mixed.py',
            'rene/_clipping/intersection.py',
            'rene/_clipping/difference.py',
        ],
        [
            ('sweep line clipping of segments by region',
             'rene/_clipping/mixed.py'),
            ('selection of parts by bounding boxes',
             'rene/_clipping/intersection.py, difference.py'),
        ],
        observe_at=['operators of all the geometries of rene.exact'],
    ),
    prop(
        'C04',
        'Results of region operations are well-formed and minimal',
        'Every region returned by `&`, `|`, `-` or `^` is valid: borders and '
        'holes are simple, holes lie in their borders, components and holes '
        'do not overlap and touch each other only at points, and a single '
        'component is returned as polygon, several as multipolygon, none as '
        'empty geometry. Contours of the result have no vertex with an '
        'angle of 180 degrees, and components that only share vertices, as '
        'well as holes that only touch the border at one vertex, are kept '
        'apart as components and holes.',
        ['inputs'],
        'all pairs of valid regions, especially those whose result has '
        'components, holes or corners that touch at vertices',
        'Tests only assert the type of the result and laws modulo equality; '
        'the grouping of contours to holes and components, and redundant '
        'vertices, are seldom produced by random operands.',
        [
            'rene/_clipping/shaped.py',
            'rene/_clipping/utils.py',
            'rene/_utils.py',
        ],
        [
            ('assembly of contours, holes and components from the sweep',
             'rene/_clipping/shaped.py (events_to_contours and around)'),
            ('removal of collinear vertices',
             'rene/_utils.py shrink_collinear_vertices'),
        ],
        observe_at=['operators of rene.exact.Polygon and Multipolygon'],
    ),
    prop(
        'C05',
        'Operations are pure and do not depend on how operands are presented',
        'Rotating or reversing vertices of a contour, border or hole, '
        'reordering holes, polygons or segments and swapping ends of a '
        'segment changes neither the point set of any operation result nor '
        'any relation. Operations neither modify their operands nor keep '
        'hold of the lists that geometries are constructed from, and a '
        'repeated operation on the same objects returns an equal result.',
        ['inputs', 'histories'],
        'all presentations of the operands, all operations and relations, '
        'repeated calls',
        'Tests do not compare results for several presentations of one '
        'geometry, and strategies present polygons in a fixed orientation '
        'of rings.',
        [
            'rene/_clipping',
            'rene/_relating',
            'rene/_utils.py',
            'rene/_exact',
            'rene/_geometries',
        ],
        [
            ('orientation of rings before sweeping',
             'rene/_utils.py polygon_to_correctly_oriented_segments, '
             'rene/_relating/utils.py'),
            ('copies of sequences in constructors', 'rene/_exact'),
        ],
        observe_at=['operators and relate_to of rene.exact geometries'],
    ),
    prop(
        'C06',
        'relate_to of two regions is their exact relation',
        'For all valid polygons, multipolygons and the empty geometry '
        '`relate_to` returns the relation that holds between the point '
        'sets: equal, disjoint, touch, overlap, within/cover, '
        'enclosed/encloses or component/composite as documented. The '
        'reverse relation is always its complement.',
        ['inputs'],
        'all ordered pairs of valid regions',
        'Tests check relations of operation results with operands on '
        'random regions; pairs which share edges partly, touch from inside '
        'or fill holes are seldom drawn, and there is no oracle for the '
        'relation of arbitrary pairs.',
        ['rene/_relating/shaped.py', 'rene/_relating/polygon.py',
         'rene/_relating/multipolygon.py', 'rene/_relating/utils.py',
         'rene/_enums.py'],
        [
            ('sweep with early exit that accumulates the relation',
             'rene/_relating/shaped.py'),
            ('shortcuts by bounding boxes',
             'rene/_relating/polygon.py, multipolygon.py'),
        ],
        observe_at=['relate_to of rene.exact.Polygon, Multipolygon, Empty'],
    ),
    prop(
        'C07',
        'relate_to of two linear geometries is their exact relation',
        'For all valid segments, multisegments, contours and the empty '
        'geometry `relate_to` returns the relation that holds between the '
        'point sets: equal, disjoint, touch, cross, overlap or '
        'component/composite, where geometries cross if at some common '
        'point the branches of one lie on both sides of the other. The '
        'reverse relation is always its complement.',
        ['inputs'],
        'all ordered pairs of valid linear geometries',
        'Random segments rarely overlap, end on each other or meet at one '
        'point in threes, and there is no independent oracle in the tests.',
        ['rene/_relating/linear.py', 'rene/_relating/segment.py',
         'rene/_relating/multisegmental.py', 'rene/_relating/contour.py',
         'rene/_relating/multisegment.py',
         'rene/_relating/segment_endpoints.py'],
        [
            ('sweep that accumulates the relation',
             'rene/_relating/linear.py'),
            ('relation of segment to segment and to many segments',
             'rene/_relating/segment_endpoints.py, segment.py'),
        ],
        observe_at=['relate_to of rene.exact.Segment, Multisegment, Contour'],
    ),
    prop(
        'C08',
        'relate_to of linear geometry and region is their exact relation',
        'For every valid segment, multisegment or contour and every valid '
        'polygon or multipolygon `relate_to` returns the relation that '
        'holds between the point sets: disjoint, touch, cross, within, '
        'enclosed or component of the region, whether the linear geometry '
        'runs in the interior, along edges, through vertices or in holes. '
        'The relation of the region to the linear geometry is always the '
        'complement of it.',
        ['inputs'],
        'all pairs of a valid linear geometry and a valid region, both '
        'directions',
        'Mixed relations are tested by laws on random operands that '
        'seldom follow borders or pass through vertices of regions.',
        ['rene/_relating/mixed.py', 'rene/_relating/segment.py',
         'rene/_relating/multisegmental.py', 'rene/_relating/polygon.py',
         'rene/_relating/multipolygon.py'],
        [
            ('sweep that accumulates the relation', 'rene/_relating/mixed.py'),
            ('shortcuts by bounding boxes',
             'rene/_relating/multisegmental.py, multipolygon.py, segment.py'),
        ],
        observe_at=['relate_to of all the geometries of rene.exact'],
    ),
    prop(
        'C09',
        'Point location is exact for every geometry and agrees with `in`',
        'For every valid geometry and every point, `locate` tells boundary '
        'exactly for points of segments, of contour edges and of region '
        'borders and holes, interior exactly for inner points of regions, '
        'and exterior for everything else. `point in geometry` holds '
        'exactly when the point is not exterior.',
        ['inputs'],
        'all valid geometries with all points: vertices, points of edges '
        'and of their extensions, inner points, points of holes, points at '
        'the level of vertices',
        'Random points almost never lie on edges, on extensions of edges '
        'or level with vertices, where ray casting and box shortcuts fail.',
        ['rene/_geometries/base_contour.py',
         'rene/_geometries/base_polygon.py',
         'rene/_geometries/base_multipolygon.py',
         'rene/_geometries/base_segment.py',
         'rene/_geometries/base_multisegment.py', 'rene/_utils.py'],
        [
            ('ray casting in contours and regions',
             'rene/_utils.py locate_point_in_region and users'),
            ('collinearity and range tests for segments',
             'rene/_geometries/base_segment.py'),
        ],
        observe_at=['locate and __contains__ of rene.exact geometries'],
    ),
    prop(
        'C10',
        'is_valid of contours and multisegments is exact',
        'A contour is valid exactly if its edges have distinct vertices, '
        'meet only in consecutive pairs at the common vertex, and no vertex '
        'lies on the line of its neighbours; a multisegment is valid '
        'exactly if no two of its segments cross, overlap or coincide '
        '(touching at a point is fine). The verdict does not depend on '
        'order, direction or coordinates magnitude.',
        ['inputs'],
        'all sequences of three or more points and all collections of two '
        'or more non-degenerate segments, valid or not',
        'Strategies generate mostly valid geometries; invalid ones are a '
        'few hand-made kinds.',
        ['rene/_bentley_ottmann/base.py',
         'rene/_bentley_ottmann/events_registry.py',
         'rene/_geometries/base_contour.py',
         'rene/_geometries/base_multisegment.py'],
        [
            ('Bentley-Ottmann sweep', 'rene/_bentley_ottmann'),
            ('checks of angles and of pairs of neighbouring edges',
             'rene/_geometries/base_contour.py is_valid'),
        ],
        observe_at=['is_valid of rene.exact.Contour and Multisegment'],
    ),
    prop(
        'C11',
        'Box predicates and bounding boxes are exact',
        'The bounding box of every geometry is the least box that contains '
        'it. For all valid boxes `covers`, `disjoint_with`, `enclosed_by`, '
        '`encloses`, `equals_to`, `overlaps`, `touches`, `within`, '
        '`relate_to`, `is_valid` and equality agree with the boxes as point '
        'sets and with each other.',
        ['inputs'],
        'all pairs of valid boxes, all order types of their bounds; all '
        'valid geometries',
        'Random bounds seldom coincide, so partial coincidences (shared '
        'sides, shared corners) are covered by luck.',
        ['rene/_geometries/base_box.py', 'rene/_exact', 'rene/_utils.py',
         'rene/_geometries/utils.py'],
        [
            ('comparisons of bounds', 'rene/_geometries/base_box.py'),
            ('merge of bounds', 'rene/_geometries and rene/_utils.py'),
        ],
        observe_at=['rene.exact.Box, bounding_box of geometries'],
    ),
    prop(
        'C12',
        'Delaunay triangulation of points satisfies the Delaunay criterion',
        'For every sequence of points (in any order, with repetitions) the '
        'triangles have vertices only among the points, use all of them '
        'unless all are collinear, tile the convex hull without overlaps '
        'and have no point strictly inside of a circumcircle; the border is '
        'the convex hull. The triangulation is true in a boolean context '
        'exactly if there are at least two distinct points.',
        ['inputs'],
        'all finite sequences of points, including collinear, cocircular '
        'and repeated ones',
        'Random points are never cocircular and seldom collinear; tests '
        'bound the number of triangles without asserting the tiling.',
        ['rene/_triangulation/delaunay.py', 'rene/_triangulation/mesh.py',
         'rene/_triangulation/quad_edge.py', 'rene/_exact/triangulation.py'],
        [
            ('divide and conquer merge on quad-edges',
             'rene/_triangulation/mesh.py'),
            ('in-circle and orientation predicates', 'rene/_exact, '
             'rene/_utils.py'),
        ],
        observe_at=['rene.exact.DelaunayTriangulation'],
    ),
    prop(
        'C13',
        'Constrained Delaunay triangulation tiles the polygon',
        'For every valid polygon the triangles have vertices only among '
        'those of the polygon, tile exactly the polygon (no overlaps, '
        'nothing outside, nothing in holes), and have no vertex of the '
        'polygon on their sides. Each common side of two triangles that is '
        'not on the polygon boundary is locally Delaunay, and the border is '
        'the border of the polygon.',
        ['inputs'],
        'all valid polygons with and without holes, all presentations of '
        'rings',
        'Tests only assert the border; the triangles themselves are not '
        'looked at.',
        ['rene/_triangulation/constrained_delaunay.py',
         'rene/_triangulation/mesh.py', 'rene/_exact/triangulation.py'],
        [
            ('insertion of constraints by edge flips',
             'rene/_triangulation/constrained_delaunay.py'),
            ('selection of triangles inside of the polygon',
             'rene/_triangulation/constrained_delaunay.py '
             'triangles_vertices'),
        ],
        observe_at=['rene.exact.ConstrainedDelaunayTriangulation'],
    ),
    prop(
        'C14',
        'Trapezoidation locates every point for every insertion order',
        'For every valid polygon or multisegment and every seed, point '
        'location by its trapezoidation tells boundary, interior and '
        'exterior exactly as the geometry does, for every point; '
        '`point in trapezoidation` holds exactly when the point is not '
        'exterior. This includes the randomly drawn default seed.',
        ['inputs', 'schedules'],
        'all valid polygons and multisegments, all seeds (that is, all '
        'orders in which edges are inserted), all query points',
        'The insertion order is random: tests sample one order per '
        'example, and points never hit edges or vertical levels of '
        'vertices by chance.',
        ['rene/_seidel/trapezoidation.py', 'rene/_seidel/edge.py',
         'rene/_seidel/x_node.py', 'rene/_seidel/y_node.py',
         'rene/_seidel/leaf.py', 'rene/_seidel/trapezoid.py',
         'rene/_exact/trapezoidation.py'],
        [
            ('randomized incremental construction of the search graph',
             'rene/_seidel/trapezoidation.py'),
            ('permutation from a seed', 'rene/_utils.py permute'),
        ],
        observe_at=['rene.exact.Trapezoidation.locate and __contains__'],
        state=[('insertion order', 'permutation of edges chosen by seed',
                'rene/_seidel/trapezoidation.py')],
    ),
    prop(
        'C15',
        'Equality is exactly sameness of geometry and is consistent with hash',
        'Two geometries of the same kind are equal exactly if they have the '
        'same vertices, edges, holes and components, irrespective of the '
        'start and direction of contours, of the direction of segments and '
        'of the order of segments, holes and polygons; equal geometries '
        'have equal hashes. Geometries of different kinds, and geometries '
        'and foreign values, are unequal, and `!=` is the negation of `==`.',
        ['inputs'],
        'all pairs of geometries of every kind in all presentations',
        'Random pairs are practically never equal, so tests reach equality '
        'only of an object with itself or its copy.',
        ['rene/_geometries', 'rene/_exact', 'rene/_utils.py'],
        [
            ('comparison of contours modulo rotation and reversal',
             'rene/_geometries/base_contour.py, rene/_utils.py'),
            ('hash of canonical presentation', 'rene/_geometries'),
        ],
        observe_at=['__eq__ and __hash__ of rene.exact geometries'],
    ),
    prop(
        'C16',
        'Text forms can be read back and sequence views behave as sequences',
        '`repr` of every geometry, point and box evaluates to an equal one, '
        'and `str` shows the same structure and coordinates. Sequences of '
        'vertices, segments, holes and polygons agree with tuples of their '
        'items in length, iteration, indexing with negative numbers, '
        'slicing (also of slices), reversal, `in`, `count` and `index` with '
        'any bounds, with equality and hash to match, and geometries can be '
        'constructed from them and their slices as from lists.',
        ['inputs', 'programs'],
        'all geometries, all slices, indices and bounds of `index`',
        'Slices of slices, negative steps and bounds and repeated items '
        'make too many combinations to be sampled.',
        ['rene/_exact', 'rene/_geometries', 'rene/_utils.py'],
        [
            ('sequence views', 'rene/_exact/contour.py, multisegment.py, '
             'polygon.py, multipolygon.py'),
            ('__repr__ and __str__', 'rene/_geometries'),
        ],
        observe_at=['views, repr and str of rene.exact geometries'],
    ),
    prop(
        'C17',
        'Wrong construction, seeds and operands are rejected, values are fixed',
        'Contours of fewer than three vertices, multisegments and '
        'multipolygons of fewer than two parts and negative seeds raise '
        'ValueError, seeds of other types TypeError and too large ones '
        'OverflowError, and everything within the limits is accepted. '
        'Operators with unsupported operands and relations of non-empty '
        'geometries to foreign values raise TypeError, supported pairs give '
        'a geometry, attributes cannot be assigned and classes cannot be '
        'subclassed.',
        ['inputs', 'configurations'],
        'all pairs of kinds with all operators, sizes and seeds around the '
        'limits',
        'Tests check some of the limits; the table of operand kinds is not '
        'enumerated.',
        ['rene/_exact', 'rene/_geometries', 'rene/_utils.py',
         'rene/constants.py'],
        [
            ('constructors', 'rene/_exact'),
            ('dispatch by kinds', 'rene/_geometries'),
            ('validate_seed', 'rene/_utils.py'),
        ],
        observe_at=['constructors and operators of rene.exact'],
    ),
    prop(
        'C18',
        'Chains of operations stay exact: results are as good as inputs',
        'Results of operations can be used as operands of further '
        'operations to any depth, together with the original objects, and '
        'every intermediate result is the exact point set of the formula. '
        'Regions reached in different ways are equal and have equal hashes.',
        ['histories', 'programs'],
        'all sequences of operations over given operands, to any length '
        '(fixpoint of reachable presentations)',
        'Tests apply at most two or three operations of a law to fresh '
        'random operands.',
        ['rene/_clipping', 'rene/_geometries', 'rene/_exact'],
        [
            ('clipping fed with its own results', 'rene/_clipping'),
        ],
        observe_at=['operators, == and hash of rene.exact geometries'],
    ),
    prop(
        'C19',
        'Exactness does not depend on magnitude, precision or direction',
        'Operations, relations and locations commute with every invertible '
        'affine map of the plane with rational coefficients (rotations, '
        'reflections, transposition, shears, translations far away, scaling '
        'to very large, very small or very unequal sizes): the result for '
        'the images is the image of the result. No rounding happens '
        'anywhere.',
        ['inputs', 'configurations'],
        'all affine images of all pairs of geometries',
        'Tests draw coordinates of small magnitude and do not relate the '
        'results for different coordinates.',
        ['rene/_exact', 'rene/_context.py', 'rene/_utils.py',
         'rene/_clipping', 'rene/_relating'],
        [
            ('exact predicates (orientation, intersection of segments)',
             'rene/_exact/__init__.py, rene/_utils.py'),
            ('order of events by coordinates',
             'rene/_clipping, rene/_relating, rene/_bentley_ottmann'),
        ],
        observe_at=['operators, relate_to and locate of rene.exact'],
    ),
    prop(
        'C20',
        'Contour orientation, order of points and number kinds are exact',
        'The orientation of a contour is the sign of its area, whichever '
        'vertex it starts with. Points are ordered lexicographically by '
        'exact coordinates, equal points have equal hashes, and a point is '
        'the same whether its coordinates are given as int, float, Fraction '
        'or rithm numbers of the same value.',
        ['inputs'],
        'all simple contours in all presentations, all pairs of rational '
        'points, all number types of coordinates',
        'Near ties beyond the precision of floats are not sampled, and '
        'contours with collinear extreme vertices are rare.',
        ['rene/_geometries/base_point.py', 'rene/_exact/point.py',
         'rene/_geometries/base_contour.py', 'rene/_utils.py'],
        [
            ('orientation at the least vertex',
             'rene/_utils.py to_contour_orientation, to_arg_min'),
            ('comparison of points', 'rene/_geometries/base_point.py'),
        ],
        observe_at=['orientation, comparison and hash in rene.exact'],
    ),
    prop(
        'C21',
        'Interleaved and abandoned operations do not disturb each other',
        'Geometries are immutable values which threads may share: however '
        'operations, relations, locations, validations, triangulations, '
        'trapezoidations and views of shared or separate geometries are '
        'interleaved, each of them returns what it returns when it runs '
        'alone. An operation that is abandoned at any point by an exception '
        'leaves no trace: the operands are unchanged, and the operations '
        'that follow return what they would have returned without it.',
        ['schedules', 'crash_points', 'histories'],
        'all schedules of two operations, all points at which an operation '
        'may be interrupted, all operations and operands',
        'Tests run one operation after the other in a single thread and '
        'never interrupt one.',
        ['rene/_clipping', 'rene/_relating', 'rene/_bentley_ottmann',
         'rene/_seidel', 'rene/_triangulation', 'rene/_exact',
         'rene/_geometries', 'rene/_utils.py', 'rene/_context.py'],
        [
            ('each operation keeps its sweep line, events and mesh to itself',
             'rene/_clipping, rene/_relating, rene/_bentley_ottmann, '
             'rene/_triangulation, rene/_seidel'),
            ('geometries never change after construction', 'rene/_exact'),
        ],
        observe_at=['all operations of rene.exact'],
        state=[('progress of an operation',
                'sweep line, events queue and mesh of one call',
                'rene/_clipping, rene/_relating, rene/_triangulation')],
    ),
]

if __name__ == '__main__':
    path = Path(__file__).resolve().parent.parent / 'properties.jsonl'
    path.write_text(
        ''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in PROPERTIES)
    )
