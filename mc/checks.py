"""What every property check explores, per tier."""

import itertools
from fractions import Fraction

from . import cases, families
from .cases import (
    listed_rows,
    point_set_rows,
    product_rows,
    segment_set_rows,
    small_point_set_rows,
    unary_rows,
    vertex_sequence_rows,
)
from .engine import Space
from .universe import universe

ALL = ('and', 'or', 'sub', 'xor')
CHECKS = {}


def check(prop, *assumptions):
    def register(function):
        CHECKS[prop] = function, assumptions
        return function

    return register


def products(kind, names, pairs, affine='id', chunk=40):
    """Spaces for (first family, second family) pairs."""
    for first, second in pairs:
        yield Space(
            f'{kind} {"|".join(names)} {first} x {second}'
            + (f' under {affine}' if affine != 'id' else ''),
            f'every pair of {first} ({len(families.get(first)[1])}) and '
            f'{second} ({len(families.get(second)[1])})',
            lambda first=first, second=second: product_rows(
                kind, names, affine, first, second, chunk
            ),
        )


def unaries(kind, names, affine='id', chunk=8, *extra):
    for name in names:
        yield Space(
            f'{kind} {name}' + (f' under {affine}' if affine != 'id' else ''),
            f'every member of {name} ({len(families.get(name)[1])})',
            lambda name=name: unary_rows(kind, affine, name, chunk, *extra),
        )


def irregular(name, keys, k, seeds, other=None, other_k=None):
    """Pairs of irregular families of the same universe.

    Seeds are (of the first one, of the second one) per universe.
    """
    return [
        (
            f'{name}.{key}.{k}.{first}',
            f'{other or name}.{key}.{other_k or k}.{second}',
        )
        for key, (first, second) in zip(itertools.cycle(keys), seeds)
    ]


BOARDS = ('full:4x3', 'diag:4x4', 'axis:12x4', 'full:3x3', 'axis:7x7')


SHARDS = ('full:4x3', 'star:5x3', 'diag:4x4', 'full:3x3')


STARS = 'star:7x4', 'star:5x3'


def hinged(count, start=1):
    """Hinges with bands, in both orders."""
    result = []
    for seed in range(start, start + count):
        key = STARS[seed % 2]
        pair = f'hinges.{key}.5.{seed}', f'bands.{key}'
        result += [pair, pair[::-1]]
    return result


def pairs_of_seeds(count, start=1):
    """(1, 2), (3, 3), (4, 5), (6, 6), ...: each second one is the same."""
    result, seed = [], start
    for i in range(count):
        if i % 3 == 1:
            result.append((seed, seed))
            seed += 1
        else:
            result.append((seed, seed + 1))
            seed += 2
    return result


# operands that overlap along one line, in all combinations
ON_LINE = [
    ('line.5', 'piles.5'),
    ('line.4', 'spines.4'),
    ('line.5', 'walls.5'),
]
TURNED = 'transpose', 'rot180', 'shear_y'


def images(kind, names, pairs, affines=('transpose', 'rot180', 'thirds')):
    """The same operands elsewhere: in other quadrants, turned, skewed."""
    for affine in affines:
        yield from products(kind, names, pairs, affine)


ROUGHLY = 'rot180', 'transpose', 'thirds', 'far', 'huge', 'tiny', 'collide'
# points of moved grids: no three are collinear, or almost are
ROUGH = 'jagged:3x3', 'bumpy:3x3', 'near:3x3'


def rough(kind, names, pairs, tier, affine='id'):
    """Pairs of families ({} is the universe) on the rough universes."""
    keys = ROUGH
    if tier == 'thorough':
        keys = *ROUGH, 'jagged:4x3', 'bumpy:4x3', 'near:4x3'
    for key in keys:
        yield from products(
            kind,
            names,
            [tuple(name.format(key) for name in pair) for pair in pairs],
            affine,
        )


EXACT = (
    'coordinates outside of the listed universes and affine maps are not '
    'explored',
)


# --- boolean operations ---------------------------------------------------------


@check('C01', *EXACT)
def shaped_operations(tier):
    yield from products(
        'op',
        ALL,
        [
            ('empty.full:3x3', 'rings.3.3.3.3'),
            ('rings.3.3.3.3', 'empty.full:3x3'),
            ('rings.3.3.3.3/reps', 'rings.3.3.3.3'),
            ('rings.3.3.3.4/reps', 'rings.3.3.3.4'),
            ('onion.4', 'onion.4'),
            ('plugs.3.1', 'plugs.3.1'),
            ('diamonds.4', 'diamonds.4'),
            ('fan/reps', 'fan/reps'),
            ('squares.3.2/reps', 'squares.3.2'),
            ('onions.2.1', 'onions.2.1'),
            ('comb.5/first12', 'comb.5'),
            *irregular('patches', BOARDS, 5, pairs_of_seeds(5)),
            *irregular('islands', BOARDS[2:3], 5, [(2, 3), (4, 5)]),
            ('hinges.star:7x4.4.7', 'bands.star:7x4'),
            ('bands.star:5x3', 'hinges.star:5x3.4.1'),
            ('tides.104', 'tides.104'),
            *irregular('shards', SHARDS, 4, [(1, 2), (3, 3)]),
        ],
    )
    yield from rough(
        'op',
        ALL,
        [
            ('loops.{}.3.3', 'loops.{}.3.3.P.4'),
            ('shards.{}.4.1', 'shards.{}.4.2'),
        ],
        tier,
    )
    yield from images(
        'op',
        ALL,
        [
            ('rings.3.3.3.3/reps', 'rings.3.3.3.3'),
            ('plugs.1.1', 'plugs.1.1'),
            ('diamonds.2', 'diamonds.2'),
            ('onion.3', 'onion.3'),
            ('squares.2.2', 'squares.2.2'),
        ],
    )
    if tier == 'thorough':
        yield from products(
            'op',
            ALL,
            [
                ('comb.5', 'comb.5'),
                ('onions.2.2', 'onions.2.2'),
                ('plugs.2.2', 'plugs.2.2'),
                ('comb.6', 'comb.6'),
                ('rings.3.3.3.9/reps', 'rings.3.3.3.9'),
                ('holed.4.4.3.4', 'rings.4.4.3.3'),
                ('rings.4.4.3.3', 'holed.4.4.3.4'),
                ('holed2.4.4.3.3', 'holed2.4.4.3.3'),
                ('fan', 'fan'),
                ('squares.3.3/reps', 'squares.3.3'),
                ('triangles.2.1/reps', 'triangles.2.1'),
                ('pairs.3.3.3.3/reps', 'pairs.3.3.3.3'),
                ('onions.3.2', 'onions.3.2'),
                ('plugs.3.2', 'plugs.3.2'),
                ('comb.9', 'comb.9'),
                ('comb.12', 'comb.12'),
                ('rings.4.4.3.3/reps', 'rings.4.4.3.3'),
                ('rings.4.3.3.4/reps', 'rings.4.3.3.4'),
                *irregular('patches', BOARDS, 6, pairs_of_seeds(30, 50)),
                *irregular('islands', BOARDS, 6, pairs_of_seeds(15, 50)),
                *irregular('shards', SHARDS, 5, pairs_of_seeds(15, 50)),
                *hinged(12),
            ],
        )


LINES = [
    ('empty.full:3x3', 'contours.3.3.3.3'),
    ('contours.3.3.3.3', 'empty.full:3x3'),
    ('segments.3.3', 'segments.3.3'),
    ('segments.3.3/reps', 'multisegments.3.3.2'),
    ('multisegments.3.3.2', 'segments.3.3/reps'),
    ('segments.3.3/reps', 'contours.3.3.3.4'),
    ('contours.3.3.3.4', 'segments.3.3/reps'),
]


@check('C02', *EXACT)
def linear_operations(tier):
    yield from products(
        'op',
        ALL,
        [
            *LINES,
            ('multisegments.3.3.2/reps', 'contours.3.3.3.3/reps'),
            ('contours.3.3.3.3/reps', 'multisegments.3.3.2/reps'),
            ('contours.3.3.3.3/reps', 'contours.3.3.3.4'),
            ('multisegments.3.2.2/reps', 'multisegments.3.2.2'),
            ('multisegments.2.2.3', 'multisegments.2.2.3'),
            ('ladder.6', 'ladder.6'),
            *irregular('trails', BOARDS, 5, pairs_of_seeds(7)),
            *irregular('trails', BOARDS, 5, [(1, 1), (2, 1)], 'outlines', 4),
            *irregular('outlines', BOARDS, 4, [(1, 2), (3, 4)], 'trails', 5),
            ('currents.104', 'currents.104'),
            *ON_LINE,
            *(pair[::-1] for pair in ON_LINE),
            ('piles.4', 'piles.4'),
            ('walls.4', 'walls.4'),
            ('piles.4', 'walls.4'),
            ('walls.4', 'piles.4'),
        ],
    )
    for affine in TURNED:
        for pair in ON_LINE:
            yield from products('op', ALL, [pair, pair[::-1]], affine)
    yield from rough(
        'op',
        ALL,
        [
            ('chords.{}', 'chords.{}'),
            ('chords.{}.2', 'chords.{}'),
            ('loops.{}.4.4.C.4', 'loops.{}.3.3.C.4'),
            ('loops.{}.3.3.C.2', 'chords.{}'),
        ],
        tier,
    )
    yield from images(
        'op',
        ALL,
        [
            ('segments.3.3/reps', 'segments.3.3'),
            ('segments.3.3/reps', 'multisegments.3.3.2/reps'),
            ('multisegments.3.3.2/reps', 'segments.3.3/reps'),
            ('contours.3.3.3.3/reps', 'contours.3.3.3.3'),
        ],
    )
    if tier == 'thorough':
        yield from products(
            'op',
            ALL,
            [
                ('line.6', 'piles.6'),
                ('piles.6', 'line.6'),
                ('piles.5', 'piles.5'),
                ('spines.4', 'spines.4'),
                ('walls.5', 'walls.5'),
                ('piles.5', 'walls.5'),
                ('walls.5', 'spines.5'),
                ('segments.4.4', 'segments.4.4'),
                ('segments.3.3', 'multisegments.3.3.3'),
                ('multisegments.3.3.3', 'segments.3.3'),
                ('multisegments.3.3.2/reps', 'multisegments.3.3.2'),
                ('multisegments.3.3.2', 'contours.3.3.3.4/reps'),
                ('contours.3.3.3.4/reps', 'multisegments.3.3.2'),
                ('contours.3.3.3.4', 'contours.3.3.3.4'),
                ('multisegments.3.3.3/reps', 'contours.3.3.3.3'),
                ('contours.4.4.3.3/reps', 'contours.4.4.3.3'),
                ('segments.4.4', 'contours.4.4.3.4/reps'),
                ('ladder.10', 'ladder.10'),
                *irregular('trails', BOARDS, 6, pairs_of_seeds(30, 50)),
                *irregular(
                    'trails', BOARDS, 6, pairs_of_seeds(10, 50), 'outlines', 5
                ),
                *irregular('outlines', BOARDS, 5, pairs_of_seeds(10, 50)),
            ],
        )


ROUGH_MIXED = [
    ('chords.{}.2', 'loops.{}.3.3.P.2'),
    ('loops.{}.3.3.C.2', 'loops.{}.3.3.P.2'),
]
MIXED_IMAGES = [
    ('segments.3.3/reps', 'rings.3.3.3.4'),
    ('contours.3.3.3.3/reps', 'rings.3.3.3.3'),
    ('multisegments.2.2.2', 'rings.2.2.3.4'),
    ('boxes.5.5', 'onion.3'),
]


def mixed_spaces(kind, tier):
    """(names, pairs) of linear with shaped operands."""
    both = [
        ('segments.3.3', 'rings.3.3.3.4/reps'),
        ('segments.3.3/reps', 'rings.3.3.3.4'),
        ('contours.3.3.3.3/reps', 'rings.3.3.3.4'),
        ('multisegments.3.3.2/reps', 'rings.3.3.3.3/reps'),
        ('multisegments.3.3.2/reps', 'pairs.3.3.3.3/reps'),
        ('segments.3.3', 'pairs.3.3.3.3/reps'),
        ('contours.3.3.3.3', 'fan/reps'),
    ]
    large = [
        ('ladder.5', 'comb.5'),
        ('boxes.7.7', 'onion.4'),
        ('boxes.7.3', 'plugs.3.1'),
        ('boxes.7.5', 'onions.2.1'),
        *irregular('trails', BOARDS, 5, pairs_of_seeds(5), 'patches', 5),
        *irregular('outlines', BOARDS, 4, [(1, 2), (3, 3)], 'patches', 5),
        *irregular('trails', BOARDS[2:3], 5, [(7, 8), (9, 9)], 'islands', 5),
        *irregular('trails', SHARDS, 5, [(1, 1), (2, 2)], 'shards', 4),
        ('currents.104', 'tides.104'),
        ('line.5', 'squares.4.2'),
        ('piles.4', 'squares.3.2'),
        ('walls.4', 'squares.3.2'),
    ]
    thorough = [
        ('piles.5', 'squares.4.2'),
        ('spines.5/reps', 'squares.4.2/reps'),
        ('walls.5', 'squares.4.2'),
        ('segments.3.3', 'rings.3.3.3.9'),
        ('contours.3.3.3.4', 'rings.3.3.3.4'),
        ('multisegments.3.3.2', 'rings.3.3.3.4'),
        ('multisegments.3.3.2/reps', 'pairs.3.3.3.3'),
        ('multisegments.3.3.3/reps', 'rings.3.3.3.3'),
        ('segments.4.4', 'holed.4.4.3.4'),
        ('segments.4.4', 'holed2.4.4.3.3'),
        ('contours.4.4.3.3', 'holed.4.4.3.4'),
        ('contours.3.3.3.3', 'fan'),
        ('multisegments.3.3.2/reps', 'fan'),
        ('ladder.8', 'comb.8'),
        *irregular('trails', BOARDS, 6, pairs_of_seeds(25, 50), 'patches', 6),
        *irregular('trails', BOARDS, 6, pairs_of_seeds(10, 50), 'islands', 6),
        *irregular('trails', SHARDS, 6, pairs_of_seeds(12, 50), 'shards', 5),
        *irregular('trails', STARS, 6, pairs_of_seeds(4, 70), 'hinges', 4),
        *irregular(
            'outlines', BOARDS, 5, pairs_of_seeds(10, 50), 'patches', 5
        ),
    ]
    return both, large, thorough if tier == 'thorough' else []


@check('C03', *EXACT)
def mixed_operations(tier):
    both, large, thorough = mixed_spaces('op', tier)
    for first, second in [*both, *large, *thorough]:
        names = (
            ('and',)
            if first.startswith(('segments', 'empty'))
            else ('and', 'sub')
        )
        yield from products('op', names, [(first, second)])
    for first, second in [*both[:4], *large[:1], *thorough]:
        yield from products('op', ('and',), [(second, first)])
    for pair in ROUGH_MIXED:
        yield from rough('op', ('and', 'sub'), [pair], tier)
    yield from rough('op', ('and',), [ROUGH_MIXED[0][::-1]], tier)
    yield from rough(
        'op', ('and',), [('loops.{}.3.3', 'chords.{}')], tier
    )
    yield from images('op', ('and', 'sub'), MIXED_IMAGES[1:])
    yield from images('op', ('and',), MIXED_IMAGES[:1])
    yield from images('op', ('and',), [p[::-1] for p in MIXED_IMAGES])


@check('C04', *EXACT)
def canonical_results(tier):
    yield from products(
        'canonical',
        ALL,
        [
            ('squares.2.2', 'squares.2.2'),
            ('triangles.1.1', 'triangles.1.1'),
            ('rings.3.3.3.3/reps', 'rings.3.3.3.4'),
            ('fan/reps', 'squares.2.2.full'),
            ('squares.2.2.full', 'fan/reps'),
            ('plugs.3.1', 'plugs.3.1'),
            ('onion.4', 'onion.4'),
            ('onions.2.1', 'onions.2.1'),
            ('diamonds.3', 'diamonds.3'),
            ('comb.5', 'comb.5'),
            ('comb.6/first9', 'comb.6'),
            *irregular('patches', BOARDS, 5, pairs_of_seeds(5, 20)),
            *irregular('islands', BOARDS[2:3], 5, [(6, 7)]),
            ('bands.star:7x4', 'hinges.star:7x4.4.7'),
            ('hinges.star:5x3.4.2', 'bands.star:5x3'),
            ('tides.50', 'tides.50'),
            *irregular('shards', SHARDS, 4, [(4, 5)]),
        ],
    )
    yield from rough(
        'canonical', ALL, [('loops.{}.3.3.P.2', 'loops.{}.4.4.P.4')], tier
    )
    yield from images(
        'canonical',
        ALL,
        [
            ('plugs.2.1', 'plugs.2.1'),
            ('diamonds.3', 'diamonds.3'),
            ('onion.3', 'onion.3'),
            ('squares.2.2', 'squares.2.2'),
            ('triangles.1.1', 'triangles.1.1'),
        ],
    )
    if tier == 'thorough':
        yield from products(
            'canonical',
            ALL,
            [
                ('fan/reps', 'fan'),
                ('squares.3.2', 'squares.3.2'),
                ('squares.3.3/reps', 'squares.3.3'),
                ('triangles.2.1/reps', 'triangles.2.1'),
                ('onions.3.2', 'onions.3.2'),
                ('plugs.2.2', 'plugs.2.2'),
                ('plugs.3.2', 'plugs.3.2'),
                ('rings.3.3.3.9/reps', 'rings.3.3.3.9'),
                ('comb.7', 'comb.7'),
                ('comb.8', 'comb.8'),
                ('comb.11', 'comb.11'),
                *irregular('patches', BOARDS, 6, pairs_of_seeds(30, 70)),
                *irregular('islands', BOARDS, 6, pairs_of_seeds(15, 70)),
                *irregular('shards', SHARDS, 5, pairs_of_seeds(15, 70)),
                *hinged(12, 20),
            ],
        )


@check('C05', *EXACT)
def presentation_independence(tier):
    pairs = [
        ('rings.3.3.3.3/reps', 'rings.3.3.3.3/reps'),
        ('rings.3.3.3.3/reps', 'segments.3.3/reps'),
        ('segments.3.3/reps', 'rings.3.3.3.3/reps'),
        ('segments.3.3', 'segments.3.3/reps'),
        ('contours.3.3.3.3/reps', 'segments.3.3/reps'),
        ('contours.3.3.3.3/reps', 'contours.3.3.3.3/reps'),
        ('contours.3.3.3.3/reps', 'rings.3.3.3.3/reps'),
        ('multisegments.3.2.2/reps', 'segments.3.2'),
        ('multisegments.3.2.2/reps', 'rings.3.2.3.3'),
        ('multisegments.2.2.3/reps', 'multisegments.2.2.2/reps'),
        ('onion.2', 'onion.2'),
        ('plugs.1.1', 'plugs.1.1'),
        ('diamonds.2', 'diamonds.2'),
    ]
    few = [
        *irregular('patches', BOARDS[1:], 2, pairs_of_seeds(4)),
        *irregular('islands', BOARDS, 2, pairs_of_seeds(3, 20)),
        *irregular('trails', BOARDS, 3, [(1, 2), (3, 4)]),
        *irregular('trails', BOARDS, 3, [(5, 6), (7, 8)], 'islands', 2),
        *irregular('islands', BOARDS, 2, [(5, 6), (7, 8)], 'trails', 3),
    ]
    if tier == 'thorough':
        pairs += [
            ('multisegments.2.2.3', 'multisegments.2.2.2'),
            ('onion.3', 'onion.3'),
            ('plugs.2.1', 'plugs.2.1'),
            ('diamonds.3', 'diamonds.3'),
            ('rings.3.3.3.4/reps', 'rings.3.3.3.4'),
            ('multisegments.3.3.2/reps', 'multisegments.3.3.2/reps'),
            ('multisegments.3.3.2/reps', 'rings.3.3.3.3'),
            ('contours.3.3.3.4/reps', 'contours.3.3.3.3'),
            ('fan/reps', 'rings.3.3.3.3/reps'),
            ('holed.4.4.3.3/reps', 'rings.4.4.3.3/reps'),
            ('holed2.4.4.3.3/reps', 'rings.4.4.3.3/reps'),
            ('onions.2.1', 'onions.2.1'),
        ]
        few += [
            *irregular('patches', BOARDS, 3, pairs_of_seeds(10, 50)),
            *irregular('islands', BOARDS, 3, pairs_of_seeds(10, 50)),
            *irregular('trails', BOARDS, 4, pairs_of_seeds(10, 50)),
            *irregular(
                'trails', BOARDS, 4, pairs_of_seeds(10, 50), 'patches', 3
            ),
        ]
    yield from products('presentation_few', ('-',), few, chunk=1)
    yield from products('presentation', ('-',), pairs, chunk=4)
    for name in (
        'contours.3.3.3.4',
        'multisegments.3.3.2',
        'fan',
        'plugs.2.2',
    ):
        yield from unaries('aliasing', [name])


# --- relations ------------------------------------------------------------------


@check('C06', *EXACT)
def shaped_relations(tier):
    yield from products(
        'relate',
        ('-',),
        [
            ('rings.3.3.3.4/reps', 'rings.3.3.3.4'),
            ('rings.3.3.3.3', 'rings.3.3.3.3'),
            ('fan/reps', 'fan/reps'),
            ('squares.3.2/reps', 'squares.3.2'),
            ('onion.4', 'onion.4'),
            ('onions.2.2', 'onions.2.2'),
            ('plugs.2.2', 'plugs.2.2'),
            ('diamonds.4', 'diamonds.4'),
            ('triangles.1.1', 'triangles.1.1'),
            ('comb.5', 'comb.5'),
            ('holed.4.4.3.3/reps', 'rings.4.4.3.3/reps'),
            ('empty.full:3x3', 'rings.3.3.3.3'),
            *irregular('patches', BOARDS, 5, pairs_of_seeds(10)),
            *irregular('islands', BOARDS, 5, pairs_of_seeds(10)),
            *irregular('patches', BOARDS, 5, pairs_of_seeds(5), 'islands'),
            *irregular('shards', SHARDS, 5, pairs_of_seeds(4)),
            ('hinges.star:5x3.4.2', 'bands.star:5x3'),
            ('tides.104', 'tides.104'),
        ],
    )
    yield from rough(
        'relate',
        ('-',),
        [
            ('loops.{}.3.3', 'loops.{}.3.4.P.5'),
            ('shards.{}.4.1', 'shards.{}.4.2'),
        ],
        tier,
    )
    yield from images(
        'relate',
        ('-',),
        [
            ('rings.3.3.3.4/reps', 'rings.3.3.3.3'),
            ('plugs.1.1', 'plugs.1.1'),
            ('diamonds.3', 'diamonds.3'),
            ('onion.3', 'onion.3'),
        ],
    )
    if tier == 'thorough':
        yield from products(
            'relate',
            ('-',),
            [
                *irregular('patches', BOARDS, 7, pairs_of_seeds(20, 50)),
                *irregular('islands', BOARDS, 7, pairs_of_seeds(20, 50)),
                *irregular('shards', SHARDS, 6, pairs_of_seeds(20, 50)),
                *hinged(12),
                ('rings.3.3.3.9', 'rings.3.3.3.9'),
                ('fan', 'fan'),
                ('squares.3.2', 'squares.3.2'),
                ('holed.4.4.3.3/reps', 'rings.4.4.3.3'),
                ('squares.3.3/reps', 'squares.3.3'),
                ('triangles.2.1', 'triangles.2.1'),
                ('pairs.3.3.3.3/reps', 'pairs.3.3.3.4'),
                ('onions.3.2', 'onions.3.2'),
                ('plugs.3.2', 'plugs.3.2'),
                ('holed.4.4.3.4', 'rings.4.4.3.3'),
                ('holed.4.4.3.4', 'holed.4.4.3.4'),
                ('holed2.4.4.3.4', 'holed2.4.4.3.4'),
                ('holed.5.5.3.3/reps', 'rings.5.5.3.3/reps'),
                ('rings.4.4.3.3', 'rings.4.4.3.3'),
                ('comb.9', 'comb.9'),
            ],
        )


@check('C07', *EXACT)
def linear_relations(tier):
    yield from products(
        'relate',
        ('-',),
        [
            ('segments.4.4', 'segments.4.4'),
            ('segments.3.3', 'multisegments.3.3.2'),
            ('segments.3.3', 'contours.3.3.3.4'),
            ('segments.3.3/reps', 'multisegments.3.3.3'),
            ('contours.3.3.3.4/reps', 'contours.3.3.3.4'),
            ('multisegments.3.3.2/reps', 'contours.3.3.3.4'),
            ('multisegments.3.3.2/reps', 'multisegments.3.2.2.full:3x3'),
            ('multisegments.2.2.3', 'multisegments.2.2.3'),
            ('ladder.5', 'ladder.5'),
            ('empty.full:3x3', 'multisegments.3.3.2'),
            ('empty.full:3x3', 'contours.3.3.3.4'),
            ('empty.full:3x3', 'segments.3.3'),
            ('empty.full:3x3', 'empty.full:3x3'),
            *irregular('trails', BOARDS, 6, pairs_of_seeds(10)),
            *irregular('trails', BOARDS, 6, pairs_of_seeds(4), 'outlines', 4),
            *irregular('outlines', BOARDS, 4, pairs_of_seeds(3)),
            *irregular('trails', STARS, 5, [(1, 2), (3, 3)]),
            ('currents.104', 'currents.104'),
            ('trails.axis:8x8.8.1', 'trails.axis:8x8.5.2'),
            *ON_LINE,
            ('line.6', 'piles.6'),
            ('line.5', 'spines.5'),
            ('piles.5', 'piles.5'),
            ('piles.5', 'walls.5'),
            ('piles.4', 'spines.4'),
            ('walls.4', 'walls.4'),
        ],
    )
    for affine in TURNED:
        yield from products('relate', ('-',), ON_LINE, affine)
    yield from rough(
        'relate',
        ('-',),
        [
            ('chords.{}', 'chords.{}'),
            ('chords.{}.2', 'chords.{}'),
            ('chords.{}', 'chords.{}.2'),
            ('loops.{}.4.4.C.2', 'loops.{}.3.3.C'),
            ('loops.{}.3.3.C', 'chords.{}'),
            ('chords.{}', 'loops.{}.3.3.C'),
        ],
        tier,
    )
    yield from images(
        'relate',
        ('-',),
        [
            ('segments.3.3', 'multisegments.3.3.2/reps'),
            ('segments.3.3/reps', 'contours.3.3.3.4'),
            ('contours.3.3.3.3/reps', 'contours.3.3.3.4'),
            ('multisegments.3.3.2/reps', 'contours.3.3.3.3'),
        ],
    )
    if tier == 'thorough':
        yield from products(
            'relate',
            ('-',),
            [
                ('spines.4', 'spines.4'),
                ('spines.5', 'walls.5'),
                ('piles.6', 'piles.6'),
                ('walls.5', 'walls.5'),
                *irregular('trails', BOARDS, 7, pairs_of_seeds(30, 50)),
                *irregular('trails', STARS, 6, pairs_of_seeds(10, 50)),
                *irregular(
                    'trails', BOARDS, 7, pairs_of_seeds(15, 50), 'outlines', 5
                ),
                *irregular('outlines', BOARDS, 5, pairs_of_seeds(15, 50)),
                ('segments.3.3', 'multisegments.3.3.3'),
                ('segments.3.3/reps', 'multisegments.3.3.4'),
                ('multisegments.3.3.2', 'contours.3.3.3.4'),
                ('multisegments.3.3.2/reps', 'multisegments.3.3.2'),
                ('multisegments.3.3.3/reps', 'contours.3.3.3.3'),
                ('multisegments.3.3.3/reps', 'multisegments.3.3.2/reps'),
                ('contours.3.3.3.4', 'contours.3.3.3.9'),
                ('segments.4.4', 'contours.4.4.3.4/reps'),
                ('contours.4.4.3.3', 'contours.4.4.3.3'),
                ('segments.4.4/reps', 'multisegments.4.4.2'),
                ('ladder.8', 'ladder.8'),
            ],
        )


@check('C08', *EXACT)
def mixed_relations(tier):
    both, large, thorough = mixed_spaces('relate', tier)
    yield from products('relate', ('-',), [*both, *large])
    yield from products(
        'relate',
        ('-',),
        [
            ('segments.4.4/reps', 'holed.4.4.3.4'),
            ('contours.4.4.3.3/reps', 'holed.4.4.3.3'),
            ('contours.3.3.3.4', 'rings.3.3.3.3/reps'),
            *irregular('outlines', BOARDS, 5, pairs_of_seeds(5), 'islands'),
            *irregular('trails', BOARDS, 6, pairs_of_seeds(5), 'islands', 6),
            ('outlines.axis:12x4.6.1', 'islands.axis:12x4.6.2'),
            *thorough,
        ],
    )
    for pair in [*ROUGH_MIXED, ('chords.{}', 'loops.{}.3.4')]:
        yield from rough('relate', ('-',), [pair, pair[::-1]], tier)
    yield from images('relate', ('-',), MIXED_IMAGES)


# --- points ---------------------------------------------------------------------


@check('C09', *EXACT)
def locations(tier):
    yield from unaries(
        'locate',
        [
            'rings.3.3.3.9',
            'contours.3.3.3.4',
            'segments.3.3',
            'segments.4.4',
            'multisegments.3.3.2',
            'fan',
            'onion.4',
            'onions.2.2',
            'plugs.2.2',
            'diamonds.4',
            'squares.3.2',
            'comb.6',
            'holed.4.4.3.4/reps',
            'empty.full:3x3',
            *(
                f'{name}.{key}.4.{seed}'
                for name in ('patches', 'islands', 'trails', 'outlines')
                for seed, key in enumerate(BOARDS, 1)
            ),
            *(f'shards.{key}.4.{i}' for i, key in enumerate(SHARDS, 1)),
            'hinges.star:5x3.3.1',
            'tides.24',
            'currents.24',
        ],
    )
    for key in ROUGH:
        for affine in ('id', 'far'):
            yield from unaries(
                'locate',
                [
                    f'loops.{key}.3.3',
                    f'loops.{key}.5.9.P.20',
                    f'loops.{key}.3.4.C',
                    f'chords.{key}',
                    f'chords.{key}.2',
                ],
                affine,
            )
    for affine in ('transpose', 'rot180', 'far', 'steep', 'thirds'):
        yield from unaries(
            'locate',
            [
                'rings.3.3.3.4/reps',
                'segments.3.3',
                'plugs.2.1',
                'multisegments.3.2.2',
            ],
            affine,
        )
    if tier == 'thorough':
        yield from unaries(
            'locate',
            [
                'holed.4.4.3.4',
                'holed2.4.4.3.4',
                'rings.4.3.3.6',
                'contours.3.3.3.9',
                'multisegments.3.3.3',
                'triangles.2.1',
                'squares.3.3',
                'pairs.3.3.3.4',
                'plugs.3.2',
                'comb.12',
                *(
                    f'{name}.{key}.6.{seed}'
                    for name in ('patches', 'islands', 'trails', 'outlines')
                    for seed, key in enumerate(BOARDS * 2, 50)
                ),
                *(f'shards.{key}.6.{i}' for i, key in enumerate(SHARDS, 9)),
                *(f'hinges.{key}.5.{i}' for i, key in enumerate(STARS, 9)),
            ],
        )
        for affine in cases.AFFINES:
            yield from unaries(
                'locate',
                ['rings.3.3.3.9', 'fan', 'contours.3.3.3.4', 'plugs.2.2'],
                affine,
            )


@check('C10', *EXACT)
def validity(tier):
    key = 'full:3x3'

    def vertices(count, permutations, prefix=1, affine='id', key=key):
        what = 'permutations' if permutations else 'sequences'
        return Space(
            f'contours {what} {count} {key} {affine}',
            f'all {what} of {count} points of {key}',
            lambda: vertex_sequence_rows(
                key, affine, count, permutations, prefix
            ),
        )

    def segments(count, key=key, affine='id', flips=False):
        return Space(
            f'multisegments {count} {key} {affine}',
            f'all multisets of {count} segments of {key}',
            lambda: segment_set_rows(key, affine, count, flips),
        )

    yield vertices(3, False)
    yield vertices(4, False, 2)
    yield segments(2, flips=True)
    yield segments(2, 'full:4x3', flips=True)
    yield segments(3)
    yield segments(4, 'full:3x2')
    yield vertices(5, True, 2)
    for rough_key in ROUGH:
        for affine in ('id', 'far'):
            yield vertices(4, True, 2, affine, rough_key)
            yield segments(2, rough_key, affine)
        yield segments(3, rough_key)
    for affine in ('transpose', 'huge', 'rot180'):
        yield vertices(4, True, 2, affine)
        yield segments(2, key, affine)

    def arranged(title, segments, key, affine='id'):
        return Space(
            f'parts of {title} {key} {affine}',
            f'all parts of {len(segments)} listed segments of {key}',
            lambda: cases.arranged_subset_rows(key, affine, segments),
        )

    def disturbed(name, affine='id'):
        return Space(
            f'disturbed {name} {affine}',
            f'all members of {name} with a vertex moved or two swapped',
            lambda: cases.disturbed_rows(affine, name),
        )

    thorough = tier == 'thorough'
    for seed, affine in zip(
        range(40 if thorough else 6),
        itertools.cycle(('id', 'transpose', 'thirds', 'steep')),
    ):
        yield arranged(
            f'segments of line #{seed}',
            families.dealt_overlaps(7, seed)[: 15 if thorough else 12],
            'axis:7x2',
            affine,
        )
    for seed, affine in zip(
        range(6), itertools.cycle(('transpose', 'thirds', 'id', 'steep'))
    ):
        yield arranged(
            f'segments of short line #{seed}',
            families.dealt_overlaps(5 + seed % 2, seed)[:11],
            'axis:6x2',
            affine,
        )
    for seed, board in zip(
        range(40 if thorough else 10), itertools.cycle(BOARDS)
    ):
        yield arranged(
            f'dealt segments #{seed}',
            families.dealt_segments(board, 12 if thorough else 10, seed),
            board,
        )
    for seed, board in zip(
        range(40 if thorough else 5), itertools.cycle(BOARDS)
    ):
        yield disturbed(f'outlines.{board}.{5 if thorough else 3}.{seed}')
    yield Space(
        'spoiled currents',
        'long contours and multisegments that are wrong at one place',
        lambda: cases.spoiled_rows('id', 'currents.24')
        + cases.spoiled_rows(
            'transpose', 'currents.104', 2, 1 if thorough else 8
        ),
    )
    if tier == 'thorough':
        yield vertices(5, False, 3)
        yield vertices(6, True, 3)
        yield segments(3, 'full:4x3')
        yield segments(4, 'full:3x3')
        yield segments(2, 'full:4x4')


def boxes(n):
    spans = list(itertools.combinations(range(n), 2))
    return [(*x, *y) for x in spans for y in spans]


@check('C11', *EXACT)
def box_predicates(tier):
    n = 5 if tier == 'thorough' else 4
    proper = boxes(n)
    flat = [
        (a, b, c, d)
        for a, b, c, d in itertools.product(range(3), repeat=4)
        if a <= b and c <= d
    ]
    yield Space(
        'boxes',
        f'all pairs of boxes of positive area with coordinates below {n}',
        lambda: listed_rows(
            [('box', 'id', a, b) for a in proper for b in proper], 256
        ),
    )
    yield Space(
        'degenerate boxes',
        'all pairs of boxes with coordinates below 3',
        lambda: listed_rows(
            [('box', 'id', a, b) for a in flat for b in flat], 256
        ),
    )
    for factor in ('huge', 'tiny'):
        yield Space(
            f'boxes {factor}',
            'all pairs of boxes with coordinates below 4',
            lambda factor=factor: listed_rows(
                [
                    ('box', factor, a, b)
                    for a in boxes(4)
                    for b in boxes(4)
                ],
                256,
            ),
        )
    yield Space(
        'bounds in any order',
        'all quadruples of coordinates below 4',
        lambda: listed_rows(
            [
                ('box_valid', '-', b)
                for b in itertools.product(range(4), repeat=4)
            ],
            64,
        ),
    )
    for affine in ('id', 'transpose', 'rot180', 'mirror', 'huge', 'thirds'):
        yield from unaries(
            'bounding',
            [
                'segments.4.4',
                'multisegments.3.3.2',
                'contours.3.3.3.9',
                'rings.3.3.3.4',
                'fan',
                'pairs.3.3.3.3',
                'plugs.2.2',
                'comb.5',
                'trails.full:4x3.7.1',
                'islands.axis:12x4.7.2',
                'patches.diag:4x4.5.3',
            ],
            affine,
            64,
        )
        yield from unaries(
            'bounding_cyclic',
            ['tides.24', 'currents.24']
            if affine != 'id'
            else ['tides.104', 'currents.104', 'comb.5', 'plugs.2.2'],
            affine,
            1,
        )


# --- triangulations --------------------------------------------------------------


def _point_sets(w, h, affine='id', order='sorted', chunk=256):
    return Space(
        f'point sets {w}x{h} {order} {affine}',
        f'all subsets of a {w}x{h} grid, {order}',
        lambda: point_set_rows(affine, w, h, order, chunk),
    )


def _small_sets(w, h, count, affine='id', order='sorted', chunk=128):
    return Space(
        f'{count} points of {w}x{h} {order} {affine}',
        f'all sets of {count} points of a {w}x{h} grid, {order}',
        lambda: small_point_set_rows(affine, w, h, count, order, chunk),
    )


SIMILAR = (
    'similar',
    'similar_tiny',
    'similar_far',
    'transpose',
    'collide',
    'rot180',
)


@check('C12', *EXACT)
def delaunay_triangulations(tier):
    yield _point_sets(3, 3)
    yield _point_sets(3, 3, order='reversed')
    yield _point_sets(3, 3, order='repeated')
    for affine in SIMILAR:
        yield _point_sets(3, 3, affine)
    yield _small_sets(3, 3, 4, order='orders', chunk=4)
    yield _point_sets(4, 4)
    yield _small_sets(5, 4, 5)
    yield _small_sets(6, 6, 4, chunk=512)

    def dealt(w, h, k, seed, affine='id'):
        points = families.dealt_points(w, h, k, seed)
        return Space(
            f'parts of {k} points of {w}x{h} #{seed} {affine}',
            f'all parts of {k} listed points of a {w}x{h} grid',
            lambda: cases.subset_rows('delaunay', affine, points),
        )

    for seed in range(40 if tier == 'thorough' else 6):
        yield dealt(
            (9, 12, 40, 7, 200)[seed % 5],
            (9, 30, 7, 11, 300)[seed % 5],
            12 if tier == 'thorough' else 10,
            seed,
            ('id', *SIMILAR)[seed % 7],
        )
    for key in ROUGH:
        grid = tuple(universe(key).grid)
        for affine in ('id', 'similar_far'):
            yield Space(
                f'parts of the grid of {key} {affine}',
                'all parts of the 9 points',
                lambda grid=grid, affine=affine: cases.subset_rows(
                    'delaunay', affine, grid
                ),
            )
    counts = 120 if tier == 'thorough' else 64
    yield Space(
        'parts of long lists of points',
        f'the first points of 6 listed sequences, any count below {counts}',
        lambda: [
            (
                'prefixes_of',
                'delaunay',
                affine,
                families.dealt_points(w, h, counts, seed),
                count,
                counts,
                20,
            )
            for seed, (w, h, affine) in enumerate(
                [(13, 11, 'id'), (200, 3, 'id'), (300, 300, 'similar'),
                 (4, 97, 'transpose'), (30, 25, 'similar_far'),
                 (1000, 1000, 'id')]
            )
            for count in range(1, 21)
        ],
    )  # fmt: skip
    grids = 12 if tier == 'thorough' else 7
    yield Space(
        'grids of points',
        f'all grids up to {grids}x{grids}, 17x17, with and without the middle',
        lambda: listed_rows(
            [
                ('delaunay', 'id', points[::direction])
                for w in range(1, grids + 1)
                for h in range(1, grids + 1)
                for direction in (1, -1)
                for points in [
                    tuple((x, y) for x in range(w) for y in range(h))
                ]
            ]
            + [
                (
                    'delaunay',
                    'id',
                    tuple(
                        (x, y)
                        for x in range(17)
                        for y in range(17)
                        if (x % step, y % step) != (0, 1)
                    ),
                )
                for step in (2, 3, 20)
            ],
            1,
        ),
    )
    if tier == 'thorough':
        yield _small_sets(5, 5, 5)
        yield _small_sets(5, 5, 6)
        yield _small_sets(5, 4, 8)
        yield _point_sets(5, 4)
        yield _point_sets(9, 2)
        for affine in SIMILAR:
            yield _point_sets(4, 4, affine)


@check('C13', *EXACT)
def constrained_triangulations(tier):
    yield from unaries(
        'constrained',
        [
            'rings.3.3.3.9',
            'holed.4.4.3.4',
            'holed2.4.4.3.3',
            'rings.4.4.3.4',
            'rings.4.3.3.6/reps',
            'polygons.plugs.2.2',
            'polygons.plugs.3.1',
            'polygons.comb.5',
            'polygons.comb.6',
            'polygons.tides.104',
            'holed.5.5.3.3/reps',
        ],
    )
    yield from unaries('constrained', ['presented.3.3'])
    yield from unaries(
        'constrained',
        [
            f'polygons.{name}.{key}.{5 if tier == "thorough" else 4}.{seed}'
            for name in ('patches', 'islands')
            for seed, key in zip(
                range(40 if tier == 'thorough' else 6),
                itertools.cycle(BOARDS),
            )
        ],
        'id',
        2,
    )
    yield from unaries(
        'constrained',
        [
            f'polygons.{name}.{key}.{5 if tier == "thorough" else 4}.{seed}'
            for name, keys in (('shards', SHARDS), ('hinges', STARS))
            for seed, key in zip(
                range(20 if tier == 'thorough' else 4),
                itertools.cycle(keys),
            )
        ],
        'id',
        2,
    )
    for affine in SIMILAR:
        yield from unaries(
            'constrained', ['rings.3.3.3.9', 'holed.4.4.3.3'], affine
        )
    for key in ROUGH:
        for affine in ('id', 'similar_far'):
            yield from unaries(
                'constrained',
                [
                    f'loops.{key}.3.4',
                    f'loops.{key}.5.9.P.5',
                    f'rooms.{key}.3.5',
                ],
                affine,
            )
    if tier == 'thorough':
        yield from unaries(
            'constrained',
            [
                'rings.4.3.3.9',
                'rings.4.4.3.7',
                'holed.5.5.3.4/reps',
                'holed2.4.4.3.4',
                'polygons.comb.9',
                'polygons.comb.12',
                'polygons.plugs.3.2',
                'presented.4.3',
            ],
        )


@check(
    'C14',
    *EXACT,
    'the seed determines the insertion order (all seeds below n! are '
    'enumerated, they give all orders of n segments)',
)
def trapezoidations(tier):
    import math

    def orders(name, chunk=1, split=120, affine='id'):
        def rows():
            _, specs = families.get(name)
            result = []
            for lo in range(0, len(specs), chunk):
                count = math.factorial(cases.size_in_segments(specs[lo]))
                for first in range(0, count, split):
                    result.append(
                        (
                            'unary',
                            'trapezoidation',
                            affine,
                            name,
                            lo,
                            min(lo + chunk, len(specs)),
                            first,
                            min(first + split, count),
                        )
                    )
            return result

        return Space(
            f'trapezoidations {name} {affine}',
            f'every member of {name} in every insertion order',
            rows,
        )

    yield orders('rings.3.3.3.3')
    yield orders('rings.3.3.3.4/reps')
    yield orders('multisegments.3.3.2')
    yield orders('rings.3.3.5.5/reps')
    yield orders('multisegments.3.3.3/reps')
    for affine in ('transpose', 'steep', 'far', 'collide', 'tiny', 'rot180'):
        yield orders('rings.3.3.3.3', affine=affine)
    for key in ROUGH:
        for affine in ('id', 'far'):
            yield orders(f'loops.{key}.3.3', affine=affine)
            yield orders(f'chords.{key}.2', affine=affine)
        yield orders(f'loops.{key}.4.4.P.4')
    for affine in ('rot90', 'rot180', 'negative', 'shear_y', 'thirds'):
        yield orders('multisegments.3.3.2', affine=affine)
        yield orders('rings.3.3.3.4/reps', affine=affine)
    for affine in ('rot180', 'transpose'):
        yield orders('multisegments.3.3.3/reps', affine=affine)
    yield from unaries(
        'trapezoidation_large',
        [
            'rings.3.3.5.5/reps' if tier == 'thorough' else 'rings.3.3.5.5/first4',
            'multisegments.3.3.3/reps'
            if tier == 'thorough'
            else 'multisegments.3.3.3/first8',
            'holed.4.4.3.3/first4',
            'only.M.trails.full:3x3.3.1/first4',
        ],
        'id',
        1,
    )
    yield from unaries('trapezoidation_default', ['rings.3.3.3.3/reps'])
    yield from unaries(
        'trapezoidation_deep',
        ['towers.40', f'towers.{700 if tier == "quick" else 1100}'],
        'id',
        1,
    )
    yield from unaries(
        'trapezoidation',
        ['waves.104', 'only.M.ladder.17/first5'],
        'id',
        1,
        0,
        2 if tier == 'quick' else 12,
    )
    yield from unaries(
        'trapezoidation',
        ['holed.4.4.3.3/reps', 'polygons.plugs.2.1', 'polygons.comb.4'],
        'id',
        1,
        0,
        40,
    )
    yield from unaries(
        'trapezoidation',
        [
            f'{name}.{key}.{3 if tier == "quick" else 5}.{seed}'
            for name, keys in (
                ('polygons.patches', BOARDS),
                ('polygons.islands', BOARDS),
                ('polygons.shards', SHARDS),
                ('only.M.trails', BOARDS),
                ('only.M.trails', STARS),
            )
            for seed, key in zip(
                range(5 if tier == 'quick' else 20), itertools.cycle(keys)
            )
        ],
        'id',
        1,
        0,
        8 if tier == 'quick' else 40,
    )
    if tier == 'thorough':
        yield orders('rings.3.3.3.4')
        yield orders('rings.3.3.5.5')
        yield orders('multisegments.3.3.3')
        yield orders('multisegments.3.3.4/reps')
        yield orders('rings.3.3.6.6')
        yield orders('rings.3.3.7.7/reps')
        yield orders('holed.4.4.3.3/reps')
        yield orders('rings.4.3.3.4')
        yield from unaries('trapezoidation_default', ['rings.3.3.3.4'])


# --- values ---------------------------------------------------------------------


@check('C15', *EXACT)
def equality(tier):
    same = [
        'rings.3.3.3.4',
        'contours.3.3.3.4',
        'segments.3.3',
        'multisegments.3.3.2',
        'onion.4',
        'plugs.2.1',
        'diamonds.4',
        'holed.4.4.3.3/reps',
    ]
    pairs = [
        ((n + '/reps', n) if n.startswith('multi') else (n, n))
        for n in same[1:]
    ] + [
        ('rings.3.3.3.4/reps', 'rings.3.3.3.4'),
        ('fan/reps', 'fan'),
        ('rings.3.3.3.3', 'contours.3.3.3.3'),
        ('segments.3.3', 'multisegments.3.3.2/reps'),
        ('segments.3.3', 'contours.3.3.3.3'),
        ('rings.3.3.3.3/reps', 'fan'),
        ('multisegments.2.2.3', 'multisegments.2.2.2'),
        ('sides.3.3', 'contours.3.3.3.4'),
        ('empty.full:3x3', 'fan'),
        ('empty.full:3x3', 'contours.3.3.3.3'),
        ('empty.full:3x3', 'segments.3.3'),
        ('empty.full:3x3', 'empty.full:3x3'),
        ('partners.plugs.2.2', 'plugs.2.2'),
        *irregular('patches', BOARDS, 6, pairs_of_seeds(3)),
        *irregular('outlines', BOARDS, 6, [(1, 1), (2, 2)]),
        *irregular('trails', BOARDS, 5, [(1, 1), (2, 3)]),
    ]
    if tier == 'thorough':
        pairs += [
            ('rings.3.3.3.9', 'rings.3.3.3.9'),
            ('fan', 'fan'),
            ('plugs.2.2', 'plugs.2.2'),
            ('holed2.4.4.3.4', 'holed2.4.4.3.4'),
            ('multisegments.3.3.2', 'multisegments.3.3.2'),
            ('multisegments.3.3.3/reps', 'multisegments.3.3.3'),
        ]
    yield from products('equality', ('-',), pairs, chunk=256)
    yield from unaries(
        'equal_presentations',
        [
            'contours.3.3.3.9',
            'rings.3.3.3.9',
            'segments.3.3',
            'multisegments.3.3.2',
            'multisegments.3.2.3',
            'onion.4',
            'plugs.2.2' if tier == 'thorough' else 'plugs.2.1',
            'diamonds.4',
            'holed2.4.4.3.3',
            'outlines.full:3x3.5.3',
            'trails.diag:4x4.4.4',
        ],
    )
    yield from unaries(
        'equal_few',
        [
            f'{name}.{key}.{6 if tier == "thorough" else 4}.{seed}'
            for name in ('patches', 'islands', 'outlines', 'trails')
            for seed, key in enumerate(BOARDS)
        ],
    )
    yield from unaries(
        'equal_presentations', ['rings.3.3.3.4/reps', 'plugs.2.1'], 'huge'
    )
    for affine in ('collide', 'negative'):
        yield from products(
            'equality',
            ('-',),
            [
                ('segments.3.3', 'segments.3.3'),
                ('rings.3.3.3.3', 'rings.3.3.3.3'),
                ('contours.3.3.3.4/reps', 'contours.3.3.3.4'),
                ('multisegments.3.2.2/reps', 'multisegments.3.2.2'),
                ('plugs.2.1', 'plugs.2.1'),
            ],
            affine,
            chunk=256,
        )
    yield from unaries(
        'equal_cyclic',
        ['tides.24', 'currents.24', 'only.M.ladder.17/first2'],
        'id',
        1,
    )
    yield from unaries(
        'unequal_moved',
        [
            'tides.24',
            'currents.24',
            'rings.3.3.3.4/reps',
            'segments.3.3/reps',
            'multisegments.3.2.2/reps',
            'plugs.2.2',
            'onion.3',
            'holed2.4.4.3.3/first8',
        ],
        'id',
        2,
    )
    if tier == 'thorough':
        yield from unaries(
            'equal_cyclic', ['tides.104', 'currents.104'], 'id', 1
        )
        yield from unaries(
            'unequal_moved', ['tides.104', 'currents.104'], 'id', 1
        )
    yield from unaries(
        'distinct_from_others',
        ['rings.3.3.3.3/reps', 'contours.3.3.3.3/reps', 'segments.3.3/reps',
         'multisegments.3.2.2/reps', 'diamonds.3', 'empty.full:3x3'],
    )  # fmt: skip


@check('C16', *EXACT)
def text_and_sequences(tier):
    families_ = [
        'empty.full:3x3',
        'segments.3.3',
        'multisegments.3.3.2',
        'contours.3.3.3.4',
        'rings.3.3.3.4',
        'fan',
        'plugs.2.2',
        'onion.3',
        'comb.4',
        'patches.full:4x3.5.1',
        'trails.diag:4x4.5.2',
    ]
    for affine in ('id', 'thirds', 'huge', 'rot180', 'tiny'):
        yield from unaries('text', families_, affine, 64)
    yield from unaries('text', ['tides.104', 'currents.104'], 'id', 1)
    yield from unaries(
        'views',
        [
            'tides.24',
            'currents.24',
            'contours.3.3.3.4/reps',
            'contours.3.3.5.5/reps',
            'multisegments.3.3.2/reps',
            'multisegments.2.2.3',
            'plugs.2.1',
            'plugs.2.2',
            'diamonds.3',
            'repeating.2.2',
            'outlines.full:3x3.3.1/first3',
            'patches.axis:12x4.4.1',
        ],
        'id',
        2,
    )
    if tier == 'thorough':
        yield from unaries(
            'views',
            [
                'contours.3.3.3.9',
                'multisegments.3.3.2',
                'multisegments.3.2.3',
                'fan',
                'comb.5',
            ],
            'id',
            2,
        )


@check('C17', *EXACT)
def rejections(tier):
    kinds = ('E', 'S', 'M', 'C', 'P', 'MP')

    def rows():
        yield from (
            ('contour of count', n) for n in range(6)
        )
        yield from (('multisegment of count', n) for n in range(6))
        yield from (('multipolygon of count', n) for n in range(6))
        for target in ('seed of polygon', 'seed of multisegment'):
            for seed in (
                0, 1, 2, 3, 5, 7, 1000, 2**31, 2**32, 2**63 - 1, 2**63,
                'max', 'over', 'huge', -1, -2, -(2**63), -(2**70),
                'float', 'str', 'none', 'true',
            ):  # fmt: skip
                yield target, seed
        for kind in kinds:
            for stranger in cases.STRANGERS:
                if kind != 'E':
                    yield 'related', (kind, stranger)
                for name in ALL:
                    for side in 'lr':
                        yield 'operand', (kind, name, stranger, side)
        for first in kinds:
            for second in kinds:
                for name in ALL:
                    if first == 'S' and name == 'sub' and second in 'MP':
                        continue
                    yield 'kinds', (first, name, second)
        for kind, names in {
            'S': ('start', 'end', 'bounding_box'),
            'M': ('segments', 'bounding_box'),
            'C': ('vertices', 'segments', 'bounding_box', 'orientation'),
            'P': ('border', 'holes', 'bounding_box'),
            'MP': ('polygons', 'bounding_box'),
            'point': ('x', 'y'),
            'box': ('min_x', 'max_x', 'min_y', 'max_y'),
        }.items():
            for attribute in names:
                yield 'read-only attribute', (kind, attribute)
        for name in (
            'Box', 'Contour', 'Empty', 'Multipolygon', 'Multisegment',
            'Point', 'Polygon', 'Segment', 'Trapezoidation',
            'DelaunayTriangulation', 'ConstrainedDelaunayTriangulation',
        ):  # fmt: skip
            yield 'subclass', name

    yield Space(
        'rejections',
        'the alphabet of sizes, seeds, operand kinds and foreign values',
        lambda: listed_rows(
            [('rejection', '-', *what) for what in rows()], 16
        ),
    )


# --- chains ---------------------------------------------------------------------


class Reachable(Space):
    """Breadth-first search: results are operands of further operations.

    A state is a result as it was presented; it is expanded once for each
    way it can be presented (up to the order and direction of rings).
    """

    def __init__(self, name, key, generators, depth, limit=None, affine='id'):
        super().__init__(
            name,
            f'all states reachable from {len(generators)} operands of {key} '
            + ('(fixpoint)' if depth is None else f'in {depth} steps')
            + (f' under {affine}' if affine != 'id' else ''),
            [],
        )
        self.key, self.generators = key, generators
        self.depth, self.affine = depth, affine
        self.seen = {}
        self.levels = []
        self.fixpoint = False

    def batches(self):
        frontier = []
        for g in self.generators:
            self._visit(g, frontier)
        level = 0
        while frontier and (self.depth is None or level < self.depth):
            self.levels.append(len(frontier))
            self.next = []
            yield [
                (
                    'steps_of',
                    self.key,
                    self.affine,
                    state,
                    tuple(self.generators),
                )
                for state in frontier
            ]
            frontier, self.next = self.next, []
            level += 1
        self.fixpoint = not frontier

    def _visit(self, spec, frontier):
        state = families.canonical_spec(spec)
        if state not in self.seen:
            self.seen[state] = len(self.seen)
            frontier.append(spec)

    def absorb(self, row, output):
        for spec in output:
            self._visit(spec, self.next)

    def summary(self):
        return {
            'presented_states': len(self.seen),
            'levels': self.levels,
            'fixpoint': self.fixpoint,
        }


GENERATORS = {
    'triangles': (
        'full:3x3',
        [
            ('P', (((0, 0), (2, 0), (1, 2)), ())),
            ('P', (((0, 1), (2, 0), (2, 2)), ())),
            ('P', (((0, 0), (2, 1), (0, 2)), ())),
        ],
    ),
    'corners': (
        'full:3x3',
        [
            ('P', (((0, 0), (2, 0), (0, 2)), ())),
            ('P', (((0, 0), (2, 0), (2, 2)), ())),
            ('P', (((1, 0), (2, 1), (1, 2), (0, 1)), ())),
        ],
    ),
    'plate': (
        'axis:8x4',
        [
            ('P', (((0, 0), (7, 0), (7, 3), (0, 3)), (
                ((1, 1), (1, 2), (2, 2), (2, 1)),
                ((5, 1), (5, 2), (6, 2), (6, 1)),
            ))),
            ('P', (((1, 1), (6, 1), (6, 2), (1, 2)), ())),
            ('MP', (
                (((1, 1), (2, 1), (2, 2), (1, 2)), ()),
                (((3, 0), (4, 0), (4, 3), (3, 3)), ()),
            )),
        ],
    ),  # fmt: skip
    'checkers': (
        'axis:4x4',
        [
            ('MP', tuple(
                (((x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)), ())
                for x in range(3) for y in range(3) if (x + y) % 2 == 0
            )),
            ('P', (((0, 0), (3, 0), (3, 3), (0, 3)), (
                ((1, 1), (1, 2), (2, 2), (2, 1)),
            ))),
            ('P', (((0, 0), (2, 0), (2, 3), (0, 3)), ())),
            ('P', (((0, 0), (3, 0), (3, 2), (0, 2)), ())),
        ],
    ),  # fmt: skip
    'lines': (
        'full:3x3',
        [
            ('C', ((0, 0), (2, 0), (1, 2))),
            ('M', (((0, 0), (2, 2)), ((0, 2), (2, 0)))),
            ('S', ((0, 1), (2, 1))),
        ],
    ),
    'overlaps': (
        'full:3x3',
        [
            ('C', ((0, 0), (2, 0), (2, 2), (0, 2))),
            ('M', (((0, 0), (1, 0)), ((1, 0), (1, 2)))),
            ('S', ((0, 0), (2, 0))),
            ('S', ((1, 0), (1, 1))),
        ],
    ),
    'cut': (
        'full:3x3',
        [
            ('C', ((0, 0), (2, 0), (1, 2))),
            ('M', (((0, 1), (2, 1)), ((1, 0), (1, 2)))),
            ('P', (((0, 0), (1, 0), (2, 2), (0, 1)), ())),
            ('S', ((0, 2), (2, 0))),
        ],
    ),
}


def generators_of(name):
    """Generators with crossing members of multisegments split."""
    from .shapes import segments_cross_or_overlap

    key, generators = (
        rough_generators(name) if ':' in name else GENERATORS[name]
    )
    return key, [
        g
        if g[0] != 'M'
        or not any(
            segments_cross_or_overlap(*s, *t)
            for s, t in itertools.combinations(g[1], 2)
        )
        else ('M', tuple(split_crossing(g[1])))
        for g in generators
    ]


def rough_generators(key):
    """Two triangles, a segment and a contour that cross each other."""
    p = universe(key).grid
    return key, [
        ('P', ((p[0], p[5], p[7]), ())),
        ('P', ((p[1], p[2], p[8]), ())),
        ('S', (p[2], p[6])),
        ('C', (p[0], p[4], p[8])),
    ]


def reachable(name, depth=None, affine='id'):
    return Reachable(
        f'reachable {name}' + (f' under {affine}' if affine != 'id' else ''),
        *generators_of(name),
        depth,
        affine=affine,
    )


def split_crossing(segments):
    middle = (1, 1)
    for a, b in segments:
        yield a, middle
        yield middle, b


@check('C18', *EXACT)
def chains(tier):
    thorough = tier == 'thorough'
    yield reachable('corners')
    yield reachable('triangles', None if thorough else 3)
    yield reachable('plate')
    yield reachable('checkers', None if thorough else 2)
    yield reachable('lines', 4 if thorough else 2)
    yield reachable('overlaps', None if thorough else 3)
    yield reachable('cut', None if thorough else 3)
    yield live_histories('cut', 4 if thorough else 2)
    yield live_histories('lines', 4 if thorough else 2)
    yield live_histories('corners', 4 if thorough else 2)
    yield live_histories('plate', 3 if thorough else 2)
    yield live_histories('overlaps', 4 if thorough else 2)
    for key in ROUGH:
        for affine in ('id', 'far'):
            yield reachable(key, None if thorough else 2, affine)
            yield live_histories(key, 3 if thorough else 2, affine)
    for affine in ('thirds', 'huge', 'collide', 'negative', 'needle'):
        yield reachable('corners', 3, affine)
        yield reachable('lines', 2, affine)
        yield reachable('plate', None if thorough else 1, affine)
    for affine in ('huge', 'collide'):
        yield live_histories('corners', 2, affine)
        yield live_histories('overlaps', 2, affine)
        yield live_histories('cut', 2, affine)


def live_histories(name, depth, affine='id'):
    key, generators = generators_of(name)
    alphabet = []
    for g in [*generators, None]:
        for operation in ALL:
            alphabet.append((operation, g, 'l'))
            if operation == 'sub' and g is not None:
                alphabet.append((operation, g, 'r'))

    def rows():
        return [
            ('histories', key, affine, start, tuple(alphabet), first, depth)
            for start in generators
            for first in alphabet
        ]

    return Space(
        f'histories {name}' + (f' under {affine}' if affine != 'id' else ''),
        f'all sequences of {depth} operations on {len(generators)} shared '
        'live objects and the running result',
        rows,
    )


# --- coordinates ----------------------------------------------------------------


@check('C19', 'affine maps other than the listed ones are not explored')
def affine_images(tier):
    thorough = tier == 'thorough'
    names = [n for n in cases.AFFINES if n not in ('id', 'quarter')]
    shaped = (
        ('rings.3.3.3.3/reps', 'rings.3.3.3.3/reps')
        if not thorough
        else ('rings.3.3.3.4/reps', 'rings.3.3.3.4')
    )
    for affine in names:
        yield from products('canonical', ALL, [shaped], affine)
        yield from products(
            'canonical', ALL, [('plugs.1.1', 'plugs.1.1')], affine
        )
        yield from products(
            'op',
            ALL,
            [
                ('segments.3.3/reps', 'segments.3.3'),
                ('contours.3.3.3.3/reps', 'segments.3.3/reps'),
            ],
            affine,
        )
        yield from products(
            'op',
            ('and', 'sub'),
            [('contours.3.3.3.3/reps', 'rings.3.3.3.3/reps')],
            affine,
        )
        for pair in (
            ('rings.3.3.3.3/reps', 'rings.3.3.3.4/reps'),
            ('contours.3.3.3.3/reps', 'rings.3.3.3.3/reps'),
            ('segments.3.3', 'segments.3.3/reps'),
            ('contours.3.3.3.3/reps', 'contours.3.3.3.3/reps'),
        ):
            yield from products('relate', ('-',), [pair], affine)
        yield from unaries('locate', ['rings.3.3.3.3/reps'], affine)
        for key in ROUGH:
            if affine not in ROUGHLY:
                continue
            triangles = f'loops.{key}.3.3.P.5'
            yield from products(
                'op', ALL, [(triangles, f'loops.{key}.3.3.P.7')], affine
            )
            yield from products(
                'op',
                ('and', 'sub'),
                [
                    (f'chords.{key}', triangles),
                    (f'chords.{key}', f'chords.{key}'),
                ],
                affine,
            )
            for pair in (
                (triangles, f'loops.{key}.3.3.P.7'),
                (f'loops.{key}.3.3.C.3', triangles),
                (f'chords.{key}', f'loops.{key}.3.3.C.3'),
            ):
                yield from products('relate', ('-',), [pair], affine)


@check('C20', *EXACT)
def orientation_and_order(tier):
    for affine in ('id', 'rot90', 'transpose', 'mirror', 'huge', 'tiny',
                   'steep', 'needle'):  # fmt: skip
        yield from unaries('orientation', ['contours.3.3.3.9'], affine, 16)
    for key in ROUGH:
        for affine in ('id', 'far', 'similar_far', 'thirds'):
            yield from unaries(
                'orientation',
                [f'loops.{key}.3.4.C', f'loops.{key}.5.9.C.10'],
                affine,
                16,
            )
    yield from unaries('orientation', ['contours.4.3.3.5'], 'id', 64)
    for seed, board in zip(
        range(40 if tier == 'thorough' else 10), itertools.cycle(BOARDS)
    ):
        yield from unaries(
            'orientation', [f'outlines.{board}.6.{seed}'], 'id', 16
        )
    yield from unaries(
        'orientation', ['only.C.currents.104', 'only.C.currents.24'], 'id', 1
    )
    values = [
        0, 1, -1, 2, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 3),
        Fraction(3333333333333333, 10**16), 2**53, 2**53 + 1, -(2**53) - 1,
        10**40, Fraction(1, 10**40), Fraction(2**53 + 1, 2),
        -2, 2**61 - 1, 2**61, Fraction(2**61 - 1, 3),
    ]  # fmt: skip
    points = list(itertools.product(values, repeat=2))
    near = points if tier == 'thorough' else [
        (x, y) for x, y in points
    ]
    yield Space(
        'point order',
        f'all pairs of {len(near)} points',
        lambda: listed_rows(
            [('point_order', '-', p, q) for p in near for q in near], 1024
        ),
    )
    yield Space(
        'kinds of numbers',
        f'all pairs of {len(values)} values in all number types',
        lambda: listed_rows(
            [('point_kinds', '-', x, y) for x in values for y in values], 32
        ),
    )


@check(
    'C21',
    'a thread is preempted between lines of the library only: calls of '
    'Python and of rithm made by one line are taken to be atomic',
    'what an operation gives on its own is taken from the code under test '
    '(the other checks decide whether it is right)',
)
def interleavings(tier):
    from .interleave import OPERATIONS, PAIRS

    undefined = {
        'mixed': ('or', 'sub', 'xor', 'rsub'),
        'small_mixed': ('or', 'sub', 'xor', 'rsub'),
        'small_pieces': ('or', 'sub', 'xor', 'rsub'),
        'lines': ('constrained', 'orient'),
        'small_lines': ('constrained', 'orient'),
    }

    def names(pair):
        return [n for n in OPERATIONS if n not in undefined.get(pair, ())]

    def space(kind, combinations, parts, *grain):
        rows = [
            ('schedules', kind, *combination, *grain, part, parts)
            for combination in combinations
            for part in range(parts)
        ]
        return Space(
            ' '.join((kind, *grain)),
            f'every schedule of {len(combinations)} pairs of operations',
            rows,
        )

    def same(pair, other):
        return [(n, pair, n, other) for n in names(pair) if n in names(other)]

    def following(pair, other):
        own, others = names(pair), names(other)
        return [
            (name, pair, others[(i + 1) % len(others)], other)
            for i, name in enumerate(own)
        ]

    quick_names = (
        'locate', 'valid', 'values', 'views', 'box', 'orient', 'delaunay',
        'constrained', 'trapezoids', 'search', 'collect',
    )  # fmt: skip
    light = 'locate', 'values', 'views', 'box', 'orient', 'search', 'collect'
    quick = [
        *same('small_lines', 'small'),
        *same('small_mixed', 'small'),
        *same('small_lines', 'small_lines'),
        *following('small_lines', 'small_mixed'),
        *[
            ('and', 'small', 'or', 'small'),
            ('relate', 'small', 'relate', 'small_lines'),
            ('constrained', 'small', 'constrained', 'small'),
            ('locate', 'small', 'locate', 'small_lines'),
        ],
        # smaller and larger operands
        *[
            row
            for pair, other in (
                ('regions', 'small'),
                ('small', 'regions'),
                ('small', 'small_lines'),
                ('lines', 'small_lines'),
            )
            for row in same(pair, other)
            if row[0] in quick_names
        ],
        # first use of shared geometries by both threads
        *[
            row
            for pair in ('small', 'small_pieces', 'small_mixed', 'regions')
            for row in same(pair, pair)
            if row[0] in light
        ],
    ]
    yield space('abandoned', quick, 6, 'sparse')
    yield space('interleaved', quick, 6, 'sparse')
    yield space(
        'interleaved_twice',
        [
            (name, 'small_lines', name, 'small_lines')
            for name in ('and', 'relate', 'trapezoids')
        ]
        if tier == 'quick'
        else [
            row
            for first in PAIRS
            for second in PAIRS
            for row in following(first, second)
        ],
        24,
    )
    if tier == 'thorough':
        for first in PAIRS:
            for second in PAIRS:
                combinations = [
                    (name, first, other, second)
                    for name in names(first)
                    for other in names(second)
                ]
                yield space('interleaved', combinations, 32, 'sparse')
                yield space('abandoned', combinations, 32, 'sparse')
        for first, second in (
            ('small', 'small_lines'),
            ('small_lines', 'small'),
            ('small_lines', 'small_lines'),
        ):
            yield space('interleaved', same(first, second), 256, 'line')
