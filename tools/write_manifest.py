"""Writes MANIFEST.json."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TECHNIQUE = {
    'C05': 'exhaustive enumeration of all presentations of bounded operands '
    'and repeated calls, run on the real code against a cell-complex model',
    'C14': 'exhaustive enumeration of all insertion orders (seeds) of '
    'bounded edge sets, run on the real code against a cell-complex model',
    'C16': 'exhaustive enumeration of view programs (slices, bounds) on '
    'bounded geometries, run on the real code against tuples',
    'C18': 'explicit-state breadth-first search of the states reachable by '
    'operations on the real code, checked against a cell-complex model',
    'C21': 'stateless exploration of the real code under a controlled '
    'scheduler: every preemption point (bound 1, and 2 at entries of '
    'functions) and every abandonment point of pairs of operations',
}
DEFAULT = (
    'explicit-state enumeration of all bounded inputs, each executed on the '
    'real code and compared with an independent exact model'
)
NOTE = (
    'Exhaustive within the stated universes (small grids, named families '
    'and affine maps, see DESIGN.md); nothing outside of them is claimed. '
    'Trusts the model of /verif/mc (self-tested by setup_cmd against an '
    'independent location oracle) and rithm arithmetic.'
)

properties = [
    json.loads(line)
    for line in (ROOT / 'properties.jsonl').read_text().splitlines()
]
manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/selftest.py',
    'checks': [
        {
            'property': p['id'],
            'quick_cmd': f'python3 check.py {p["id"]} --tier quick',
            'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': TECHNIQUE.get(p['id'], DEFAULT),
            'level': 'model_checking',
            'level_note': NOTE,
        }
        for p in properties
    ],
    'not_applicable': [],
    'notes': 'No hooks in /repo are needed: all observations are through '
    'the public API. The Rust twin in /repo/src is not buildable offline '
    'and is not covered (see DESIGN.md).',
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
