#!/usr/bin/env python3
"""explore.py KIND NAMES FIRST SECOND ...: one product space, outside of checks.

For sizing and comparing spaces (VERIF_REPO chooses the tree); writes no
evidence and no replay.  KIND is op, canonical, relate; NAMES is comma
separated; 'unary' KIND NAME runs over one family.
"""

import os
import sys

sys.dont_write_bytecode = True
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and sys.prefix != '/opt/venv':
    os.execv(VENV, [VENV, *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import checks, engine  # noqa: E402


def main():
    kind, names, *rest = sys.argv[1:]
    if kind == 'unary':
        spaces = list(checks.unaries(names, rest))
    else:
        pairs = list(zip(rest[::2], rest[1::2]))
        spaces = list(checks.products(kind, names.split(','), pairs))
    for space in spaces:
        run = engine.Run('X', 'quick')
        run.explore([space])
        for _, case, message in run.violations[:1]:
            print('   VIOLATED', message[:200], str(case)[:300])


main()
