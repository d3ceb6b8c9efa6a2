#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]  |  check.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1: it is broken,
with a line VIOLATION property=<id> replay=<path>.
"""

import argparse
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and sys.prefix != '/opt/venv':
    os.execv(VENV, [VENV, *sys.argv])
# never read bytecode that may be stale
sys.pycache_prefix = '/nonexistent/verif-pycache'
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument(
        '--tier',
        choices=('quick', 'thorough'),
        default=os.environ.get('VERIF_TIER') or 'quick',
    )
    parser.add_argument('--replay')
    args = parser.parse_args()
    from mc import engine

    try:
        from mc import checks
    except Exception as error:
        trace = traceback.extract_tb(error.__traceback__)
        repo = os.environ.get('VERIF_REPO', '/repo')
        if not any(f.filename.startswith(repo) for f in trace):
            raise
        traceback.print_exc()
        run = engine.Run(args.property, args.tier)
        run.violations.append(
            (('import',), ('import',), f'rene can not be imported: {error!r}')
        )
        return run.finish()
    if args.replay:
        return replay(args.replay, engine)
    function, assumptions = checks.CHECKS[args.property]
    run = engine.Run(args.property, args.tier)
    run.explore(list(function(args.tier)))
    return run.finish(assumptions)


def replay(path, engine):
    from mc import cases

    with open(path) as file:
        data = json.load(file)
    engine._init_worker()
    case = engine.from_jsonable(data['case'])
    message = engine.run_case(case, engine.Recorder())
    if message is None:
        # state left by former calls may be needed: the whole row again
        for case in cases.expand(engine.from_jsonable(data['row'])):
            message = engine.run_case(case, engine.Recorder())
            if message is not None:
                break
    if message is None:
        print('not reproduced')
        return 0
    print(f'{message}\n  case: {case}')
    print(f'VIOLATION property={data["property"]} replay={path}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
