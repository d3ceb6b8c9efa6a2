#!/usr/bin/env python3
"""Lines and branches of rene that no check executes.

tools/cover.py [--keep FOLDER] C01 C02 ...   (default: all checks)
Not a check: it shows where the explored spaces have holes.
"""

import argparse
import ast
import dis
import os
import shutil
import subprocess
import sys
import tempfile

VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and sys.prefix != '/opt/venv':
    os.execv(VENV, [VENV, *sys.argv])
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))


def codes(code):
    yield code
    for constant in code.co_consts:
        if hasattr(constant, 'co_code'):
            yield from codes(constant)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('checks', nargs='*')
    parser.add_argument('--keep')
    parser.add_argument('--only-report', action='store_true')
    args = parser.parse_args()
    folder = args.keep or tempfile.mkdtemp()
    os.makedirs(folder, exist_ok=True)
    if not args.only_report:
        for name in args.checks or [f'C{i:02}' for i in range(1, 21)]:
            subprocess.run(
                [sys.executable, os.path.join(VERIF, 'check.py'), name],
                env={**os.environ, 'VERIF_COVER': folder},
                stdout=subprocess.DEVNULL,
                check=False,
            )
    lines, branches = set(), {}
    for name in os.listdir(folder):
        with open(os.path.join(folder, name)) as file:
            for entry in file.read().splitlines():
                kind, path, *rest = entry.split(' ')
                if kind == 'L':
                    lines.add((path, int(rest[-1])))
                else:
                    branches.setdefault(
                        (path, rest[0], int(rest[1]), int(rest[2])), set()
                    ).add(int(rest[3]))
    for base, _, names in sorted(os.walk(os.path.join(REPO, 'rene'))):
        for name in sorted(names):
            if name.endswith('.py'):
                report(os.path.join(base, name), lines, branches)
    if not args.keep:
        shutil.rmtree(folder)


def report(path, lines, branches):
    with open(path) as file:
        source = file.read()
    text = source.splitlines()
    docs = set()
    for node in ast.walk(ast.parse(source)):
        if isinstance(node, ast.Raise | ast.Assert):
            docs.update(range(node.lineno, node.end_lineno + 1))
    seen = {line for p, line in lines if p == path}
    module = compile(source, path, 'exec')
    wanted = {}
    for code in codes(module):
        if code is module or not code.co_flags & 1:
            continue  # run at import: the module and bodies of classes
        for _, _, line in code.co_lines():
            if line and line != code.co_firstlineno:
                wanted[line] = code
        positions = {
            i.offset: (i.positions.lineno, i.argval)
            for i in dis.get_instructions(code)
        }
        for (p, name, first, offset), targets in branches.items():
            if (
                p == path
                and name == code.co_qualname
                and first == code.co_firstlineno
                and len(targets) == 1
                and positions.get(offset, (0,))[0] not in docs
            ):
                line, jump = positions[offset]
                (target,) = targets
                print(
                    f'{os.path.relpath(path, REPO)}:{line}: always '
                    f'{"jumps" if target == jump else "falls"}: '
                    f'{text[line - 1].strip()}'
                )
    for line in sorted(set(wanted) - seen - docs):
        print(
            f'{os.path.relpath(path, REPO)}:{line}: not run: '
            f'{text[line - 1].strip()}'
        )


if __name__ == '__main__':
    main()
