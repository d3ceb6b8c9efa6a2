"""Mutation analysis of the checks (development aid, not a check).

mutate.py FILE... --checks C14 C09 [--every N] [--offset K] [--match REGEX]
          [--out F]

Works on scratch copies of /repo under /tmp and removes them afterwards.
"""

import argparse
import ast
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMPARE = {
    ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
    ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
    ast.NotIn: 'in',
}  # fmt: skip
BINARY = {
    ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*',
    ast.Div: '*', ast.BitXor: '|', ast.RShift: '<<', ast.LShift: '>>',
    ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '//',
}  # fmt: skip
NAMES = {
    'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
    'CLOCKWISE': 'COUNTERCLOCKWISE', 'COUNTERCLOCKWISE': 'CLOCKWISE',
    'min_x': 'max_x', 'max_x': 'min_x', 'min_y': 'max_y', 'max_y': 'min_y',
    'start': 'end', 'end': 'start',
    'INTERIOR': 'EXTERIOR', 'EXTERIOR': 'INTERIOR', 'BOUNDARY': 'INTERIOR',
    'do_boxes_have_common_area': 'do_boxes_have_common_continuum',
    'do_boxes_have_common_continuum': 'do_boxes_have_common_area',
    'do_boxes_have_no_common_area': 'do_boxes_have_no_common_continuum',
    'do_boxes_have_no_common_continuum': 'do_boxes_have_no_common_area',
    'to_boxes_ids_with_common_area': 'to_boxes_ids_with_common_continuum',
    'to_boxes_ids_with_common_continuum': 'to_boxes_ids_with_common_area',
    'to_boxes_ids_with_intersection': 'to_boxes_ids_with_common_continuum',
}  # fmt: skip


def mutants(source):
    """(line, description, mutated source)"""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    data = source.encode()
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))

    def span(node):
        return (
            starts[node.lineno - 1] + node.col_offset,
            starts[node.end_lineno - 1] + node.end_col_offset,
        )

    found = []

    def put(node, text, what):
        lo, hi = span(node)
        old = data[lo:hi].decode()
        found.append(
            (
                node.lineno,
                f'{what}: {" ".join(old.split())[:60]} -> '
                f'{" ".join(text.split())[:60]}',
                (data[:lo] + text.encode() + data[hi:]).decode(),
            )
        )

    def text(node):
        lo, hi = span(node)
        return data[lo:hi].decode()

    def visit(node):
        if isinstance(node, (ast.Assert, ast.Raise, ast.Import,
                             ast.ImportFrom, ast.AnnAssign)):  # fmt: skip
            return
        if isinstance(node, ast.If) and 'TYPE_CHECKING' in text(node.test):
            return
        if isinstance(node, (ast.FunctionDef,)):
            if any('overload' in text(d) for d in node.decorator_list):
                return
            for child in node.body:
                visit(child)
            return
        if isinstance(node, ast.ClassDef):
            for child in node.body:
                if isinstance(child, ast.FunctionDef):
                    visit(child)
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = COMPARE[type(node.ops[0])]
            put(
                node,
                f'({text(node.left)} {op} {text(node.comparators[0])})',
                'compare',
            )
        elif isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                parts = [text(node.left)]
                for j, (o, c) in enumerate(zip(node.ops, node.comparators)):
                    symbol = {v: k for k, v in ()}
                    parts.append(
                        COMPARE[type(o)] if j == k
                        else {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
                              ast.GtE: '>=', ast.Eq: '==', ast.Is: 'is',
                              ast.NotEq: '!=', ast.IsNot: 'is not'}[type(o)]
                    )  # fmt: skip
                    parts.append(text(c))
                put(node, '(' + ' '.join(parts) + ')', 'chain')
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            values = [f'({text(v)})' for v in node.values]
            put(node, '(' + op.join(values) + ')', 'boolop')
            same = ' and ' if op == ' or ' else ' or '
            for k in range(len(values)):
                rest = values[:k] + values[k + 1 :]
                put(node, '(' + same.join(rest) + ')', 'drop')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, f'({text(node.operand)})', 'not')
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
            put(
                node,
                f'(({text(node.left)}) {BINARY[type(node.op)]} '
                f'({text(node.right)}))',
                'binary',
            )
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                put(node, str(not node.value), 'constant')
            elif isinstance(node.value, int):
                put(node, str(node.value + 1), 'constant')
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            put(node, f'{text(node.value)}.{NAMES[node.attr]}', 'name')
        elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(
            node.ctx, ast.Load
        ):
            if node.id not in ('start', 'end'):
                put(node, NAMES[node.id], 'name')
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            put(node.test, f'(not ({text(node.test)}))', 'negate')
            if not isinstance(node, ast.While):
                put(node.test, 'True', 'true')
            put(node.test, 'False', 'false')
        if isinstance(node, ast.Call):
            args = node.args
            if len(args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in args
            ):
                for k in range(len(args) - 1):
                    lo = span(args[k])[0]
                    hi = span(args[k + 1])[1]
                    new = f'{text(args[k + 1])}, {text(args[k])}'
                    found.append(
                        (
                            node.lineno,
                            f'swap: {" ".join(text(node).split())[:70]} '
                            f'[{k}]',
                            (data[:lo] + new.encode() + data[hi:]).decode(),
                        )
                    )
        if (
            isinstance(node, ast.Expr)
            and isinstance(node.value, ast.Call)
            or isinstance(node, ast.AugAssign)
            or isinstance(node, ast.Assign)
            and isinstance(node.targets[0], (ast.Attribute, ast.Subscript))
            or isinstance(node, (ast.Break, ast.Continue))
        ):
            put(node, 'pass', 'delete')
        for child in ast.iter_child_nodes(node):
            visit(child)

    visit_module(tree, visit)
    good = []
    seen = set()
    for line, what, new in found:
        if new in seen or new == source:
            continue
        seen.add(new)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append((line, what, new))
    return good


def visit_module(tree, visit):
    for node in tree.body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            visit(node)


def run(job):
    path, line, what, source, checks, timeout = job
    me = f'/tmp/mutate-{os.getpid()}'
    if not os.path.exists(me):
        os.makedirs(f'{me}/verif')
        shutil.copytree('/repo/rene', f'{me}/rene')
        shutil.copytree(f'{VERIF}/mc', f'{me}/verif/mc')
        shutil.copy(f'{VERIF}/check.py', f'{me}/verif/check.py')
    target = f'{me}/{path}'
    original = open(target).read()
    began = time.time()
    try:
        with open(target, 'w') as file:
            file.write(source)
        for check in checks:
            try:
                done = subprocess.run(
                    [sys.executable, 'check.py', check, '--tier', 'quick'],
                    cwd=f'{me}/verif',
                    env={**os.environ, 'VERIF_REPO': me, 'VERIF_JOBS': '1'},
                    capture_output=True,
                    text=True,
                    timeout=timeout,
                )
            except subprocess.TimeoutExpired:
                return path, line, what, f'TIMEOUT {check}', time.time() - began
            if done.returncode == 1 and 'VIOLATION' in done.stdout:
                return path, line, what, check, time.time() - began
            if done.returncode:
                return (
                    path, line, what, f'ERROR {check} {done.returncode} '
                    + done.stderr[-300:], time.time() - began,
                )  # fmt: skip
        return path, line, what, 'SURVIVED', time.time() - began
    finally:
        with open(target, 'w') as file:
            file.write(original)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('files', nargs='+')
    parser.add_argument('--checks', nargs='+', required=True)
    parser.add_argument('--every', type=int, default=1)
    parser.add_argument('--offset', type=int, default=0)
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--timeout', type=float, default=900)
    parser.add_argument('--match', default='')
    parser.add_argument('--out')
    args = parser.parse_args()
    jobs = []
    for path in args.files:
        source = open(f'/repo/{path}').read()
        for line, what, new in mutants(source):
            if not re.search(args.match, what):
                continue
            jobs.append((path, line, what, new, args.checks, args.timeout))
    jobs = jobs[args.offset :: args.every]
    print(len(jobs), 'mutants', flush=True)
    killed = 0
    results = []
    with multiprocessing.Pool(args.jobs) as pool:
        for result in pool.imap_unordered(run, jobs):
            path, line, what, verdict, took = result
            results.append(result)
            if verdict.startswith('C'):
                killed += 1
            else:
                print(f'{path}:{line}: {what} ... {verdict} ({took:.0f} s)',
                      flush=True)
    print(f'{killed} of {len(jobs)} killed', flush=True)
    if args.out:
        json.dump(results, open(args.out, 'w'), indent=1)
    for name in os.listdir('/tmp'):
        if name.startswith('mutate-'):
            shutil.rmtree(f'/tmp/{name}', ignore_errors=True)


if __name__ == '__main__':
    main()
