"""Lines and branches of the code under check that the workers execute.

Used only if VERIF_COVER names a folder: tools/cover.py reads what the
workers have left there.  Every event is reported once, so it costs little.
"""

import os
import sys

TOOL = 4
seen = set()
targets = {}
first = set()
flushed = 0


def start(root):
    monitoring = sys.monitoring
    events = monitoring.events
    monitoring.use_tool_id(TOOL, 'verif')

    def on_line(code, line):
        if code.co_filename.startswith(root):
            seen.add(f'L {code.co_filename} {line}')
        return monitoring.DISABLE

    def on_branch(code, offset, destination):
        if not code.co_filename.startswith(root):
            return monitoring.DISABLE
        key = code, offset
        former = targets.setdefault(key, destination)
        if former == destination and key in first:
            return None
        first.add(key)
        seen.add(
            f'B {code.co_filename} {code.co_qualname} '
            f'{code.co_firstlineno} {offset} {destination}'
        )
        return None if former == destination else monitoring.DISABLE

    monitoring.register_callback(TOOL, events.LINE, on_line)
    monitoring.register_callback(TOOL, events.BRANCH, on_branch)
    monitoring.set_events(TOOL, events.LINE | events.BRANCH)


def flush(folder):
    global flushed
    if len(seen) == flushed:
        return
    flushed = len(seen)
    with open(os.path.join(folder, f'{os.getpid()}.txt'), 'w') as file:
        file.write('\n'.join(sorted(seen)))
