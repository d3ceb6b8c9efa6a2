"""Explorer: enumerates spaces of cases on all cores, stops at violations.

A *case* is a plain tuple, whose first member names the function of
`mc.cases` that executes it on the real code and compares every step with
the model.  A *row* is a tuple that expands (in the worker) into cases.  A
*space* is an ordered list of rows, or a search that makes rows from the
results of former ones.  Nothing is random: order is simplest first.
"""

import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 8)
CASE_CPU_SECONDS = 40
CASE_WALL_SECONDS = 240
WORKER_MEMORY = 3 << 30
MAX_VIOLATIONS = 6
COVER = os.environ.get('VERIF_COVER')
DEADLINE = {'quick': 780.0, 'thorough': 6 * 3600.0}


class Space:
    """A finite list of rows."""

    def __init__(self, name, bound, rows):
        self.name, self.bound = name, bound
        self._rows = rows

    def batches(self):
        yield list(self._rows() if callable(self._rows) else self._rows)

    def absorb(self, row, output):
        pass

    def summary(self):
        return {}


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.cases = 0
        self.outcomes = Counter()
        self.output = []
        self.slowest = 0.0

    def state(self, *key):
        self.states.add(hash(key))

    def call(self, count=1):
        self.transitions += count

    def outcome(self, name):
        self.outcomes[name] += 1

    def emit(self, value):
        self.output.append(value)


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


def jsonable(value):
    if isinstance(value, (tuple, list)):
        return [jsonable(v) for v in value]
    if isinstance(value, Fraction):
        return {'q': f'{value.numerator}/{value.denominator}'}
    if value is None or isinstance(value, (str, bool)):
        return value
    if isinstance(value, int):
        return value if abs(value) < 2**53 else {'q': f'{value}/1'}
    raise TypeError(repr(value))


def from_jsonable(value):
    if isinstance(value, list):
        return tuple(from_jsonable(v) for v in value)
    if isinstance(value, dict):
        q = Fraction(value['q'])
        return q.numerator if q.denominator == 1 else q
    return value


def run_case(case, recorder):
    """None or the description of the violation."""
    from . import cases

    began = time.process_time()
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_SECONDS)
    try:
        recorder.cases += 1
        return cases.CASES[case[0]](case, recorder)
    except Hang:
        return f'does not terminate within {CASE_CPU_SECONDS} s'
    except MemoryError:
        return 'exhausts memory'
    except cases.Violation as error:
        return str(error)
    except Exception as error:
        where = traceback.extract_tb(error.__traceback__)
        frame = where[-1]
        return (
            f'{type(error).__name__}: {error} '
            f'(in {os.path.basename(frame.filename)}:{frame.name})'
        )[:300]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        recorder.slowest = max(
            recorder.slowest, time.process_time() - began
        )


def _init_worker():
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    if COVER:
        from . import cover, impl

        cover.start(os.path.join(os.path.abspath(impl.REPO), 'rene', ''))


def _run_row(job):
    space_index, row = job
    from . import cases

    recorder = Recorder()
    violations = []
    sample = None
    try:
        for case in cases.expand(row):
            if sample is None:
                sample = case
            message = run_case(case, recorder)
            if message is not None:
                violations.append((case, message))
                if len(violations) >= 3:
                    break
    except Exception:
        return space_index, row, None, traceback.format_exc(), None
    if COVER:
        from . import cover

        cover.flush(COVER)
    return (
        space_index,
        row,
        (
            recorder.states,
            recorder.transitions,
            recorder.cases,
            recorder.outcomes,
            recorder.output,
            recorder.slowest,
        ),
        violations,
        sample,
    )


def load_known(prop):
    """Known findings: 'finding: property=<id> case=<digest> <text>'."""
    result = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return result
    with open(path) as file:
        for line in file:
            words = line.split()
            if words[:2] == ['finding:', f'property={prop}']:
                result[words[2].removeprefix('case=')] = ' '.join(words[3:])
    return result


def digest(case):
    return hashlib.sha256(
        json.dumps(jsonable(case)).encode()
    ).hexdigest()[:16]


def write_replay(prop, row, case, message):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{prop}-{digest(case)}.json')
    with open(path, 'w') as file:
        json.dump(
            {
                'property': prop,
                'message': message,
                'case': jsonable(case),
                'row': jsonable(row),
            },
            file,
            indent=1,
        )
    return path


def _serve(connection, others):
    """Body of a worker process: rows in, results out, until told to stop."""
    for other in others:
        other.close()
    _die_with_parent()
    _init_worker()
    try:
        while True:
            job = connection.recv()
            connection.send(_run_row(job))
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


def _die_with_parent():
    import ctypes

    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except (OSError, AttributeError):
        pass


class Workers:
    """Processes that run rows; results come in the order of the rows.

    (`multiprocessing.Pool` is not used: it never notices a worker that has
    been killed, and its `terminate` deadlocks now and then.)
    """

    def __init__(self, context, count):
        self.context, self.workers = context, {}
        for _ in range(count):
            self._start()

    def _start(self):
        ours, theirs = self.context.Pipe()
        process = self.context.Process(
            target=_serve, args=(theirs, [ours, *self.workers])
        )
        process.start()
        theirs.close()
        self.workers[ours] = process
        return ours

    def run(self, jobs, deadline):
        """Yields results; None is yielded (last) when time is over."""
        queue = list(enumerate(jobs))[::-1]
        idle, busy = list(self.workers), {}
        results, position, failed = {}, 0, Counter()
        while position < len(jobs):
            while idle and queue:
                connection = idle.pop()
                number, job = queue.pop()
                busy[connection] = number
                try:
                    connection.send(job)
                except OSError:
                    pass  # noticed below: the connection is at its end
            ready = multiprocessing.connection.wait(
                list(busy), max(deadline - time.time(), 0.1)
            )
            if not ready:
                yield None
                return
            for connection in ready:
                number = busy.pop(connection)
                try:
                    results[number] = connection.recv()
                except (EOFError, OSError):
                    failed[number] += 1
                    if failed[number] == 2:
                        print(
                            f'a worker died twice in {jobs[number]}',
                            file=sys.stderr,
                        )
                        raise SystemExit(3) from None
                    queue.append((number, jobs[number]))
                    self.workers.pop(connection).join()
                    connection.close()
                    idle.append(self._start())
                else:
                    idle.append(connection)
            while position in results:
                yield results.pop(position)
                position += 1

    def stop(self):
        for process in self.workers.values():
            process.kill()
        for connection, process in self.workers.items():
            process.join()
            connection.close()
        self.workers.clear()


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.states = set()
        self.transitions = self.traces = 0
        self.outcomes = Counter()
        self.samples = []
        self.violations = []
        self.known = load_known(prop)
        self.seen_known = set()
        self.spaces = []
        self.capped = None
        self.slowest = 0.0
        self.started = time.time()

    def explore(self, spaces):
        context = multiprocessing.get_context('fork')
        for index, space in enumerate(spaces):
            if self.violations or self.capped:
                break
            before = len(self.states), self.transitions, self.traces
            began = time.time()
            for batch in space.batches():
                self._explore_batch(context, index, space, batch)
                if self.violations or self.capped:
                    break
            self.spaces.append(
                {
                    'space': space.name,
                    'bound': space.bound,
                    'new_states': len(self.states) - before[0],
                    'transitions': self.transitions - before[1],
                    'cases': self.traces - before[2],
                    'wall_s': round(time.time() - began, 1),
                    **space.summary(),
                }
            )
            print(
                '  {space}: {cases} cases, {transitions} transitions, '
                '{new_states} new states, {wall_s} s'.format(
                    **self.spaces[-1]
                ),
                flush=True,
            )

    def _explore_batch(self, context, index, space, batch):
        if not batch:
            return
        sampled = False
        pool = Workers(context, min(WORKERS, len(batch)))
        try:
            for result in pool.run(
                [(index, row) for row in batch],
                self.started + DEADLINE[self.tier],
            ):
                if result is None:
                    self.capped = space.name
                    return
                _, row, counts, violations, sample = result
                if counts is None:
                    print(violations, file=sys.stderr)
                    raise SystemExit(3)
                states, transitions, traces, outcomes, output, slowest = (
                    counts
                )
                self.slowest = max(self.slowest, slowest)
                self.states |= states
                self.transitions += transitions
                self.traces += traces
                self.outcomes.update(outcomes)
                if not sampled and sample is not None:
                    sampled = True
                    self.samples.append(
                        {'space': space.name, 'case': jsonable(sample)}
                    )
                space.absorb(row, output)
                for case, message in violations:
                    name = digest(case)
                    if name in self.known:
                        self.seen_known.add(name)
                        continue
                    self.violations.append((row, case, message))
                if len(self.violations) >= MAX_VIOLATIONS:
                    return
        finally:
            pool.stop()

    def finish(self, assumptions=()):
        for name in sorted(self.known):
            print(
                f'KNOWN-FINDING: property={self.prop} case={name} '
                f'{self.known[name]}'
            )
        for row, case, message in self.violations:
            path = write_replay(self.prop, row, case, message)
            print(f'  {message}\n  case: {case}'[:1500])
            print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        evidence = {
            'property': self.prop,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED') or 0),
            'level': 'model_checking',
            'coverage': {
                'states': len(self.states),
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'distinct_outcomes': dict(
                    sorted(self.outcomes.items(), key=str)
                ),
                'spaces': self.spaces,
                'samples': self.samples[:12],
                'slowest_case_cpu_s': round(self.slowest, 1),
                'exhaustive': self.capped is None and not self.violations,
                **(
                    {'capped_in': self.capped}
                    if self.capped is not None
                    else {}
                ),
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.started, 1),
            'violations': len(self.violations),
        }
        folder = os.path.join(VERIF, 'evidence')
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, f'{self.prop}.json'), 'w') as file:
            json.dump(evidence, file, indent=1)
        print(
            f'{self.prop} {self.tier}: {len(self.states)} states, '
            f'{self.transitions} transitions, {self.traces} traces, '
            f'{len(self.violations)} violations, '
            f'{evidence["wall_s"]} s (slowest case {self.slowest:.1f} s)'
            + (f', CAPPED in {self.capped}' if self.capped else '')
        )
        return 1 if self.violations else 0
