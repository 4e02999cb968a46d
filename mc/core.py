"""Exploration engine: stages, workers, counters, verdicts, evidence, replay files.

A check module (mc.checks.cXX) has `stages(tier)` returning a list of stages.
Two kinds of stage exist:

* Cases      - a finite list of literals, enumerated completely; `run(ctx, case)`
               drives the real code on one of them and compares with the oracle.
* Histories  - breadth-first search over operation sequences; every transition is
               executed on fresh objects by replaying its whole history.

Any exception that escapes `run` (an oracle mismatch or an unexpected error of
the code under test) is a violation of the property for that case.
"""
import array
import contextlib
import hashlib
import importlib
import itertools
import json
import mmap
import os
import pickle
import resource
import selectors
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
# runs on scratch copies (development) keep their evidence beside the copy
EVIDENCE = os.path.join(VERIF if REPO == '/repo' else os.path.dirname(os.path.realpath(REPO)), 'evidence')
CASE_CPU_SECONDS = float(os.environ.get('MC_CASE_CPU', '40'))
WORKER_MEMORY = 3 << 30
SILENCE_SECONDS = 420  # no chunk takes that long unless a worker was lost


class Mismatch(Exception):
    """The real code disagrees with the oracle."""

    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature


class CaseTimeout(BaseException):
    pass


def h64(x):
    """Deterministic 64-bit hash of a printable value."""
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'little', signed=True)


def expect(what, real, wanted):
    if real != wanted or type(real) is not type(wanted):
        if real == wanted and isinstance(real, (bool, int, float)) and isinstance(wanted, (bool, int, float)):
            return
        raise Mismatch(f'{what}: observed {short(real)}, expected {short(wanted)}')


def short(x, limit=1500):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + f'... ({len(s)} characters)'


class Ctx:
    """Counters of one worker task."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.notes = {}

    def state(self, x):
        self.states.add(h64(x))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, x):
        self.outcomes.add(h64(x))

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def dump(self):
        return (array.array('q', sorted(self.states)).tobytes(), self.transitions, self.traces,
                array.array('q', sorted(self.outcomes)).tobytes(), self.notes)


class Cases:
    def __init__(self, name, cases, run, bound, chunk=None, capped=False):
        self.name, self.run, self.bound, self.chunk, self.capped = name, run, bound, chunk, capped
        self.make = cases
        self.cases = None

    def load(self):
        if self.cases is None:
            self.cases = list(self.make() if callable(self.make) else self.make)
        return self.cases


class Histories:
    """world(init) -> fresh world; world.ops() -> enabled operations; world.apply(op) executes an operation on
    the real code and the reference model and compares; world.check() compares everything observable;
    world.fingerprint() -> canonical heap state."""

    def __init__(self, name, world, depth, bound, inits=((),), warm=True, capped=False, dedupe=True):
        self.name, self.world, self.depth, self.bound = name, world, depth, bound
        self.inits, self.warm, self.capped, self.dedupe = list(inits), warm, capped, dedupe

    def play(self, ctx, init, history, upto_last=True):
        """replays a history; every step is checked when warm, else only the last"""
        world = self.world(ctx, init)
        if not history or self.warm:
            world.check()
        for i, op in enumerate(history):
            world.apply(op)
            ctx.step()
            if self.warm or i == len(history) - 1:
                world.check()
        ctx.traces += 1
        return world


_STAGES = None


def _quiet():
    warnings.simplefilter('ignore')


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _guarded(fn):
    """runs fn(); returns None or (signature, message)"""
    try:
        return _judged(fn)
    except CaseTimeout:    # time ran out while another failure was written up
        return (None, f'{NO_ANSWER} {CASE_CPU_SECONDS} s of processor time')


def _judged(fn):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        fn()
        return None
    except Mismatch as e:
        return (e.signature, str(e))
    except CaseTimeout:
        return (None, f'{NO_ANSWER} {CASE_CPU_SECONDS} s of processor time')
    except HarnessError:
        raise
    except Exception as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        tb = traceback.format_exc(limit=-40)
        return (None, f'unexpected {type(e).__name__}: {e}\n{tb[-3000:]}')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class HarnessError(Exception):
    pass


NO_ANSWER = 'no answer within'


def spread(work, tasks, workers, tier):
    """Yields work(task) for every task in order. Each task runs in a process of its own, forked from this one, with
    a pipe of its own: nothing is shared between workers, so they can be ended at any moment without a deadlock."""
    global _NOTE
    patience = SILENCE_SECONDS * (10 if tier == 'thorough' else 1)
    running, done = {}, {}
    again = []                 # tasks whose worker was lost once
    retried = set()
    waiting = enumerate(tasks)
    chooser = selectors.DefaultSelector()
    sys.stdout.flush()
    sys.stderr.flush()

    def start():
        global _NOTE
        for number, task in [again.pop()] if again else itertools.islice(waiting, 1):
            inlet, outlet = os.pipe()
            note = _NOTE = mmap.mmap(-1, NOTE_SIZE)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(inlet)
                    for other in running:
                        os.close(other)
                    _init_worker()
                    try:
                        answer = (True, work(task))
                    except BaseException:
                        answer = (False, traceback.format_exc())
                    with os.fdopen(outlet, 'wb') as f:
                        pickle.dump(answer, f, protocol=4)
                    code = 0
                finally:
                    os._exit(code)
            os.close(outlet)
            running[inlet] = (number, pid, [], note, task)
            chooser.register(inlet, selectors.EVENT_READ)

    try:
        for _ in range(workers):
            start()
        wanted = 0
        while running or done:
            while wanted in done:
                yield done.pop(wanted)
                wanted += 1
            if not running:
                continue
            ready = chooser.select(patience)
            if not ready:
                number, _, _, note, _ = next(iter(running.values()))
                yield _lost(work, note, f'{NO_ANSWER} {patience} s')
                return
            for key, _ in ready:
                part = os.read(key.fd, 1 << 20)
                number, pid, parts, note, task = running[key.fd]
                if part:
                    parts.append(part)
                    continue
                chooser.unregister(key.fd)
                os.close(key.fd)
                del running[key.fd]
                _, status = os.waitpid(pid, 0)
                try:
                    good, answer = pickle.loads(b''.join(parts))
                except (EOFError, pickle.UnpicklingError):
                    # once may be for want of memory elsewhere; twice it is what was run
                    if number not in retried:
                        retried.add(number)
                        again.append((number, task))
                        start()
                        continue
                    yield _lost(work, note, f'the process running this ended without an answer (status {status}), twice')
                    return
                start()
                if not good:
                    raise HarnessError(answer)
                done[number] = answer
    finally:
        for inlet, (_, pid, *_) in running.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(inlet)
        chooser.close()


_NOTE = None
NOTE_SIZE = 1 << 16


def note(case):
    """what is being run, for the parent to read if this process is lost"""
    if _NOTE is not None:
        data = pickle.dumps(case, protocol=4)
        if len(data) < NOTE_SIZE:
            _NOTE[:len(data)] = data


def _lost(work, note, message):
    try:
        case = pickle.loads(note[:])
    except (EOFError, pickle.UnpicklingError):
        raise HarnessError(f'a worker was lost: {message}')
    failure = [(case, (None, message))]
    dump = Ctx('quick', 1).dump()
    return (dump, failure) if work is _work_cases else (dump, [], failure)


def enough(failures):
    return len(failures) >= 20 or (failures and failures[-1][1][1].startswith(NO_ANSWER))


def _work_cases(args):
    stage_index, lo, hi, tier, seed = args
    _quiet()
    stage = _STAGES[stage_index]
    ctx = Ctx(tier, seed)
    failures = []
    for i in range(lo, hi):
        case = stage.cases[i]
        note(i)
        bad = _guarded(lambda: stage.run(ctx, case))
        ctx.traces += 1
        if bad is not None:
            failures.append((i, bad))
            if enough(failures):
                break
    return ctx.dump(), failures


def _work_histories(args):
    stage_index, jobs, last, tier, seed = args
    _quiet()
    stage = _STAGES[stage_index]
    ctx = Ctx(tier, seed)
    out, failures = [], []
    for init_index, history in jobs:
        init = stage.inits[init_index]
        box = {}

        def enabled():
            w = stage.world(ctx, init)
            for op in history:
                w.apply(op)
            box['ops'] = list(w.ops())
        note((init_index, history))
        bad = _guarded(enabled)
        if bad is not None:
            failures.append(((init_index, history), bad))
            continue
        for op in box['ops']:
            new = history + (op,)

            def go():
                w = stage.play(ctx, init, new)
                box['fp'] = None if (last or not stage.dedupe) else w.fingerprint()
                ctx.state((init_index, w.key()))
            note((init_index, new))
            bad = _guarded(go)
            if bad is not None:
                failures.append(((init_index, new), bad))
                if enough(failures):
                    return ctx.dump(), out, failures
            else:
                if not last:
                    out.append((init_index, new, box['fp']))
    return ctx.dump(), out, failures


def _init_worker():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.module = importlib.import_module(f'mc.checks.{pid.lower()}')
        self.t0 = time.time()
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = 0
        self.notes = {}
        self.samples = []
        self.stage_info = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(pid)
        self.workers = max(1, min(8, os.cpu_count() or 1))

    def absorb(self, dump, stage_counts):
        s, t, tr, o, notes = dump
        a = array.array('q'); a.frombytes(s)
        self.states.update(a)
        b = array.array('q'); b.frombytes(o)
        self.outcomes.update(b)
        self.transitions += t
        self.traces += tr
        stage_counts['transitions'] += t
        stage_counts['traces'] += tr
        for k, v in notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def failed(self, stage, case, bad):
        signature, message = bad
        signature = signature or f'{stage.name}: {case!r}'
        for k in self.known:
            if k == signature:
                self.known_hit[k] = message
                return False
        self.violations.append((stage, case, signature, message))
        return True

    def spread(self, work, tasks):
        return contextlib.closing(spread(work, tasks, self.workers, self.tier))

    def run(self):
        global _STAGES
        _STAGES = self.module.stages(self.tier)
        for index, stage in enumerate(_STAGES):
            counts = {'stage': stage.name, 'bound': stage.bound, 'transitions': 0, 'traces': 0}
            t = time.time()
            if isinstance(stage, Cases):
                self.run_cases(index, stage, counts)
            else:
                self.run_histories(index, stage, counts)
            counts['wall_s'] = round(time.time() - t, 2)
            self.stage_info.append(counts)
            if self.violations:
                break
        return self.finish()

    def run_cases(self, index, stage, counts):
        cases = stage.load()
        n = len(cases)
        counts['cases'] = n
        if n == 0:
            raise HarnessError(f'stage {stage.name} is empty')
        step = n // 3 or 1
        for i in sorted({0, step, 2 * step, n - 1}):
            if i < n:
                self.samples.append(f'{stage.name}: {short(cases[i], 400)}')
        chunk = stage.chunk or max(1, min(2000, -(-n // (self.workers * 6))))
        tasks = [(index, lo, min(n, lo + chunk), self.tier, self.seed) for lo in range(0, n, chunk)]
        with self.spread(_work_cases, tasks) as results:
            for dump, failures in results:
                self.absorb(dump, counts)
                new = False
                for i, bad in failures:
                    new |= self.failed(stage, cases[i], bad)
                if new:
                    break

    def run_histories(self, index, stage, counts):
        seen = set()
        frontier = []
        ctx = Ctx(self.tier, self.seed)
        roots = [(i, ()) for i in range(len(stage.inits))]
        for i, h in roots:
            def first():
                w = stage.play(ctx, stage.inits[i], ())
                ctx.state((i, w.key()))
            bad = _guarded(first)
            if bad is not None:
                if self.failed(stage, (i, ()), bad):
                    return
        self.absorb(ctx.dump(), counts)
        frontier = roots
        levels = []
        for depth in range(1, stage.depth + 1):
            last = depth == stage.depth
            n = len(frontier)
            if n == 0:
                break
            chunk = max(1, min(300, -(-n // (self.workers * 4))))
            tasks = [(index, frontier[lo:lo + chunk], last, self.tier, self.seed) for lo in range(0, n, chunk)]
            nxt, stop = [], False
            executed = 0
            with self.spread(_work_histories, tasks) as results:
                for dump, out, failures in results:
                    executed += dump[2]
                    self.absorb(dump, counts)
                    for case, bad in failures:
                        stop |= self.failed(stage, case, bad)
                    if stop:
                        break
                    for init_index, history, fp in out:
                        if stage.dedupe:
                            if fp in seen:
                                continue
                            seen.add(fp)
                        nxt.append((init_index, history))
            levels.append({'depth': depth, 'histories': executed, 'new_states': len(nxt)})
            if stop:
                break
            if nxt:
                self.samples.append(f'{stage.name} depth {depth}: {short(nxt[len(nxt) // 2], 400)}')
            frontier = nxt
        counts['levels'] = levels

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        for k, message in sorted(self.known_hit.items()):
            print(f'KNOWN-FINDING: property={self.pid} {k}')
        code = 0
        if self.violations:
            stage, case, signature, message = min(self.violations, key=lambda v: len(repr(v[1])))
            path = write_replay(self.pid, self.tier, stage.name, case, signature, message)
            print(f'VIOLATION property={self.pid} replay={path}')
            print(f'  stage: {stage.name}\n  case: {short(case, 2000)}\n  {message}')
            code = 1
        coverage = {
            'states': len(self.states), 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'distinct_outcomes': len(self.outcomes),
            'samples': self.samples[:24], 'stages': self.stage_info,
            'exhaustive': not self.violations and not any(s.capped for s in _STAGES),
            'explanation': 'states: distinct model/graph states whose observations were compared; transitions: '
                           'operations of the real code executed and compared; traces: complete cases or histories '
                           'replayed on the real code against the reference model.',
        }
        coverage.update(self.notes)
        evidence = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': coverage,
            'assumptions': getattr(self.module, 'ASSUMPTIONS', []),
            'wall_s': wall, 'violations': len(self.violations),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, f'{self.pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + '.tmp', path)
        print(f'{self.pid} {self.tier}: {len(self.states)} states, {self.transitions} transitions, '
              f'{self.traces} traces, {len(self.outcomes)} outcomes, {wall} s, '
              f'{"VIOLATED" if code else "held"}')
        return code


def load_known(pid):
    result = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip('\n')
                prefix = f'finding: property={pid} '
                if line.startswith(prefix):
                    result.append(line[len(prefix):])
    return result


def write_replay(pid, tier, stage, case, signature, message):
    folder = os.path.join(EVIDENCE, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{pid}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'stage': stage, 'case': repr(case), 'signature': signature,
                   'message': message,
                   'how': f'python3 {VERIF}/mc/replay.py {path}'}, f, indent=1)
    return path


def replay(path):
    import ast
    with open(path) as f:
        r = json.load(f)
    module = importlib.import_module(f'mc.checks.{r["property"].lower()}')
    stage = next(s for s in module.stages(r['tier']) if s.name == r['stage'])
    case = ast.literal_eval(r['case'])
    ctx = Ctx(r['tier'], 1)
    _quiet()
    _init_worker()
    if isinstance(stage, Cases):
        bad = _guarded(lambda: stage.run(ctx, case))
    else:
        bad = _guarded(lambda: stage.play(ctx, stage.inits[case[0]], tuple(case[1])))
    if bad is None:
        print('held on this case')
        return 0
    print(f'VIOLATION property={r["property"]} replay={path}\n  case: {case!r}\n  {bad[1]}')
    return 1
