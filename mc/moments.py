"""Control over the moments of an execution of the library: every line of the package is a point at which an exception
can be raised or another thread can go on."""
import os
import sys
import threading

import abstract

PACKAGE = os.path.dirname(abstract.__file__) + os.sep


class Cut(BaseException):
    """an interruption, such as KeyboardInterrupt"""


class _Counter:
    def __init__(self, at):
        self.at, self.seen = at, 0

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(PACKAGE) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.seen += 1
            if self.seen == self.at:
                raise Cut()
        return self.line


def interrupted(fn, at=None):
    """runs fn, interrupted before the at-th line of the package; (number of lines, answer or the Cut that came out)"""
    counter = _Counter(at)
    old = sys.gettrace()
    sys.settrace(counter.enter)
    try:
        answer = fn()
    except Cut as e:
        answer = e
    finally:
        sys.settrace(old)
    return counter.seen, answer


class Schedule:
    """Runs two activities in two threads, one at a time. The other one goes on at each of the given points (numbers of
    lines of the package executed by both together), and where one ends."""

    def __init__(self, first, switches):
        self.turn = first
        self.switches = set(switches)
        self.step = 0
        self.switched = 0
        self.over = [False, False]
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.results = [None, None]

    def hand_over(self, i):
        self.turn = 1 - i
        self.locks[1 - i].release()

    def enter(self, i):
        def line(frame, event, arg):
            if event == 'line':
                self.step += 1
                if self.step in self.switches and not self.over[1 - i]:
                    self.switched += 1
                    self.hand_over(i)
                    self.locks[i].acquire()
            return line

        def enter(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(PACKAGE) else None
        return enter

    def thread(self, i, fn):
        def run():
            self.locks[i].acquire()
            sys.settrace(self.enter(i))
            try:
                self.results[i] = ('answer', fn())
            except BaseException as e:
                self.results[i] = ('exception', e)
            finally:
                sys.settrace(None)
                self.over[i] = True
                self.hand_over(i)
        return threading.Thread(target=run, daemon=True)

    def run(self, a, b):
        threads = [self.thread(0, a), self.thread(1, b)]
        for t in threads:
            t.start()
        self.locks[self.turn].release()
        for t in threads:
            t.join()
        return self.results


class _Recorder:
    def __init__(self):
        self.lines = []

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(PACKAGE) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines.append((frame.f_code, frame.f_lineno))
        return self.line


def moments(fn, often=None):
    """the numbers of the lines that fn executes; with often, only the first that many executions of each line"""
    r = _Recorder()
    old = sys.gettrace()
    sys.settrace(r.enter)
    try:
        fn()
    finally:
        sys.settrace(old)
    if often is None:
        return list(range(1, len(r.lines) + 1))
    count, out = {}, []
    for i, x in enumerate(r.lines, 1):
        count[x] = count.get(x, 0) + 1
        if count[x] <= often:
            out.append(i)
    return out


class _Pause:
    """a trace function that lets others go on before the at-th line"""

    def __init__(self, at, others):
        self.at, self.seen, self.others, self.paused = at, 0, others, False

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(PACKAGE) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.seen += 1
            if self.seen == self.at:
                self.paused = True
                t = threading.Thread(target=self.others, daemon=True)
                t.start()
                t.join()
        return self.line


def paused(fn, at, others):
    """runs fn, paused before its at-th line until others() has been run in another thread; (whether it was, outcome of
    fn)"""
    p = _Pause(at, others)
    old = sys.gettrace()
    sys.settrace(p.enter)
    try:
        outcome = ('answer', fn())
    except Exception as e:
        outcome = ('exception', e)
    finally:
        sys.settrace(old)
    return p.paused, outcome
