"""Cooperative scheduler: threads of the simulated process run one at a time,
and a seeded choice decides after every switch point which one goes on.

Switch points are every simulated I/O operation (SimFS on_op) and, if asked
for, source lines of the library at seeded distances.
"""
import sys
import threading

PARK_S = 20.0          # a thread that neither parks nor ends is waiting for another one


class Task(object):
    def __init__(self, fn):
        self.fn = fn
        self.go = threading.Lock()
        self.go.acquire()
        self.done = False
        self.result = None
        self.blocked = False


class Sched(object):
    def __init__(self, rng, lines=0, bias=.5, kill=None):
        self.rng = rng
        self.lines = lines        # mean number of source lines between switches, 0: none
        self.bias = bias          # probability of staying with the running task
        self.back = threading.Lock()
        self.back.acquire()
        self.cur = None
        self.kill = kill or {}    # {task number: (n-th line, exception)}
        self.killed = []
        self.trace = []
        self.switches = 0

    def _back(self):
        try:
            self.back.release()
        except RuntimeError:        # (a thread that was taken for blocked)
            pass

    def point(self, what=None):
        t = self.cur
        if t is None or threading.get_ident() != t.ident:
            return
        self._back()
        t.go.acquire()

    def _tracer(self, t):
        left = [self._dist()]
        n, exc = self.kill.get(t.no, (None, None))
        lines = [0]

        def local(frame, ev, arg):
            if ev == 'line':
                lines[0] += 1
                if lines[0] == n:
                    self.killed.append(t.no)
                    raise exc('injected')
                left[0] -= 1
                if left[0] <= 0:
                    left[0] = self._dist()
                    self.point()
            return local

        def glob(frame, ev, arg):
            if '/dolfyn/' in frame.f_code.co_filename:
                return local
            return None
        return glob

    def _dist(self):
        return 1 + self.rng.randrange(2 * self.lines)

    def _body(self, t):
        t.go.acquire()
        if self.lines:
            sys.settrace(self._tracer(t))
        try:
            t.result = ('ok', t.fn())
        except Exception as e:
            t.result = ('exc', e)
        except BaseException as e:
            t.result = ('died', e)
        finally:
            sys.settrace(None)
            t.done = True
            self._back()

    def run(self, fns):
        tasks = [Task(f) for f in fns]
        for i, t in enumerate(tasks):
            t.no = i
            t.th = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.th.start()
            t.ident = t.th.ident
        cur = tasks[0]
        while True:
            live = [t for t in tasks if not t.done and not t.blocked]
            if not live:
                if any(t.blocked and not t.done for t in tasks):
                    raise RuntimeError('all threads wait for each other')
                break
            if cur not in live or not self.rng.flip(self.bias):
                n = self.rng.pick(live)
                if n is not cur:
                    self.switches += 1
                cur = n
            self.trace.append(tasks.index(cur))
            self.cur = cur
            cur.go.release()
            if not self.back.acquire(timeout=PARK_S):
                cur.blocked = True
        for t in tasks:
            t.th.join(5)
        self.cur = None
        return [t.result for t in tasks]
