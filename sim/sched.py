"""A deterministic scheduler of real threads: one runs at a time, and who runs next is decided here.

Each simulated caller is a real thread under sys.settrace. At every line of library code (and at every
seam and callback) it reaches a preemption point; there the scheduler may hand the baton to another thread.
The choice comes from a plan (a list of [point, thread]) or from a seeded policy that records such a plan.
"""
import dis
import random
import sys
import threading

import numpy as np

from . import seams

RealLock = threading.Lock


_HOT = {}


def _hot_lines(code, glob):
    """Lines after which a switch is most likely to show: {line: 2} writes that other threads may see (attributes, globals,
    containers that are global or attributes), {line: 1} writes into arrays."""
    k = id(code)
    if k in _HOT:
        return _HOT[k][0]
    lines, hot, cur = {}, {}, None
    for ins in dis.get_instructions(code):
        if ins.positions is not None and ins.positions.lineno is not None:
            cur = ins.positions.lineno
        lines.setdefault(cur, []).append(ins)
    for n, L in lines.items():
        ops = [x.opname for x in L]
        shared = any(o in ('STORE_ATTR', 'DELETE_ATTR', 'STORE_GLOBAL') for o in ops)
        for x in L:
            if x.opname == 'LOAD_GLOBAL' and isinstance(glob.get(x.argval), (dict, list, set, np.ndarray)):
                shared = True
        sub = any(o in ('STORE_SUBSCR', 'STORE_SLICE', 'DELETE_SUBSCR') for o in ops)
        if sub and any(o == 'LOAD_ATTR' for o in ops) and any(x.opname == 'LOAD_FAST' and x.argval == 'self' for x in L):
            shared = True
        if shared or sub:
            hot[n] = 2 if shared else 1
    _HOT[k] = (hot, code)
    return hot


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    pass


class Scheduler:
    def __init__(self, world, policy, trace_files=(seams.LIBROOT,), max_points=4000000):
        """policy: {'kind': 'plan', 'switches': [[point, tid], ...]} or
        {'kind': 'random', 'seed': s, 'p': p} or {'kind': 'pct', 'seed': s, 'd': d, 'span': n} or
        {'kind': 'serial'}."""
        self.w = world
        self.policy = policy
        self.rng = random.Random(policy.get('seed', 0))
        self.point_no = 0
        self.max_points = max_points
        self.switches = []
        self.plan = {}
        self.threads = []
        self.cur = None
        self.aborting = False
        self.deadlock = False
        self.files = tuple(trace_files)
        self.preempt_sites = set()
        k = policy['kind']
        if k == 'plan':
            self.plan = {p: t for p, t in policy['switches']}
        elif k == 'pct':
            span = max(2, policy.get('span', 1000))
            self.change = {self.rng.randrange(1, span) for _ in range(policy.get('d', 3))}

    # -- running
    def run(self, fns):
        """Run the callables as simulated threads to completion; returns their outcomes."""
        from .world import Outcome, SimInterrupt
        n = len(fns)
        self.locks = []
        self.state = ['ready'] * n
        self.out = [None] * n
        self.done = RealLock()
        self.done.acquire()
        self.idents = {}

        def body(i):
            self.locks[i].acquire()
            self.idents[threading.get_ident()] = i
            sys.settrace(self._trace)
            try:
                if not self.aborting:
                    self.out[i] = Outcome(True, fns[i](), None)
            except (Exception, SimInterrupt) as e:
                self.out[i] = Outcome(False, None, e)
            except StepLimit as e:
                self.out[i] = Outcome(False, None, e)
            finally:
                sys.settrace(None)
                self.state[i] = 'done'
                self._leave(i)

        for i in range(n):
            l = RealLock()
            l.acquire()
            self.locks.append(l)
        for i in range(n):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            self.threads.append(t)
            t.start()
        self.w.sched = self
        first = 0
        if self.policy['kind'] == 'plan':
            first = self.plan.get(0, 0)
        elif self.policy['kind'] != 'serial':
            first = self.rng.randrange(n)
        if first:
            self.switches.append([0, first])
        self.cur = first
        self.locks[first].release()
        self.done.acquire()
        self.w.sched = None
        for t in self.threads:
            t.join(10)
        if self.deadlock:
            raise Deadlock('all threads wait for each other')
        return self.out

    def _ready(self):
        return [i for i, s in enumerate(self.state) if s == 'ready']

    def _leave(self, i):
        r = self._ready()
        if r:
            self.point_no += 1
            if self.policy['kind'] == 'plan':
                j = self.plan.get(self.point_no, r[0])
                if j not in r:
                    j = r[0]
            elif self.policy['kind'] == 'serial':
                j = r[0]
            else:
                j = r[self.rng.randrange(len(r))]
            if j != r[0]:
                self.switches.append([self.point_no, j])
            self.cur = j
            self.locks[j].release()
        elif all(s == 'done' for s in self.state):
            self.done.release()
        else:
            self.deadlock = True
            self.aborting = True
            for j, s in enumerate(self.state):
                if s == 'blocked':
                    self.state[j] = 'ready'
            j = self._ready()[0]
            self.cur = j
            self.locks[j].release()

    def me(self):
        return self.idents.get(threading.get_ident())

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.files):
            return None
        hot = _hot_lines(frame.f_code, frame.f_globals)
        name = frame.f_code.co_name
        prev = [None]

        def line(frame, event, arg):
            if event == 'line' or event == 'return':
                h = hot.get(prev[0], 0)
                prev[0] = frame.f_lineno
                self.point((name, frame.f_lineno), h)
            return line
        return line

    def seam_point(self, name):
        if self.me() is not None:
            self.point(('seam', name))

    def point(self, where, hot=0):
        """A preemption point of the running thread."""
        i = self.me()
        if i is None:
            return
        if self.aborting:
            raise StepLimit()
        self.point_no += 1
        p = self.point_no
        if p > self.max_points:
            self.aborting = True
            raise StepLimit()
        k = self.policy['kind']
        j = i
        if k == 'plan':
            j = self.plan.get(p, i)
        elif k == 'random':
            if self.rng.random() < self.policy['p']:
                r = self._ready()
                j = r[self.rng.randrange(len(r))]
        elif k == 'stores':
            # mostly right after something was written that other threads may see
            if self.rng.random() < (self.policy.get('p', 0.002), 0.03, 0.6)[hot]:
                r = self._ready()
                j = r[self.rng.randrange(len(r))]
        elif k == 'pct':
            if p in self.change:
                r = self._ready()
                j = r[self.rng.randrange(len(r))]
        elif k == 'at':
            # switch at the n-th visit of one function by anybody
            if where[0] == self.policy['fn']:
                self.policy['_n'] = self.policy.get('_n', 0) + 1
                if self.policy['_n'] % self.policy.get('every', 1) == 0:
                    r = self._ready()
                    j = r[(r.index(i) + 1) % len(r)] if i in r else r[0]
        if j != i and self.state[j] == 'ready':
            self.switches.append([p, j])
            self.preempt_sites.add(where)
            self._switch(i, j)

    def _switch(self, i, j):
        self.cur = j
        self.locks[j].release()
        self.locks[i].acquire()
        if self.aborting:
            raise StepLimit()

    def block(self, i):
        """The running thread cannot go on; somebody else must."""
        self.state[i] = 'blocked'
        r = self._ready()
        if not r:
            self.deadlock = True
            self.aborting = True
            self.state[i] = 'ready'
            raise StepLimit()
        self.point_no += 1
        if self.policy['kind'] == 'plan':
            j = self.plan.get(self.point_no, r[0])
            j = j if j in r else r[0]
        else:
            j = r[self.rng.randrange(len(r))]
        if j != r[0]:
            self.switches.append([self.point_no, j])
        self._switch(i, j)


class SimLock:
    """A lock made by the library: under the scheduler it blocks in simulation only."""
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.real = seams.ORIG['RLock']() if reentrant else seams.ORIG['Lock']()
        self.owner, self.count, self.waiting = None, 0, []

    def _sched(self):
        w = seams.CUR
        s = w.sched if w is not None else None
        return s if s is not None and s.me() is not None else None

    def acquire(self, blocking=True, timeout=-1):
        s = self._sched()
        if s is None:
            return self.real.acquire(blocking, timeout)
        i = s.me()
        s.point(('lock', 'acquire'))
        while self.owner is not None and not (self.reentrant and self.owner == i):
            if not blocking:
                return False
            self.waiting.append(i)
            s.block(i)
        self.owner = i
        self.count += 1
        return True

    def release(self):
        s = self._sched()
        if s is None:
            if self.owner is not None:
                self.owner, self.count = None, 0
                return
            return self.real.release()
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            for j in self.waiting:
                if s.state[j] == 'blocked':
                    s.state[j] = 'ready'
            self.waiting = []

    def locked(self):
        return self.owner is not None or (hasattr(self.real, 'locked') and self.real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def interrupt_at(fn, k, exc, files=(seams.LIBROOT,), count_only=False):
    """Run fn(); at its k-th library line raise exc(). Returns (outcome, lines seen, fired)."""
    from .world import Outcome, SimInterrupt, Violation
    n = [0]
    fired = [None]

    def line(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if not count_only and n[0] == k and fired[0] is None:
                fired[0] = (frame.f_code.co_name, frame.f_lineno)
                raise exc()
        return line

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(files):
            return line
        return None
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        out = Outcome(True, fn(), None)
    except (Exception, SimInterrupt) as e:
        if isinstance(e, Violation):
            raise
        out = Outcome(False, None, e)
    finally:
        sys.settrace(old)
    return out, n[0], fired[0]
