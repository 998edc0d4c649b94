"""The simulated world: one seed decides every fault, random outcome, clock and schedule of a run."""
import errno
import hashlib
import os
import random
import threading
from collections import Counter

import numpy as np

from . import seams


class Violation(Exception):
    """The property does not hold. `code` is the class of the violation."""
    def __init__(self, code, msg, data=None):
        Exception.__init__(self, '{}: {}'.format(code, msg))
        self.code, self.msg, self.data = code, msg, data


class Skip(Exception):
    """This case decides nothing (it left the quantifier of the property)."""


class SimFault(Exception):
    """An exception of a simulated user callback."""


class SimInterrupt(KeyboardInterrupt):
    """A simulated interrupt."""


def _exc(kind):
    if kind == 'LinAlgError':
        return np.linalg.LinAlgError('injected: did not converge')
    if kind == 'MemoryError':
        return MemoryError('injected: out of memory')
    if kind == 'Interrupt':
        return SimInterrupt('injected')
    if kind == 'ValueError':
        return ValueError('injected: invalid value')
    if kind == 'QhullError':
        from scipy.spatial import QhullError
        return QhullError('injected: QH6154 initial simplex is flat')
    if kind in ('ENOSPC', 'EACCES', 'EIO', 'EROFS', 'EMFILE', 'EDQUOT', 'EEXIST', 'ENOENT'):
        n = getattr(errno, kind)
        return OSError(n, os.strerror(n) + ' (injected)')
    if kind == 'exc':
        return SimFault('injected: the simulation failed')
    raise KeyError(kind)


class Armed:
    """One fault: the k-th call (counted from arming) in category `cat` fails with `kind`."""
    def __init__(self, cat, k, kind, sticky=False):
        self.cat, self.k, self.kind, self.sticky = cat, k, kind, sticky
        self.fired = 0
        self.exc = None
        self.returned = False       # the failing call returned a result that says so


class World:
    def __init__(self, seed=0, entropy_seed=0, t0=1.6e9, quiet=False):
        self.quiet = quiet          # the number of events depends on rounding: not part of the digest
        self.seed = seed
        self.log = hashlib.blake2b(digest_size=16)
        self.nlog = 0
        self.events = []            # readable tail of the event log, bounded
        self.fired = Counter()      # fault kinds that really fired
        self.notes = Counter()      # probes
        self.calls = Counter()      # seam calls since the last arm(), by category
        self.armed = []
        self.recording = None       # list of recorded seam calls, or None
        self.draws = None           # transformation of the library's random draws
        self.ndraws = 0
        self.erng = random.Random(entropy_seed)
        self.t = t0
        self.pid = 4000 + entropy_seed % 1000
        self.sched = None
        self.disk_hook = None
        self.show_hook = None
        self.sim_time = 0.0
        self.jumps = 0.0            # probability that the clock jumps when it is read
        self.owner = None

    # -- log
    def ev(self, *what):
        self.nlog += 1
        s = repr(what)
        if not self.quiet:
            self.log.update(s.encode())
        if len(self.events) < 400:
            self.events.append(s[:160])

    def note(self, what):
        self.notes[what] += 1

    # -- entropy and clock
    def entropy(self):
        return self.erng.getrandbits(31)

    def now(self):
        self.advance(self.erng.random() * 1e-3)
        if self.jumps and self.erng.random() < self.jumps:
            self.fired['clock jump'] += 1
            self.advance(self.erng.choice([1.0, 60.0, 3600.0, 86400.0, -1.0, -3600.0]))
        return self.t

    def advance(self, dt):
        self.t += dt
        self.sim_time += abs(dt)

    # -- faults
    def arm(self, *faults):
        self.calls = Counter()
        self.armed = list(faults)

    def disarm(self):
        f, self.armed = self.armed, []
        return f

    def hit(self, cat):
        """Count one call in `cat`; return the fault that strikes it, if any."""
        n = self.calls[cat]
        self.calls[cat] += 1
        na = self.calls['any']
        self.calls['any'] += 1
        for f in self.armed:
            if (f.cat == cat and f.k == n) or (f.cat == 'any' and f.k == na) or \
                    (f.sticky and f.fired and f.cat == cat):
                f.fired += 1
                self.fired[cat + ':' + f.kind] += 1
                return f
        return None

    def seam(self, cat, name, orig, a, k):
        if self.sched is not None:
            self.sched.seam_point(name)
        if cat == 'show' and self.show_hook is not None:
            return self.show_hook(self)
        f = self.hit(cat)
        if cat == 'disk' and self.disk_hook is not None:
            return self.disk_hook(self, name, orig, a, k, f)
        if f is not None:
            self.ev('fault', cat, name, f.kind)
            return self._strike(f, cat, name, orig, a, k)
        if cat == 'rng':
            r = orig(*a, **k)
            self.ndraws += 1
            if self.draws is not None:
                r2 = self.draws(self, name, a, k, r, self.ndraws - 1)
                if r2 is not None:
                    r = r2
            self.ev('rng', name, _dig(r))
            if self.recording is not None:
                self.recording.append((cat, name, a, k, np.copy(r) if isinstance(r, np.ndarray) else r))
            return r
        if self.recording is not None:
            r = orig(*a, **k)
            kept = r
            if isinstance(r, dict) and isinstance(r.get('x'), np.ndarray):
                # the library may go on to change the array it was given
                kept = type(r)(r)
                kept['x'] = np.copy(r['x'])
            self.recording.append((cat, name, a, k, kept))
            self.ev(cat, name)
            return r
        if cat != 'alloc':
            self.ev(cat, name)
        return orig(*a, **k)

    def _strike(self, f, cat, name, orig, a, k):
        kind = f.kind
        if cat == 'solver' and kind in ('fail', 'fail-tempting', 'fail-nan', 'fail-noclaim', 'fail-once'):
            r = fail_solver(name, orig, a, k, kind)
            f.returned = True
            return r
        if cat in ('solver', 'gurobi') and kind == 'LinAlgError':
            kind = 'ValueError'
        f.exc = _exc(kind)
        raise f.exc


def fail_solver(name, orig, a, k, kind):
    """A solver that gives up: it says so, and what else it returns is worthless."""
    if name in ('fminbound',):
        k2 = dict(k)
        full = k.get('full_output', a[6] if len(a) > 6 else 0)
        if not full:
            raise _exc('ValueError')
        r = list(orig(*a, **k))
        if kind == 'fail-tempting':
            r[0], r[1] = r[0] + 0.1, r[1] - 1e3
        elif kind == 'fail-nan':
            r[0], r[1] = float('nan'), float('nan')
        r[2] = 1
        return tuple(r)
    try:
        r = orig(*a, **k)
    except (np.linalg.LinAlgError, ValueError):
        raise
    r.success = False
    if 'status' in r:
        r.status = 4 if name == 'linprog' else 9
    r.message = 'injected: iteration limit reached'
    x = r.get('x')
    if x is not None:
        if kind == 'fail-nan':
            r.x = np.full_like(np.asarray(x, dtype=float), np.nan)
            r.fun = float('nan')
        elif kind == 'fail-tempting':
            r.x = np.asarray(x, dtype=float) * 0.5
            r.fun = (r.fun if np.isscalar(r.fun) or np.ndim(r.fun) == 0 else float(np.ravel(r.fun)[0])) - 1e3
    return r


def _dig(r):
    if isinstance(r, np.ndarray):
        return (r.shape, hashlib.blake2b(np.ascontiguousarray(r).tobytes(), digest_size=6).hexdigest())
    return repr(r)[:60]


class Outcome:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return 'ok' if self.ok else '{}({})'.format(type(self.exc).__name__, str(self.exc)[:80])


def attempt(w, fn, *a, **k):
    """Run a library call in world `w`; its exception is its outcome."""
    old = seams.set_world(w)
    so = None
    try:
        return Outcome(True, fn(*a, **k), None)
    except (Exception, SimInterrupt) as e:
        if isinstance(e, Violation) or isinstance(e, Skip):
            raise
        return Outcome(False, None, e)
    finally:
        seams.set_world(old)


def must(w, what, fn, *a, **k):
    """Run a library call that the property says succeeds."""
    o = attempt(w, fn, *a, **k)
    if not o.ok:
        raise Violation('raised', '{} raised {}: {}'.format(what, type(o.exc).__name__, str(o.exc)[:300]),
                        {'exc': type(o.exc).__name__})
    return o.value


def need(cond, code, msg, *args):
    if not cond:
        raise Violation(code, msg.format(*args) if args else msg)


# -- random outcomes -------------------------------------------------------

def make_draws(spec):
    """Transformations of the library's random draws (the stream is consumed as usual)."""
    if not spec:
        return None
    kind = spec['kind']
    lo, hi = spec.get('from', 0), spec.get('to', 10 ** 9)
    memo = {}

    def draws(w, name, a, k, r, i):
        if not (lo <= i < hi):
            return None
        if kind == 'sticky':            # the same outcome again and again, then new ones
            lh = _bounds(name, a, k) if name == 'uniform' else None
            if lh is not None:          # the same fraction of whatever interval is asked for
                key, base = (name, np.shape(r)), None
                if np.all(lh[1] > lh[0]):
                    base = (r - lh[0]) / (lh[1] - lh[0])
                if base is None:
                    return None
                if key in memo:
                    w.fired['draws:sticky'] += 1
                    v = lh[0] + memo[key] * (lh[1] - lh[0])
                    return v if isinstance(r, np.ndarray) else float(v)
                memo[key] = base
                return None
            key = (name, np.shape(r), repr([x for x in a if np.isscalar(x)]), repr([(q, k[q]) for q in sorted(k) if np.isscalar(k[q])]))
            if key in memo:
                w.fired['draws:sticky'] += 1
                v = memo[key]
                return v.copy() if isinstance(v, np.ndarray) else v
            memo[key] = r.copy() if isinstance(r, np.ndarray) else r
            return None
        if name in ('randint', 'random_integers', 'choice') and np.issubdtype(np.asarray(r).dtype, np.integer):
            if kind == 'const-index':
                w.fired['draws:const-index'] += 1
                return r * 0 + (np.ravel(r)[0] if np.size(r) else 0)
            if kind == 'few-index':
                w.fired['draws:few-index'] += 1
                v = np.ravel(r)
                if v.size == 0:
                    return None
                pick = np.array([v[0], v[-1], v[v.size // 2]])[:max(1, spec.get('few', 2))]
                out = pick[np.arange(v.size) % pick.size]
                return out.reshape(np.shape(r)) if isinstance(r, np.ndarray) else int(out[0])
            if kind == 'last-index':
                w.fired['draws:last-index'] += 1
                hi_ = a[0] if len(a) == 1 else (a[1] if len(a) > 1 and a[1] is not None else a[0] if a else k.get('high', 1))
                return r * 0 + (int(hi_) - 1)
            return None
        if name in ('normal', 'standard_normal', 'randn'):
            if kind == 'scaled-normal':
                w.fired['draws:scaled-normal'] += 1
                return r * spec.get('scale', 30.0)
            if kind == 'cluster':
                w.fired['draws:cluster'] += 1
                v = np.asarray(r)
                return v.ravel()[:1] * np.ones(v.shape) if v.size > 1 else None
            if kind == 'single' and np.ndim(r) == 2 and len(r):     # one direction per call
                w.fired['draws:single'] += 1
                return np.tile(r[:1], (len(r), 1))
            if kind == 'positive':
                w.fired['draws:positive'] += 1
                return np.abs(r)
            if kind == 'axis' and np.ndim(r) == 2 and np.shape(r)[1] == 1:
                w.fired['draws:axis'] += 1
                v = np.zeros_like(r)
                j = int(np.argmax(np.abs(r)))
                v[j] = r[j]
                return v
        if name in ('uniform', 'rand', 'random_sample', 'random'):
            if kind == 'corner':
                w.fired['draws:corner'] += 1
                l, h = _bounds(name, a, k)
                l, h = np.broadcast_to(l, np.shape(r)), np.broadcast_to(h, np.shape(r))
                mid = 0.5 * (l + h)
                out = np.where(np.asarray(r) < mid, l + 1e-9 * (h - l), h - 1e-9 * (h - l))
                return out if isinstance(r, np.ndarray) else float(out)
            if kind == 'low-uniform':
                w.fired['draws:low-uniform'] += 1
                l, h = _bounds(name, a, k)
                return r * 0 + l
            if kind == 'high-uniform':
                w.fired['draws:high-uniform'] += 1
                l, h = _bounds(name, a, k)
                return r * 0 + (h - (h - l) * 2.0 ** -52)
            if kind == 'mid-uniform':
                w.fired['draws:mid-uniform'] += 1
                l, h = _bounds(name, a, k)
                return r * 0 + 0.5 * (l + h)
            if kind == 'cluster':
                w.fired['draws:cluster'] += 1
                v = np.asarray(r)
                return v.ravel()[:1] * np.ones(v.shape) if v.size > 1 else None
        return None
    return draws


def _bounds(name, a, k):
    if name == 'uniform':
        l = a[0] if len(a) > 0 else k.get('low', 0.0)
        h = a[1] if len(a) > 1 else k.get('high', 1.0)
        return np.asarray(l, dtype=float), np.asarray(h, dtype=float)
    return np.asarray(0.0), np.asarray(1.0)
