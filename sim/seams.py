"""Every source of nondeterminism and failure the library touches, behind seams.

install() must run before active_subspaces is imported. It replaces the entry
points of numpy, scipy, matplotlib and the standard library that the library
calls by wrappers. A wrapper acts only when its immediate caller is a frame of
the library (a file under LIBROOT); for everybody else, numpy and scipy
themselves included, it is the original. With no world installed (CUR is None)
it is the original for the library too.
"""
import os
import sys
import threading

LIBROOT = '/repo/active_subspaces/'

CUR = None          # the world that decides what happens, or None
ORIG = {}           # the original entry points, by name

_getframe = sys._getframe


def set_world(w):
    global CUR
    old, CUR = CUR, w
    return old


def from_lib(depth=2):
    f = _getframe(depth)
    return f.f_code.co_filename.startswith(LIBROOT)


def _wrap(cat, name, orig):
    def seam(*a, **k):
        w = CUR
        if w is None or not _getframe(1).f_code.co_filename.startswith(LIBROOT):
            return orig(*a, **k)
        return w.seam(cat, name, orig, a, k)
    seam.__name__ = getattr(orig, '__name__', name)
    seam.__doc__ = getattr(orig, '__doc__', None)
    seam.__wrapped__ = orig
    return seam


def _patch(mod, attr, cat, name=None):
    orig = getattr(mod, attr, None)
    if orig is None or getattr(orig, '__wrapped__', None) is not None and getattr(orig, '__name__', '') == 'seam':
        return
    name = name or attr
    ORIG.setdefault(name, orig)
    setattr(mod, attr, _wrap(cat, name, orig))


RNG_FUNCS = ['normal', 'uniform', 'randint', 'rand', 'randn', 'random_sample', 'random', 'choice',
             'permutation', 'shuffle', 'standard_normal', 'multivariate_normal', 'exponential',
             'random_integers', 'ranf', 'sample', 'bytes', 'beta', 'dirichlet', 'poisson', 'binomial',
             'multinomial', 'gamma', 'laplace', 'standard_t', 'triangular']
LINALG = ['eigh', 'eig', 'eigvalsh', 'eigvals', 'lstsq', 'solve', 'cholesky', 'norm', 'det', 'svd', 'inv',
          'qr', 'pinv', 'slogdet', 'matrix_rank', 'cond']
ALLOC = ['zeros', 'ones', 'empty', 'dot', 'hstack', 'vstack', 'kron', 'tile', 'concatenate', 'outer',
         'eye', 'einsum', 'zeros_like', 'ones_like', 'empty_like', 'full', 'column_stack']


def install(backend='scipy'):
    import numpy as np
    import numpy.random as nr
    import scipy.optimize as so
    import scipy.spatial as sp
    import scipy.linalg as sl
    import time
    import datetime

    RS = nr.RandomState
    ORIG['RandomState'] = RS
    ORIG['default_rng'] = nr.default_rng
    ORIG['get_state'] = nr.get_state
    ORIG['set_state'] = nr.set_state
    ORIG['seed'] = nr.seed

    # --- random numbers
    for n in RNG_FUNCS:
        if hasattr(nr, n):
            _patch(nr, n, 'rng', n)

    class AnyRS(type):
        def __instancecheck__(cls, o):
            return type.__instancecheck__(RS, o)

    class SimRandomState(RS, metaclass=AnyRS):
        """RandomState whose operating-system entropy is simulated inside the library."""
        def __init__(self, seed=None):
            w = CUR
            if seed is None and w is not None and from_lib():
                w.note('entropy')
                seed = w.entropy()
            RS.__init__(self, seed)

        def seed(self, seed=None):
            w = CUR
            if seed is None and w is not None and from_lib():
                w.note('entropy')
                seed = w.entropy()
            return RS.seed(self, seed)
    SimRandomState.__name__ = 'RandomState'
    nr.RandomState = SimRandomState

    def sim_seed(seed=None, *a):
        w = CUR
        if w is not None and from_lib():
            w.note('global-seed')
            if seed is None:
                seed = w.entropy()
        return ORIG['seed'](seed, *a)
    nr.seed = sim_seed

    def sim_default_rng(seed=None):
        w = CUR
        if w is not None and from_lib() and seed is None:
            w.note('entropy')
            seed = w.entropy()
        return ORIG['default_rng'](seed)
    nr.default_rng = sim_default_rng

    # --- linear algebra, allocations
    for n in LINALG:
        _patch(np.linalg, n, 'linalg', n)
    for n in ['eigh', 'eig', 'lstsq', 'solve', 'cholesky', 'svd', 'inv', 'qr', 'pinv', 'cho_factor',
              'cho_solve', 'solve_triangular', 'null_space', 'orth', 'lu_factor', 'det']:
        _patch(sl, n, 'linalg', 'scipy.' + n)
    for n in ALLOC:
        _patch(np, n, 'alloc', n)

    # --- solvers
    for n in ['linprog', 'minimize', 'fminbound', 'minimize_scalar', 'fmin_slsqp', 'fmin_bfgs',
              'fmin_l_bfgs_b', 'brent', 'nnls', 'lsq_linear', 'differential_evolution', 'basinhopping',
              'shgo', 'milp', 'fmin', 'fmin_powell', 'fmin_cg', 'fmin_tnc', 'fmin_cobyla']:
        _patch(so, n, 'solver', n)

    # --- geometry. ConvexHull and Delaunay are classes; subclasses keep isinstance working
    def geo(name, base):
        def __init__(self, *a, **k):
            w = CUR
            if w is None or not from_lib():
                return base.__init__(self, *a, **k)
            return w.seam('hull', name, lambda *a, **k: base.__init__(self, *a, **k), a, k)
        return type(name, (base,), {'__init__': __init__})
    ORIG['ConvexHull'], ORIG['Delaunay'] = sp.ConvexHull, sp.Delaunay
    sp.ConvexHull = geo('ConvexHull', sp.ConvexHull)
    sp.Delaunay = geo('Delaunay', sp.Delaunay)
    _patch(sp, 'distance_matrix', 'linalg', 'distance_matrix')

    # --- files
    for n in ['savez', 'savez_compressed', 'save', 'savetxt', 'load']:
        _patch(np, n, 'disk', n)
    for n in ['mkdir', 'makedirs', 'remove', 'unlink', 'rename', 'replace', 'rmdir', 'listdir', 'open', 'chdir']:
        _patch(os, n, 'disk', 'os.' + n)
    for n in ['isdir', 'exists', 'isfile', 'lexists']:
        _patch(os.path, n, 'disk', 'path.' + n)
    import builtins
    _patch(builtins, 'open', 'disk', 'open')

    # --- clocks and entropy
    for n in ['time', 'perf_counter', 'monotonic', 'process_time', 'time_ns', 'perf_counter_ns', 'monotonic_ns']:
        orig = getattr(time, n)
        ORIG['time.' + n] = orig

        def clock(n=n, orig=orig):
            w = CUR
            if w is None or not from_lib():
                return orig()
            w.note('clock')
            t = w.now()
            return int(t * 1e9) if n.endswith('_ns') else t
        setattr(time, n, clock)
    osleep = time.sleep
    ORIG['time.sleep'] = osleep

    def sleep(s):
        w = CUR
        if w is None or not from_lib():
            return osleep(s)
        w.note('sleep')
        w.advance(s)
    time.sleep = sleep

    odt = datetime.datetime

    class SimDateTime(odt):
        @classmethod
        def now(cls, tz=None):
            w = CUR
            if w is None or not from_lib():
                return odt.now(tz)
            w.note('clock')
            return odt.fromtimestamp(w.now(), tz)

        @classmethod
        def utcnow(cls):
            w = CUR
            if w is None or not from_lib():
                return odt.utcnow()
            w.note('clock')
            return odt.utcfromtimestamp(w.now())
    datetime.datetime = SimDateTime

    ourandom = os.urandom
    ORIG['urandom'] = ourandom

    def urandom(n):
        w = CUR
        if w is None or not from_lib():
            return ourandom(n)
        w.note('entropy')
        return bytes((w.entropy() >> 3) & 255 for _ in range(n))
    os.urandom = urandom
    ogetpid = os.getpid

    def getpid():
        w = CUR
        if w is None or not from_lib():
            return ogetpid()
        w.note('pid')
        return w.pid
    os.getpid = getpid

    # --- locks: those the library makes belong to the simulated scheduler
    ORIG['Lock'], ORIG['RLock'] = threading.Lock, threading.RLock
    from . import sched

    def rlock():
        return sched.SimLock(True) if from_lib() else ORIG['RLock']()

    def lock():
        return sched.SimLock(False) if from_lib() else ORIG['Lock']()
    threading.Lock, threading.RLock = lock, rlock

    if backend == 'gurobi':
        from . import gurobi_stub
        sys.modules['gurobipy'] = gurobi_stub.module()
    else:
        sys.modules['gurobipy'] = None      # import raises ImportError, whatever is installed


def install_plot():
    """Seams of the plotting module; only for the check that plots."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    _patch(plt, 'savefig', 'disk', 'savefig')
    _patch(plt, 'show', 'show', 'show')
    _patch(Figure, 'savefig', 'disk', 'Figure.savefig')
