"""Simulated user simulations, with a ledger of their calls."""
import numpy as np

from . import gens
from .world import SimFault, SimInterrupt, Violation


EXCEPTIONS = {'exc': SimFault, 'Interrupt': SimInterrupt, 'StopIteration': StopIteration, 'MemoryError': MemoryError,
              'ValueError': ValueError, 'OSError': OSError, 'RuntimeError': RuntimeError, 'TypeError': TypeError,
              'ZeroDivisionError': ZeroDivisionError, 'FloatingPointError': FloatingPointError, 'KeyError': KeyError,
              'OverflowError': OverflowError, 'IndexError': IndexError, 'LinAlgError': np.linalg.LinAlgError,
              'AttributeError': AttributeError, 'TimeoutError': TimeoutError, 'AssertionError': AssertionError,
              'NotImplementedError': NotImplementedError, 'EOFError': EOFError, 'Warning': RuntimeWarning,
              'ArithmeticError': ArithmeticError, 'ConnectionError': ConnectionError}


def simulated_failure(kind):
    return EXCEPTIONS.get(kind, SimFault)('injected')


class Sim:
    """What a user passes to the library. `beh`: {'ret': ..., 'fail': k, 'exc': kind, 'nan': [..], 'mutate': bool,
    'draw': bool, 'state': bool}."""
    def __init__(self, fun, m, beh=None, grad=False, world=None, hook=None):
        self.fun, self.m, self.beh, self.grad = fun, m, beh or {}, grad
        self.calls = []
        self.w = world
        self.raised = None
        self.hook = hook
        self.after = 0

    def __call__(self, *args, **kw):
        if len(args) != 1 or kw:
            raise Violation('arguments', 'the simulation was called with {} arguments'.format(len(args) + len(kw)))
        x = args[0]
        if not (isinstance(x, np.ndarray) and x.shape == (1, self.m)):
            raise Violation('row', 'the simulation was called with {} instead of a 1-by-{} row'.format(
                np.shape(x), self.m))
        if self.raised is not None:
            self.after += 1
            raise Violation('after-failure', 'a simulation was started after one had failed')
        k = len(self.calls)
        b = self.beh
        xin = np.array(x, dtype=float).ravel().copy()
        if self.hook is not None:
            self.hook(self, k, x)
        if b.get('fail') == k:
            self.raised = simulated_failure(b.get('exc'))
            self.calls.append((xin, None))
            if self.w is not None:
                self.w.fired['simulation:' + b.get('exc', 'exc')] += 1
            raise self.raised
        y = self.fun(xin)
        if b.get('state'):
            y = y + 0.5 * k
        for j, v in b.get('nan', []):
            if j == k:
                y = (y * 0 + float(v)) if self.grad else float(v)
                if self.w is not None:
                    self.w.fired['simulation:' + v] += 1
        self.calls.append((xin, np.array(y, dtype=float).copy()))
        if b.get('draw'):
            np.random.normal(size=3)
        if b.get('mutate'):
            try:
                x[...] = 1e9
            except ValueError:
                pass
        r = b.get('ret')
        if self.grad:
            y = np.asarray(y, dtype=float)
            return y.reshape({'row': (1, self.m), 'col': (self.m, 1), None: (1, self.m), 'flat': (self.m,)}[r])
        if r == 'arr':
            return np.array([[y]])
        if r == 'vec':
            return np.array([y])
        if r == '0d':
            return np.array(y)
        if r == 'np':
            return np.float64(y)
        return float(y)

    def X(self):
        return np.array([c[0] for c in self.calls]).reshape((len(self.calls), self.m))

    def F(self):
        return np.array([np.nan if c[1] is None else c[1] for c in self.calls]).reshape((len(self.calls), 1))


def function(spec, m):
    return gens.function(spec, m)


FUNS = ['quad', 'quad', 'lin', 'const', 'ridge', 'exp']
RETS = [None, 'arr', 'vec', '0d', 'np']
