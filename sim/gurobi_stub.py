"""A simulated gurobipy: the part of its interface the library uses, over an own small solver.

Faults come from the world: category 'gurobi' is hit at Model.optimize().
"""
import types

import numpy as np

from . import seams


class GurobiError(Exception):
    def __init__(self, errno=0, message=''):
        Exception.__init__(self, message)
        self.errno, self.message = errno, message


class GRB:
    CONTINUOUS, BINARY, INTEGER = 'C', 'B', 'I'
    EQUAL, GREATER_EQUAL, LESS_EQUAL = '=', '>', '<'
    INFINITY = 1e100
    MINIMIZE, MAXIMIZE = 1, -1
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 1, 2, 3, 4, 5
    CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT = 6, 7, 8, 9, 10
    INTERRUPTED, NUMERIC, SUBOPTIMAL = 11, 12, 13

    class Status:
        LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 1, 2, 3, 4, 5
        ITERATION_LIMIT, TIME_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = 7, 9, 11, 12, 13

    class Error:
        OUT_OF_MEMORY = 10001
        Q_NOT_PSD = 10020


STATUS_FAULTS = {'infeasible': 3, 'inf_or_unbd': 4, 'unbounded': 5, 'iteration': 7, 'time': 9,
                 'interrupted': 11, 'numeric': 12, 'suboptimal': 13}


class _NoPickle:
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __reduce_ex__(self, *a):
        raise TypeError('no default __reduce__ due to non-trivial __cinit__')


def _expr(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, Var):
        return Expr({x.index: 1.0}, {}, 0.0)
    return Expr({}, {}, float(x))


class _Ops(_NoPickle):
    def __add__(self, o):
        return _expr(self)._plus(_expr(o), 1.0)
    __radd__ = __add__

    def __iadd__(self, o):
        return _expr(self)._plus(_expr(o), 1.0)

    def __sub__(self, o):
        return _expr(self)._plus(_expr(o), -1.0)

    def __rsub__(self, o):
        return _expr(o)._plus(_expr(self), -1.0)

    def __neg__(self):
        return _expr(self)._times(-1.0)

    def __mul__(self, o):
        if isinstance(o, (Var, Expr)):
            return _expr(self)._product(_expr(o))
        return _expr(self)._times(float(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return _expr(self)._times(1.0 / float(o))

    def __le__(self, o):
        return TempConstr(_expr(self)._plus(_expr(o), -1.0), '<')

    def __ge__(self, o):
        return TempConstr(_expr(self)._plus(_expr(o), -1.0), '>')

    def __eq__(self, o):
        return TempConstr(_expr(self)._plus(_expr(o), -1.0), '=')

    __hash__ = object.__hash__


class Expr(_Ops):
    def __init__(self, lin=None, quad=None, const=0.0):
        if isinstance(lin, (Var, Expr)):
            e = _expr(lin)
            lin, quad, const = dict(e.lin), dict(e.quad), e.const
        elif isinstance(lin, (int, float)):
            lin, const = {}, float(lin)
        self.lin, self.quad, self.const = dict(lin or {}), dict(quad or {}), const

    def _plus(self, o, s):
        lin, quad = dict(self.lin), dict(self.quad)
        for k, v in o.lin.items():
            lin[k] = lin.get(k, 0.0) + s * v
        for k, v in o.quad.items():
            quad[k] = quad.get(k, 0.0) + s * v
        return Expr(lin, quad, self.const + s * o.const)

    def _times(self, s):
        return Expr({k: s * v for k, v in self.lin.items()}, {k: s * v for k, v in self.quad.items()}, s * self.const)

    def _product(self, o):
        if self.quad or o.quad:
            raise GurobiError(0, 'Invalid argument to QuadExpr multiplication')
        quad, lin = {}, {}
        for i, a in self.lin.items():
            for j, b in o.lin.items():
                key = (i, j) if i <= j else (j, i)
                quad[key] = quad.get(key, 0.0) + a * b
            lin[i] = lin.get(i, 0.0) + a * o.const
        for j, b in o.lin.items():
            lin[j] = lin.get(j, 0.0) + b * self.const
        return Expr(lin, quad, self.const * o.const)

    def add(self, o, mult=1.0):
        e = self._plus(_expr(o), mult)
        self.lin, self.quad, self.const = e.lin, e.quad, e.const

    def addTerms(self, coeffs, v1, v2=None):
        if not isinstance(v1, (list, tuple)):
            coeffs, v1 = [coeffs], [v1]
            v2 = [v2] if v2 is not None else None
        for i, c in enumerate(coeffs):
            self.add(v1[i] * c if v2 is None else (v1[i] * v2[i]) * c)

    addConstant = lambda self, c: self.add(c)


class Var(_Ops):
    def __init__(self, model, index, lb, ub):
        self.model, self.index, self.lb, self.ub = model, index, lb, ub
        self.LB, self.UB = lb, ub

    def getAttr(self, name):
        if name.lower() == 'x':
            return self.x
        raise AttributeError(name)

    @property
    def x(self):
        return self.model._value(self)
    X = x


class TempConstr(_NoPickle):
    def __init__(self, expr, sense):
        self.expr, self.sense = expr, sense


class Model(_NoPickle):
    def __init__(self, name='', env=None):
        self.vars, self.cons, self.obj = [], [], Expr()
        self.status = self.Status = GRB.LOADED
        self.sol = None
        self.sense = 1
        w = seams.CUR
        if w is not None:
            f = w.hit('gurobi-env')
            if f is not None:
                raise GurobiError(10009, 'injected: No Gurobi license found')

    def setParam(self, name, value):
        pass

    def update(self):
        pass

    def dispose(self):
        pass

    def addVar(self, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype='C', name='', column=None):
        v = Var(self, len(self.vars), float(lb), float(ub))
        self.vars.append(v)
        if obj:
            self.obj.add(v, obj)
        return v

    def addVars(self, n, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype='C', name=''):
        pick = lambda b, i: float(b[i]) if hasattr(b, '__getitem__') else float(b)
        return {i: self.addVar(pick(lb, i), pick(ub, i)) for i in range(n)}

    def addConstr(self, lhs, sense=None, rhs=None, name=''):
        if isinstance(lhs, TempConstr):
            self.cons.append((lhs.expr, lhs.sense, 0.0))
            return
        e = _expr(lhs)._plus(_expr(rhs), -1.0)
        sense = {'<=': '<', '>=': '>', '==': '='}.get(sense, sense)
        self.cons.append((e, sense, 0.0))

    def setObjective(self, expr, sense=None):
        self.obj = _expr(expr)
        if sense is not None:
            self.sense = sense

    def getVars(self):
        return list(self.vars)

    def getAttr(self, name, objs=None):
        if name.lower() == 'status':
            return self.status
        if objs is None:
            if name.lower() in ('objval',):
                return self._objval()
            raise AttributeError(name)
        if name.lower() == 'x':
            return [self._value(v) for v in (objs.values() if isinstance(objs, dict) else objs)]
        raise AttributeError(name)

    @property
    def objVal(self):
        return self._objval()
    ObjVal = objVal

    def _objval(self):
        if self.sol is None:
            raise AttributeError("Unable to retrieve attribute 'objVal'")
        x, e = self.sol, self.obj
        return e.const + sum(v * x[k] for k, v in e.lin.items()) + sum(v * x[i] * x[j] for (i, j), v in e.quad.items())

    def _value(self, v):
        if self.sol is None:
            raise GurobiError(10005, "Unable to retrieve attribute 'x'")
        return float(self.sol[v.index])

    def optimize(self, callback=None):
        w = seams.CUR
        f = None
        if w is not None:
            w.note('gurobi')
            f = w.hit('gurobi')
            if f is not None:
                w.ev('fault', 'gurobi', f.kind)
        if f is not None and f.kind in ('GurobiError', 'MemoryError', 'Interrupt', 'ValueError'):
            if f.kind == 'GurobiError':
                f.exc = GurobiError(10001, 'injected: Out of memory')
            else:
                from .world import _exc
                f.exc = _exc(f.kind)
            raise f.exc
        n = len(self.vars)
        lb = np.array([v.lb for v in self.vars])
        ub = np.array([v.ub for v in self.vars])
        c = np.zeros(n)
        for k, v in self.obj.lin.items():
            c[k] = v
        Q = np.zeros((n, n))
        for (i, j), v in self.obj.quad.items():
            Q[i, j] += 0.5 * v
            Q[j, i] += 0.5 * v
        if self.sense == -1:
            c, Q = -c, -Q
        rows, rhs, eq = [], [], []
        for e, s, _ in self.cons:
            r = np.zeros(n)
            for k, v in e.lin.items():
                r[k] = v
            b = -e.const
            if s == '<':
                r, b = -r, -b
            rows.append(r)
            rhs.append(b)
            eq.append(s == '=')
        status, x = solve(c, Q, np.array(rows).reshape((-1, n)), np.array(rhs), np.array(eq, dtype=bool), lb, ub)
        if f is not None and f.kind in STATUS_FAULTS:
            self.status = STATUS_FAULTS[f.kind]
            # a sub-optimal or interrupted run leaves an incumbent that is worthless
            self.sol = np.zeros(n) if f.kind in ('suboptimal', 'iteration', 'time', 'interrupted') else None
        else:
            self.status, self.sol = status, x
        self.Status = self.status
        if w is not None and w.recording is not None and seams.from_lib():
            w.recording.append(('solver', 'gurobi', (), {}, types.SimpleNamespace(success=self.status == GRB.OPTIMAL, x=self.sol)))


def solve(c, Q, A, b, eq, lb, ub):
    """min c'x + x'Qx, A x >= b (or = b), lb <= x <= ub."""
    linprog = seams.ORIG['linprog']
    n = c.size
    big = 1e99
    bounds = [(None if l <= -big else l, None if u >= big else u) for l, u in zip(lb, ub)]
    if not np.any(Q):
        kw = {}
        if np.any(~eq):
            kw['A_ub'], kw['b_ub'] = -A[~eq], -b[~eq]
        if np.any(eq):
            kw['A_eq'], kw['b_eq'] = A[eq], b[eq]
        r = linprog(c, bounds=bounds, method='highs', **kw)
        if r.status == 0:
            return GRB.OPTIMAL, r.x
        return {2: GRB.INFEASIBLE, 3: GRB.UNBOUNDED, 4: GRB.INF_OR_UNBD}.get(r.status, GRB.NUMERIC), None
    ev = np.linalg.eigvalsh(0.5 * (Q + Q.T))
    if ev[0] < -1e-8 * max(1.0, ev[-1]):
        raise GurobiError(GRB.Error.Q_NOT_PSD, 'Q matrix is not positive semi-definite (PSD)')
    rows, rhs = [], []
    for i in range(n):
        if lb[i] > -big:
            r = np.zeros(n)
            r[i] = 1.0
            rows.append(r)
            rhs.append(lb[i])
        if ub[i] < big:
            r = np.zeros(n)
            r[i] = -1.0
            rows.append(r)
            rhs.append(-ub[i])
    for r, v, e in zip(A, b, eq):
        rows.append(r)
        rhs.append(v)
        if e:
            rows.append(-r)
            rhs.append(-v)
    G, h = np.array(rows).reshape((-1, n)), np.array(rhs)
    from . import ref
    st, x = ref.convex_qp(c, Q, G, h)
    return {'optimal': GRB.OPTIMAL, 'infeasible': GRB.INFEASIBLE, 'unbounded': GRB.INF_OR_UNBD,
            'numeric': GRB.NUMERIC}[st], x


def module():
    m = types.ModuleType('gurobipy')
    m.GRB, m.Model, m.Var, m.GurobiError = GRB, Model, Var, GurobiError
    m.LinExpr = m.QuadExpr = Expr
    m.quicksum = lambda xs: sum(xs, Expr())
    m.__sim__ = True
    return m
