"""Read-only and stand-alone operations of the library as data, on top of graph.Graph."""
import numpy as np

from . import gens, graph, seams
from .user import Sim
from .world import attempt

READS = ['forward', 'inverse', 'predict', 'predict_av', 'gradient', 'call', 'poly', 'rbf', 'quad', 'avquad', 'integrate',
         'av_integrate', 'design', 'minimize', 'av_minimize', 'mvm', 'maximin', 'llg', 'fd', 'run', 'grun', 'lp_eq', 'lp_ineq', 'qp_bnd',
         'qp_ineq', 'gauss', 'norm']
DRAWS = {'inverse', 'quad', 'avquad', 'integrate', 'av_integrate', 'design', 'llg'}      # draw from the global stream
NOSTATE = ['maximin', 'llg', 'fd', 'run', 'grun', 'lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq', 'gauss', 'norm']


def op(rng, g, what=None, heavy=True):
    d = g['dom']
    m, n = d['m'], d['n']
    big = d['bounded'] and n > 1
    what = what or rng.choice(READS)
    if not heavy and big and what in ('quad', 'avquad', 'integrate', 'av_integrate', 'design', 'minimize', 'av_minimize'):
        what = rng.choice(['forward', 'predict', 'gradient', 'run', 'lp_eq', 'inverse', 'mvm'])
    o = {'read': what, 's': rng.randrange(1 << 30)}
    if what in ('forward', 'predict', 'gradient', 'call', 'predict_av', 'poly', 'rbf', 'norm', 'mvm'):
        o['M'] = rng.choice([1, 2, 3, 7]) if rng.random() < 0.95 else rng.choice([40, 120, 600])
    if what in ('poly', 'rbf'):
        o['dim'] = rng.choice([1, 2, 3])
    if what == 'mvm':
        o['M'] = rng.choice([1, 2])
    if what == 'inverse':
        o.update(M=rng.choice([1, 2, 3]), N=rng.choice([1, 2, 5]), far=rng.random() < 0.3)
    if what in ('quad', 'avquad', 'integrate', 'av_integrate', 'design'):
        o['N'] = rng.choice([1, 2, 3]) if big else rng.choice([1, 3, 4, 7, 9])
        o['NMC'] = rng.choice([1, 2]) if big else rng.choice([1, 2, 5])
        o['f'] = rng.choice(['quad', 'lin', 'exp'])
        o['runner'] = rng.choice([True, True, 'derived']) if rng.random() < 0.3 else False
        o['surface'] = rng.random() < 0.4
    if what == 'maximin':
        o.update(n=2, K=rng.choice([3, 4, 6]), N=rng.choice([1, 2, 3]))
    if what in ('llg', 'fd', 'run', 'grun'):
        o.update(m=rng.choice([2, 3]), M=rng.choice([6, 8, 12]), f=rng.choice(['quad', 'lin', 'ridge']), p=rng.random() < 0.3)
    if what in ('lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq'):
        o.update(m=rng.choice([1, 2, 3, 4]), solver=rng.choice(['GUROBI', 'SCIPY']))
    if what == 'gauss':
        o.update(NN=[rng.choice([1, 2, 3, 6]) for _ in range(rng.choice([1, 2]))], leg=rng.random() < 0.5)
    return o


def call(G, o, hook=None, hold=None, world=None, objs=None, beh=None):
    """The library call of a read operation on graph G, or None where it does not apply. `objs` shares runners and solvers."""
    lib, what = G.lib, o['read']
    hold = {} if hold is None else hold
    L = hold.pop('layout', None) or (lambda a: a)
    objs = {} if objs is None else objs
    r = gens.RS(o['s'])
    m = G.m
    W1 = G.ss.W1
    n = W1.shape[1]

    def sim(mm, grad=False):
        f, df = gens.function({'s': o['s'], 'f': o.get('f', 'quad')}, mm)
        s = Sim(df if grad else f, mm, beh or {}, grad=grad, world=world, hook=hook)
        hold.setdefault('sims', []).append(s)
        return s
    if what in ('forward', 'predict', 'gradient', 'call'):
        X = hold['X'] = L(r.uniform(-0.8, 0.8, (o['M'], m)))
        fn = {'forward': G.avm.forward, 'gradient': G.asrs.gradient, 'call': G.asrs}.get(what)
        return (lambda: G.asrs.predict(X, compgrad=True)) if what == 'predict' else (lambda: fn(X))
    if what in ('predict_av', 'inverse', 'mvm'):
        if n >= m and what != 'predict_av':
            return None
        Y = hold['Y'] = L((0.7 * r.uniform(-1, 1, (o['M'], m))).dot(W1))
        if what == 'predict_av':
            return lambda: (G.asrs.predict_av(Y, compgrad=True), G.asrs.gradient_av(Y))
        if what == 'inverse':
            if o.get('far'):            # close to the corners of the domain, where few draws are accepted
                Y = hold['Y'] = L((0.97 * np.sign(np.array(Y).dot(W1.T))).dot(W1))
            return lambda: G.avm.inverse(Y, o['N'])
        return lambda: G.mvm.inverse(Y)
    if what in ('poly', 'rbf'):
        X = hold['X'] = L(r.uniform(-1, 1, (o['M'], o['dim'])))
        return lambda: getattr(G, what).predict(X, compgrad=True)
    if what in ('quad', 'avquad', 'integrate', 'av_integrate', 'design', 'minimize', 'av_minimize'):
        if n >= m or n > 2 or (G.dom.vertY is not None and G.dom.n != n):
            return None
        if what == 'quad':
            return lambda: lib.integrals.quadrature_rule(G.avm, o['N'], NMC=o['NMC'])
        if what == 'avquad':
            return lambda: lib.integrals.av_quadrature_rule(G.avm, o['N'])
        if what == 'design':
            return lambda: lib.av_design(G.avm, o['N'], NMC=o['NMC'])
        if what == 'integrate':
            s = sim(m)
            fn = lib.runner(s, o['runner']) if o['runner'] else s
            return lambda: lib.integrals.integrate(fn, G.avm, o['N'], NMC=o['NMC'])
        if what == 'av_integrate':
            if o['surface']:
                return lambda: lib.integrals.av_integrate(G.asrs, G.avm, o['N'])
            s = sim(n)
            return lambda: lib.integrals.av_integrate(s, G.avm, o['N'])
        if what == 'minimize':
            if not G.g['dom']['bounded']:
                return None
            p = n + 2 if m - n > 2 else n + 1
            X = hold['X'] = L(r.uniform(-1, 1, (graph.ncoef(2, p) + 4, m)))
            F = hold['f'] = L(np.array([[float(np.sum((x - 0.1) ** 2) + 0.3 * x[0])] for x in X]))
            return lambda: lib.minimize(G.asrs, X, F)
        c = 0.2 * r.uniform(-1, 1, n)

        def f(y):
            if hook is not None:
                hook(None, 0, y)
            y = np.atleast_1d(y).ravel()
            return float(np.sum((y - c) ** 2) + 0.1 * np.sum(y ** 4)) + 1.0

        def df(y):
            y = np.atleast_1d(y).ravel()
            return 2 * (y - c) + 0.4 * y ** 3
        return lambda: lib.av_minimize(f, G.dom, avdfun=df if o['s'] % 2 else None)
    if what == 'maximin':
        P = r.normal(size=(o['K'], o['n']))
        V = hold['vert'] = L(P[seams.ORIG['ConvexHull'](P).vertices].copy())
        return lambda: lib.designs.maximin_design(V, o['N'])
    if what in ('llg', 'fd', 'run', 'grun'):
        X = hold['X'] = L(r.uniform(-1, 1, (o['M'], o['m'])))
        if what == 'llg':
            f = gens.function({'s': o['s'], 'f': o['f']}, o['m'])[0]
            F = hold['f'] = L(np.array([[float(f(x))] for x in X]))
            return lambda: lib.local_linear_gradients(X, F, p=o['m'] + 2 if o['p'] else None)
        if what == 'fd':
            s = sim(o['m'])
            return lambda: lib.finite_difference_gradients(X, s, h=1e-3)
        key = (what, o['m'])
        if key not in objs:
            s = sim(o['m'], what == 'grun')
            objs[key] = (lib.SimulationGradientRunner if what == 'grun' else lib.SimulationRunner)(s)
        R = objs[key]
        return lambda: R.run(X)
    if what in ('lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq'):
        k = o['m']
        qps = objs.setdefault(('qp', o['solver']), lib.QPSolver(o['solver']))
        c = hold['c'] = L(r.normal(size=(k, 1)))
        A = r.normal(size=(k, k))
        Q = L(A.dot(A.T) + 0.5 * np.eye(k))
        one = np.ones((k, 1))
        if what == 'lp_eq':
            A1 = hold['A'] = L(r.normal(size=(1, k)))
            b = hold['b'] = L(A1.dot(0.5 * r.uniform(-1, 1, (k, 1))))
            lb, ub = hold['lb'], hold['ub'] = L(-one), L(one.copy())
            return lambda: qps.linear_program_eq(c, A1, b, lb, ub)
        if what == 'qp_bnd':
            hold['Q'] = Q
            lb, ub = hold['lb'], hold['ub'] = L(-one), L(one.copy())
            return lambda: qps.quadratic_program_bnd(c, Q, lb, ub)
        A2 = hold['A'] = L(np.vstack((np.eye(k), -np.eye(k))))
        b = hold['b'] = L(-np.ones((2 * k, 1)))
        if what == 'lp_ineq':
            return lambda: qps.linear_program_ineq(c, A2, b)
        hold['Q'] = Q
        return lambda: qps.quadratic_program_ineq(c, Q, A2, b)
    if what == 'gauss':
        return lambda: (lib.quadrature.gauss_legendre if o['leg'] else lib.quadrature.gauss_hermite)(o['NN'])
    if what == 'norm':
        X = hold['X'] = L(r.uniform(-1, 1, (o['M'], 3)))
        lb, ub = hold['lb'], hold['ub'] = L(r.uniform(-2, -1, (3, 1))), L(r.uniform(1, 2, (3, 1)))
        key = ('norm', o['s'] % 5)
        return lambda: (lambda N: (N.normalize(X), N.unnormalize(X)))(lib.BoundedNormalizer(lb, ub))
    raise KeyError(what)


def flat(v):
    """All numbers of a result, as a list of arrays."""
    if v is None:
        return []
    if isinstance(v, (tuple, list)):
        return [a for x in v for a in flat(x)]
    return [np.array(v, dtype=float, copy=True)]


def outcome(o):
    return ('ok', flat(o.value)) if o.ok else ('exc', type(o.exc).__name__)


def draws_uniquely(o):
    return o['read'] not in DRAWS
