"""C24: invalid calls are refused with an exception and have no effect."""
import os

import numpy as np

from .. import gens, graph, seams
from ..user import Sim
from ..world import attempt, need, Armed

RULE = ('A run builds a graph of objects twice, takes both through the same seeded history of operations (some struck by a failure or interrupt), and puts two to eight '
        'invalid calls (wrong types of counts, maps, domains, subspaces and functions, missing, mismatched or misshapen data, '
        'too few points, unknown names) before, between and after them on one of the two. Non-trivial: an invalid call was '
        'checked; distinct by the invalid calls, the history and the sizes.')
REAL = ['active_subspaces (all modules except the plotters)', 'numpy', 'SciPy solvers']
STUB = ['random outcomes', 'the simulation', 'failures at external calls']
ASSUMPTIONS = ['invalid means: what the documentation excludes and the list of this module contains']

NOTINT = [2.0, 2.5, '3', None, (2,), 1.5, 3 + 0j, b'2', float('nan')]


class Other:
    """Looks like a map, a domain or a subspace, but is none."""
    def __init__(self, of):
        self._of = of

    def __getattr__(self, k):
        return getattr(self.__dict__['_of'], k)


def catalogue(lib, G, r, sim):
    """name: (call, whether nothing may be drawn, arrays handed over)."""
    m, n = G.m, G.ss.W1.shape[1]
    c = {}

    def add(name, fn, early=True, *arrays):
        assert name not in c
        c[name] = (fn, early, arrays)

    def pick(L):
        return L[r.randint(len(L))]
    bad = pick(NOTINT)
    X = r.uniform(-1, 1, (n + m + 8, m))
    f = X[:, :1] ** 2 + X[:, -1:]
    df = r.normal(size=X.shape)
    fbad = pick([f[:-1], f[:-1], f[:1], f[:5], np.vstack((f, f[:1])), np.vstack((f, f)), np.vstack((f[:1], f))])
    Y = X[:3].dot(G.ss.W1)
    M = len(X)
    ss, dom, avm = G.ss, G.dom, G.avm
    notmap = pick([None, dom, 'map', ss, Other(avm), 3])
    notss = pick([None, dom, 'ss', Other(ss), ss.eigenvecs])
    fn = pick([sim, lib.SimulationRunner(sim)])
    # subspaces
    add('compute()', lambda: ss.compute())
    add('compute(f)', lambda: ss.compute(f=f), True, f)
    add('compute(AS without df)', lambda: ss.compute(X=X, f=f, sstype='AS'), True, X, f)
    for t in ('OLS', 'QPHD', 'OPG'):
        add('compute({} without f)'.format(t), lambda t=t: ss.compute(X=X, sstype=t), True, X)
        add('compute({} without X)'.format(t), lambda t=t: ss.compute(df=df, f=f, sstype=t), True, df, f)
        add('compute({} mismatch)'.format(t), lambda t=t: ss.compute(X=X, f=fbad, sstype=t), False, X, f)
    add('compute(sstype)', lambda t=pick(['PCA', 'as', '', 0, None, 'QPHD ']): ss.compute(X=X, f=f, df=df, sstype=t), True, X, f, df)
    add('compute(ptype)', lambda t=pick(['best', 'evg', '', 1, None]), k=pick([0, 0, 3]): ss.compute(df=df, ptype=t, nboot=k), False, df)
    add('compute(RS without bootstrap)', lambda: ss.compute(df=df, ptype='RS'), True, df)
    add('compute(LI without bootstrap)', lambda: ss.compute(df=df, ptype='LI', nboot=0), True, df)
    add('compute(df 1d)', lambda: ss.compute(df=df[:, 0].copy()), True, df)
    add('compute(X 1d)', lambda: ss.compute(X=X[:, 0].copy(), f=f, sstype='OLS'), True, X, f)
    add('compute(weights)', lambda w=np.ones((pick([M + 1, M - 1, 2 * M, 2]), 1)): ss.compute(df=df, weights=w), True, df)
    add('partition(type)', lambda b=pick(NOTINT): ss.partition(b))
    add('partition(range)', lambda b=pick([0, -1, m + 1, m + 5]): ss.partition(b))
    add('partition(uncomputed)', lambda: lib.Subspaces().partition(1))
    # domains and maps
    add('UnboundedDomain(type)', lambda: lib.UnboundedActiveVariableDomain(notss))
    add('BoundedDomain(type)', lambda: lib.BoundedActiveVariableDomain(notss))
    add('UnboundedDomain(uncomputed)', lambda: lib.UnboundedActiveVariableDomain(lib.Subspaces()))
    add('BoundedDomain(uncomputed)', lambda: lib.BoundedActiveVariableDomain(lib.Subspaces()))
    add('inverse(N)', lambda b=pick(NOTINT): avm.inverse(Y, b), True, Y)
    add('inverse(Y 1d)', lambda: avm.inverse(Y.ravel(), 2), True, Y)
    add('forward(X 1d)', lambda: avm.forward(X.ravel()), True, X)
    add('forward(columns)', lambda: avm.forward(np.hstack((X, X[:, :1]))), True, X)
    add('inverse(Y columns)', lambda: avm.inverse(np.hstack((Y, Y[:, :1])), 2), False, Y)
    add('surface.predict(columns)', lambda: G.asrs.predict(np.hstack((X, X[:, :1]))), True, X)
    add('surface.predict(1d)', lambda: G.asrs.predict(X[0]), True, X)
    add('surface.predict(untrained)', lambda: G.new_asrs(avm).predict(X), True, X)
    add('sample_z(N)', lambda b=pick(NOTINT): lib.domains.sample_z(b, Y[0].reshape((n, 1)), ss.W1, ss.W2), True, Y)
    add('nzv(m)', lambda b=pick(NOTINT): lib.domains.nzv(b, 2))
    add('nzv(n)', lambda b=pick(NOTINT): lib.domains.nzv(4, b))
    # gradients
    add('gradients(few)', lambda: lib.local_linear_gradients(X[:m], f[:m]), True, X, f)
    add('gradients(p type)', lambda b=pick([x for x in NOTINT if x is not None]): lib.local_linear_gradients(X, f, p=b), True, X, f)
    add('gradients(p range)', lambda b=pick([m, 1, M + 1, -2]): lib.local_linear_gradients(X, f, p=b), True, X, f)
    add('gradients(mismatch)', lambda: lib.local_linear_gradients(X, fbad), True, X, f)
    add('gradients(f columns)', lambda: lib.local_linear_gradients(X, np.hstack((f, f))), False, X, f)
    add('differences(X 1d)', lambda: lib.finite_difference_gradients(X.ravel(), fn), True, X)
    add('differences(function)', lambda: lib.finite_difference_gradients(X, pick(['fun', None, 3])), True, X)
    # simulations
    add('runner(function)', lambda b=pick(['fun', None, 3, [sim]]): lib.SimulationRunner(b))
    add('gradient runner(function)', lambda b=pick(['fun', None, 3, [sim]]): lib.SimulationGradientRunner(b))
    add('run(X 1d)', lambda: lib.SimulationRunner(sim).run(X[0]), True, X)
    add('gradient run(X 1d)', lambda: lib.SimulationGradientRunner(sim).run(X[0]), True, X)
    add('run(X 3d)', lambda: lib.SimulationRunner(sim).run(X.reshape((1,) + X.shape)), True, X)
    # integrals
    i = lib.integrals
    add('integrate(map)', lambda: i.integrate(fn, notmap, 4))
    add('integrate(N)', lambda b=pick(NOTINT): i.integrate(fn, avm, b))
    add('integrate(NMC)', lambda b=pick(NOTINT): i.integrate(fn, avm, 4, NMC=b))
    add('integrate(function)', lambda b=pick(['fun', None, 3]): i.integrate(b, avm, 4, NMC=2), False)
    add('av_integrate(map)', lambda: i.av_integrate(sim, notmap, 4))
    add('av_integrate(N)', lambda b=pick(NOTINT): i.av_integrate(sim, avm, b))
    add('rule(map)', lambda: i.quadrature_rule(notmap, 4))
    add('rule(N)', lambda b=pick(NOTINT): i.quadrature_rule(avm, b))
    add('rule(NMC)', lambda b=pick(NOTINT): i.quadrature_rule(avm, 4, NMC=b))
    # surfaces
    add('surface(map)', lambda: lib.ActiveSubspaceResponseSurface(notmap))
    add('design(map)', lambda: lib.av_design(notmap, 4))
    add('design(N)', lambda b=pick(NOTINT): lib.av_design(avm, b))
    add('design(NMC)', lambda b=pick(NOTINT): lib.av_design(avm, 4, NMC=b))
    add('train_with_interface(N)', lambda b=pick(NOTINT): G.asrs.train_with_interface(fn, b))
    add('train_with_interface(NMC)', lambda b=pick(NOTINT): G.asrs.train_with_interface(fn, 4, NMC=b))
    add('train_with_interface(function)', lambda b=pick(['fun', None, 3]): G.asrs.train_with_interface(b, 3, NMC=2), False)
    add('train_with_data(mismatch)', lambda: G.asrs.train_with_data(X, fbad), True, X, f)
    add('train_with_data(f 1d)', lambda: G.asrs.train_with_data(X, f.ravel()), True, X, f)
    add('train_with_data(f columns)', lambda: G.asrs.train_with_data(X, np.hstack((f, f))), True, X, f)
    add('train_with_data(X columns)', lambda: G.asrs.train_with_data(np.hstack((X, X)), f), True, X, f)
    add('train_with_data(few)', lambda: G.asrs.train_with_data(X[:1], f[:1]), True, X, f)
    for name, s in (('poly', G.poly), ('rbf', G.rbf)):
        p = graph.ncoef(s.N, m)
        if p > 1:
            k = min(p - 1, M)
            add(name + '.train(few)', lambda s=s, k=k: s.train(X[:k], f[:k]), True, X, f)
        add(name + '.train(mismatch)', lambda s=s: s.train(X, fbad), True, X, f)
        add(name + '.train(f columns)', lambda s=s: s.train(X, np.hstack((f, f))), True, X, f)
        add(name + '.train(X 1d)', lambda s=s: s.train(X.ravel(), f), True, X, f)
        add(name + '.train(f 1d)', lambda s=s: s.train(X, f.ravel()), True, X, f)
        add(name + '.predict(1d)', lambda s=s: s.predict(X[0]), True, X)
        add(name + '.predict(untrained)', lambda s=s: type(s)(s.N).predict(X), True, X)
    # optimizers
    add('mvm.train(mismatch)', lambda: G.mvm.train(X, fbad), True, X, f)
    add('mvm.train(X 1d)', lambda: G.mvm.train(X.ravel(), f), True, X, f)
    add('mvm.train(f columns)', lambda: G.mvm.train(X, np.hstack((f, f))), True, X, f)
    add('mvm.inverse(untrained)', lambda: type(G.mvm)(dom).inverse(Y), True, Y)
    if n < m:
        add('mvm.inverse(N=2)', lambda b=pick([2, 3, 10]): G.mvm.inverse(Y, b), True, Y)
    add('mvm.inverse(N type)', lambda b=pick(NOTINT): G.mvm.inverse(Y, b), True, Y)
    add('av_minimize(domain)', lambda b=pick([None, 'dom', avm, Other(dom)]): lib.av_minimize(lambda y: float(sim(y)), b))
    add('minimize(mismatch)', lambda: lib.minimize(G.asrs, X, fbad), True, X, f)
    add('minimize(f columns)', lambda: lib.minimize(G.asrs, X, np.hstack((f, f))), True, X, f)
    # rules, designs, data
    q = lib.quadrature
    add('r_hermite(N)', lambda b=pick(NOTINT): q.r_hermite(b))
    add('r_hermite(range)', lambda b=pick([0, -1]): q.r_hermite(b))
    add('r_jacobi(N)', lambda b=pick(NOTINT): q.r_jacobi(b, -1, 1, 0, 0))
    add('r_jacobi(range)', lambda b=pick([(0, 0, 0), (-2, 0, 0), (0, 1, 2)]): q.r_jacobi(b[0], -1, 1, b[1], b[2]))
    add('jacobi_matrix(1d)', lambda: q.jacobi_matrix(X[:, 0]), True, X)
    add('jacobi_matrix(columns)', lambda: q.jacobi_matrix(np.ones((4, 3))))
    add('g1d(type)', lambda b=pick(['Laguerre', 'hermite', None, 1]): q.g1d(3, b))
    for k, g in (('gauss_hermite', q.gauss_hermite), ('gauss_legendre', q.gauss_legendre)):
        add(k + '(N)', lambda g=g, b=pick([3.0, 'N', (2, 2), None, np.array([2, 2])]): g(b))
        add(k + '(N type)', lambda g=g, b=pick([2.5, '3', None]): g([2, b]))
    return c


def gen(rng, i, tier):
    g = graph.spec(rng)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        for _ in range(rng.choice([0, 1, 1, 2])):
            o = graph.op(rng, g)
            o.pop('bad', None)
            if o['op'] == 'partition':
                o['n'] = rng.choice([1, 1, 2, g['dom']['m']])
                o['n'] = min(o['n'], g['dom']['m'])
            if rng.random() < 0.3:
                o['fault'] = {'cat': rng.choice(['linalg', 'alloc', 'solver', 'rng']), 'k': rng.choice([0, 0, 1, 2, 5, 20]),
                              'kind': rng.choice(['MemoryError', 'Interrupt'])}
            ops.append(o)
        for _ in range(rng.choice([1, 2, 3])):
            ops.append({'refuse': [rng.randrange(1 << 30) for _ in range(4)], 's': rng.randrange(1 << 30), 'ret': rng.choice(['array', 'float'])})
    return {'g': g, 'ops': ops}


def listing(d='.'):
    return sorted(os.listdir(d))


def run(plan, ctx):
    from .. import lib
    w = ctx.world(quiet=True)
    A, B = graph.Graph(lib, plan['g'], w), graph.Graph(lib, plan['g'], w)
    d = plan['g']['dom']
    ctx.sig(d['kind'], d['m'], d['n'], d['bounded'], plan['g']['surf'])
    refused = False
    for o in plan['ops']:
        if 'refuse' in o:
            sim = Sim(lambda x: float(np.sum(x)), A.m, {}, world=w)
            cat = catalogue(lib, A, gens.RS(o['s']), sim)
            names = sorted(cat)
            for k in o['refuse']:
                name = names[k % len(names)]
                fn, early, arrays = cat[name]
                copies = [a.copy() for a in arrays]
                sa = A.state()
                before = listing()
                seams.ORIG['seed'](o['s'])
                st = state()
                oc = attempt(w, fn)
                ctx.sig(name)
                need(not oc.ok, 'accepted', '{} was accepted: {}', name, str(oc.value)[:100])
                need(isinstance(oc.exc, Exception), 'refusal', '{} ended in {}', name, oc)
                need(not sim.calls, 'simulated', '{}, refused with {}, ran {} simulations', name, oc, len(sim.calls))
                if early:
                    need(state() == st, 'drawn', '{}, refused with {}, moved the random stream', name, oc)
                bad = graph.same_state(sa, A.state())
                need(bad is None, 'changed', '{}, refused with {}, changed {}', name, oc, bad)
                need(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(arrays, copies)), 'arguments', '{} changed its arguments', name)
                need(not early or listing() == before, 'files', '{} left files behind: {}', name, sorted(set(listing()) ^ set(before)))
                ctx.probe('refused calls')
                ctx.interesting = refused = True
            continue
        outs = []
        for G in (A, B):
            call = G.call(dict(o), world=w)
            if call is None:
                break
            fl = o.get('fault')
            w.arm(*([Armed(fl['cat'], fl['k'], fl['kind'])] if fl else []))
            seams.ORIG['seed'](o['rs'])
            outs.append(attempt(w, call))
            w.disarm()
        if len(outs) == 2:
            ctx.sig(o['op'])
            need(outs[0].ok == outs[1].ok, 'differs', 'after refused calls {} gives {}, without them {}', o['op'], *outs)
    if refused:
        a, b = A.answers(w), B.answers(w)
        e = graph.differ(b, a, 1e-11)
        need(e is None, 'differs', 'after refused calls {} {}', *(e or ('', '')))
    ctx.digest(ctx.interesting)


def state():
    s = np.random.get_state(legacy=True)
    return (s[0], s[1].tobytes()) + tuple(s[2:])
