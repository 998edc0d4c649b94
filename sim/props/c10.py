"""C10: integrals are weighted averages of the simulated outputs."""
import itertools

import numpy as np

from .. import gens, doms, seams
from ..user import Sim, FUNS, RETS, EXCEPTIONS
from ..world import attempt, must, need, make_draws, Armed

RULE = ('A run computes one or two quadrature rules or integrals (on the active variables, on the inputs, of a function of '
        'either, of a trained surface) on a simulated domain, under ordinary or adversarial draws, with failing or '
        'misbehaving simulations and failing solvers in some runs. Non-trivial: a rule or an integral was checked, or an '
        'injected failure surfaced; distinct by domain, N, NMC, operation, draw policy, behaviour and fault.')
REAL = ['active_subspaces.integrals', 'active_subspaces.domains', 'active_subspaces.utils.designs',
        'active_subspaces.utils.simrunners', 'SciPy Delaunay, SLSQP, HiGHS']
STUB = ['random outcomes', 'the simulation', 'failures of solvers, hulls, draws and the simulation', 'Gurobi (gurobi backend)']
ASSUMPTIONS = ['cell masses are compared with an own Monte Carlo estimate at seven standard deviations, for ordinary draws only',
               'where a rule cannot be repeated from the same seed the integral is only checked against its bounds']


def gen(rng, i, tier):
    what = rng.choice(['avrule', 'avrule', 'rule', 'rule', 'integrate', 'integrate', 'integrate', 'av_integrate', 'surface'])
    d = doms.spec(rng, None, 5, 3)
    if d['bounded'] and d['n'] >= 2 and what not in ('avrule', 'av_integrate'):
        d['m'] = min(d['m'], 4)
        d['n'] = min(d['n'], 2, d['m'] - 1)
    p = {'what': what, 'dom': d, 'rs': rng.randrange(1 << 30), 'NMC': rng.choice([1, 1, 2, 3, 5, 10]),
         'repart': rng.random() < 0.2}
    if not d['bounded']:
        p['N'] = rng.choice([1, 2, 3, 5, 8, 9, 27, 64, 125])
    elif d['n'] == 1:
        p['N'] = rng.choice([1, 2, 3, 4, 7, 10, 20])
    else:
        p['N'] = rng.choice([1, 1, 2, 3, 4])
        p['NMC'] = min(p['NMC'], 3)
    if rng.random() < 0.06:
        p['NMC'] = rng.choice([12, 16, 30])
        if not d['bounded']:
            p['N'] = rng.choice([10, 30, 100, 343]) if d['n'] > 1 else rng.choice([15, 30, 40])
        elif d['n'] == 1:
            p['N'] = rng.choice([30, 50, 100]) if what in ('avrule', 'av_integrate', 'surface') else rng.choice([15, 25])
        else:
            p['N'] = rng.choice([3, 5, 8])
            p['NMC'] = 12 if p['N'] == 3 else 2
    if rng.random() < 0.4:
        p['draws'] = {'kind': rng.choice(['corner', 'scaled-normal', 'cluster', 'sticky', 'positive', 'low-uniform',
                                          'high-uniform', 'mid-uniform']), 'scale': rng.choice([1e3, 1e-3])}
    if what in ('integrate', 'av_integrate'):
        p['f'] = {'s': rng.randrange(1 << 30), 'f': rng.choice(FUNS)}
        b = {'ret': rng.choice(RETS)}
        r = rng.random()
        if r < 0.15:
            b['fail'] = rng.choice([0, 1, 2, 5, 9])
            b['exc'] = rng.choice(['exc', 'Interrupt'] + sorted(EXCEPTIONS))
        elif r < 0.3:
            b['nan'] = [[rng.choice([0, 1, 3, 6]), rng.choice(['nan', 'inf', '-inf'])]]
        elif r < 0.4:
            b['mutate'] = True
        elif r < 0.5:
            b['state'] = True
        p['beh'] = b
        p['runner'] = rng.choice([True, True, 'derived']) if rng.random() < 0.4 else False
    if rng.random() < 0.2:
        p['fault'] = {'cat': rng.choice(['solver', 'lp', 'hull', 'rng', 'alloc']), 'frac': rng.choice([0.0, 0.999, rng.random()]),
                      'kind': rng.choice(['fail', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError'])}
    return p


def mass(cells, W1, seed, T=None, edges=None):
    """Own estimate of the probability of each cell."""
    X = gens.RS(seed).uniform(-1, 1, (60000, W1.shape[0]))
    Y = X.dot(W1)
    if edges is not None:
        return np.histogram(Y[:, 0], bins=edges)[0] / 60000.0
    I = T.find_simplex(Y)
    return np.bincount(I[I >= 0], minlength=cells) / 60000.0


def close_mass(w, p):
    p = np.clip(p, 0, 1)
    tol = 7 * np.sqrt(np.maximum(p * (1 - p), 1e-5) * (1e-4 + 1 / 6e4)) + 1e-3
    return np.abs(w - p) <= tol


def check_av_rule(ctx, d, W1, vert, Y, wt, N, rec, plain, seed):
    n = W1.shape[1]
    need(isinstance(Y, np.ndarray) and Y.ndim == 2 and Y.shape[1] == n and wt.shape == (len(Y), 1), 'shape',
         'nodes {} and weights {}', np.shape(Y), np.shape(wt))
    need(np.isfinite(Y).all() and np.isfinite(wt).all(), 'nonfinite', 'the rule is not finite')
    need((wt >= 0).all(), 'negative', 'a weight is negative: {}', wt.min())
    tot = wt.sum()
    need(tot <= 1 + 1e-9, 'sum', 'the weights sum to {}', tot)
    if not d['bounded']:
        need(abs(tot - 1) < 1e-9, 'sum', 'the weights sum to {}', tot)
        k = int(round(N ** (1.0 / n)))
        while k ** n > N:
            k -= 1
        while (k + 1) ** n <= N:
            k += 1
        from numpy.polynomial.hermite_e import hermegauss
        x, w1 = hermegauss(k)
        w1 = w1 / w1.sum()
        G = np.array(list(itertools.product(x, repeat=n))).reshape((-1, n))
        V = np.array([np.prod(c) for c in itertools.product(w1, repeat=n)])
        need(len(Y) == k ** n, 'count', '{} nodes for N={} in {} dimensions', len(Y), N, n)
        D = np.abs(Y[:, None] - G[None]).max(axis=2)
        j = D.argmin(axis=0)
        need(len(set(j)) == len(G) and (D.min(axis=0) < 1e-7).all(), 'grid', 'the nodes are not the Gauss-Hermite grid')
        need(np.abs(wt[j, 0] - V).max() < 1e-9, 'weights', 'weight {:.4g}, Gauss-Hermite {:.4g}', wt[j, 0].max(), V.max())
        return
    if plain:
        need(abs(tot - 1) < 1e-9, 'sum', 'the weights sum to {}', tot)
    if n == 1:
        b = np.abs(W1).sum()
        edges = np.linspace(-b, b, N + 1)
        need(len(Y) == N and np.abs(Y[:, 0] - 0.5 * (edges[1:] + edges[:-1])).max() < 1e-9 * max(b, 1), 'nodes',
             'the nodes are not the {} cell midpoints: {}', N, Y[:, 0])
        if plain:
            edges[0] -= 1e-9
            edges[-1] += 1e-9
            p = mass(N, W1, seed, edges=edges)
            ok = close_mass(wt[:, 0], p)
            need(ok.all(), 'mass', 'weights {} for cells of mass {}', wt[:, 0], p)
            ctx.probe('cell masses compared')
        return
    h = seams.ORIG['ConvexHull'](vert)
    size = np.abs(vert).max()
    out = (h.equations[:, :n].dot(Y.T) + h.equations[:, n:]).max()
    need(out < 1e-7 * size, 'outside', 'a node is {:.2g} outside the domain', out)
    tri = [r[2][0] for r in rec if r[0] == 'hull' and r[1] == 'Delaunay' and len(r[2])]
    if len(tri) != 1:
        ctx.probe('triangulation not seen')
        return
    P = np.asarray(tri[0], dtype=float)
    D = np.abs(vert[:, None] - P[None]).max(axis=2)
    need((D.min(axis=1) < 1e-9 * size).all(), 'cells', 'the cells do not cover the domain')
    need(len(P) == len(vert) + N, 'cells', '{} points for {} vertices and N={}', len(P), len(vert), N)
    T = seams.ORIG['Delaunay'](P)
    C = P[T.simplices].mean(axis=1)
    need(len(C) == len(Y), 'count', '{} nodes for {} cells', len(Y), len(C))
    D = np.abs(C[:, None] - Y[None]).max(axis=2)
    j = D.argmin(axis=1)
    need(D.min(axis=1).max() < 1e-8 * size, 'nodes', 'the nodes are not the cell centers')
    if plain and len(set(j)) == len(C):
        p = mass(len(C), W1, seed, T=T)
        ok = close_mass(wt[j, 0], p)
        need(ok.all(), 'mass', 'weights {} for cells of mass {}', wt[j, 0][~ok], p[~ok])
        ctx.probe('cell masses compared')


def run(plan, ctx):
    from .. import lib
    backend = plan.get('backend', 'scipy')
    d, what, N, NMC = plan['dom'], plan['what'], plan['N'], plan['NMC']
    w = ctx.world()
    ss, dom, avm = must(w, 'building the domain', doms.make, lib, d)
    if plan['repart'] and d['n'] > 1:
        d = dict(d, n=d['n'] - 1)
        if not gens.separated(ss.eigenvecs, d['n']):
            return
        ss.partition(d['n'])
        if d['bounded']:
            must(w, 'recomputing the boundary', dom.compute_boundary)
    W, n, m = ss.eigenvecs.copy(), d['n'], d['m']
    W1 = W[:, :n]
    vert = None
    if d['bounded'] and n > 1:
        from .. import ref
        vert = ref.zonotope(W1)[0]
        if len(vert) > (24 if what in ('avrule', 'av_integrate') else 14):
            ctx.probe('too many vertices')
            return
    plain = not plan.get('draws')
    ctx.sig(what, d['kind'], m, n, d['bounded'], N, NMC, str(plan.get('draws')), str(plan.get('beh')), str(plan.get('fault')),
            plan.get('runner'), plan['repart'])

    def prep():
        w.draws, w.ndraws = make_draws(plan.get('draws')), 0
        seams.ORIG['seed'](plan['rs'])
    integ = lib.integrals
    sim = None
    nsim = m if what == 'integrate' else n

    def make_sim(world):
        f = gens.function(plan['f'], nsim)[0]
        return Sim(f, nsim, plan['beh'], world=world)
    surf = None
    if what == 'surface':
        surf = lib.ActiveSubspaceResponseSurface(avm, lib.PolynomialApproximation(2))
        X = gens.RS(plan['rs'] + 3).uniform(-1, 1, (30 + m, m))
        must(w, 'training', surf.train_with_data, X, (X.dot(W1) ** 2).sum(axis=1, keepdims=True) + X[:, :1])

    def call(fn):
        if what == 'avrule':
            return integ.av_quadrature_rule(avm, N)
        if what == 'rule':
            return integ.quadrature_rule(avm, N, NMC=NMC)
        if what == 'surface':
            return integ.av_integrate(surf, avm, N)
        r = lib.runner(fn, plan.get('runner')) if plan.get('runner') else fn
        if what == 'integrate':
            return integ.integrate(r, avm, N, NMC=NMC)
        return integ.av_integrate(fn, avm, N)
    f = plan.get('fault')
    if f:
        prep()
        w.arm()
        s0 = make_sim(None) if 'f' in plan else None
        o = attempt(w, call, s0)
        cat = doms.lp_cat(backend) if f['cat'] == 'lp' else f['cat']
        cnt = w.calls[cat]
        if cnt and o.ok:
            k = min(cnt - 1, int(f['frac'] * cnt))
            if f['cat'] == 'hull':
                w.arm(Armed('hull', k, 'QhullError'))
            elif f['cat'] in ('rng', 'alloc'):
                w.arm(Armed(f['cat'], k, 'MemoryError'))
            elif f['cat'] == 'lp':
                w.arm(doms.lp_armed(backend, k, f['kind']))
            else:
                w.arm(Armed('solver', k, f['kind']))
        else:
            w.arm()
    sim = make_sim(w) if 'f' in plan else None
    prep()
    w.recording = []
    o = attempt(w, call, sim)
    rec, w.recording = w.recording, None
    w.draws = None
    hit = any(x.fired for x in w.disarm())
    if hit:
        need(not o.ok, 'swallowed', 'a failure ({}) did not reach the caller', f)
        ctx.probe('failures surfaced')
        ctx.interesting = True
        return
    if sim is not None and sim.raised is not None:
        need(not o.ok and o.exc is sim.raised, 'exception', 'the simulation raised {!r}, the caller got {}', sim.raised, o)
        ctx.probe('simulation failures surfaced')
        ctx.interesting = True
        return
    if not o.ok:
        own = [r for r in rec if r[0] == 'solver' and r[1] == 'minimize' and not r[4].success]
        need(bool(own), 'raised', '{} raised {}', what, o)
        ctx.probe('SLSQP itself gave up')
        return
    ctx.interesting = True
    seed = plan['rs'] + 11
    v = vert if vert is not None else None
    if what == 'avrule':
        Y, wt = o.value
        check_av_rule(ctx, d, W1, v, Y, wt, N, rec, plain, seed)
        ctx.digest(Y, wt)
        return
    if what == 'rule':
        X, wx, ind = o.value
        Y, wt = groups(X, wx, ind, W1, NMC)
        doms.check_points(need, X, ind, Y, NMC, W, n, d['bounded'], 1e-6)
        check_av_rule(ctx, d, W1, v, Y, wt, N, rec, plain, seed)
        ctx.digest(X, wx)
        return
    # the same rule again
    prep()
    w2 = ctx.world()
    w2.draws, w2.ndraws = make_draws(plan.get('draws')), 0
    if what == 'integrate':
        X, wx, ind = must(w2, 'quadrature_rule', integ.quadrature_rule, avm, N, NMC=NMC)
        Y, wt = groups(X, wx, ind, W1, NMC)
        check_av_rule(ctx, d, W1, v, Y, wt, N, rec, plain, seed)
        mu, lb, ub = o.value
        order = match(sim, X)
        if order is None:
            # another stream: only the bounds are decided
            ctx.probe('rule not repeated')
            F = sim.F().ravel()
            if np.isfinite(F).all():
                need(len(F) % NMC == 0 and len(F) > 0, 'ledger', '{} simulations for NMC={}', len(F), NMC)
                e = 1e-9 * max(1.0, np.abs(F).max())
                need(lb - e <= mu <= ub + e, 'bounds', '{} <= {} <= {}', lb, mu, ub)
            return
        F = sim.F().ravel()[order].reshape((len(Y), NMC))
        if np.abs(F).max() > 1e100 and np.isfinite(F).all():
            return
        E, V = F.mean(axis=1), F.var(axis=1)
        wv = wt[:, 0]
        need(np.ndim(mu) == 0 and np.ndim(lb) == 0 and np.ndim(ub) == 0, 'shape', 'the integral is {}', o.value)
        bad = ~np.isfinite(F)
        if bad.any():
            if (wv[bad.any(axis=1)] > 0).any():
                need(not np.isfinite(mu), 'altered', 'a simulation returned {}, the integral is {}', F[bad][0], mu)
                ctx.probe('bad outputs seen')
            return
        want = E.dot(wv)
        se = np.sqrt(V.dot(wv ** 2) / NMC)
        sc = max(np.abs(F).max(), 1e-12)
        need(abs(mu - want) <= 1e-9 * sc, 'integral', 'the integral is {:.10g}, the weighted average {:.10g}', mu, want)
        need(abs(mu - lb - 1.96 * se) <= 1e-7 * sc and abs(ub - mu - 1.96 * se) <= 1e-7 * sc, 'bounds',
             'bounds {:.8g}, {:.8g} around {:.8g} with standard error {:.8g}', lb, ub, mu, se)
        if abs(wv.sum() - 1) < 1e-9:
            need(F.min() - 1e-9 * sc <= mu <= F.max() + 1e-9 * sc, 'range', 'the integral {} of outputs in [{}, {}]', mu, F.min(), F.max())
        ctx.digest(float(mu), float(lb), float(ub))
        return
    Y, wt = must(w2, 'av_quadrature_rule', integ.av_quadrature_rule, avm, N)
    check_av_rule(ctx, d, W1, v, Y, wt, N, rec, plain, seed)
    mu = o.value
    need(np.ndim(mu) == 0, 'shape', 'the integral is {}', mu)
    if what == 'surface':
        F = surf.predict_av(Y)[0].ravel()
    else:
        order = match(sim, Y)
        if order is None:
            ctx.probe('rule not repeated')
            return
        F = sim.F().ravel()[order]
    bad = ~np.isfinite(F)
    if bad.any():
        if (wt[bad, 0] > 0).any():
            need(not np.isfinite(mu), 'altered', 'a function value is {}, the integral is {}', F[bad][0], mu)
        return
    need(abs(mu - F.dot(wt[:, 0])) <= 1e-9 * max(np.abs(F).max(), 1e-12), 'integral', 'the integral is {:.10g}, the weighted sum {:.10g}',
         mu, F.dot(wt[:, 0]))
    ctx.digest(float(mu))


def match(sim, X):
    """The position in the ledger of every row of X, when the simulation ran on exactly these rows."""
    L = sim.X()
    if L.shape != X.shape:
        return None
    if np.abs(L - X).max() <= 1e-12 * max(1.0, np.abs(X).max()):
        return np.arange(len(X))
    o1 = np.lexsort(np.round(L, 10).T)
    o2 = np.lexsort(np.round(X, 10).T)
    if np.abs(L[o1] - X[o2]).max() > 1e-9 * max(1.0, np.abs(X).max()):
        return None
    out = np.zeros(len(X), dtype=int)
    out[o2] = o1
    return out


def groups(X, wx, ind, W1, NMC):
    need(isinstance(X, np.ndarray) and np.shape(wx) == (len(X), 1) and np.shape(ind) == (len(X), 1) and len(X) % NMC == 0 and len(X),
         'shape', 'nodes {}, weights {}, indices {}', np.shape(X), np.shape(wx), np.shape(ind))
    K = len(X) // NMC
    need(np.array_equal(np.asarray(ind).ravel(), np.repeat(np.arange(K), NMC)), 'index', 'indices {}', np.asarray(ind).ravel()[:20])
    Wm = np.asarray(wx).reshape((K, NMC))
    need(np.abs(Wm - Wm[:, :1]).max() <= 1e-14, 'split', 'the weight is not split evenly over a fibre')
    Y = X.dot(W1).reshape((K, NMC, -1))
    return Y[:, 0], Wm.sum(axis=1, keepdims=True)
