"""C17: sampled gradient estimates are right for every random base point."""
import numpy as np

from .. import gens, ref, seams
from ..user import Sim, RETS
from ..world import attempt, need, make_draws, Armed

RULE = ('A run estimates gradients from samples by local linear models (data with repeated samples, grids, any p, weights, '
        'ordinary or adversarial base points) or by finite differences of a simulation, with one injected failure in some '
        'runs. Non-trivial: rows were compared with the reference slope, or a failure surfaced; distinct by sizes, p, data '
        'kind, draw policy and fault.')
REAL = ['active_subspaces.gradients', 'active_subspaces.utils.simrunners', 'numpy']
STUB = ['random base points', 'the simulation', 'failures of linear algebra, draws, allocations and the simulation']
ASSUMPTIONS = ['rows whose neighbourhood has no clear rank (condition number above 1e7) or too many ties are not compared',
               'a neighbourhood that does not determine the slope gives the minimum-norm one']


def gen(rng, i, tier):
    if rng.random() < 0.7:
        d = gens.data_spec(rng, None, None)
        d['M'] = max(d['M'], d['m'] + 1)
        if rng.random() < 0.3:
            d['M'] = d['m'] + rng.choice([1, 1, 2])
        d['f'] = rng.choice(['lin', 'lin', 'quad', 'ridge', 'exp', 'const'])
        d['noise'] = 0 if d['f'] == 'lin' else d['noise']
        d['dup'] = rng.choice([0, 0, 1, 3, 8, 20])
        if rng.random() < 0.2:
            d['near'] = rng.choice([1e-3, 1e-4, 1e-5, 1e-6, 1e-7])
        if rng.random() < 0.1:
            d['m'], d['M'] = rng.choice([(7, 20), (8, 40), (2, 100), (3, 150), (12, 60), (10, 300), (4, 500)])
        p = {'what': 'll', 'd': d, 'p': rng.choice([None, None, 'lo', 'hi', 'mid']), 'ps': rng.random(), 'rs': rng.randrange(1 << 30)}
        if rng.random() < 0.06:
            p['p'] = rng.choice(['low', 'high', 'float', 'few'])
        if rng.random() < 0.35:
            p['draws'] = {'kind': rng.choice(['const-index', 'few-index', 'last-index', 'sticky']), 'few': rng.choice([1, 2, 3])}
        if rng.random() < 0.25:
            p['fault'] = {'cat': rng.choice(['linalg', 'rng', 'alloc', 'any']), 'frac': rng.choice([0.0, 0.999, rng.random()]),
                          'kind': rng.choice(['LinAlgError', 'MemoryError', 'Interrupt'])}
        return p
    m = rng.choice([1, 2, 3, 4, 5, 8, 15])
    p = {'what': 'fd', 'm': m, 'M': rng.choice([1, 2, 3, 5, 10, 10, 40]), 's': rng.randrange(1 << 30), 'f': rng.choice(['quad', 'lin', 'const', 'ridge', 'exp']),
         'x': rng.choice(['uniform', 'gauss', 'wide', 'grid']), 'h': rng.choice([None, None, 1e-6, 1e-3, 0.1, 1.0, -0.5, 1e-8]),
         'dup': rng.choice([0, 0, 1, 2]), 'runner': rng.choice([True, True, 'derived']) if rng.random() < 0.4 else False, 'beh': {'ret': rng.choice(RETS)}}
    r = rng.random()
    if r < 0.15:
        p['beh']['fail'] = rng.choice([0, 1, m, m + 1, 3 * m])
        p['beh']['exc'] = rng.choice(['exc', 'Interrupt', 'ValueError', 'StopIteration'])
    elif r < 0.3:
        p['beh']['nan'] = [[rng.choice([0, 1, m, 2 * m]), rng.choice(['nan', 'inf', '-inf'])]]
    elif r < 0.5:
        p['beh']['mutate'] = True
    elif r < 0.6:
        p['beh']['draw'] = True
    return p


def run(plan, ctx):
    from .. import lib
    w = ctx.world()
    if plan['what'] == 'fd':
        return fd(plan, ctx, lib, w)
    d = plan['d']
    X, f, df, wt = gens.dataset(d)
    M, m = X.shape
    if M <= m:
        return
    ps = plan['p']
    p = {None: None, 'lo': m + 1, 'hi': M, 'mid': m + 1 + int(plan['ps'] * (M - m)), 'low': m, 'high': M + 1, 'float': m + 1.5,
         'few': m + 1}[ps]
    if ps == 'mid':
        p = min(p, M)
    if ps == 'few':
        X, f, wt = X[:m], f[:m], None if wt is None else wt[:m]
    kw = {}
    if p is not None:
        kw['p'] = p
    if wt is not None:
        kw['weights'] = wt
    ctx.sig('ll', M, m, ps, d['x'], d['f'], d['dup'], d['w'], d['layout'], str(plan.get('draws')), str(plan.get('fault')))

    def prep():
        w.draws, w.ndraws = make_draws(plan.get('draws')), 0
        seams.ORIG['seed'](plan['rs'])
    call = lambda: lib.local_linear_gradients(X, f, **kw)
    if ps in ('low', 'high', 'float', 'few'):
        o = attempt(w, call)
        need(not o.ok, 'accepted', 'p={} for M={}, m={} was accepted', p, len(X), m)
        return
    fl = plan.get('fault')
    if fl:
        prep()
        w.arm()
        attempt(w, call)
        cnt = w.calls[fl['cat']]
        if cnt:
            w.arm(Armed(fl['cat'], min(cnt - 1, int(fl['frac'] * cnt)), fl['kind']))
    prep()
    w.recording = []
    o = attempt(w, call)
    rec, w.recording = w.recording, None
    w.draws = None
    hit = any(x.fired for x in w.disarm())
    if hit:
        need(not o.ok, 'swallowed', 'a failure ({}) did not reach the caller', fl)
        ctx.probe('failures surfaced')
        ctx.interesting = True
        return
    need(o.ok, 'raised', 'local_linear_gradients raised {}', o)
    G = o.value
    K = min(int(np.ceil(10 * m * np.log(m))), M - 1)
    need(isinstance(G, np.ndarray) and G.shape == (K, m), 'shape', 'the estimate has shape {}, expected {}', np.shape(G), (K, m))
    need(np.isfinite(G).all(), 'nonfinite', 'the estimate is not finite')
    pp = p if p is not None else ref.opg_p(M, m)
    base = [r[4] for r in rec if r[0] == 'rng']
    base = [int(t) for b in base for t in np.ravel(b) if float(t) == int(t)]
    if len(base) != K or (base and (min(base) < 0 or max(base) >= M)):
        base = None
        ctx.probe('base points not seen')
    slopes = {}

    def slope(b):
        if b not in slopes:
            slopes[b] = ref.local_slope(X, f, b, pp)
        return slopes[b]
    xs = max(np.ptp(X, axis=0).max(), 1e-300)
    sc = max(np.abs(f - f.mean()).max() / xs, 1e-3 * np.abs(f).max() / xs, 1e-12)
    und = 0
    for i in range(K):
        cand = [base[i]] if base else range(M)
        ok, decided = False, True
        best = np.inf
        for b in cand:
            s = slope(b)
            if s is None or any(c > 1e7 for _, c in s):
                decided = False
                continue
            for t, c in s:
                e = np.abs(G[i] - t).max() / max(sc, np.abs(t).max())
                best = min(best, e)
                if e <= 1e-11 * max(c, 1e3):
                    ok = True
                    break
            if ok:
                break
        if ok:
            continue
        if not decided:
            und += 1
            continue
        need(False, 'slope', 'row {} is not the slope of the local fit{}: relative error {:.2e}', i,
             ' at sample {}'.format(base[i]) if base else ' at any sample', best)
    if und < K:
        ctx.interesting = True
    ctx.probe('rows compared', K - und)
    if d['f'] == 'lin' and not d.get('noise'):
        # affine data: the exact gradient wherever the neighbours determine it
        for i in range(K):
            if base is None or slope(base[i]) is None:
                continue
            A, full = neighbours(X, base[i], pp)
            if not full:
                continue
            e = np.abs(G[i] - df[0]).max() / max(np.abs(df[0]).max(), sc)
            need(e < 1e-6, 'affine', 'row {} of affine data misses the gradient by {:.2e}', i, e)
            ctx.probe('exact rows')
    ctx.digest(G)


def neighbours(X, b, p):
    d2 = ((X - X[b]) ** 2).sum(axis=1)
    idx = sorted([i for i in range(len(X)) if d2[i] != 0], key=lambda i: d2[i])
    if len(idx) > p and d2[idx[p - 1]] >= d2[idx[p]] * (1 - 1e-12):
        return None, False              # a tie decides
    A = np.hstack((np.ones((len(idx[:p]), 1)), X[idx[:p]]))
    if len(A) < X.shape[1] + 1:
        return A, False
    s = np.linalg.svd(A, compute_uv=False)
    return A, s[-1] > 1e-6 * s[0]


def fd(plan, ctx, lib, w):
    m = plan['m']
    X = gens.points({'s': plan['s'], 'M': plan['M'], 'm': m, 'x': plan['x'], 'dup': plan['dup']})
    M = len(X)
    f = gens.function({'s': plan['s'], 'f': plan['f']}, m)[0]
    sim = Sim(f, m, plan['beh'], world=w)
    fn = lib.runner(sim, plan['runner']) if plan['runner'] else sim
    h = 1e-6 if plan['h'] is None else plan['h']
    kw = {} if plan['h'] is None else {'h': h}
    X0 = X.copy()
    o = attempt(w, lib.finite_difference_gradients, X, fn, **kw)
    ctx.sig('fd', M, m, plan['h'], plan['x'], plan['dup'], str(plan['beh']), plan['runner'], plan['f'])
    need(np.array_equal(X, X0), 'modified', 'the points were modified')
    if sim.raised is not None:
        need(not o.ok and o.exc is sim.raised, 'exception', 'the simulation raised {!r}, the caller got {}', sim.raised, o)
        ctx.probe('failures surfaced')
        ctx.interesting = True
        return
    need(o.ok, 'raised', 'finite_difference_gradients raised {}', o)
    G = o.value
    need(isinstance(G, np.ndarray) and G.shape == (M, m), 'shape', 'the estimate has shape {}', np.shape(G))
    L, F = sim.X(), sim.F().ravel()
    need(len(L) == M * (m + 1), 'ledger', '{} simulations for {} points in {} dimensions', len(L), M, m)
    used = np.zeros(len(L), dtype=bool)

    def at(x, k):
        e = np.abs(L - x).max(axis=1)
        e[used] = np.inf
        # the usual place first, else the closest
        j = k if not used[k] and e[k] <= 1e-14 * max(1, np.abs(x).max()) else int(np.argmin(e))
        need(e[j] <= 1e-14 * max(1.0, np.abs(x).max()), 'ledger', 'no simulation at {}', x)
        used[j] = True
        return F[j]
    f0 = [at(X[i], i) for i in range(M)]
    for i in range(M):
        for k in range(m):
            x = X[i].copy()
            x[k] += h
            fk = at(x, M * (k + 1) + i)
            with np.errstate(invalid='ignore'):
                want = (fk - f0[i]) / h
            g = G[i, k]
            if np.isfinite(want):
                need(abs(g - want) <= 1e-9 * max(abs(want), max(abs(fk), abs(f0[i])) * 1e-6 / abs(h), 1e-12), 'difference',
                     'partial derivative {} of point {} is {:.8g}, the difference quotient {:.8g}', k, i, g, want)
            else:
                need(not np.isfinite(g), 'altered', 'a simulation failed to give a number, the difference is {}', g)
    ctx.interesting = True
    ctx.probe('difference quotients', M * m)
    ctx.digest(G)
