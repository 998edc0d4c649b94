"""C06: bounded inverse map - every returned point is feasible and maps back."""
import numpy as np

from .. import gens, doms, seams
from ..world import attempt, must, need, make_draws

RULE = ('A run maps 1-4 active points (interior, centre, vertices, edges, faces, near the boundary) of a bounded domain '
        'back to N inputs each, through the map and through each sampler alone, under ordinary or adversarial random '
        'outcomes, with an LP failure in a third of the runs. Non-trivial: points were returned and checked; distinct by '
        'basis kind, sizes, point kinds, draw policy, sampler and fault.')
REAL = ['active_subspaces.domains', 'active_subspaces.utils.qp_solver', 'SciPy HiGHS (scipy backend)']
STUB = ['random outcomes of numpy.random inside the library', 'failures of the LP solver', 'Gurobi (gurobi backend, stub)']
ASSUMPTIONS = ['uniformity is tested at a level of about 1e-9 per run, only when rejection sampling succeeded with ordinary draws']


def gen(rng, i, tier):
    d = doms.spec(rng, True)
    if rng.random() < 0.25:
        d['m'], d['n'] = rng.choice([(2, 1), (3, 2), (3, 1)])
    stat = rng.random() < 0.2
    N = rng.choice([1, 1, 2, 3, 5, 10, 25]) if not stat else rng.choice([150, 400])
    ykinds = [rng.choice(doms.YKINDS) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    if stat:
        ykinds = [rng.choice(['image', 'center', 'face'])]
    p = {'dom': d, 'N': N, 'y': ykinds, 'ys': rng.randrange(1 << 30), 'rs': rng.randrange(1 << 30),
         'how': rng.choice(['map', 'map', 'map', 'sample_z', 'hit_and_run_z', 'hit_and_run_z', 'rejection_sampling_z',
                            'random_walk_z']),
         'repart': rng.random() < 0.2, 'again': rng.random() < 0.3, 'stat': stat}
    if stat:
        p['how'] = 'map'
    if rng.random() < 0.06 and not stat:          # many points, many inputs
        d['m'], d['n'] = rng.choice([(8, 1), (8, 2), (10, 1), (10, 2), (d['m'], d['n'])])
        d['kind'] = 'haar' if d['m'] >= 8 else d['kind']
        p['N'] = rng.choice([1, 4, 30, 60])
        p['y'] = [rng.choice(doms.YKINDS) for _ in range(rng.choice([5, 12, 20]))]
    if rng.random() < 0.55 and not stat:
        p['draws'] = {'kind': rng.choice(['corner', 'corner', 'low-uniform', 'high-uniform', 'scaled-normal', 'cluster',
                                          'positive', 'axis', 'sticky', 'mid-uniform']),
                      'scale': rng.choice([3.0, 1e3, 1e6, 1e-3, 1e-9])}
    if rng.random() < 0.33:
        p['fault'] = {'frac': rng.choice([0.0, 0.999, rng.random()]),
                      'kind': rng.choice(['fail', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError'])}
    return p


def run(plan, ctx):
    from .. import lib
    backend = plan.get('backend', 'scipy')
    d = plan['dom']
    w = ctx.world()
    ss, dom, avm = must(w, 'building the domain', doms.make, lib, d)
    if plan['repart'] and d['m'] > 2:
        n2 = d['n'] + 1 if d['n'] + 1 < min(d['m'], 4) and d['kind'] == 'haar' else max(1, d['n'] - 1)
        ss.partition(n2)
        must(w, 'recomputing the boundary', dom.compute_boundary)
        d = dict(d, n=n2)
    W, W1, W2, n = ss.eigenvecs.copy(), ss.W1.copy(), ss.W2.copy(), d['n']
    Y = doms.active_points(d, W1, plan['y'], plan['ys'])
    N = plan['N']
    how = plan['how']
    fn = None
    if how != 'map':
        fn = getattr(lib.domains, how, None)
        if fn is None:
            how = 'map'
    for rep in range(2 if plan['again'] else 1):
        fired = 0
        f = plan.get('fault')

        def call():
            if how == 'map':
                return avm.inverse(Y, N)
            Z = [fn(N, y, W1, W2) for y in Y]
            if any(z is None for z in Z):
                return None
            X = np.vstack([np.dot(W, np.vstack((np.tile(y[:, None], (1, N)), z.T))).T for y, z in zip(Y, Z)])
            for z in Z:
                need(np.shape(z) == (N, W2.shape[1]), 'count', 'a sample has shape {}', np.shape(z))
            return X, np.repeat(np.arange(len(Y)), N).reshape((-1, 1))
        dr = plan.get('draws')

        def prep():
            w.draws, w.ndraws = make_draws(dr), 0
            seams.ORIG['seed'](plan['rs'])
        if f:
            prep()
            w.arm()
            attempt(w, call)
            cnt = w.calls[doms.lp_cat(backend)]
            if cnt:
                w.arm(doms.lp_armed(backend, min(cnt - 1, int(f['frac'] * cnt)), f['kind']))
        prep()
        w.recording = []
        o = attempt(w, call)
        rec, w.recording = w.recording, None
        w.draws = None
        fl = w.disarm()
        hit = any(x.fired for x in fl)
        ctx.sig(d['kind'], d['m'], n, N, tuple(plan['y']), str(dr), how, str(f), o.ok, backend)
        if hit:
            need(not o.ok, 'swallowed', 'the LP solver failed ({}) and points were returned', f['kind'])
            ctx.probe('LP failures surfaced')
            continue
        if not o.ok:
            easy = all(k in ('image', 'center') for k in plan['y'])
            need(not easy, 'raised', 'interior active points were not mapped: {}', o)
            ctx.probe('boundary point raised')
            continue
        if o.value is None:
            need(how == 'rejection_sampling_z', 'none', 'a sampler returned nothing')
            ctx.probe('rejection gave up')
            continue
        X, ind = o.value
        doms.check_points(need, X, ind, Y, N, W, n, True)
        ctx.digest(X)
        ctx.interesting = True
        names = [r[1] for r in rec if r[0] == 'rng']
        walked = any(x in ('normal', 'randn', 'standard_normal') for x in names)
        ctx.probe('hit and run' if walked else 'rejection')
        if how == 'map' and walked and len(X) > 1 and len(np.unique(np.round(X, 9), axis=0)) == 1:
            ctx.probe('copies of a feasible point')
        if plan['stat'] and not walked and not dr and how == 'map':
            uniform(ctx, X, Y, N, W, n, plan)


def uniform(ctx, X, Y, N, W, n, plan):
    m = W.shape[0]
    Z = X[:N].dot(W[:, n:])
    s = W[:, :n].dot(Y[0])
    k = m - n
    rng = gens.RS(plan['ys'] + 5)
    need(len(np.unique(np.round(Z, 12), axis=0)) == N, 'repeated', 'accepted points repeat')
    # own sampler: rejection from the ball that contains the fibre
    R = np.sqrt(max(m - (s ** 2).sum() if False else m - Y[0].dot(Y[0]), 1e-12))
    got, tries = [], 0
    lo, hi = np.full(k, -R), np.full(k, R)
    # a tight box by own linear programs
    A = np.vstack((W[:, n:], -W[:, n:]))
    b = np.concatenate((1 - s, 1 + s))
    lin = seams.ORIG['linprog']
    for j in range(k):
        for sg in (1.0, -1.0):
            c = np.zeros(k)
            c[j] = sg
            r = lin(c, A_ub=A, b_ub=b, bounds=[(None, None)] * k, method='highs')
            if r.status != 0:
                return
            if sg > 0:
                lo[j] = r.fun
            else:
                hi[j] = -r.fun
    cnt = 0
    while cnt < 4000 and tries < 200:
        P = rng.uniform(0, 1, (5000, k)) * (hi - lo) + lo
        ok = np.all(P.dot(A.T) <= b, axis=1)
        got.append(P[ok])
        cnt += ok.sum()
        tries += 1
    G = np.vstack(got)
    if len(G) < 2000:
        return
    ctx.probe('uniformity tested')
    dirs = list(np.eye(k)) + list(rng.normal(size=(3, k)))
    for v in dirs:
        a, c = np.sort(Z.dot(v)), np.sort(G.dot(v))
        al = np.concatenate((a, c))
        D = np.abs(np.searchsorted(a, al, side='right') / len(a) - np.searchsorted(c, al, side='right') / len(c)).max()
        t = D * np.sqrt(len(a) * len(c) / float(len(a) + len(c)))
        need(t < 3.3, 'uniform', 'accepted points are not uniform over the fibre: KS statistic {:.2f}', t)
