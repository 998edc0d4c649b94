"""C07: unbounded maps - forward and inverse agree for every random outcome."""
import numpy as np

from .. import gens, doms, seams
from ..world import attempt, must, need, make_draws, Armed

RULE = ('A run is a history of 1-6 forward/inverse calls on maps that share one subspace, between re-partitions, under '
        'ordinary or adversarial Gaussian outcomes, some with an injected failure. Non-trivial: an inverse was checked; '
        'distinct by sizes, operations, counts and draw policy.')
REAL = ['active_subspaces.domains', 'active_subspaces.subspaces', 'numpy']
STUB = ['random outcomes of numpy.random inside the library', 'failures of draws and allocations']
ASSUMPTIONS = ['moments, independence and distribution are tested at about seven standard deviations']


def gen(rng, i, tier):
    m = rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 8, 20])
    n = rng.randint(1, m)
    ops = []
    stat = rng.random() < 0.15
    for _ in range(1 if stat else rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.2 and not stat:
            ops.append({'op': 'partition', 'n': rng.randint(1, m)})
        elif r < 0.35 and not stat:
            ops.append({'op': 'forward', 's': rng.randrange(1 << 30), 'M': rng.choice([1, 2, 7, 7, 100]), 'bounded': rng.random() < 0.3})
        else:
            op = {'op': 'inverse', 's': rng.randrange(1 << 30), 'M': rng.choice([1, 1, 2, 5]),
                  'N': rng.choice([1, 1, 2, 3, 10]), 'rs': rng.randrange(1 << 30), 'far': rng.random() < 0.2}
            if rng.random() < 0.2:
                op['rep'] = rng.choice(['any', 'sorted'])
            if stat:
                op['N'], op['M'] = rng.choice([(2000, 1), (4000, 1), (2000, 3), (1, 3000), (2, 1500), (10, 300), (3, 1000)])
                if rng.random() < 0.3:          # the same from many small calls
                    op['N'], op['M'], op['calls'] = rng.choice([(1, 1, 1500), (1, 3, 700), (2, 1, 1000), (2, 5, 300), (5, 2, 250)])
            elif rng.random() < 0.08:
                op['M'], op['N'] = rng.choice([1, 15, 60]), rng.choice([1, 12, 40])
            elif rng.random() < 0.5:
                op['draws'] = {'kind': rng.choice(['scaled-normal', 'cluster', 'positive', 'sticky', 'axis']),
                               'scale': rng.choice([1e6, 30.0, 0.0, 1e-9])}
            if rng.random() < 0.15 and not stat:
                op['fault'] = {'cat': rng.choice(['rng', 'alloc']), 'k': rng.randrange(3),
                               'kind': rng.choice(['MemoryError', 'Interrupt'])}
            ops.append(op)
    return {'sub': {'s': rng.randrange(1 << 30), 'm': m, 'n': n,
                    'kind': rng.choice(['haar', 'haar', 'axis', 'block' if m > 1 else 'haar'])}, 'ops': ops}


def run(plan, ctx):
    from .. import lib
    w = ctx.world()
    d = plan['sub']
    dd = dict(d, n=min(d['n'], d['m'] - 1)) if d['kind'] == 'block' else d
    ss = gens.exact_subspace(lib, dict(dd, n=1)) if d['kind'] == 'haar' else gens.exact_subspace(lib, dd)
    ss.partition(d['n'])
    dom = must(w, 'making the domain', lib.UnboundedActiveVariableDomain, ss)
    avm = must(w, 'making the map', lib.UnboundedActiveVariableMap, dom)
    bvm = lib.BoundedActiveVariableMap(dom)
    W = ss.eigenvecs.copy()
    m, n = d['m'], d['n']
    need((dom.m, dom.n) == (m, n) and dom.vertY is None and dom.vertX is None, 'dimensions', 'the domain of {} variables, {} active, says {} and {}', m, n, dom.m, dom.n)
    for op in plan['ops']:
        rng = gens.RS(op.get('s', 0))
        if op['op'] == 'partition':
            ss.partition(op['n'])
            n = op['n']
        elif op['op'] == 'forward':
            X = rng.normal(size=(op['M'], m)) * 3
            Y, Z = must(w, 'forward', (bvm if op['bounded'] else avm).forward, X)
            need(Y.shape == (len(X), n) and Z.shape == (len(X), m - n), 'shape', 'forward returned {} and {}', Y.shape, Z.shape)
            back = Y.dot(ss.W1.T) + Z.dot(ss.W2.T)
            need(np.abs(back - X).max() < 1e-9, 'forward', 'recombined points are {:.2e} away', np.abs(back - X).max())
            need(np.abs(Y - X.dot(W[:, :n])).max() < 1e-9, 'forward', 'not the active variables')
        else:
            Y = rng.normal(size=(op['M'], n)) * (50.0 if op['far'] else 1.0)
            if op.get('rep'):           # active points that are asked for repeatedly
                Y = Y[rng.randint(max(1, op['M'] // 2), size=op['M'])]
                if op['rep'] == 'sorted':
                    Y = Y[np.argsort(Y[:, 0])]
            w.draws, w.ndraws = make_draws(op.get('draws')), 0
            f = op.get('fault')
            w.arm(*([Armed(f['cat'], f['k'], f['kind'])] if f else []))
            seams.ORIG['seed'](op['rs'])
            o = attempt(w, avm.inverse, Y, op['N'])
            hit = any(x.fired for x in w.disarm())
            w.draws = None
            if not o.ok:
                need(hit, 'raised', 'inverse raised {}', o)
                ctx.probe('failed inverses')
                continue
            X, ind = o.value
            doms.check_points(need, X, ind, Y, op['N'], W, n, False, 1e-8)
            ctx.digest(X)
            ctx.interesting = True
            Z = X.dot(W[:, n:])
            if op.get('calls') and n < m:
                Zs = [Z]
                for _ in range(op['calls'] - 1):
                    Xc = must(w, 'inverse', avm.inverse, Y, op['N'])[0]
                    need(np.shape(Xc) == X.shape, 'count', 'points have shape {}', np.shape(Xc))
                    Zs.append(Xc.dot(W[:, n:]))
                Z = np.vstack(Zs)
                ctx.probe('many small calls')
            if not op.get('draws') and n < m:
                if len(Z) > 1:
                    need(len(np.unique(np.round(Z, 10), axis=0)) == len(Z), 'repeated', 'points of a fibre coincide')
                if len(Z) >= 1500:
                    normal(ctx, Z, op)
        ctx.sig(m, n, op['op'], op.get('M'), op.get('N'), op.get('calls'), str(op.get('draws')), str(op.get('fault')))


def normal(ctx, Z, op):
    ctx.probe('distribution tested')
    K, k = Z.shape
    t = 7.0
    need(np.abs(Z.mean(axis=0)).max() < t / np.sqrt(K), 'moments', 'means {}', Z.mean(axis=0))
    C = Z.T.dot(Z) / K
    lim = t * np.sqrt(np.where(np.eye(k) > 0, 2.0, 1.0) / K)
    need((np.abs(C - np.eye(k)) < lim).all(), 'moments', 'second moments {}', C)
    from scipy.special import ndtr
    for j in range(k):
        u = np.sort(ndtr(Z[:, j]))
        i = np.arange(K)
        D = max(np.abs(u - i / K).max(), np.abs(u - (i + 1) / K).max())
        need(D * np.sqrt(K) < 3.3, 'normal', 'inactive coordinates are not standard normal: KS {:.2f}', D * np.sqrt(K))
    # points of one fibre and of different fibres are independent
    for lag in sorted({1, op['N'], op['N'] * op['M']}):
        if lag < K // 2:
            c = (Z[lag:] * Z[:-lag]).mean(axis=0)
            need(np.abs(c).max() < t / np.sqrt(K - lag), 'dependent', 'points at distance {} are correlated: {}', lag, c)
