"""C18: designs on the active variables are valid for every random outcome."""
import numpy as np

from .. import gens, doms, ref, seams
from ..world import attempt, must, need, make_draws, Armed

RULE = ('A run makes a design through av_design or the design functions on a simulated domain or polytope, under ordinary '
        'or adversarial draws, with a failing optimizer restart or LP in some runs. Non-trivial: a design was returned '
        'and checked, or an injected failure surfaced; distinct by kind, sizes, N, NMC, draw policy and fault.')
REAL = ['active_subspaces.response_surfaces.av_design', 'active_subspaces.utils.designs', 'active_subspaces.domains',
        'SciPy SLSQP, HiGHS']
STUB = ['random outcomes', 'failures of optimizer restarts and LPs', 'Gurobi (gurobi backend)']
ASSUMPTIONS = ['a design point may be outside by 1e-6 of the size of the polytope']


def gen(rng, i, tier):
    what = rng.choice(['av', 'av', 'av', 'maximin', 'maximin', 'interval', 'gh'])
    p = {'what': what, 'rs': rng.randrange(1 << 30)}
    if what == 'av':
        d = doms.spec(rng, None, 6, 3)
        d['n'] = min(d['n'], 2) if d['bounded'] and rng.random() < 0.7 else d['n']
        p['dom'] = d
        p['N'] = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9]) if d['bounded'] else rng.choice([1, 2, 3, 4, 5, 9, 16, 27, 64, 65, 125])
        if d['bounded'] and d['n'] >= 2:
            p['N'] = min(p['N'], 6)
        elif d['bounded'] and rng.random() < 0.1:
            p['N'] = rng.choice([15, 40, 80])
        p['NMC'] = rng.choice([1, 1, 2, 3, 10])
        p['repart'] = rng.random() < 0.2
        if rng.random() < 0.4:
            p['draws'] = {'kind': rng.choice(['corner', 'scaled-normal', 'cluster', 'sticky', 'positive', 'low-uniform']),
                          'scale': rng.choice([1e3, 1e-3])}
    elif what == 'maximin':
        p['poly'] = {'s': rng.randrange(1 << 30), 'n': rng.choice([2, 2, 2, 3]), 'K': rng.choice([3, 4, 5, 8, 12]),
                     'shift': rng.choice([0.0, 0.0, 0.3, 2.0, 10.0]), 'stretch': rng.choice([1.0, 1.0, 0.2, 5.0])}
        p['N'] = rng.choice([1, 2, 3, 4, 5, 6]) if rng.random() < 0.93 else rng.choice([7, 8, 10, 12])
    elif what == 'interval':
        p['N'] = rng.choice([1, 2, 3, 10, 100])
        p['ab'] = [rng.uniform(-10, 10), rng.uniform(0, 10)]
    else:
        p['NN'] = [rng.choice([1, 2, 3, 4, 5]) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.35 and what in ('av', 'maximin'):
        p['fault'] = {'cat': rng.choice(['solver', 'lp', 'callback', 'hull']), 'frac': rng.choice([0.0, 0.999, rng.random()]),
                      'kind': rng.choice(['fail', 'fail-tempting', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError'])}
    return p


def minsq(Y, vert):
    D = ((Y[:, None, :] - vert[None]) ** 2).sum(axis=2)
    d = D.min()
    if len(Y) > 1:
        E = ((Y[:, None, :] - Y[None]) ** 2).sum(axis=2)
        d = min(d, E[~np.eye(len(Y), dtype=bool)].min())
    return d


def restarts(rec):
    return [r[4] for r in rec if r[0] == 'solver' and r[1] == 'minimize']


def check_maximin(ctx, Y, vert, N, rec, seeded_fault=False):
    n = vert.shape[1]
    need(isinstance(Y, np.ndarray) and Y.shape == (N, n), 'shape', 'the design has shape {}', np.shape(Y))
    need(np.isfinite(Y).all(), 'nonfinite', 'the design is not finite')
    h = seams.ORIG['ConvexHull'](vert)
    size = np.abs(vert - vert.mean(axis=0)).max()
    out = (h.equations[:, :n].dot(Y.T) + h.equations[:, n:]).max() / size
    need(out < 1e-6, 'outside', 'a design point is {:.2g} outside the polytope', out)
    d = minsq(Y, vert)
    rs = [r for r in restarts(rec) if np.size(r.x) == N * n]
    ctx.probe('restarts seen', len(rs))
    # a restart may leave the polytope by the optimizer's tolerance, and its points are then moved inside; this bounds
    # how far. The restart that is chosen may be one of those, so the bound is the largest one of all the restarts.
    center = vert.mean(axis=0)
    depth = -(h.equations[:, :n].dot(center) + h.equations[:, n]).max()
    good = [np.asarray(r.x).reshape((N, n)) for r in rs if r.success]
    slack = max([0.0] + [(h.equations[:, :n].dot(R.T) + h.equations[:, n:]).max() for R in good])
    reach = max([size] + [np.sqrt(((R - center) ** 2).sum(axis=1)).max() for R in good])
    moved = 2 * slack / depth * reach
    for R in good:
        best = minsq(R, vert)
        need(d >= best - 1e-9 * size ** 2 - 4 * moved * (np.sqrt(best) + moved), 'not-best',
             'the design has squared distance {:.6g}, a converged restart {:.6g}', d, best)
    # points that coincide help nobody; restarts stop anywhere, but not there
    need(d >= 0, 'distance', 'distance')
    ctx.digest(Y)


def run(plan, ctx):
    from .. import lib
    backend = plan.get('backend', 'scipy')
    w = ctx.world()
    what = plan['what']
    ctx.sig(what, {k: v for k, v in plan.items() if k not in ('rs', 'seed')} if what in ('gh',) else
            (str(plan.get('dom', {}).get('kind')), str(plan.get('dom', {}).get('m')), str(plan.get('dom', {}).get('n')),
             str(plan.get('dom', {}).get('bounded')), plan.get('N'), plan.get('NMC'), str(plan.get('draws')), str(plan.get('fault')),
             str(plan.get('poly', {}).get('K')), str(plan.get('poly', {}).get('shift')), backend))
    if what == 'interval':
        a, b = plan['ab'][0], plan['ab'][0] + plan['ab'][1] + 1e-3
        Y = must(w, 'interval_design', lib.designs.interval_design, a, b, plan['N'])
        N = plan['N']
        need(Y.shape == (N, 1), 'shape', 'the design has shape {}', Y.shape)
        want = a + (b - a) * np.arange(1, N + 1) / (N + 1.0)
        need(np.abs(Y[:, 0] - want).max() < 1e-9 * max(1, abs(a), abs(b)), 'interval', 'the design is {}', Y[:, 0])
        ctx.interesting = True
        return
    if what == 'gh':
        NN = plan['NN']
        Y = must(w, 'gauss_hermite_design', lib.designs.gauss_hermite_design, NN)
        check_gh(Y, NN)
        ctx.interesting = True
        return
    if what == 'maximin':
        d = plan['poly']
        rng = gens.RS(d['s'])
        P = rng.normal(size=(max(d['K'], d['n'] + 1), d['n'])) * np.append(d['stretch'], np.ones(d['n'] - 1)) + d['shift']
        h = seams.ORIG['ConvexHull'](P)
        vert = P[h.vertices]
        vol = h.volume / (np.ptp(vert, axis=0).prod())
        if vol < 0.05:
            ctx.probe('thin polytope')
            return
        call = lambda: lib.designs.maximin_design(vert, plan['N'])
    else:
        d = plan['dom']
        ss, dom, avm = must(w, 'building the domain', doms.make, lib, d)
        if plan['repart'] and d['n'] > 1:
            d = dict(d, n=d['n'] - 1)
            if not gens.separated(ss.eigenvecs, d['n']):
                return
            ss.partition(d['n'])
            if d['bounded']:
                must(w, 'recomputing the boundary', dom.compute_boundary)
        W, n = ss.eigenvecs.copy(), d['n']
        call = lambda: lib.av_design(avm, plan['N'], NMC=plan['NMC'])
        if d['bounded'] and n > 1:
            vert = ref.zonotope(W[:, :n])[0]
            if len(vert) > 40:
                ctx.probe('too many vertices')
                return

    def prep():
        w.draws, w.ndraws = make_draws(plan.get('draws')), 0
        seams.ORIG['seed'](plan['rs'])
    f = plan.get('fault')
    if f:
        prep()
        w.arm()
        o = attempt(w, call)
        cat = doms.lp_cat(backend) if f['cat'] == 'lp' else ('solver' if f['cat'] == 'callback' else f['cat'])
        cnt = w.calls[cat]
        if cnt and o.ok:
            k = min(cnt - 1, int(f['frac'] * cnt))
            if f['cat'] == 'hull':
                w.arm(Armed('hull', k, 'QhullError'))
            elif f['cat'] == 'lp':
                w.arm(doms.lp_armed(backend, k, f['kind']))
            else:
                w.arm(Armed('solver', k, f['kind']))
        else:
            w.arm()
    prep()
    w.recording = []
    o = attempt(w, call)
    rec, w.recording = w.recording, None
    w.draws = None
    hit = any(x.fired for x in w.disarm())
    if hit:
        need(not o.ok, 'swallowed', 'a failure ({}) did not reach the caller', f)
        ctx.probe('failures surfaced')
        ctx.interesting = True
        return
    if not o.ok:
        own = [r for r in restarts(rec) if not r.success]
        need(bool(own), 'raised', 'the design raised {}', o)
        ctx.probe('SLSQP itself gave up')
        return
    for r in restarts(rec):
        need(bool(r.success), 'unconverged', 'a design was returned although a restart did not converge')
    ctx.interesting = True
    if what == 'maximin':
        check_maximin(ctx, o.value, vert, plan['N'], rec)
        return
    Y, X, ind = o.value
    N, NMC = plan['N'], plan['NMC']
    if not d['bounded']:
        k = int(round(N ** (1.0 / n)))
        while k ** n > N:
            k -= 1
        while (k + 1) ** n <= N:
            k += 1
        check_gh(Y, [k] * n)
    elif n == 1:
        b = np.abs(W[:, 0]).sum()
        want = -b + 2 * b * np.arange(1, N + 1) / (N + 1.0)
        need(Y.shape == (N, 1), 'shape', 'the design has shape {}', Y.shape)
        need(np.abs(Y[:, 0] - want).max() < 1e-9, 'interval', 'the design is {}', Y[:, 0])
    else:
        check_maximin(ctx, Y, vert, N, rec)
    # design points may sit on the boundary up to the optimizer's tolerance
    doms.check_points(need, X, ind, Y, NMC, W, n, d['bounded'], 2e-6)
    ctx.digest(X)
    ctx.probe('av designs')


def check_gh(Y, NN):
    """The tensor grid of the Gauss-Hermite nodes (roots of the probabilists' polynomials)."""
    n = len(NN)
    need(isinstance(Y, np.ndarray) and Y.shape == (int(np.prod(NN)), n), 'shape', 'the grid for {} has shape {}', NN, np.shape(Y))
    from numpy.polynomial.hermite_e import hermegauss
    roots = [hermegauss(k)[0] for k in NN]
    import itertools
    want = np.array(list(itertools.product(*roots))).reshape((-1, n))
    D = np.abs(Y[:, None, :] - want[None]).max(axis=2)
    need((D.min(axis=0) < 1e-7).all() and (D.min(axis=1) < 1e-7).all(), 'grid', 'not the tensor grid for {}', NN)
