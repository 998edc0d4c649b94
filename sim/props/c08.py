"""C08: the bounded domain is exactly the image of the input hypercube."""
import itertools

import numpy as np

from .. import gens, doms, ref, seams
from ..world import attempt, must, need, make_draws, Armed

RULE = ('A run builds one bounded domain (basis kind, sizes, random draws that are ordinary or repeat for a while), then '
        're-partitions and recomputes up to three times, with a hull, allocation or draw failure in some recomputations. '
        'Non-trivial: a two- or higher-dimensional domain, or a recomputed one, was compared with the exact enumeration; '
        'distinct by basis kind, sizes, history, draw policy and fault.')
REAL = ['active_subspaces.domains', 'Qhull through SciPy']
STUB = ['random outcomes of numpy.random inside the library', 'failures of Qhull, allocations and draws']
ASSUMPTIONS = ['bases have no nearly degenerate arrangement of rows (determinants of normalized rows above 0.01 for n=2 '
               'and 0.06 for n=3): smaller cells are found too, but only after many random draws']


def gen(rng, i, tier):
    big = rng.random() < 0.3
    m = rng.choice([2, 3, 3, 4, 5, 6, 7, 8, 9, 10] if big else [2, 3, 3, 4, 4, 5, 6])
    n = rng.choice([1, 2, 2, 2, 3])
    if n == 3 and m > 7:
        m = 7
    n = min(n, m if m < 4 else m - 1)
    kind = rng.choice(['haar', 'haar', 'haar', 'axis', 'block', 'zero', 'zero', 'parallel', 'parallel'])
    if n == 3 and kind == 'parallel':
        kind = 'haar'
    if n == 2 and m > 2 and rng.random() < 0.15:
        kind = 'slender'
    if n == m:                      # every direction is active
        kind = rng.choice(['haar', 'axis'])
    p = {'sub': {'s': rng.randrange(1 << 30), 'm': m, 'n': n, 'kind': kind}, 'rs': rng.randrange(1 << 30), 'ops': []}
    if rng.random() < 0.35:
        p['direct'] = rng.choice([2, 5, 20, 100])
    r = rng.random()
    if r < 0.2 and m <= 6:
        p['draws'] = {'kind': 'single', 'to': rng.choice([3, 20, 150])}
    elif r < 0.7:
        p['draws'] = {'kind': rng.choice(['sticky', 'sticky', 'sticky', 'positive', 'cluster', 'scaled-normal']),
                      'to': rng.choice([1, 2, 5, 20, 60]), 'scale': rng.choice([1e5, 1e-5])}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ops = {'n': rng.choice([1, 1, 2, 2, 3]), 'recompute': rng.random() < 0.85}
        if rng.random() < 0.35:
            ops['fault'] = {'cat': rng.choice(['hull', 'hull', 'rng', 'alloc', 'linalg']), 'k': rng.choice([0, 0, 1, 3, 8]),
                            'kind': rng.choice(['QhullError', 'MemoryError', 'Interrupt'])}
        p['ops'].append(ops)
    return p


def run(plan, ctx):
    from .. import lib
    w = ctx.world()
    ss = gens.exact_subspace(lib, plan['sub'])
    dr = plan.get('draws')

    def prep():
        w.draws, w.ndraws = make_draws(dr), 0
        seams.ORIG['seed'](plan['rs'])
    prep()
    dom = must(w, 'building the domain', lib.BoundedActiveVariableDomain, ss)
    w.draws = None
    W = ss.eigenvecs.copy()
    check(ctx, dom, W[:, :plan['sub']['n']], plan)
    if plan.get('direct') and plan['sub']['n'] > 1:
        direct(ctx, lib, w, W[:, :plan['sub']['n']], plan)
    sig = []
    if plan['sub']['n'] > 1:
        ctx.interesting = True
    for op in plan['ops']:
        n = op['n']
        # only sizes whose arrangement is decided by the assumptions
        if n > W.shape[0] or not gens.separated(W, n) or (n == 3 and W.shape[0] > 7):
            continue
        ss.partition(n)
        if not op['recompute']:
            continue
        f = op.get('fault')
        w.arm(*([Armed(f['cat'], f['k'], f['kind'])] if f else []))
        prep()
        o = attempt(w, dom.compute_boundary)
        hit = any(x.fired for x in w.disarm())
        w.draws = None
        if not o.ok:
            need(hit, 'raised', 'compute_boundary raised {}', o)
            ctx.probe('failed recomputations')
            prep()
            must(w, 'recomputing after a failure', dom.compute_boundary)
            w.draws = None
        check(ctx, dom, W[:, :n], plan)
        ctx.interesting = True
        sig.append((n, str(f), o.ok))
    ctx.sig(plan['sub']['kind'], plan['sub']['m'], plan['sub']['n'], str(dr), sig)


def direct(ctx, lib, w, W1, plan):
    """The vertex search itself with few directions per round, so that vertices come in many rounds."""
    want, k = ref.zonotope(W1)
    if want is None:
        return
    w.draws, w.ndraws = None, 0
    seams.ORIG['seed'](plan['rs'] + 1)
    Y, X = must(w, 'finding the vertices', lib.domains.zonotope_vertices, W1.copy(), plan['direct'])
    ctx.probe('searches in small rounds')
    need(len(Y) == len(want), 'count', '{} vertices instead of {} in rounds of {}', len(Y), len(want), plan['direct'])
    D = np.abs(Y[:, None, :] - want[None, :, :]).max(axis=2)
    need((D.min(axis=0) < 1e-8).all(), 'missing', 'a vertex is missing, in rounds of {}', plan['direct'])
    need(np.abs(X).max() <= 1 + 1e-12 and np.abs(X.dot(W1) - Y).max() < 1e-8, 'corner', 'a corner does not map to its vertex')


def check(ctx, dom, W1, plan):
    m, n = W1.shape
    Y, X = dom.vertY, dom.vertX
    need((dom.m, dom.n) == (m, n), 'dimension', 'the domain says m={}, n={} instead of {}, {}', dom.m, dom.n, m, n)
    want, k = ref.zonotope(W1)
    if want is None:
        ctx.probe('not in general position')
        return
    need(isinstance(Y, np.ndarray) and Y.ndim == 2 and Y.shape[1] == n, 'shape', 'vertices have shape {}', np.shape(Y))
    need(isinstance(X, np.ndarray) and X.shape == (len(Y), m), 'shape', 'corners have shape {} for {} vertices', np.shape(X), len(Y))
    need(len(want) == ref.n_zonotope_vertices(k, n) or n == 1, 'harness', 'reference enumeration')
    need(len(Y) == len(want), 'count', '{} vertices instead of {}', len(Y), len(want))
    tol = 1e-8
    D = np.abs(Y[:, None, :] - want[None, :, :]).max(axis=2)
    need((D.min(axis=0) < tol).all(), 'missing', 'a vertex is missing')
    need((D.min(axis=1) < tol).all(), 'wrong', 'a reported vertex is none')
    need(np.abs(X).max() <= 1 + 1e-12, 'corner', 'a corner leaves the hypercube')
    need(np.abs(X.dot(W1) - Y).max() < tol, 'corner', 'a corner does not map to its vertex')
    if n == 1:
        need(Y[0, 0] < Y[1, 0], 'order', 'the interval is {}', Y.ravel())
        need(dom.convhull is None and dom.constraints is None, 'stale', 'an interval has a hull or constraints')
        ctx.digest(Y)
        return
    rng = gens.RS(plan['rs'])
    P = rng.uniform(-1, 1, (60, m))
    P = np.vstack((P, np.sign(P[:20]), X))
    YP = P.dot(W1)
    h = dom.convhull
    need(h is not None and dom.constraints is not None, 'hull', 'no hull or constraints')
    need(len(h.vertices) == len(want), 'hull', 'the hull has {} vertices instead of {}', len(h.vertices), len(want))
    need(np.abs(h.points - Y).max() < tol, 'hull', 'the hull is not that of the vertices')
    v = h.equations[:, :n].dot(YP.T) + h.equations[:, n:]
    need(v.max() < 1e-7, 'hull', 'a hypercube point maps {:.2g} outside the hull', v.max())
    cons = dom.constraints
    cons = [cons] if isinstance(cons, dict) else list(cons)
    need(all(c['type'] == 'ineq' for c in cons), 'constraints', 'constraints {}', cons)
    for y in YP:
        g = min(np.min(c['fun'](y)) for c in cons)
        need(g > -1e-7, 'constraints', 'the image of a hypercube point violates a constraint by {:.2g}', -g)
    # facets: pushing a point of a facet outward violates a constraint
    for e in h.equations[:: max(1, len(h.equations) // 12)]:
        on = want[np.argsort(-want.dot(e[:n]))[:n]].mean(axis=0)
        y = on + 1e-3 * e[:n]
        if e[:n].dot(y) + e[n] > 1e-4:
            g = min(np.min(c['fun'](y)) for c in cons)
            need(g < 0, 'constraints', 'a point outside the domain satisfies the constraints')
    for c in cons:
        if 'jac' in c:
            y = YP[0]
            J = np.atleast_2d(c['jac'](y))
            dlt = 1e-3 * rng.normal(size=n)
            need(np.abs(c['fun'](y + dlt) - c['fun'](y) - J.dot(dlt)).max() < 1e-9, 'constraints', 'wrong Jacobian')
    ctx.digest(len(Y))
