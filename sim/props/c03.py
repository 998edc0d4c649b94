"""C03: bootstrap ranges are exact for every resampling outcome."""
import numpy as np

from .. import gens, ref
from ..world import must, attempt, need, make_draws, Armed
from ..boot import bootstrap_model, parse_replicates, int_draws
from .c01 import args_of, seed

RULE = ('A run is 1-3 bootstrapped estimates on one object (method, partition rule, data with repeats, weights, '
        'nboot 1-1000, ordinary or adversarial resampling outcomes, some preceded by an estimate that an injected '
        'failure ended inside the bootstrap). Non-trivial: the recorded draws were replayed through the reference '
        'bootstrap; distinct by method, sizes, nboot and draw policy.')
REAL = ['active_subspaces.subspaces', 'active_subspaces.gradients', 'active_subspaces.utils', 'numpy', 'scipy']
STUB = ['random outcomes of numpy.random inside the library', 'failures of linear algebra, allocations, draws']
ASSUMPTIONS = ['ranges are recomputed where the replicates are well conditioned; distances where the eigenvalue gaps '
               'are clear; otherwise only order, bounds and consistency are checked',
               'frequencies of resampled indices are tested at eight standard deviations, for ordinary draws only']


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ss = rng.choice(['AS', 'AS', 'OLS', 'QPHD', 'OPG'])
        d = gens.data_spec(rng)
        if rng.random() < 0.3:
            d['M'] = {'AS': rng.choice([1, 2, 3, 4])}.get(ss, d['m'] + 1)
        if ss == 'QPHD':
            d['M'] = max(d['M'], (d['m'] + 1) * (d['m'] + 2) // 2)
        if ss == 'OPG' and d['m'] > 4:
            d['m'], d['M'] = 3, max(6, min(d['M'], 15))
        op = {'op': 'compute', 'ss': ss, 'pt': rng.choice(['EVG', 'RS', 'LI']), 'd': d,
              'nboot': rng.choice([1, 1, 2, 3, 7, 20, 40, 60]) if ss != 'OPG' else rng.choice([1, 2, 4]),
              'X': rng.random() < 0.5, 'rs': rng.randrange(1 << 30)}
        if rng.random() < 0.05 and ss != 'OPG':
            d['m'], d['M'] = rng.choice([5, 8, 10]), rng.choice([80, 150, 300])
            op['nboot'] = rng.choice([20, 70, 100, 150])
        elif rng.random() < 0.04 and ss in ('AS', 'OLS') and d['m'] <= 4 and d['M'] <= 40:
            op['nboot'] = rng.choice([200, 250, 400, 1000])
        r = rng.random()
        if r < 0.45:
            op['draws'] = {'kind': rng.choice(['const-index', 'few-index', 'few-index', 'last-index', 'sticky']),
                           'few': rng.choice([1, 2, 3])}
            if rng.random() < 0.4:
                op['draws']['from'] = rng.randrange(6)
                op['draws']['to'] = op['draws']['from'] + rng.choice([1, 2, 5])
        if rng.random() < 0.25:
            op['fault'] = {'cat': rng.choice(['linalg', 'rng', 'alloc']), 'frac': rng.random(),
                           'kind': rng.choice(['LinAlgError', 'MemoryError', 'Interrupt'])}
        ops.append(op)
    return {'ops': ops}


def run(plan, ctx):
    from .. import lib
    w = ctx.world()
    ss = lib.Subspaces()
    for op in plan['ops']:
        kw, data = args_of(op)
        if op.get('fault'):
            # an estimate on the same object that fails inside
            s2 = lib.Subspaces()
            w.arm()
            seed(op['rs'])
            attempt(w, s2.compute, **kw)
            cnt = w.calls[op['fault']['cat']]
            w.arm(Armed(op['fault']['cat'], int(op['fault']['frac'] * cnt), op['fault']['kind']))
            seed(op['rs'])
            attempt(w, ss.compute, **kw)
            w.disarm()
        w.draws = make_draws(op.get('draws'))
        w.ndraws = 0
        w.recording = []
        seed(op['rs'] + 1)
        must(w, 'compute({}, {}, nboot={})'.format(op['ss'], op['pt'], op['nboot']), ss.compute, **kw)
        rec, w.recording = w.recording, None
        w.draws = None
        check(ctx, op, ss, data, rec)


def check(ctx, op, ss, data, rec):
    X, f, df, wt = data
    M, m = X.shape
    nb = op['nboot']
    e, W, eb, sb = ss.eigenvals, ss.eigenvecs, ss.e_br, ss.sub_br
    need(isinstance(eb, np.ndarray) and eb.shape == (m, 2), 'shape', 'eigenvalue ranges have shape {}', np.shape(eb))
    need(isinstance(sb, np.ndarray) and sb.shape == (m - 1, 3), 'shape', 'subspace ranges have shape {}', np.shape(sb))
    need(np.isfinite(eb).all() and np.isfinite(sb).all(), 'nonfinite', 'ranges {} {}', eb, sb)
    s = max(eb.max(), 1e-300)
    need((eb[:, 0] <= eb[:, 1]).all() and (eb >= 0).all(), 'order', 'eigenvalue ranges {}', eb)
    need((np.diff(eb, axis=0) <= 1e-9 * s).all(), 'order', 'ranges of sorted eigenvalues do not descend: {}', eb)
    t = 1e-9
    need((sb[:, 0] <= sb[:, 1] + t).all() and (sb[:, 1] <= sb[:, 2] + t).all() and (sb >= 0).all()
         and (sb <= 1 + t).all(), 'order', 'subspace error ranges {}', sb)
    if nb == 1:
        need(np.array_equal(eb[:, 0], eb[:, 1]) and np.abs(sb - sb[:, :1]).max() < t, 'one-replicate',
             'one replicate has a proper range')
    ctx.digest(eb, sb)
    draws = [v for name, v in (int_draws(rec) or []) if name in ('randint', 'random_integers', 'choice') and v.size == M]
    if M > 1 and 0 < len(draws) < nb and len(draws) == len([1 for r in rec if r[0] == 'rng' and np.size(r[4]) > 1]):
        need(False, 'replicates', '{} resamplings for {} replicates', len(draws), nb)
    reps = parse_replicates(rec, M, nb, op['ss'])
    ctx.sig(op['ss'], op['pt'], M, m, nb, str(op.get('draws')), reps is not None)
    if reps is None:
        ctx.probe('draws of unknown form')
        return
    idx = np.array([r[0] for r in reps['reps']])
    ordinary = not op.get('draws')
    if ordinary:
        if M >= 6 and nb >= 6:
            need(any(len(set(r)) < M for r in idx), 'replacement', 'no replicate repeats a sample: not with replacement')
        if nb >= 20:
            cnt = np.bincount(idx.ravel(), minlength=M)
            need(np.abs(cnt - nb).max() <= 8 * np.sqrt(nb) + 1, 'uniform', 'samples were drawn {} times each', cnt)
        if M >= 12 and nb >= 2:
            need(not all(np.array_equal(idx[0], r) for r in idx[1:]), 'independent', 'all replicates are the same')
    r = bootstrap_model(op['ss'], data, W, reps, nb)
    if r is None:
        ctx.probe('ill-conditioned replicates')
        return
    ctx.interesting = True
    ctx.probe('ranges recomputed')
    rt = 1e-8 if op['ss'] == 'AS' else 1e-6
    E, D = r['e'], r['dist']
    # well-conditioned fits: eigenvalues to rounding
    s = max(E.max(), 1e-300)
    need(np.abs(eb[:, 0] - E.min(axis=1)).max() <= rt * s and np.abs(eb[:, 1] - E.max(axis=1)).max() <= rt * s,
         'e-range', 'eigenvalue ranges {} instead of {}', eb.tolist(), [E.min(axis=1).tolist(), E.max(axis=1).tolist()])
    for j in range(m - 1):
        tol = 10 * r['sens'][j].max()
        if tol > 1e-3:
            ctx.probe('degenerate eigenspaces')
            continue
        tol = max(tol, 1e-7)
        ctx.probe('subspace errors recomputed')
        want = (D[j].min(), D[j].mean(), D[j].max())
        need(np.abs(sb[j] - want).max() <= tol, 'sub-range', 'subspace error ranges of dimension {}: {} instead of {}',
             j + 1, sb[j].tolist(), want)
