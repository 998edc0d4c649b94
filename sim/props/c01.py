"""C01: a Subspaces object always describes its last successful estimate (reference model over histories)."""
import numpy as np

from .. import gens, ref
from ..world import attempt, need, Violation, make_draws, Armed
from ..boot import bootstrap_model, parse_replicates

RULE = ('A run is a history of 1-7 compute/partition calls on one Subspaces object (method, partition rule, data, '
        'weights, bootstrap, invalid arguments, one injected failure in some calls, adversarial random draws); '
        'after every call the object is compared with a reference model. Non-trivial: at least one successful '
        'estimate followed by another call; distinct by the sequence of (method, rule, sizes, outcome, fault).')
REAL = ['active_subspaces.subspaces', 'active_subspaces.gradients', 'active_subspaces.utils', 'numpy', 'scipy']
STUB = ['random outcomes of numpy.random inside the library (adversarial transformations)',
        'failures of linear algebra, allocations, random draws (injected)']
ASSUMPTIONS = ['OPG and bootstrap reference values are recomputed from the recorded random draws when these have the '
               'expected form, and only checked for consistency otherwise',
               'ill-conditioned fits (condition number above 1e7) are only checked for consistency']

BAD = ['type', 'ptype', 'nodf', 'noboot', 'oned', 'mismatch', 'nan', 'none', 'n0', 'nbig', 'nfloat', 'nneg']


def gen(rng, i, tier):
    ops = []
    swarm = rng.choice(['mixed', 'same-m', 'as', 'boot', 'faulty'])
    m0 = rng.choice([2, 3, 4, 5])
    big = rng.random() < 0.06          # sizes of real studies
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 7])):
        r = rng.random()
        if r < 0.2 and ops:
            ops.append({'op': 'partition', 'n': rng.choice([1, 1, 2, 3, 4, 5])})
        elif r < 0.32:
            ops.append({'op': 'bad', 'what': rng.choice(BAD), 'd': gens.data_spec(rng, m0)})
        else:
            ss = rng.choice(['AS', 'AS', 'OLS', 'QPHD', 'OPG']) if swarm != 'as' else 'AS'
            pt = rng.choice(['EVG', 'EVG', 'RS', 'LI']) if swarm != 'boot' else rng.choice(['RS', 'LI', 'EVG'])
            m = m0 if swarm == 'same-m' or rng.random() < 0.5 else None
            d = gens.data_spec(rng, m)
            if ss == 'QPHD':
                d['M'] = max(d['M'], (d['m'] + 1) * (d['m'] + 2) // 2 + 2)
            if swarm == 'as' and rng.random() < 0.5:
                d['M'] = rng.choice([1, 2, 3, d['M']])
            op = {'op': 'compute', 'ss': ss, 'pt': pt, 'd': d,
                  'nboot': 0 if (pt == 'EVG' and rng.random() < 0.6) else rng.choice([1, 2, 5, 12]),
                  'X': rng.random() < 0.5, 'rs': rng.randrange(1 << 30)}
            if rng.random() < (0.6 if swarm == 'faulty' else 0.25):
                op['fault'] = {'cat': rng.choice(['linalg', 'linalg', 'rng', 'alloc', 'any']),
                               'frac': rng.choice([0.0, 0.999, rng.random(), rng.random()]),
                               'kind': rng.choice(['LinAlgError', 'MemoryError', 'Interrupt'])}
            if rng.random() < 0.12:
                op['draws'] = {'kind': rng.choice(['const-index', 'few-index', 'last-index', 'sticky']), 'few': rng.choice([1, 2, 3])}
            if ss == 'AS' and rng.random() < 0.25:
                d['rank'] = rng.choice([max(1, d['m'] - 1), d['m'], 2, 3])
                d['M'] += 3 * d['m']
            if big:
                d['m'] = rng.choice([8, 10, 12] if ss in ('QPHD', 'OPG') else [8, 10, 15, 20, 30, 45])
                d['M'] = rng.choice([100, 200, 400]) if ss in ('QPHD', 'OPG') else rng.choice([60, 150, 400, 1000])
                op['nboot'] = min(op['nboot'], 2) if ss == 'OPG' else rng.choice([op['nboot'], 100])
            ops.append(op)
    return {'ops': ops}


def args_of(op):
    X, f, df, w = gens.dataset(op['d'])
    kw = {'sstype': op['ss'], 'ptype': op['pt'], 'nboot': op['nboot']}
    if op['ss'] == 'AS':
        kw['df'] = df
        if op['X']:
            kw['X'], kw['f'] = X, f
    else:
        kw['X'], kw['f'] = X, f
    if w is not None:
        kw['weights'] = w
    return kw, (X, f, df, w if w is not None else np.ones((len(X), 1)) / len(X))


def snapshot(ss):
    out = []
    for k in ('eigenvals', 'eigenvecs', 'W1', 'W2', 'e_br', 'sub_br'):
        v = getattr(ss, k)
        out.append(None if v is None else np.array(v, copy=True))
    return out


def same(a, b):
    return all((x is None and y is None) or (x is not None and y is not None and x.shape == y.shape
                                             and np.array_equal(x, y, equal_nan=True)) for x, y in zip(a, b))


def check_split(ss, n):
    m = ss.eigenvecs.shape[0]
    need(ss.W1 is not None and ss.W2 is not None, 'split', 'no bases')
    need(ss.W1.shape == (m, n) and ss.W2.shape == (m, m - n), 'split', 'bases have shapes {} and {}, expected n={} of m={}',
         ss.W1.shape, ss.W2.shape, n, m)
    need(np.array_equal(ss.W1, ss.eigenvecs[:, :n]) and np.array_equal(ss.W2, ss.eigenvecs[:, n:]), 'split',
         'the bases are not the columns of the eigenvectors')


def run(plan, ctx):
    from .. import lib
    w = ctx.world()
    ss = lib.Subspaces()
    n = None        # dimension set by the last successful call, None before
    have = False
    prev = None
    for k, op in enumerate(plan['ops']):
        w.ev('op', k, op['op'])
        before = snapshot(ss)
        if op['op'] == 'partition':
            o = attempt(w, ss.partition, op['n'])
            if have and 1 <= op['n'] <= ss.eigenvecs.shape[0]:
                need(o.ok, 'raised', 'partition({}) raised {}', op['n'], o)
                n = op['n']
                b = snapshot(ss)
                need(same(b[:2] + b[4:], before[:2] + before[4:]), 'partition', 'partition changed the estimate')
            else:
                need(not o.ok, 'accepted', 'partition({}) of an object {} succeeded', op['n'], 'without that many directions')
                need(same(snapshot(ss), before), 'changed', 'a failed partition changed the object')
            ctx.sig('part', op['n'], o.ok)
        elif op['op'] == 'bad':
            o = bad(lib, w, ss, op, have)
            if o is None:
                continue
            if o.ok:
                raise Violation('accepted', 'an invalid call ({}) succeeded'.format(op['what']))
            need(same(snapshot(ss), before), 'changed', 'a call that raised ({}) changed the object', op['what'])
            ctx.sig('bad', op['what'])
            ctx.probe('failed calls')
        else:
            kw, data = args_of(op)
            fault = op.get('fault')
            if fault:
                # dry run on another object counts the calls a fault can strike
                s2 = lib.Subspaces()
                w.draws = make_draws(op.get('draws'))
                w.ndraws = 0
                w.arm()
                seed(op['rs'])
                attempt(w, s2.compute, **kw)
                cnt = w.calls[fault['cat']]
                if cnt:
                    w.arm(Armed(fault['cat'], min(cnt - 1, int(fault['frac'] * cnt)), fault['kind']))
            w.draws = make_draws(op.get('draws'))
            w.ndraws = 0
            w.recording = []
            seed(op['rs'])
            o = attempt(w, ss.compute, **kw)
            rec, w.recording = w.recording, None
            fl = w.disarm()
            w.draws = None
            hit = any(f.fired for f in fl)
            if not o.ok:
                if hit:
                    ctx.probe('failed estimates')
                need(hit, 'raised', 'compute({}, {}) on valid data raised {}', op['ss'], op['pt'], o)
                need(same(snapshot(ss), before), 'changed', 'a compute that raised ({}) changed the object', o)
            else:
                # a fault that was handled inside still must give a right answer
                n = check_estimate(ctx, ss, op, kw, data, rec)
                if have:
                    ctx.interesting = True
                have = True
            ctx.sig(op['ss'], op['pt'], op['d']['M'], op['d']['m'], op['nboot'], o.ok, hit, str(op.get('draws')))
        if have:
            check_split(ss, n)
            ref.check_eigen(ss.eigenvals, ss.eigenvecs)
            if len(plan['ops']) > 1:
                ctx.interesting = True
        for v in snapshot(ss):
            if v is not None:
                ctx.digest(v)


def seed(s):
    from .. import seams
    seams.ORIG['seed'](s % (2 ** 32))


def bad(lib, w, ss, op, have):
    X, f, df, wt = gens.dataset(op['d'])
    what = op['what']
    if what == 'type':
        return attempt(w, ss.compute, X=X, f=f, df=df, sstype='PCA')
    if what == 'ptype':
        return attempt(w, ss.compute, df=df, ptype='best')
    if what == 'nodf':
        return attempt(w, ss.compute, X=X, f=f, sstype='AS')
    if what == 'noboot':
        return attempt(w, ss.compute, df=df, ptype='RS' if op['d']['s'] % 2 else 'LI', nboot=0)
    if what == 'oned':
        return attempt(w, ss.compute, df=df[0])
    if what == 'mismatch':
        return attempt(w, ss.compute, X=X, f=f[:-1], sstype=['OLS', 'QPHD', 'OPG'][op['d']['s'] % 3])
    if what == 'nan':
        d2 = df.copy()
        d2[0, 0] = np.nan
        s2 = lib.Subspaces()
        if attempt(w, s2.compute, df=d2).ok:
            return None
        return attempt(w, ss.compute, df=d2)
    if what == 'none':
        return attempt(w, ss.compute)
    n = {'n0': 0, 'nbig': 99, 'nfloat': 1.5, 'nneg': -1}[what]
    return attempt(w, ss.partition, n)


def check_estimate(ctx, ss, op, kw, data, rec):
    X, f, df, w = data
    m = X.shape[1]
    e, W = ss.eigenvals, ss.eigenvecs
    C, cond = None, 1.0
    reps = parse_replicates(rec, len(X), op['nboot'], op['ss'])
    if reps is not None and reps['multi'] > 1:
        reps = None
    if op['ss'] == 'AS':
        C = ref.c_as(df, w)
    elif op['ss'] == 'OLS':
        C, cond = ref.c_ols(X, f, w)
    elif op['ss'] == 'QPHD':
        C, cond = ref.c_qphd(X, f, w)
    elif op['ss'] == 'OPG':
        C, cond = opg_matrix(ctx, X, f, reps)
    if C is not None and cond > 1e7:
        C = None
        ctx.probe('ill-conditioned estimates')
    ref.check_eigen(e, W, C, 1e-8 if cond < 1e4 else 1e-5)
    # the dimension
    ev = e[:, 0]
    if op['nboot'] == 0:
        need(ss.e_br is None and ss.sub_br is None, 'stale', 'bootstrap ranges without bootstrap')
    else:
        need(ss.e_br is not None and ss.e_br.shape == (m, 2) and ss.sub_br is not None and ss.sub_br.shape == (m - 1, 3),
             'shape', 'bootstrap ranges missing or of wrong shape')
    n = ss.W1.shape[1]
    s = max(ev[0], 1e-300)
    if op['pt'] == 'EVG':
        gap = -np.diff(ev)
        need(1 <= n <= m - 1, 'dimension', 'n={} by EVG', n)
        need(gap[n - 1] >= gap.max() - 1e-9 * s, 'dimension', 'EVG chose n={} with gaps {}', n, gap)
    elif op['pt'] == 'RS':
        need(1 <= n <= m - 1, 'dimension', 'n={} by RS', n)
        b = np.array([np.sqrt(ev[:i + 1].sum()) * ss.sub_br[i, 1] + np.sqrt(ev[i + 1:].sum()) for i in range(m - 1)])
        need(b[n - 1] <= b.min() + 1e-7 * max(b.max(), 1e-300), 'dimension', 'RS chose n={} with bounds {}', n, b)
    else:
        need(1 <= n <= m, 'dimension', 'n={} by LI', n)
        G = None
        if reps is not None:
            G = li_model(op, data, ss, reps)
        if G is not None:
            ctx.probe('ladle values recomputed')
            need(G[n - 1] <= G.min() + 1e-6, 'dimension', 'LI chose n={} with values {}', n, G)
    if reps is not None:
        ctx.probe('estimates with parsed draws')
    return n


def opg_matrix(ctx, X, f, reps):
    """Second moment of the local slopes at the recorded base points."""
    if reps is None:
        return None, 1.0
    base = reps['base']
    M, m = X.shape
    if len(base) != min(int(np.ceil(10 * m * np.log(m))), M - 1):
        return None, 1.0
    C = np.zeros((m, m))
    cmax = 1.0
    p = ref.opg_p(M, m)
    for b in base:
        s = ref.local_slope(X, f, b, p)
        if s is None or len(s) != 1:
            return None, 1.0
        cmax = max(cmax, s[0][1])
        C += np.outer(s[0][0], s[0][0])
    ctx.probe('OPG estimates recomputed')
    return C / len(base), cmax


def li_model(op, data, ss, reps):
    r = bootstrap_model(op['ss'], data, ss.eigenvecs, reps, op['nboot'])
    if r is None:
        return None
    det = r['det']
    m = ss.eigenvecs.shape[0]
    F = np.concatenate(([0.0], (1 - np.abs(det)).mean(axis=1)))
    if F.sum() < 1e-6 or r['sens'].max() / F.sum() > 1e-8:
        return None     # degenerate eigenspaces: any basis of them is right
    e = ss.eigenvals[:, 0]
    return F / F.sum() + e / e.sum()
