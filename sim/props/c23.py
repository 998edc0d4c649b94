"""C23: a trained response surface is the fit that its last successful training defines."""
import itertools

import numpy as np

from .. import gens, seams
from ..world import attempt, must, need, Armed

RULE = ('A run trains one surface (polynomial of degree 1-5 or radial basis of degree 0-3) two to six times on different data '
        '(numbers of points and variables, weights, noise levels, eigenvalues, memory layouts), with failures and interrupts '
        'injected at seeded calls and bad arguments in between, and after every attempt compares predictions, gradients, '
        'coefficients, noise, length scales and R-squared with an own solution of the defining equations for the last data '
        'whose training succeeded. Non-trivial: a comparison was made; distinct by surface, degree, sizes, functions, options, faults.')
REAL = ['active_subspaces.utils.response_surfaces', 'SciPy fminbound', 'numpy']
STUB = ['failures at external calls']
ASSUMPTIONS = ['fits whose equations have a condition number above 1e7 (polynomial) or 1e10 (radial basis) are not decided',
               'the length-scale factor is compared with its score only where double precision decides the score (kernel condition below 1e6, '
               'residual above 1e-3 of the data)']

KINDS = {'linalg': ['LinAlgError', 'MemoryError', 'Interrupt'], 'alloc': ['MemoryError', 'Interrupt'],
         'solver': ['ValueError', 'MemoryError', 'Interrupt'], 'any': ['MemoryError', 'Interrupt']}
FUN = ['quad', 'lin', 'const', 'ridge', 'exp', 'sep', 'poly', 'poly', 'rand']


def nterms(m, deg):
    r = 1
    for k in range(1, m + 1):
        r = r * (deg + k) // k
    return r


def gen(rng, i, tier):
    surf = rng.choice(['poly', 'poly', 'rbf', 'rbf'])
    deg = rng.choice([1, 2, 2, 2, 3, 3, 4, 5]) if surf == 'poly' else rng.choice([0, 1, 2, 2, 3])
    ops = []
    for _ in range(rng.choice([2, 2, 3, 4, 6])):
        m = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        while nterms(m, deg) > 84:
            m -= 1
        p = nterms(m, deg)
        o = {'m': m, 'M': p + rng.choice([0, 1, 2, 5, 10, 25]), 's': rng.randrange(1 << 30),
             'f': rng.choice(FUN), 'fscale': rng.choice([1.0, 1.0, 1e3, 1e-4]), 'noise': rng.choice([0, 0, 1e-3, 0.3]),
             'pts': rng.choice(['uniform', 'uniform', 'normal', 'int', 'dup', 'shift', 'wide', 'narrow']),
             'layout': rng.choice([None, None, 'F', 'view', 'step']),
             'nx': rng.choice([1, 2, 5, 5, 5, 5, 40, 40, 700]), 'px': rng.choice(['uniform', 'training', 'zero', 'far', 'int'])}
        if rng.random() < 0.04:
            o['M'] = rng.choice([150, 300]) if surf == 'poly' else rng.choice([90, 130])
        if surf == 'poly':
            o['w'] = rng.choice([None, None, 'rand', 'skew', 'const', 'zeros'])
        else:
            o['v'] = rng.choice([None, None, 'small', 'rand', 'const', 'zero', 'mixed', 'big'])
            o['vflat'] = rng.random() < 0.3
            o['e'] = rng.choice([None, 'geom', 'geom', 'flat', 'tail0', 'same', 'exact'])
            o['eflat'] = rng.random() < 0.2
        x = rng.random()
        if x < 0.3:
            c = rng.choice(['linalg', 'linalg', 'alloc', 'alloc', 'any'] + (['solver'] if surf == 'rbf' else []))
            o['fault'] = {'cat': c, 'kind': rng.choice(KINDS[c]), 'frac': rng.choice([0.0, 0.999, 0.97, 0.97, rng.random(), rng.random()])}
            o['retry'] = rng.random() < 0.6
        elif x < 0.4:
            o['bad'] = rng.choice(['few', '1d', 'rows', 'weights', 'none', 'fcols'])
        ops.append(o)
    return {'surf': surf, 'deg': deg, 'ops': ops}


def exps(m, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=m) if sum(e) <= deg]


def basis(X, deg):
    X = np.asarray(X, dtype=float)
    return np.array([np.prod(X ** np.array(e), axis=1) for e in exps(X.shape[1], deg)]).T.reshape((len(X), -1))


def dbasis(X, deg):
    """Derivatives of the monomials: one matrix for each variable."""
    X = np.asarray(X, dtype=float)
    out = []
    for k in range(X.shape[1]):
        cols = []
        for e in exps(X.shape[1], deg):
            if e[k] == 0:
                cols.append(np.zeros(len(X)))
            else:
                d = list(e)
                d[k] -= 1
                cols.append(e[k] * np.prod(X ** np.array(d), axis=1))
        out.append(np.array(cols).T.reshape((len(X), -1)))
    return out


def layout(A, kind):
    if kind == 'F':
        return np.asfortranarray(A)
    if kind == 'view':
        B = np.full((A.shape[0] * 2, A.shape[1] + 2), 7.0)
        B[::2, 1:-1] = A
        return B[::2, 1:-1]
    if kind == 'step':
        B = np.full((A.shape[0], 2 * A.shape[1]), -3.0)
        B[:, ::2] = A
        return B[:, ::2]
    return A.copy()


def data(o, deg):
    r = gens.RS(o['s'])
    m, M = o['m'], o['M']
    k = o['pts']
    if k == 'normal':
        X = r.normal(size=(M, m))
    elif k == 'int':
        X = r.randint(-3, 4, (M, m)).astype(float) + (0.1 * r.uniform(-1, 1, (M, m)) if r.rand() < 0.5 else 0)
    else:
        X = r.uniform(-1, 1, (M, m))
        if k == 'dup' and M > 3:
            X[M // 2:] = X[r.randint(0, max(1, M // 2), M - M // 2)]
        elif k == 'shift':
            X = X + r.uniform(-1, 1, (1, m))
        elif k == 'wide':
            X = 4.0 * X
        elif k == 'narrow':
            X = 0.3 * X
    c = None
    if o['f'] == 'poly':
        E = exps(m, deg)
        c = r.normal(size=(len(E), 1))
        f = basis(X, deg).dot(c)
    elif o['f'] == 'rand':
        f = r.normal(size=(M, 1))
    else:
        fun = gens.function({'s': o['s'], 'f': o['f']}, m)[0]
        f = np.array([[float(fun(x))] for x in X]).reshape((M, 1))
    if o['noise']:
        f, c = f + o['noise'] * r.normal(size=f.shape), None
    f = f * o['fscale']
    kw = {}
    w = o.get('w')
    if w == 'rand':
        kw['weights'] = r.uniform(0.2, 2.0, (M, 1))
    elif w == 'skew':
        kw['weights'] = 10.0 ** r.uniform(-2, 0, (M, 1))
    elif w == 'const':
        kw['weights'] = np.full((M, 1), r.uniform(0.1, 3))
    elif w == 'zeros':
        kw['weights'] = r.uniform(0.2, 2.0, (M, 1)) * (r.rand(M, 1) < 0.8)
    v = o.get('v')
    if v == 'small':
        kw['v'] = r.uniform(1e-8, 1e-4, (M, 1))
    elif v == 'rand':
        kw['v'] = r.uniform(0.01, 1.0, (M, 1))
    elif v == 'big':
        kw['v'] = r.uniform(1.0, 30.0, (M, 1))
    elif v == 'const':
        kw['v'] = np.full((M, 1), r.uniform(1e-3, 1))
    elif v == 'zero':
        kw['v'] = np.zeros((M, 1))
    elif v == 'mixed':
        kw['v'] = r.choice([0.0, 1e-6, 1e-5, 0.1, 2.0], (M, 1))
    if 'v' in kw and o['vflat']:
        kw['v'] = kw['v'].ravel()
    e = o.get('e')
    if e:
        D = m + (0 if e == 'exact' else r.randint(1, 4))
        ev = np.sort(10.0 ** r.uniform(-3, 1, D))[::-1]
        if e == 'flat':
            ev = np.ones(D) * r.uniform(0.1, 5)
        elif e == 'tail0':
            ev[m:] = 0.0
        elif e == 'same':
            ev[m:] = ev[m - 1]
        kw['e'] = ev.copy() if o['eflat'] else ev.reshape((D, 1)).copy()
    X, f = layout(X, o['layout']), layout(f, o['layout'])
    return X, f, kw, (None if c is None else c * o['fscale'])


def probe_points(o, X):
    r = gens.RS(o['s'] + 5)
    m, n = o['m'], o['nx']
    k = o['px']
    if k == 'training':
        return X[r.randint(0, len(X), n)].copy()
    if k == 'zero':
        Q = np.zeros((n, m))
        Q[1:] = r.uniform(-0.1, 0.1, (n - 1, m))
        return Q
    if k == 'far':
        return r.uniform(-3, 3, (n, m))
    if k == 'int':
        return r.randint(-2, 3, (n, m))
    return layout(r.uniform(-1, 1, (n, m)), o['layout'])


def spoil(o, deg, X, f, kw):
    b = o['bad']
    if b == 'few':
        p = nterms(o['m'], deg)
        return X[:p - 1], f[:p - 1], {}
    if b == '1d':
        return X.ravel(), f, kw
    if b == 'rows':
        return X, f[:-1], kw
    if b == 'none':
        return None, f, kw
    if b == 'fcols':
        return X, np.hstack((f, f)), kw
    if b == 'weights':
        kw = dict(kw)
        kw['weights' if 'w' in o else 'v'] = np.ones((len(X) + 1, 1))
        return X, f, kw
    raise KeyError(b)


def run(plan, ctx):
    from .. import lib
    w = ctx.world(quiet=plan['surf'] != 'poly')
    cls = lib.PolynomialApproximation if plan['surf'] == 'poly' else lib.RadialBasisApproximation
    s = cls(plan['deg'])
    ctx.sig(plan['surf'], plan['deg'])
    last = None
    for o in plan['ops']:
        X, f, kw, c = data(o, plan['deg'])
        ctx.sig(o['m'], o['M'], o['f'], o['pts'], o.get('w'), o.get('v'), o.get('e'), o['layout'], o.get('bad'),
                str(o.get('fault') and (o['fault']['cat'], o['fault']['kind'], int(5 * o['fault']['frac']))))
        if o.get('bad'):
            X2, f2, kw2 = spoil(o, plan['deg'], X, f, kw)
            oc = attempt(w, s.train, X2, f2, **kw2)
            if oc.ok:
                # accepted after all: what it means is not specified, but the next training is
                if o['bad'] == 'few':
                    need(False, 'few', 'trained on {} points for {} coefficients', len(X2), nterms(o['m'], plan['deg']))
                last = None
                continue
            ctx.probe('refused trainings')
            if last is not None:
                check(ctx, w, plan, s, last, 'after a refused training')
            continue
        if o.get('fault'):
            fl = o['fault']
            w.arm()
            attempt(w, cls(plan['deg']).train, X, f, **kw)
            cnt = sum(w.calls.values()) if fl['cat'] == 'any' else w.calls[fl['cat']]
            if cnt:
                w.arm(Armed(fl['cat'], min(cnt - 1, int(fl['frac'] * cnt)), fl['kind']))
            oc = attempt(w, s.train, X, f, **kw)
            w.disarm()
            if not oc.ok:
                ctx.probe('struck trainings')
                if last is not None:
                    check(ctx, w, plan, s, last, 'after a training that raised {}'.format(oc))
                if not o['retry']:
                    continue
                oc = attempt(w, s.train, X, f, **kw)
        else:
            oc = attempt(w, s.train, X, f, **kw)
        if not oc.ok:
            B = basis(X, plan['deg'])
            need(cond(B * kw.get('weights', 1.0) if plan['surf'] == 'poly' else B) > 1e8, 'raised', 'training on {} points in {} variables raised {}', o['M'], o['m'], oc)
            ctx.probe('degenerate points refused')
            if last is not None:
                check(ctx, w, plan, s, last, 'after a failed training')
            continue
        last = {'X': np.array(X), 'f': np.array(f), 'kw': {k: a.copy() for k, a in kw.items()}, 'o': o, 'c': c,
                'Q': probe_points(o, np.asarray(X))}
        check(ctx, w, plan, s, last, 'after training')
    ctx.digest(ctx.interesting)


def cond(A):
    sc = np.abs(A).max(axis=0)
    sc[sc == 0] = 1.0
    sv = np.linalg.svd(A / sc, compute_uv=False)
    return sv[0] / max(sv[-1], 1e-300) if A.shape[0] >= A.shape[1] else np.inf


def check(ctx, w, plan, s, L, when):
    o, Q, X, f = L['o'], L['Q'], L['X'], L['f']
    n, m = Q.shape
    P = must(w, 'predict', s.predict, Q, compgrad=True)
    need(np.shape(P[0]) == (n, 1) and np.shape(P[1]) == (n, m), 'shape', '{}: predictions {} and gradients {} at {} points',
         when, np.shape(P[0]), np.shape(P[1]), n)
    p1 = must(w, 'predict', s.predict, Q)
    need(p1[1] is None, 'shape', '{}: gradients that were not asked for', when)
    sf = max(np.abs(f).max(), np.abs(P[0]).max(), 1e-300)
    # what rounding leaves of sums of large terms
    ext = max(1.0, np.abs(np.asarray(Q, dtype=float)).max()) ** plan['deg']
    lf = 1e-12 * sf + 1e-13 * ext * np.abs(s.poly_weights).sum()
    lg = 1e-12 * max(np.abs(P[1]).max(), 1e-300) + 1e-12 * ext * np.abs(s.poly_weights).sum()
    if plan['surf'] != 'poly':
        lf += 1e-13 * np.abs(s.radial_weights).sum()
        lg += 1e-13 * np.abs(s.radial_weights).sum() * (1 + np.min(s.ell) ** -0.5)
    need(np.abs(p1[0] - P[0]).max() <= lf, 'differs', '{}: predictions depend on whether gradients are asked for', when)
    need(np.abs(must(w, 'call', s, Q) - P[0]).max() <= lf, 'differs', '{}: calling differs from predict', when)
    g = must(w, 'gradient', s.gradient, Q)
    need(np.shape(g) == (n, m) and np.abs(g - P[1]).max() <= lg, 'differs', '{}: gradient differs from predict', when)
    if 'P' in L:
        need(np.abs(P[0] - L['P'][0]).max() <= 10 * lf and np.abs(P[1] - L['P'][1]).max() <= 10 * lg, 'changed',
             '{}: the predictions changed', when)
    L['P'] = P
    one = must(w, 'predict', s.predict, Q[:1], compgrad=True)
    need(np.abs(one[0] - P[0][:1]).max() <= 100 * lf and np.abs(one[1] - P[1][:1]).max() <= 100 * lg, 'differs',
         '{}: a point alone is predicted differently', when)
    (polynomial if plan['surf'] == 'poly' else radial)(ctx, plan, s, L, P, when)


def polynomial(ctx, plan, s, L, P, when):
    deg, X, f, Q = plan['deg'], L['X'], L['f'], L['Q']
    M, m = X.shape
    wt = L['kw'].get('weights', np.ones((M, 1)))
    B = basis(X, deg)
    A, y = B * wt, f * wt
    sv = np.linalg.svd(A, compute_uv=False)
    k = sv[0] / max(sv[-1], 1e-300) if M >= A.shape[1] else np.inf
    if k > 1e7:
        ctx.probe('badly conditioned')
        return
    c = np.linalg.qr(A)
    c = np.linalg.solve(c[1], c[0].T.dot(y))
    res = A.dot(c) - y
    # error bound of least squares
    rel = 1e-14 * np.sqrt(M * len(c)) * (k * np.linalg.norm(c) + k * k * np.linalg.norm(res) / sv[0] + np.linalg.norm(y) / sv[-1])
    rel = 10 * rel + 1e-300
    BQ, dBQ = basis(Q, deg), dbasis(Q, deg)
    tol = rel * max(np.linalg.norm(BQ, axis=1).max(), 1.0) + 1e-13 * np.abs(BQ).dot(np.abs(c)).max()
    err = np.abs(BQ.dot(c) - P[0]).max()
    need(err <= tol, 'fit', '{}: predictions differ by {:.3g} from the least-squares polynomial of degree {} (at most {:.3g})', when, err, deg, tol)
    D = np.hstack([d.dot(c) for d in dBQ])
    tg = rel * max(max(np.linalg.norm(d, axis=1).max() for d in dBQ), 1.0) + 1e-13 * max(np.abs(d).dot(np.abs(c)).max() for d in dBQ)
    err = np.abs(D - P[1]).max()
    need(err <= tg, 'derivative', '{}: gradients differ by {:.3g} from the derivative of the polynomial', when, err)
    E = exps(m, deg)
    g = np.array([[c[E.index(tuple(int(i == j) for j in range(m))), 0]] for i in range(m)])
    need(np.shape(s.g) == (m, 1) and np.abs(s.g - g).max() <= 2 * rel, 'linear', '{}: g is not the linear part', when)
    if deg > 1:
        H = np.zeros((m, m))
        for i in range(m):
            for j in range(m):
                e = [0] * m
                e[i] += 1
                e[j] += 1
                H[i, j] = c[E.index(tuple(e)), 0] * (2 if i == j else 1)
        need(np.shape(s.H) == (m, m) and np.abs(s.H - H).max() <= 4 * rel, 'quadratic', '{}: H is not the quadratic part', when)
    if np.ptp(wt) == 0:
        var = float(np.mean((f - f.mean()) ** 2))
        if var > 1e-8 * float(np.mean(f ** 2)):
            r2 = 1 - float(np.sum((B.dot(c) - f) ** 2)) / (M * var)
            need(abs(float(s.Rsqr) - r2) <= 1e-7 + 1e3 * rel * np.linalg.norm(B, 2) / np.sqrt(M * var), 'rsqr', '{}: R-squared is {}, of this fit {}', when, s.Rsqr, r2)
            ctx.probe('R-squared compared')
    if L['c'] is not None:
        err = np.abs(BQ.dot(L['c']) - P[0]).max()
        need(err <= 2 * tol + 1e-12 * k * np.abs(BQ.dot(L['c'])).max(), 'reproduce', '{}: a polynomial is missed by {:.3g}', when, err)
        ctx.probe('polynomials reproduced')
    ctx.probe('fits compared')
    ctx.interesting = True


def kernel(A, B, ell):
    D = A[:, None, :] - B[None, :, :]
    return np.exp(-(D ** 2 / ell).sum(axis=2))


def score(t, X, f, B, kw):
    """The likelihood score of a length-scale factor 10^t."""
    M, m = X.shape
    g = 10.0 ** t
    e = kw.get('e')
    if e is None:
        ell, noise = np.full(m, g), np.full(M, 1e-6)
    else:
        e = e.ravel()
        ell, noise = g * e.sum() / e[:m], np.full(M, g * e[m:].sum())
    if 'v' in kw:
        noise = np.asarray(kw['v'], dtype=float).ravel()
    K = kernel(X, X, ell) + np.diag(np.maximum(noise, 1e-6))
    L = np.linalg.cholesky(K)
    z = np.linalg.solve(L, np.hstack((B, f)))
    q, _ = np.linalg.qr(z[:, :-1])
    r = z[:, -1:] - q.dot(q.T.dot(z[:, -1:]))
    if np.linalg.cond(L) ** 2 > 1e6 or np.sum(r * r) < 1e-6 * np.sum(z[:, -1] ** 2):
        return None         # decided by rounding
    return float(np.sum(np.log(np.diag(L))) + M * np.log(max(float(np.sum(r * r)) / M, 5 * np.finfo(float).eps)))


def optimum(ctx, X, f, deg, g, kw):
    """The factor is a local optimum of the score, as far as rounding in the score can tell."""
    B = basis(X, deg)
    sc = np.abs(B).max(axis=0)
    B = B / np.where(sc == 0, 1.0, sc)
    if np.linalg.cond(B) > 1e6:
        return
    t = np.log10(g)
    if any(score(u, X, f, B, kw) is None for u in (t, max(t - 0.1, -10), min(t + 0.1, 1))):
        return
    s0 = score(t, X, f, B, kw)
    near = [score(min(max(t + d, -10), 1), X, f, B, kw) for d in (-3e-7, -1e-7, 1e-7, 3e-7)]
    if None in near:
        return
    noise = max(abs(x - s0) for x in near)
    for h in (0.03, 0.1):
        for u in (t - h, t + h):
            if -10 <= u <= 1:
                d = score(u, X, f, B, kw)
                if d is None:
                    continue
                d = s0 - d
                need(d <= 1e-3 + 100 * noise, 'scales', 'the length-scale factor 10^{:.4f} scores {:.6g}, 10^{:.4f} scores better by {:.3g}', t, s0, u, d)
    ctx.probe('length-scale factors compared')


def radial(ctx, plan, s, L, P, when):
    deg, X, f, Q, kw = plan['deg'], L['X'], L['f'], np.asarray(L['Q'], dtype=float), L['kw']
    M, m = X.shape
    ell = np.asarray(s.ell, dtype=float).ravel()
    need(ell.shape == (m,) and np.all(np.isfinite(ell)) and np.all(ell > 0), 'scales', '{}: length scales {}', when, s.ell)
    e = kw.get('e')
    if e is None:
        g = ell[0]
        need(np.abs(ell - g).max() <= 1e-12 * g, 'scales', '{}: without eigenvalues the length scales differ: {}', when, ell)
        noise = np.full(M, 1e-6)
    else:
        e = e.ravel()
        q = ell * e[:m] / e.sum()
        g = q[0]
        need(np.abs(q - g).max() <= 1e-11 * g, 'scales', '{}: length scales {} are not inverse to the eigenvalues {}', when, ell, e[:m])
        noise = np.full(M, g * e[m:].sum())
    need(0.99e-10 <= g <= 10.1, 'scales', '{}: the length scale {} left its range', when, g)
    if 'v' in kw:
        noise = np.asarray(kw['v'], dtype=float).ravel()
    noise = np.maximum(noise, 1e-6)
    if when == 'after training':
        optimum(ctx, X, f, deg, g, kw)
    K = kernel(X, X, ell) + np.diag(noise)
    need(np.shape(s.K) == (M, M) and np.abs(s.K - K).max() <= 1e-10 * max(1.0, noise.max()), 'kernel', '{}: K differs by {:.3g} from the kernel with the noise levels',
         when, np.abs(s.K - K).max() if np.shape(s.K) == (M, M) else np.inf)
    B = basis(X, deg)
    p = B.shape[1]
    # scaled saddle-point system, and the accuracy that double precision leaves
    sc = np.abs(B).max(axis=0)
    sc[sc == 0] = 1.0
    Bs = B / sc
    C = np.block([[K, Bs], [Bs.T, np.zeros((p, p))]])
    sv = np.linalg.svd(C, compute_uv=False)
    C0 = np.block([[K, B], [B.T, np.zeros((p, p))]])
    sv0 = np.linalg.svd(C0, compute_uv=False)
    k = max(sv[0] / max(sv[-1], 1e-300), sv0[0] / max(sv0[-1], 1e-300))
    if k > 1e10:
        ctx.probe('badly conditioned')
        return
    sol = np.linalg.solve(C, np.vstack((f, np.zeros((p, 1)))))
    sol = sol + np.linalg.solve(C, np.vstack((f, np.zeros((p, 1)))) - C.dot(sol))
    rw, pw = sol[:M], sol[M:] / sc[:, None]
    KQ = kernel(Q, X, ell)
    BQ = basis(Q, deg)
    F = KQ.dot(rw) + BQ.dot(pw)
    size = np.linalg.norm(np.vstack((rw, pw)))
    unc = 1e-15 * k * size * np.sqrt(M + p) * 10
    tol = unc * max(np.linalg.norm(np.hstack((KQ, BQ)), axis=1).max(), 1.0) + 1e-300
    lim = 1e-3 * max(np.abs(f).max(), np.abs(F).max(), 1e-300)
    if tol > lim:
        # a bound by the size of the residuals of the equations instead
        ctx.probe('prediction left undecided')
    else:
        err = np.abs(F - P[0]).max()
        need(err <= tol + 1e-9 * np.abs(f).max(), 'fit', '{}: predictions differ by {:.3g} from the solution of the defining equations (at most {:.3g})', when, err, tol)
        D = []
        dB = dbasis(Q, deg)
        nrm = 1.0
        for i in range(m):
            dK = -2.0 * (Q[:, i][:, None] - X[:, i][None, :]) / ell[i] * KQ
            D.append(dK.dot(rw) + dB[i].dot(pw))
            nrm = max(nrm, np.linalg.norm(np.hstack((dK, dB[i])), axis=1).max())
        D = np.hstack(D)
        tg = unc * nrm + 1e-9 * max(np.abs(D).max(), np.abs(f).max())
        err = np.abs(D - P[1]).max()
        need(err <= tg, 'derivative', '{}: gradients differ by {:.3g} from the derivative (at most {:.3g})', when, err, tg)
        ctx.probe('fits compared')
        ctx.interesting = True
    res = f - B.dot(pw)
    a, b = float(res.T.dot(np.linalg.solve(K, res))), float(f.T.dot(np.linalg.solve(K, f)))
    if b > 0 and k < 1e9 and np.abs(f).max() > 0:
        r2 = 1 - a / b
        rel = unc * np.abs(B).max() * p / max(np.abs(f).max(), 1e-300)
        if rel < 1e-6:
            need(abs(float(s.Rsqr) - r2) <= 1e-5 + 1e-14 * k * M + 1e3 * rel, 'rsqr', '{}: R-squared is {}, of this fit {}', when, s.Rsqr, r2)
            ctx.probe('R-squared compared')
    if L['c'] is not None:
        want = BQ.dot(L['c'])
        kb = np.linalg.cond(B)
        t = (1e-11 * kb * np.abs(f).max() + unc) * max(np.linalg.norm(BQ, axis=1).max(), 1.0) * 10
        if t <= 1e-2 * max(np.abs(want).max(), np.abs(f).max()):
            err = np.abs(want - P[0]).max()
            need(err <= t, 'reproduce', '{}: a polynomial of degree {} is missed by {:.3g} (at most {:.3g})', when, deg, err, t)
            ctx.probe('polynomials reproduced')
