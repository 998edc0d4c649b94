"""Deterministic data from small JSON specifications."""
import itertools

import numpy as np

from . import seams


def RS(seed):
    return seams.ORIG['RandomState'](int(seed) % (2 ** 32))


def separated(A, n, lim=None):
    """No tiny cells: the rows of the first n columns, parallel ones merged, are clearly independent in sets of n."""
    if n == 1:
        return True
    nr = np.linalg.norm(A[:, :n], axis=1)
    rows = []
    for r, q in zip(A[:, :n], nr):
        if q <= 1e-13 * nr.max():
            continue
        r = r / q
        if not any(min(np.linalg.norm(r - t), np.linalg.norm(r + t)) < 1e-9 for t in rows):
            rows.append(r)
    lim = lim or (0.01 if n == 2 else 0.06)
    if min(nr[nr > 1e-13 * nr.max()]) < 1e-3:
        return False
    return all(abs(np.linalg.det(np.array(c))) > lim for c in itertools.combinations(rows, n))


def ortho(spec):
    """An orthogonal matrix from a spec, whose active basis has no nearly degenerate arrangement."""
    W = None
    for t in range(60):
        W = _ortho(dict(spec, s=spec['s'] + 7919 * t))
        if separated(W, spec.get('n', 1), 2e-4 if spec.get('kind') == 'slender' else None):
            break
    return W


def _ortho(spec):
    """An m-by-m orthogonal matrix. kinds: haar, axis (permutation), block, zero (some inputs do not
    matter), parallel (some inputs act together)."""
    rng = RS(spec['s'])
    m = spec['m']
    kind = spec.get('kind', 'haar')
    n = spec.get('n', 1)
    if kind == 'axis':
        W = np.eye(m)[:, rng.permutation(m)]
        return W
    if kind == 'block':
        k = max(1, min(m - 1, n))
        W = np.zeros((m, m))
        p = rng.permutation(m)
        A = np.linalg.qr(rng.normal(size=(k, k)))[0]
        B = np.linalg.qr(rng.normal(size=(m - k, m - k)))[0]
        W[:k, :k], W[k:, k:] = A, B
        return W[p]
    A = rng.normal(size=(m, m))
    if kind == 'zero':
        z = rng.permutation(m)[:max(1, m - n - 1 - rng.randint(0, 2))] if m - n - 1 >= 1 else []
        A[:, :n][z] = 0.0
        return complete(A[:, :n], rng)
    if kind == 'parallel':
        for _ in range(1 + rng.randint(0, 2)):
            i, j = rng.permutation(m)[:2]
            A[i, :n] = rng.choice([-2.0, -1.0, 0.5, 1.0]) * A[j, :n]
        if np.linalg.matrix_rank(A[:, :n]) == n:
            return complete(A[:, :n], rng)
    if kind == 'slender':               # inputs that almost act together
        i, j = rng.permutation(m)[:2]
        A[i, :n] = rng.choice([-2.0, -1.0, 0.5, 1.0]) * A[j, :n] + 10.0 ** rng.uniform(-3.0, -1.8) * rng.normal(size=n)
        return complete(A[:, :n], rng)
    W = np.linalg.qr(A)[0]
    return W


def complete(A, rng):
    """An orthogonal matrix whose first columns span those of A, by the same row operations (so that zero
    and parallel rows stay zero and parallel)."""
    m, n = A.shape
    R = np.linalg.cholesky(A.T.dot(A)).T
    Q = A.dot(np.linalg.inv(R))
    Q = Q.dot(np.linalg.inv(np.linalg.cholesky(Q.T.dot(Q)).T))
    P = np.eye(m) - Q.dot(Q.T)
    B = P.dot(rng.normal(size=(m, m - n)))
    Z = np.linalg.qr(B)[0]
    Z = Z - Q.dot(Q.T.dot(Z))
    Z = np.linalg.qr(Z)[0]
    return np.hstack((Q, Z))


def subspace(lib, spec):
    """A Subspaces object with the prescribed eigenvectors, made by the library's own compute."""
    W = ortho(spec)
    m = W.shape[0]
    ss = lib.Subspaces()
    rng = RS(spec['s'] + 17)
    lam = np.sort(rng.uniform(0.2, 2.0, m))[::-1] * 2.0 ** -np.arange(m)
    # gradients with second moment W diag(lam) W'
    df = np.sqrt(lam * m)[:, None] * W.T
    ss.compute(df=df)
    ss.partition(int(spec['n']))
    return ss


def exact_subspace(lib, spec):
    """A Subspaces object with exactly the prescribed eigenvectors (a legal state: any orthogonal matrix
    can be the eigenvectors of an estimate)."""
    W = ortho(spec)
    s = np.sign(W[0])
    s[s == 0] = 1
    W = W * s
    m = W.shape[0]
    ss = lib.Subspaces()
    lam = 2.0 ** -np.arange(m)
    ss.eigenvals = lam.reshape((m, 1))
    ss.eigenvecs = W
    ss.partition(int(spec['n']))
    return ss


def points(spec):
    rng = RS(spec['s'])
    M, m = spec['M'], spec['m']
    kind = spec.get('x', 'uniform')
    if kind == 'uniform':
        X = rng.uniform(-1, 1, (M, m))
    elif kind == 'gauss':
        X = rng.normal(size=(M, m))
    elif kind == 'wide':
        X = 5.0 * rng.uniform(-1, 1, (M, m)) + 1.0
    elif kind == 'neg':                 # only the lower end leaves the hypercube
        X = rng.uniform(-1, 1, (M, m))
        X[rng.randint(M), rng.randint(m)] = -1.5
    elif kind == 'pos':
        X = rng.uniform(-1, 1, (M, m))
        X[rng.randint(M), rng.randint(m)] = 1.5
    elif kind == 'edge':                # some points exactly on the faces
        X = np.clip(1.4 * rng.uniform(-1, 1, (M, m)), -1, 1)
    elif kind == 'grid':
        X = rng.randint(-2, 3, (M, m)) / 2.0
    elif kind == 'int':
        X = rng.randint(-2, 3, (M, m)).astype(float)
    else:
        raise KeyError(kind)
    d = spec.get('dup', 0)
    for _ in range(d):
        i, j = rng.randint(M), rng.randint(M)
        X[i] = X[j]
    if spec.get('near') and M > 1:                # samples that almost coincide
        for _ in range(max(1, M // 6)):
            i, j = rng.permutation(M)[:2]
            X[i] = X[j] + spec['near'] * rng.choice([-1.0, 1.0], m) * rng.uniform(0.2, 1.0, m)
    return X


def function(spec, m):
    """A smooth scalar function of m inputs and its gradient."""
    rng = RS(spec.get('fs', spec['s'] + 1))
    kind = spec.get('f', 'quad')
    a = rng.normal(size=m)
    b = rng.normal(size=m)
    A = rng.normal(size=(m, m))
    A = A + A.T
    c = rng.normal()
    if kind == 'quad':
        return (lambda x: c + x.dot(a) + 0.5 * x.dot(A).dot(x)), (lambda x: a + A.dot(x))
    if kind == 'lin':
        return (lambda x: c + x.dot(a)), (lambda x: a.copy())
    if kind == 'const':
        return (lambda x: c), (lambda x: np.zeros(m))
    if kind == 'ridge':
        return (lambda x: np.sin(x.dot(a)) + c), (lambda x: np.cos(x.dot(a)) * a)
    if kind == 'exp':
        return (lambda x: np.exp(0.3 * x.dot(a)) + 0.1 * x.dot(b)), (lambda x: 0.3 * np.exp(0.3 * x.dot(a)) * a + 0.1 * b)
    if kind == 'sep':
        return (lambda x: float(np.sum(np.abs(a) * x ** 2 + b * x))), (lambda x: 2 * np.abs(a) * x + b)
    raise KeyError(kind)


def dataset(spec):
    """X, f, df, weights from a spec."""
    X = points(spec)
    M, m = X.shape
    fun, dfun = function(spec, m)
    f = np.array([[float(fun(x))] for x in X]).reshape((M, 1))
    df = np.array([dfun(x) for x in X]).reshape((M, m))
    rng = RS(spec['s'] + 2)
    if spec.get('noise'):
        f = f + spec['noise'] * rng.normal(size=f.shape)
        df = df + spec['noise'] * rng.normal(size=df.shape)
    if spec.get('rank'):                # equal directions, then a large gap
        k = min(spec['rank'], m)
        Q = np.linalg.qr(rng.normal(size=(m, m)))[0]
        df = (rng.normal(size=(M, m)) * np.array([1.0] * k + [1e-4] * (m - k))).dot(Q.T)
    sc = spec.get('scale', 1.0)
    f, df = f * sc, df * sc
    wk = spec.get('w', None)
    if wk is None:
        w = None
    elif wk == 'uniform':
        w = np.ones((M, 1)) / M
    elif wk == 'rand':
        w = rng.uniform(0.1, 1.0, (M, 1))
        w = w / w.sum()
    elif wk == 'raw':                   # not normalized
        w = rng.uniform(0.2, 3.0, (M, 1))
    elif wk == 'skew':
        w = 10.0 ** rng.uniform(-3, 0, (M, 1))
    else:
        raise KeyError(wk)
    if spec.get('layout') == 'F':
        X, df = np.asfortranarray(X), np.asfortranarray(df)
    elif spec.get('layout') == 'view':
        XX = np.zeros((2 * M, m + 3))
        XX[::2, 1:m + 1] = X
        X = XX[::2, 1:m + 1]
        D = np.zeros((M, 2 * m))
        D[:, ::2] = df
        df = D[:, ::2]
        F = np.zeros((M, 2))
        F[:, 1:] = f
        f = F[:, 1:]
    return X, f, df, w


# -- random specifications ----------------------------------------------------

def data_spec(rng, m=None, Mmin=None, weights=True, f=None):
    m = m or rng.choice([2, 2, 3, 3, 4, 5, 6])
    nq = (m + 1) * (m + 2) // 2
    lo = Mmin or m + 2
    M = rng.choice([lo, lo + 1, nq + lo, nq + rng.randint(1, 30), lo + rng.randint(0, 25)])
    M = max(M, lo)
    return {'s': rng.randrange(1 << 30), 'M': M, 'm': m,
            'x': rng.choice(['uniform', 'uniform', 'gauss', 'wide', 'edge', 'neg', 'pos', 'grid']),
            'f': f or rng.choice(['quad', 'quad', 'lin', 'ridge', 'exp', 'sep']),
            'dup': rng.choice([0, 0, 0, 1, 3]),
            'noise': rng.choice([0, 0, 0.1]),
            'scale': rng.choice([1.0, 1.0, 1.0, 1e-3, 1e4]),
            'w': rng.choice([None, None, 'uniform', 'rand', 'raw', 'skew']) if weights else None,
            'layout': rng.choice([None, None, None, 'F', 'view'])}
