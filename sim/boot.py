"""Reference bootstrap: replays the recorded resampling draws through own estimators."""
import numpy as np

from . import ref


def int_draws(rec):
    out = []
    for cat, name, a, k, r in rec:
        if cat == 'rng':
            v = np.asarray(r)
            if name in ('shuffle', 'seed'):
                return None
            out.append((name, v))
    return out


def parse_replicates(rec, M, nboot, sstype):
    """{'base': base points of the estimate, 'reps': [(index array, base points)]} or None."""
    d = int_draws(rec)
    if d is None:
        return None
    base, reps = [], []
    for name, v in d:
        if not np.issubdtype(v.dtype, np.integer):
            return None
        if v.ndim == 0 or (v.size == 1 and M > 1):
            (reps[-1][1] if reps else base).append(int(v.ravel()[0]))
        elif v.size == M:
            reps.append((v.ravel().astype(int), []))
        elif v.size == M * nboot and not reps:
            for row in v.reshape((nboot, M)):
                reps.append((row.astype(int), []))
        else:
            return None
    if M == 1 and sstype != 'OPG':
        # scalars of size one are the replicates themselves
        if not reps and len(base) == nboot:
            reps, base = [(np.array([b]), []) for b in base], []
    multi = 1
    if len(reps) != nboot:
        if nboot < 1 or len(reps) % nboot or len(reps) < nboot:
            return None
        multi = len(reps) // nboot      # several resamplings for each replicate
        reps = reps[::multi]
    for idx, _ in reps:
        if idx.min() < 0 or idx.max() >= M:
            return None
    return {'base': base, 'reps': reps, 'multi': multi}


def estimate(sstype, X, f, df, w, base):
    """(C, condition) of one method on one data set; None when the reference does not decide it."""
    if sstype == 'AS':
        return ref.c_as(df, w), 1.0
    if sstype == 'OLS':
        return ref.c_ols(X, f, w)
    if sstype == 'QPHD':
        return ref.c_qphd(X, f, w)
    M, m = X.shape
    if len(base) != min(int(np.ceil(10 * m * np.log(m))), M - 1):
        return None
    C, cmax = np.zeros((m, m)), 1.0
    p = ref.opg_p(M, m)
    for b in base:
        s = ref.local_slope(X, f, b, p)
        if s is None:
            return None
        if len(s) != 1:
            # ties only among repeated samples give one slope
            t = s[0][0]
            if any(np.abs(q[0] - t).max() > 1e-10 * max(1.0, np.abs(t).max()) for q in s):
                return None
        cmax = max(cmax, max(q[1] for q in s))
        C += np.outer(s[0][0], s[0][0])
    return C / len(base), cmax


def bootstrap_model(sstype, data, W, reps, nboot):
    """Eigenvalues, subspace distances and determinants of every replicate, or None if ill-conditioned."""
    X, f, df, w = data
    m = X.shape[1]
    E, D, T = np.zeros((m, nboot)), np.zeros((m - 1, nboot)), np.zeros((m - 1, nboot))
    sens = np.zeros((m - 1, nboot))
    for i, (idx, base) in enumerate(reps['reps']):
        r = estimate(sstype, X[idx], f[idx], df[idx], w[idx], base)
        if r is None:
            return None
        C, cond = r
        if cond > 1e7:
            return None
        e, V = np.linalg.eigh(0.5 * (C + C.T))
        e, V = np.abs(e), V
        o = np.argsort(e)[::-1]
        e, V = e[o], V[:, o]
        E[:, i] = e
        for j in range(m - 1):
            gap = (e[j] - e[j + 1]) / max(e[0], 1e-300)
            sens[j, i] = 1e-12 * max(cond, 1.0) / max(gap, 1e-300)
            D[j, i] = np.linalg.norm(W[:, :j + 1].T.dot(V[:, j + 1:]), 2)
            T[j, i] = np.linalg.det(W[:, :j + 1].T.dot(V[:, :j + 1]))
    return {'e': E, 'dist': D, 'det': T, 'sens': sens}
