"""Reference models: small, direct definitions of what the library's answers have to be."""
import itertools
import math

import numpy as np

from . import seams
from .world import Violation, need


def o(name):
    return seams.ORIG.get(name) or getattr(np.linalg, name)


# -- subspaces --------------------------------------------------------------

def c_as(df, w):
    M, m = df.shape
    C = np.zeros((m, m))
    for i in range(M):
        C += w[i, 0] * np.outer(df[i], df[i])
    return C


def wls(B, f, s):
    """Minimum-norm least squares with rows scaled by s; coefficients and the condition number of the fit.

    The condition is infinite when the rank is not clear."""
    A = B * s
    u, sv, vt = np.linalg.svd(A, full_matrices=False)
    if sv.size == 0 or sv[0] == 0:
        return np.zeros((B.shape[1], 1)), 1.0
    tol = 1e-13 * sv[0]
    keep, gone = sv[sv > tol], sv[sv <= tol]
    cond = sv[0] / keep[-1]
    if gone.size and gone[0] > 1e-16 * sv[0] * max(A.shape):
        cond = np.inf
    inv = np.where(sv > tol, 1.0 / np.where(sv > tol, sv, 1.0), 0.0)
    return (vt.T * inv).dot(u.T.dot(f * s)), cond


def c_ols(X, f, w):
    M, m = X.shape
    c, cond = wls(np.hstack((np.ones((M, 1)), X)), f, np.sqrt(w))
    g = c[1:]
    return g.dot(g.T), cond


def c_qphd(X, f, w):
    M, m = X.shape
    cols = [np.ones(M)] + [X[:, i] for i in range(m)]
    pairs = [(i, j) for i in range(m) for j in range(i, m)]
    cols += [X[:, i] * X[:, j] for i, j in pairs]
    c, cond = wls(np.array(cols).T, f, w)
    b = c[1:m + 1, 0]
    H = np.zeros((m, m))
    for k, (i, j) in enumerate(pairs):
        v = c[m + 1 + k, 0]
        if i == j:
            H[i, i] = 2 * v
        else:
            H[i, j] = H[j, i] = v
    inside = X.max() <= 1.0 and X.min() >= -1.0
    gamma = 1.0 / 3.0 if inside else 1.0
    return np.outer(b, b) + gamma * H.dot(H.T), cond


def local_slope(X, f, base, p):
    """All slopes of least-squares fits to the p nearest samples distinct from the base point.

    Several when the p-th nearest sample is tied; None when there are too many ties."""
    x = X[base]
    d2 = ((X - x) ** 2).sum(axis=1)
    idx = [i for i in range(len(X)) if d2[i] != 0]
    idx.sort(key=lambda i: d2[i])
    if len(idx) <= p:
        sets = [idx]
    else:
        cut = d2[idx[p - 1]]
        eps = 1e-12 * max(cut, 1e-300)
        sure = [i for i in idx if d2[i] < cut - eps]
        tied = [i for i in idx if abs(d2[i] - cut) <= eps]
        k = p - len(sure)
        if math.comb(len(tied), k) > 200:
            return None
        sets = [sure + list(t) for t in itertools.combinations(tied, k)]
    out = []
    for s in sets:
        A = np.hstack((np.ones((len(s), 1)), X[s]))
        if len(s) == 0:
            out.append((np.zeros(X.shape[1]), 1.0))
            continue
        c, cond = wls(A, f[s], np.ones((len(s), 1)))
        out.append((c[1:, 0], cond))
    return out


def opg_p(M, m):
    return int(min(math.floor(1.7 * m), M))


def check_orthogonal(W, m, what='eigenvectors'):
    need(isinstance(W, np.ndarray) and W.shape == (m, m), 'shape', '{} have shape {}', what, np.shape(W))
    need(np.all(np.isfinite(W)), 'nonfinite', '{} are not finite', what)
    err = np.abs(W.T.dot(W) - np.eye(m)).max()
    need(err < 1e-9, 'orthogonal', '{} are not orthogonal: error {:.2e}', what, err)


def check_eigen(e, W, C=None, rtol=1e-8):
    """e, W are the sorted, sign-normalized eigenpairs of C."""
    m = W.shape[0]
    need(isinstance(e, np.ndarray) and e.shape == (m, 1), 'shape', 'eigenvalues have shape {}', np.shape(e))
    need(np.all(np.isfinite(e)), 'nonfinite', 'eigenvalues are not finite')
    need(np.all(e >= 0), 'negative', 'negative eigenvalue {}', e.min())
    need(np.all(np.diff(e[:, 0]) <= 1e-12 * max(e[0, 0], 0) + 0.0), 'order', 'eigenvalues do not descend: {}', e[:, 0])
    check_orthogonal(W, m)
    need(np.all(W[0] >= -1e-12), 'sign', 'first components {}', W[0])
    if C is not None:
        s = max(np.abs(C).max(), 1e-300)
        err = np.abs((W * e[:, 0]).dot(W.T) - C).max() / s
        need(err < rtol, 'eigen', 'not the eigendecomposition: relative error {:.2e}', err)


# -- zonotopes --------------------------------------------------------------

def zonotope(W1):
    """The vertices of W1' [-1,1]^m, by exact enumeration of the cells of the hyperplane arrangement."""
    m, n = W1.shape
    scale = np.abs(W1).max()
    rows = [i for i in range(m) if np.linalg.norm(W1[i]) > 1e-13 * scale]
    # merge parallel rows into one generator
    gens = []
    for i in rows:
        r = W1[i]
        for k, g in enumerate(gens):
            c = r.dot(g) / (np.linalg.norm(r) * np.linalg.norm(g))
            if abs(abs(c) - 1) < 1e-14 or np.linalg.norm(r / np.linalg.norm(r) - np.sign(c) * g / np.linalg.norm(g)) < 1e-9:
                gens[k] = g + np.sign(c) * r
                break
        else:
            gens.append(r.copy())
    G = np.array(gens)
    k = len(G)
    if k == 0:
        return np.zeros((1, n)), 0
    if n == 1:
        s = np.abs(G).sum()
        return np.array([[-s], [s]]), 2
    # candidate directions: near every ray where n-1 generators vanish
    pts = {}
    nrm = G / np.linalg.norm(G, axis=1)[:, None]

    def add(sig):
        key = tuple(int(v) for v in sig)
        pts[key] = np.array(key).dot(G)
    if n == 2:
        ang = []
        for g in nrm:
            t = math.atan2(g[0], -g[1])         # direction orthogonal to g
            ang += [t % (2 * math.pi), (t + math.pi) % (2 * math.pi)]
        ang = sorted(ang)
        for a, b in zip(ang, ang[1:] + [ang[0] + 2 * math.pi]):
            t = 0.5 * (a + b)
            add(np.sign(nrm.dot(np.array([math.cos(t), math.sin(t)]))))
    else:
        for comb in itertools.combinations(range(k), n - 1):
            u, s, vt = np.linalg.svd(nrm[list(comb)])
            if s[-1] < 1e-12:
                continue
            d = vt[-1]
            base = nrm.dot(d)
            for sg in (1, -1):
                zero = [i for i in range(k) if abs(base[i]) < 1e-12]
                if len(zero) > n - 1:
                    return None, k          # not in general position
                for signs in itertools.product((1, -1), repeat=len(zero)):
                    sig = np.sign(sg * base)
                    sig[zero] = signs
                    add(sig)
    return np.array(list(pts.values())), k


def n_zonotope_vertices(k, n):
    return 2 * sum(math.comb(k - 1, i) for i in range(n))


# -- convex quadratic programs ----------------------------------------------

def convex_qp(c, Q, G, h):
    """min c'x + x'Qx subject to G x >= h, for positive semidefinite Q: ('optimal', x) or why not."""
    st, x = _convex_qp(c, Q, G, h)
    if st == 'optimal' and G.shape[0] and (h - G.dot(x)).max() > 1e-6 * max(1.0, np.abs(h).max()):
        # degenerate: start from a feasible point and ask another method
        n = c.size
        r = seams.ORIG['linprog'](np.zeros(n), A_ub=-G, b_ub=-h, bounds=[(None, None)] * n, method='highs')
        if r.status != 0:
            return 'numeric', None
        s = max(np.abs(c).max(), np.abs(Q).max(), 1e-300)
        q = seams.ORIG['minimize'](lambda v: (c.dot(v) + v.dot(Q).dot(v)) / s, r.x, jac=lambda v: (c + (Q + Q.T).dot(v)) / s,
                                   method='SLSQP', constraints={'type': 'ineq', 'fun': lambda v: G.dot(v) - h + 1e-8, 'jac': lambda v: G},
                                   options={'ftol': 1e-12, 'maxiter': 500})
        if not q.success or (h - G.dot(q.x)).max() > 1e-6 * max(1.0, np.abs(h).max()):
            return 'numeric', None
        x = q.x
    return st, x


def _convex_qp(c, Q, G, h):
    linprog = seams.ORIG['linprog']
    n = c.size
    H = Q + Q.T
    if G.shape[0]:
        r = linprog(np.zeros(n), A_ub=-G, b_ub=-h, bounds=[(None, None)] * n, method='highs')
        if r.status == 2:
            return 'infeasible', None
    ev = np.linalg.eigvalsh(H)
    top = max(ev[-1], 1e-300)
    if ev[0] > 1e-9 * top:
        x = _strict_qp(c, H, G, h)
        return ('optimal', x) if x is not None else ('numeric', None)
    # singular: is there a direction of unbounded descent?
    u, s, vt = np.linalg.svd(H)
    N = vt[s <= 1e-9 * top].T if top > 1e-12 else np.eye(n)
    k = N.shape[1]
    kw = dict(A_ub=-G.dot(N), b_ub=np.zeros(G.shape[0])) if G.shape[0] else {}
    r = linprog(N.T.dot(c), bounds=[(-1, 1)] * k, method='highs', **kw)
    if r.status == 0 and r.fun < -1e-8 * max(1.0, np.abs(c).max()):
        return 'unbounded', None
    x = np.zeros(n)
    mu = 0.05 * max(top, np.abs(c).max(), 1.0)
    for it in range(200):
        y = _strict_qp(c - mu * x, H + mu * np.eye(n), G, h)
        if y is None:
            return 'numeric', None
        if np.abs(y - x).max() < 1e-11 * max(1.0, np.abs(y).max()):
            x = y
            break
        x = y
        mu *= 0.7
        mu = max(mu, 1e-6 * max(top, 1.0))
    return 'optimal', x


def _strict_qp(c, H, G, h):
    nnls = seams.ORIG['nnls']
    n = c.size
    L = np.linalg.cholesky(H)
    Li = np.linalg.inv(L)
    u0 = -Li.dot(c)
    x0 = Li.T.dot(u0)
    if G.shape[0] == 0:
        return x0
    A = G.dot(Li.T)
    b = h - G.dot(x0)
    if np.all(b <= 1e-12 * max(1.0, np.abs(h).max())):
        return x0
    s = np.linalg.norm(A, axis=1)
    s[s == 0] = 1.0
    A, b = A / s[:, None], b / s
    sb = max(np.abs(b).max(), 1e-300)
    E = np.vstack((A.T, b[None] / sb))
    f = np.zeros(n + 1)
    f[-1] = 1.0
    try:
        z, rn = nnls(E, f, maxiter=200 * (n + A.shape[0]))
    except RuntimeError:
        return None
    r = E.dot(z) - f
    if abs(r[-1]) < 1e-13:
        return None
    u = -r[:n] / r[-1] * sb
    act = z > 0
    if act.any():                               # polish on the active set
        Aa, ba = A[act], b[act]
        v = np.linalg.lstsq(Aa, ba, rcond=None)[0]
        if np.all(A.dot(v) >= b - 1e-9 * max(1.0, sb)):
            lam = np.linalg.lstsq(Aa.T, v, rcond=None)[0]
            if np.all(lam >= -1e-9 * max(1.0, np.abs(lam).max())):
                u = v
    return x0 + Li.T.dot(u)


def lp_min(c, G, h):
    """Status and value of min c'x, G x >= h."""
    linprog = seams.ORIG['linprog']
    n = c.size
    r = linprog(c, A_ub=-G, b_ub=-h, bounds=[(None, None)] * n, method='highs')
    return r.status, (r.fun if r.status == 0 else None), (r.x if r.status == 0 else None)


# -- fibres -----------------------------------------------------------------

def fibre_cond(f, ind, n):
    E, V = np.zeros((n, 1)), np.zeros((n, 1))
    ind = np.asarray(ind).ravel()
    f = np.asarray(f).ravel()
    for i in range(n):
        v = f[ind == i]
        E[i] = v.mean()
        V[i] = ((v - v.mean()) ** 2).mean()
    return E, V


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    s = max(np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0.0, 0.0)
    return bool(np.all((np.abs(a - b) <= atol + rtol * s) | (np.isnan(a) & np.isnan(b)) | (a == b)))
