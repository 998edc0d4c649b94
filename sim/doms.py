"""Domains, maps and active points from small specifications."""
import numpy as np

from . import gens
from .gens import RS
from .world import Armed, Skip


def spec(rng, bounded=None, mmax=6, nmax=3, small=False):
    b = bounded if bounded is not None else rng.random() < 0.6
    m = rng.choice([2, 2, 3, 3, 4, 4, 5, 6][:8 if mmax >= 6 else 6])
    m = min(m, mmax)
    n = rng.choice([1, 1, 2, 2, 3])
    n = min(n, nmax, m - 1)
    kind = rng.choice(['haar', 'haar', 'haar', 'axis', 'block', 'zero', 'parallel'])
    if n >= 3 and kind == 'parallel':
        kind = 'haar'
    d = {'s': rng.randrange(1 << 30), 'm': m, 'n': n, 'kind': kind, 'bounded': bool(b)}
    if rng.random() < 0.12:
        d['derived'] = True
    return d


def make(lib, d, must=None):
    if not (1 <= d['n'] < d['m']):
        raise Skip()
    ss = gens.exact_subspace(lib, d)
    if d.get('derived'):
        dom = (lib.MyBoundedDomain if d['bounded'] else lib.MyUnboundedDomain)(ss)
        return ss, dom, (lib.MyBoundedMap if d['bounded'] else lib.MyUnboundedMap)(dom)
    if d['bounded']:
        dom = lib.BoundedActiveVariableDomain(ss)
        return ss, dom, lib.BoundedActiveVariableMap(dom)
    dom = lib.UnboundedActiveVariableDomain(ss)
    return ss, dom, lib.UnboundedActiveVariableMap(dom)


YKINDS = ['image', 'image', 'center', 'vertex', 'edge', 'near', 'face']


def active_points(dom_spec, W1, kinds, s, verts=None):
    """Points of the (bounded) domain: images of hypercube points, vertices, points between vertices."""
    rng = RS(s)
    m, n = W1.shape
    out = []
    for k in kinds:
        x = rng.uniform(-1, 1, m)
        if not dom_spec['bounded']:
            x = rng.normal(size=m) * (3.0 if k == 'far' else 1.0)
            out.append(np.zeros(n) if k == 'center' else x.dot(W1))
            continue
        if k == 'image':
            out.append((0.9 * x).dot(W1))
        elif k == 'center':
            out.append(np.zeros(n))
        elif k in ('vertex', 'near', 'edge'):
            v = rng.normal(size=n)
            sg = np.sign(W1.dot(v))
            sg[np.abs(W1.dot(v)) < 1e-12] = 0.0
            c = sg
            if k == 'near':
                c = (1 - 10.0 ** rng.uniform(-9, -3)) * sg
            if k == 'edge':
                # move along the face: the input that is least decided is free
                a = np.abs(W1.dot(v))
                a[a < 1e-12] = 9.0
                j = int(np.argmin(a))
                c = sg.copy()
                if n > 1:
                    # a supporting direction orthogonal to row j, so that input j is free on the face
                    r = W1[j]
                    v2 = v - r * (r.dot(v) / r.dot(r))
                    t = W1.dot(v2)
                    c = np.sign(t)
                    c[np.abs(t) < 1e-12] = 0.0
                    c[j] = rng.uniform(-1, 1)
            out.append(c.dot(W1))
        elif k == 'face':
            x[rng.randint(m)] = rng.choice([-1.0, 1.0])
            out.append(x.dot(W1))
        else:
            out.append((0.9 * x).dot(W1))
    return np.array(out).reshape((len(kinds), n))


def lp_fault(rng, backend):
    if backend == 'gurobi':
        return rng.choice(['infeasible', 'inf_or_unbd', 'unbounded', 'iteration', 'time', 'interrupted',
                           'numeric', 'suboptimal', 'GurobiError', 'MemoryError'])
    return rng.choice(['fail', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError'])


LPF = {'fail': 'iteration', 'fail-tempting': 'suboptimal', 'fail-nan': 'numeric', 'ValueError': 'GurobiError',
       'MemoryError': 'MemoryError', 'Interrupt': 'Interrupt'}


def lp_armed(backend, k, kind, sticky=False):
    """The same fault in the terms of the backend of this run."""
    if backend == 'gurobi':
        return Armed('gurobi', k, LPF.get(kind, kind), sticky)
    return Armed('solver', k, kind, sticky)


def lp_cat(backend):
    return 'gurobi' if backend == 'gurobi' else 'solver'


def check_points(need, X, ind, Y, N, W, n, bounded, tol=1e-6, code='point'):
    """N points per active point: count, order, index, feasibility and membership."""
    NY = len(Y)
    m = W.shape[0]
    need(isinstance(X, np.ndarray) and X.shape == (NY * N, m), 'count', 'points have shape {} for {} active points and N={}',
         np.shape(X), NY, N)
    need(np.shape(ind) == (NY * N, 1), 'count', 'indices have shape {}', np.shape(ind))
    need(np.array_equal(np.asarray(ind).ravel(), np.repeat(np.arange(NY), N)), 'index', 'indices {}', np.asarray(ind).ravel()[:20])
    need(np.isfinite(X).all(), 'nonfinite', 'a returned point is not finite')
    if bounded and X.size:
        out = np.abs(X).max() - 1
        need(out <= tol, 'infeasible', 'a returned point leaves the hypercube by {:.3g}', out)
    if X.size:
        err = np.abs(X.dot(W[:, :n]) - np.repeat(Y, N, axis=0)).max() / max(1.0, np.abs(Y).max())
        need(err <= tol, 'fibre', 'a returned point maps {:.3g} away from its active point', err)
