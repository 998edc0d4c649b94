"""C12: minimizers are feasible, consistent and only converged results."""
import numpy as np

from .. import gens, doms, ref, seams
from ..user import simulated_failure
from ..world import attempt, must, need, Armed, SimFault, SimInterrupt

RULE = ('A run minimizes a convex or multi-well function of the active variables, or a trained surface, or maps active points '
        'to their minimizing inputs, on a simulated domain; optimizer restarts, quadratic programs or the function itself '
        'fail at chosen calls. Non-trivial: a minimizer was checked or a failure surfaced; distinct by what, domain, function, '
        'gradient, data kind, points and fault.')
REAL = ['active_subspaces.optimizers', 'active_subspaces.utils.qp_solver', 'active_subspaces.domains',
        'active_subspaces.response_surfaces', 'SciPy SLSQP, BFGS, fminbound']
STUB = ['the function minimized', 'failures of optimizer restarts and programs', 'Gurobi (gurobi backend)']
ASSUMPTIONS = ['minima agree to 1e-4 of the scale of the function (the optimizers stop by tolerance)']

BOUNDED = ['quad', 'quad', 'lin', 'psd', 'lse', 'wells', 'wells', 'const']
UNBOUNDED = ['quad', 'quad', 'lse', 'quartic', 'wells', 'wells']


def gen(rng, i, tier):
    what = rng.choice(['av', 'av', 'av', 'min', 'map', 'map'])
    d = doms.spec(rng, None, 6, 3)
    if d['bounded'] and d['n'] == 3:
        d['m'] = min(d['m'], 5)
    p = {'what': what, 'dom': d, 's': rng.randrange(1 << 30), 'repart': rng.random() < 0.15}
    if what == 'av':
        p['f'] = rng.choice(BOUNDED if d['bounded'] else UNBOUNDED)
        p['scale'] = rng.choice([1.0, 1.0, 0.1, 30.0])
        p['grad'] = rng.random() < 0.6
        p['where'] = rng.choice(['inside', 'inside', 'outside', 'vertex'])
        p['ret'] = rng.choice([None, None, 'np', '0d'])
        r = rng.random()
        if r < 0.12:
            p['beh'] = {'fail': rng.choice([0, 1, 3, 10, 50]), 'exc': rng.choice(['exc', 'Interrupt', 'ValueError', 'StopIteration', 'FloatingPointError', 'RuntimeError', 'OverflowError', 'LinAlgError', 'ZeroDivisionError'])}
        elif r < 0.2:
            p['beh'] = {'gfail': rng.choice([0, 1, 3, 10])}
        elif r < 0.3:
            p['beh'] = {'mutate': True}
    else:
        p['data'] = {'M': rng.choice([1.2, 2, 4]), 'kind': rng.choice(['convex', 'convex', 'convex', 'av', 'lin', 'noise', 'saddle']),
                     'x': rng.choice(['uniform', 'normal', 'shift']), 'scale': rng.choice([1.0, 1.0, 0.05, 20.0])}
        if what == 'map':
            p['Y'] = [rng.choice(doms.YKINDS) for _ in range(rng.choice([1, 2, 3, 6]))]
            p['N'] = rng.choice([1] * 9 + [2, 5])
            p['again'] = rng.random() < 0.3
        else:
            p['surf'] = rng.choice(['poly', 'poly', 'poly', 'rbf'])
    if rng.random() < 0.35:
        p['fault'] = {'cat': rng.choice(['solver', 'solver', 'lp', 'linalg']), 'frac': rng.choice([0.0, 0.999, rng.random(), rng.random()]),
                      'kind': rng.choice(['fail', 'fail-tempting', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError', 'Interrupt']),
                      'sticky': rng.random() < 0.2}
    return p


class Fun:
    """The function a user minimizes: value, gradient, a ledger of its values."""
    def __init__(self, plan, n, W1, world=None):
        r = gens.RS(plan['s'])
        self.n, self.kind, self.sc, self.beh, self.w = n, plan['f'], plan['scale'], plan.get('beh') or {}, world
        B = r.normal(size=(n, n))
        self.A = B.dot(B.T) / n + 0.3 * np.eye(n)
        if self.kind == 'psd':
            self.A = np.outer(B[0], B[0])
        x = r.uniform(-1, 1, W1.shape[0])
        wh = plan['where']
        if wh == 'vertex':
            x = np.sign(W1.dot(r.normal(size=n)))
        c = x.dot(W1)
        self.c = c * (2.5 if wh == 'outside' else 1.0)
        self.g = r.normal(size=n)
        self.P = r.normal(size=(4, n))
        self.ph = r.uniform(0, 6, 4)
        self.ret = plan.get('ret')
        self.calls, self.gcalls, self.raised = 0, 0, None
        self.given = []

    def value(self, y):
        y = np.asarray(y, dtype=float).ravel()
        d = y - self.c
        k = self.kind
        if k in ('quad', 'psd'):
            v = d.dot(self.A).dot(d)
        elif k == 'lin':
            v = self.g.dot(y)
        elif k == 'const':
            v = 2.0
        elif k == 'lse':
            v = np.log(np.exp(self.P.dot(d)).sum()) + 0.5 * d.dot(d)
        elif k == 'quartic':
            v = (d ** 4).sum() + 0.3 * d.dot(d)
        else:
            v = 0.2 * d.dot(d) + np.cos(2 * self.P.dot(y) + self.ph).sum()
        return self.sc * v

    def gradient(self, y):
        y = np.asarray(y, dtype=float).ravel()
        d = y - self.c
        k = self.kind
        if k in ('quad', 'psd'):
            v = 2 * self.A.dot(d)
        elif k == 'lin':
            v = self.g.copy()
        elif k == 'const':
            v = np.zeros(self.n)
        elif k == 'lse':
            e = np.exp(self.P.dot(d))
            v = e.dot(self.P) / e.sum() + d
        elif k == 'quartic':
            v = 4 * d ** 3 + 0.6 * d
        else:
            v = 0.4 * d - 2 * np.sin(2 * self.P.dot(y) + self.ph).dot(self.P)
        return self.sc * v

    def __call__(self, y):
        k = self.calls
        self.calls += 1
        if self.beh.get('fail') == k:
            e = self.beh['exc']
            self.raised = simulated_failure(e)
            if self.w is not None:
                self.w.fired['function:' + e] += 1
            raise self.raised
        v = self.value(y)
        if self.beh.get('mutate') and isinstance(y, np.ndarray) and y.flags.writeable and y.ndim:
            y[...] = 1e3
        if self.ret == 'np':
            return np.float64(v)
        if self.ret == '0d':
            return np.array(v)
        return float(v)

    def grad(self, y):
        k = self.gcalls
        self.gcalls += 1
        if self.beh.get('gfail') == k:
            self.raised = SimFault('injected in the gradient')
            if self.w is not None:
                self.w.fired['gradient:exc'] += 1
            raise self.raised
        return self.gradient(y)


CONVEX = ('quad', 'psd', 'lin', 'const', 'lse', 'quartic')


def hull_of(ss, d):
    W1 = ss.W1
    if d['n'] == 1:
        b = np.abs(W1).sum()
        return np.array([[1.0], [-1.0]]), np.array([-b, -b]), b
    v = ref.zonotope(W1)[0]
    h = seams.ORIG['ConvexHull'](v)
    return -h.equations[:, :-1], h.equations[:, -1], np.abs(v).max()


def better(fun, grad, y, G, h, bounded, seed, size, convex, tol):
    """A feasible point clearly better than y, if own searches find one."""
    r = gens.RS(seed)
    n = y.size
    mini = seams.ORIG['minimize']
    cons = [{'type': 'ineq', 'fun': lambda x: G.dot(x) - h, 'jac': lambda x: G}] if bounded else []
    f0 = fun(y)
    best = None
    for k in range(3):
        x0 = y * 0.9 if k == 0 else r.uniform(-0.5, 0.5, n) * size
        s = max(1e-12, abs(f0))
        try:
            q = mini(lambda x: fun(x) / s, x0, jac=lambda x: grad(x) / s, method='SLSQP', constraints=cons,
                     options={'ftol': 1e-12, 'maxiter': 500})
        except (ValueError, FloatingPointError):
            continue
        x = q.x
        if not np.isfinite(x).all():
            continue
        if bounded:
            t = 1.0
            while (h - G.dot(x * t)).max() > 0 and t > 0.9:     # the domain is symmetric and convex
                t -= 1e-7 if t > 1 - 1e-5 else 1e-3
            x = x * t
            if (h - G.dot(x)).max() > 0:
                continue
        if fun(x) < f0 - tol and (best is None or fun(x) < best[0]):
            best = (fun(x), x)
    return best


def in_domain(y, G, h, size, what='the minimizer'):
    out = (h - G.dot(y)).max()
    need(out <= 2e-6 * max(size, 1.0), 'outside', '{} is {:.3g} outside the domain', what, out)


def run(plan, ctx):
    from .. import lib
    backend = plan.get('backend', 'scipy')
    d, what = plan['dom'], plan['what']
    w = ctx.world()
    ss, dom, avm = must(w, 'building the domain', doms.make, lib, d)
    if plan['repart'] and d['n'] > 1:
        d = dict(d, n=d['n'] - 1)
        if not gens.separated(ss.eigenvecs, d['n']):
            return
        ss.partition(d['n'])
        if d['bounded']:
            must(w, 'recomputing the boundary', dom.compute_boundary)
    W, n, m = ss.eigenvecs.copy(), d['n'], d['m']
    W1, W2 = W[:, :n], W[:, n:]
    G = h = size = None
    if d['bounded']:
        G, h, size = hull_of(ss, d)
    ctx.sig(what, d['kind'], m, n, d['bounded'], plan.get('f'), plan.get('grad'), plan.get('where'), str(plan.get('data')),
            str(plan.get('Y')), plan.get('N'), str(plan.get('beh')), str(plan.get('fault')), plan.get('surf'), backend, plan['repart'],
            plan['s'] % 8)
    E = dict(ss=ss, dom=dom, W=W, W1=W1, W2=W2, n=n, m=m, G=G, h=h, size=size, d=d, lib=lib, backend=backend, w=w)
    if what == 'av':
        run_av(plan, ctx, E)
    elif what == 'map':
        run_map(plan, ctx, E)
    else:
        run_min(plan, ctx, E)


def faulty(plan, E, call):
    """Run the call with its fault: the outcome, the calls of the optimizers and whether the fault struck."""
    w, f = E['w'], plan.get('fault')
    if f:
        w.arm()
        o = attempt(w, call, None)
        cat = doms.lp_cat(E['backend']) if f['cat'] == 'lp' else f['cat']
        cnt = w.calls[cat]
        arm = []
        if cnt and o.ok:
            k = min(cnt - 1, int(f['frac'] * cnt))
            if f['cat'] == 'lp':
                arm = [doms.lp_armed(E['backend'], k, f['kind'], f['sticky'])]
            elif cat == 'solver':
                arm = [Armed('solver', k, f['kind'], f['sticky'])]
            else:
                arm = [Armed(cat, k, 'LinAlgError')]
        w.arm(*arm)
    w.recording = []
    o = attempt(w, call, w)
    rec, w.recording = w.recording, None
    hits = [x for x in w.disarm() if x.fired]
    return o, rec, hits


def surfaced(ctx, o, hits, msg):
    """An exception of a solver reaches the caller as it is, or as another exception."""
    if not hits:
        return False
    x = hits[0]
    if x.exc is not None:
        need(not o.ok, 'swallowed', '{}: {!r} did not reach the caller', msg, x.exc)
        if x.kind in ('MemoryError', 'Interrupt'):
            need(o.exc is x.exc, 'exception', '{}: the solver raised {!r}, the caller got {}', msg, x.exc, o)
    if not o.ok:
        ctx.probe('failures surfaced')
        ctx.interesting = True
        return True
    return False


def gave_up(rec):
    for r in rec:
        if r[0] == 'solver':
            v = r[4]
            if r[1] == 'fminbound' and isinstance(v, tuple) and v[2] or not getattr(v, 'success', True):
                return True
    return False


def run_av(plan, ctx, E):
    lib, n, d, w = E['lib'], E['n'], E['d'], E['w']
    last = {}

    def call(world):
        last['f'] = F = Fun(plan, n, E['W1'], world)
        if world is None:
            F.beh = {k: v for k, v in F.beh.items() if k == 'mutate'}
        return lib.av_minimize(F, E['dom'], avdfun=F.grad) if plan['grad'] else lib.av_minimize(F, E['dom'])
    o, rec, hits = faulty(plan, E, call)
    F = last['f']
    if F.raised is not None:
        need(not o.ok and o.exc is F.raised, 'exception', 'the function raised {!r}, the caller got {}', F.raised, o)
        ctx.probe('failures of the function surfaced')
        ctx.interesting = True
        return
    if surfaced(ctx, o, hits, 'av_minimize'):
        return
    if not o.ok:
        need(gave_up(rec), 'raised', 'av_minimize raised {}', o)
        ctx.probe('the optimizer itself gave up')
        return
    ctx.interesting = True
    y, f = o.value
    need(isinstance(y, np.ndarray) and y.shape == (1, n) and np.ndim(f) == 0, 'shape', 'the minimizer is {}, the minimum {}', np.shape(y), np.shape(f))
    need(np.isfinite(y).all(), 'nonfinite', 'the minimizer is {}', y)
    y = y[0]
    if d['bounded']:
        in_domain(y, E['G'], E['h'], E['size'])
    if F.beh.get('mutate'):
        ctx.probe('input-modifying function')
    v = F.value(y)
    sc = plan['scale'] * max(1.0, abs(v) / plan['scale'])
    need(abs(f - v) <= 1e-12 * sc, 'value', 'the minimum is {:.15g}, the function at the minimizer {:.15g}', float(f), v)
    conv = [r[4] for r in rec if r[0] == 'solver' and hasattr(r[4], 'success') and r[4].success and np.size(r[4].x) == n]
    ctx.probe('restarts seen', len(conv))
    for r in conv:
        need(float(f) <= float(np.ravel(r.fun)[0]) + 1e-9 * sc, 'not-best', 'the minimum is {:.9g}, a converged restart has {:.9g}', float(f), float(np.ravel(r.fun)[0]))
    if hits:
        ctx.probe('a failed restart was left out')
    rel = 1e-4
    if plan['f'] in CONVEX:
        b = better(F.value, F.gradient, y, E['G'], E['h'], d['bounded'], plan['s'] + 5, E['size'] or 3.0, True, rel * sc)
        need(b is None, 'not-minimum', 'the minimum is {:.9g}, but {} has {:.9g}', float(f), b and b[1], b and b[0])
        ctx.probe('global minima checked')
    ctx.digest(float('%.3g' % (f / sc)))


def refused(E, H, p):
    """Gurobi takes only convex programs."""
    n = E['n']
    ev = np.linalg.eigvalsh(H[n:p, n:p])
    return E['backend'] == 'gurobi' and ev[0] + 0.01 < 1e-6 * max(np.abs(ev).max(), 1.0)


def data(plan, E):
    r = gens.RS(plan['s'] + 1)
    m, n, W = E['m'], E['n'], E['W']
    p = n + 2 if m - n > 2 else n + 1
    nt = (p + 1) * (p + 2) // 2
    D = plan['data']
    M = int(np.ceil(D['M'] * nt)) + 2
    M = max(M, (n + 1) * (n + 2) + 3)
    X = r.uniform(-1, 1, (M, m))
    if D['x'] == 'normal':
        X = r.normal(size=(M, m))
    elif D['x'] == 'shift':
        X = 0.5 * X + 0.4
    T = X.dot(W)
    k = D['kind']
    B = r.normal(size=(m, m))
    g = r.normal(size=m)
    if k == 'convex':
        H = B.dot(B.T) / m + 0.2 * np.eye(m)
    elif k == 'saddle':
        H = B + B.T
    elif k == 'av':
        H = np.zeros((m, m))
        H[:n, :n] = B[:n, :n].dot(B[:n, :n].T) / n + 0.3 * np.eye(n)
        g[n:] = 0.0
    else:
        H = np.zeros((m, m))
    f = T.dot(g) + np.einsum('ij,jk,ik->i', T, H, T)
    if k == 'noise':
        f = f + r.normal(size=M)
    return X, (f * D['scale']).reshape((M, 1)), p


def quadratic(X, f, W, p):
    """Own quadratic fit in the first p variables: gradient, Hessian and condition number."""
    Y = X.dot(W[:, :p])
    M = len(Y)
    pairs = [(i, j) for i in range(p) for j in range(i, p)]
    B = np.hstack([np.ones((M, 1)), Y] + [(Y[:, i] * Y[:, j])[:, None] for i, j in pairs])
    c, cond = ref.wls(B, f, np.ones((M, 1)))
    c = c[:, 0]
    H = np.zeros((p, p))
    for k, (i, j) in enumerate(pairs):
        if i == j:
            H[i, i] = 2 * c[p + 1 + k]
        else:
            H[i, j] = H[j, i] = c[p + 1 + k]
    return c[1:p + 1], H, cond


def check_z(ctx, E, g, H, p, X, Y):
    """Every returned input is on its fibre and minimizes the fitted quadratic over the inactive variables."""
    n, m, W1, W2 = E['n'], E['m'], E['W1'], E['W2']
    bounded = E['d']['bounded']
    k = m - n
    gz = np.zeros(k)
    gz[:p - n] = g[n:]
    Hzz = np.zeros((k, k))
    Hzz[:p - n, :p - n] = H[n:, n:]
    Hzy = np.zeros((k, n))
    Hzy[:p - n] = H[n:, :n]
    Hz = Hzz + 0.01 * np.eye(k)
    ev = np.linalg.eigvalsh(Hz)
    top = max(np.abs(ev).max(), 1e-300)
    for x, y in zip(X, Y):
        z = x.dot(W2)
        c = gz + Hzy.dot(y)
        if ev[0] < 1e-6 * top:
            ctx.probe('not convex in the inactive variables')
            continue
        val = lambda t: c.dot(t) + 0.5 * t.dot(Hz).dot(t)
        if bounded:
            st, zr = ref.convex_qp(c, 0.5 * Hz, np.vstack((W2, -W2)), np.concatenate((-1 - W1.dot(y), -1 + W1.dot(y))) - 1e-9)
            if st != 'optimal':
                ctx.probe('reference gave up')
                continue
            ins = min((1 - np.abs(W1.dot(y) + W2.dot(zr))).min(), 0.0)
            if ins < -1e-7:
                ctx.probe('reference gave up')
                continue
        else:
            zr = -np.linalg.solve(Hz, c)
        osc = max(np.abs(c).max() * max(np.abs(zr).max(), 1e-3), np.abs(Hz).max() * np.abs(zr).max() ** 2, 1e-300)
        tol = (1e-3 if bounded else 1e-8) * osc + 1e-9
        need(val(z) - val(zr) <= tol, 'inactive', 'the inactive coordinates {} give {:.8g}, {} give {:.8g}', z, val(z), zr, val(zr))
        ctx.probe('inactive minimizers checked')


def run_map(plan, ctx, E):
    lib, d, w, n, m = E['lib'], E['d'], E['w'], E['n'], E['m']
    X, f, p = data(plan, E)
    Y = doms.active_points(d, E['W1'], plan['Y'], plan['s'] + 2)
    g, H, cond = quadratic(X, f, E['W'], p)
    mk = lib.BoundedMinVariableMap if d['bounded'] else lib.UnboundedMinVariableMap
    N = plan['N']

    def call(world):
        mp = mk(E['dom'])
        if plan['again']:
            mp.train(X[::-1] * 0.5, f)
        mp.train(X, f)
        return mp.inverse(Y, N) if N != 1 else mp.inverse(Y)
    o, rec, hits = faulty(plan, E, call)
    if N != 1:
        need(not o.ok, 'copies', 'N={} minimizers of one fibre were returned', N)
        return
    if surfaced(ctx, o, hits, 'the map'):
        return
    if hits:
        need(False, 'swallowed', 'a failed program ({}) did not reach the caller', plan['fault'])
    if not o.ok:
        need(gave_up(rec) or refused(E, H, p), 'raised', 'the map raised {}', o)
        ctx.probe('the optimizer itself gave up')
        ctx.probe('gave up at ' + ','.join(sorted(set(plan['Y']))))
        return
    ctx.interesting = True
    Xs, ind = o.value
    doms.check_points(need, Xs, ind, Y, 1, E['W'], n, d['bounded'], 2e-6)
    if cond > 1e6:
        ctx.probe('fit not clear')
        return
    check_z(ctx, E, g, H, p, Xs, Y)
    ctx.digest(len(Xs))


def run_min(plan, ctx, E):
    lib, d, w, n, m = E['lib'], E['d'], E['w'], E['n'], E['m']
    X, f, p = data(plan, E)
    g, H, cond = quadratic(X, f, E['W'], p)
    if plan['surf'] == 'rbf' and (not d['bounded'] or len(X) > 60):
        return
    avm = (lib.BoundedActiveVariableMap if d['bounded'] else lib.UnboundedActiveVariableMap)(E['dom'])
    s = lib.ActiveSubspaceResponseSurface(avm, lib.PolynomialApproximation(2) if plan['surf'] == 'poly' else lib.RadialBasisApproximation(2))
    must(w, 'training', s.train_with_data, X, f)
    yf = lambda y: float(s.predict_av(np.asarray(y).reshape((1, n)))[0][0, 0])
    yg = lambda y: s.gradient_av(np.asarray(y).reshape((1, n))).ravel()
    convex = False
    if plan['surf'] == 'poly':
        g1, H1, c1 = quadratic(X, f, E['W'], n)
        ev = np.linalg.eigvalsh(H1)
        convex = ev[0] > 1e-3 * max(np.abs(ev).max(), 1e-300) and ev[0] > 1e-6
        if not convex and not d['bounded']:
            ctx.probe('no minimum')
            return
    o, rec, hits = faulty(plan, E, lambda world: lib.minimize(s, X, f))
    if surfaced(ctx, o, hits, 'minimize'):
        return
    if not o.ok:
        need(gave_up(rec) or refused(E, H, p), 'raised', 'minimize raised {}', o)
        ctx.probe('the optimizer itself gave up')
        return
    ctx.interesting = True
    xs, fs = o.value
    need(isinstance(xs, np.ndarray) and xs.shape == (1, m) and np.ndim(fs) == 0, 'shape', 'the minimizer is {}, the minimum {}', np.shape(xs), np.shape(fs))
    need(np.isfinite(xs).all(), 'nonfinite', 'the minimizer is {}', xs)
    if d['bounded']:
        need(np.abs(xs).max() <= 1 + 2e-6, 'infeasible', 'the minimizer leaves the hypercube by {:.3g}', np.abs(xs).max() - 1)
    y = xs.dot(E['W1'])[0]
    v = yf(y)
    sc = np.abs(f - f.mean()).max() + abs(v) + 1e-12
    need(abs(v - fs) <= 1e-6 * sc * 10, 'value', 'the minimum is {:.12g}, the surface at the minimizer {:.12g}', float(fs), v)
    if plan['surf'] == 'poly' and convex:
        tol = 1e-3 * sc if d['bounded'] else 1e-3 * sc
        b = better(yf, yg, y, E['G'], E['h'], d['bounded'], plan['s'] + 5, E['size'] or 3.0, True, tol)
        need(b is None, 'not-minimum', 'the minimum is {:.9g}, but {} has {:.9g}', float(fs), b and b[1], b and b[0])
        ctx.probe('global minima checked')
    if cond < 1e6:
        check_z(ctx, E, g, H, p, xs, xs.dot(E['W1']))
