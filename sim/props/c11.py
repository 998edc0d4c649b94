"""C11: a linear or quadratic program is solved, or the failure is raised."""
import os

import numpy as np

from .. import gens, ref, doms, seams
from ..world import attempt, need, Armed

RULE = ('A run solves one to five programs in a row with one or two solver objects: feasible, infeasible, unbounded and '
        'degenerate ones, while the backend reports failures or raises at chosen calls and the disk refuses the diagnostic '
        'file. Non-trivial: an answer was compared with the minimum, or a failure surfaced; distinct by kinds, sizes, cases, '
        'backend, fault and disk fault.')
REAL = ['active_subspaces.utils.qp_solver', 'SciPy HiGHS, L-BFGS-B, SLSQP', 'numpy.savez']
STUB = ['failures of the solvers', 'the disk when it fails', 'Gurobi (gurobi backend), with its documented statuses']
ASSUMPTIONS = ['tolerance 1e-6 of the data on constraints, 2e-5 (SLSQP: 5e-4) of the objective']

METH = ['lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq']


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        o = {'meth': rng.choice(METH), 's': rng.randrange(1 << 30), 'm': rng.choice([1, 2, 2, 3, 4, 5, 8]),
             'M': rng.choice([1, 2, 3, 5, 8, 15]), 'case': rng.choice(['ok', 'ok', 'ok', 'ok', 'degenerate', 'infeasible', 'unbounded']),
             'q': rng.choice(['strict', 'strict', 'psd', 'asym', 'zero', 'diag']), 'scale': rng.choice([1.0, 1.0, 1.0, 1e-2, 1e-4, 50.0, 1e4]),
             'dt': rng.choice([None, None, None, 'F', 'ro', 'view']), 'solver': rng.choice(['GUROBI', 'GUROBI', 'SCIPY', 'default', 'CPLEX'])}
        if rng.random() < 0.04:
            o['m'], o['M'] = rng.choice([(12, 20), (20, 12), (20, 40), (3, 60)])
        if rng.random() < 0.3:
            o['zb'] = True
        if rng.random() < 0.35:
            o['fault'] = {'kind': rng.choice(['fail', 'fail', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError', 'Interrupt']),
                          'gkind': doms.lp_fault(rng, 'gurobi'), 'env': rng.random() < 0.1, 'k': rng.choice([0, 0, 0, 1])}
        if rng.random() < 0.4:
            o['disk'] = rng.choice(['ENOSPC', 'EACCES', 'EIO', 'EROFS', 'EDQUOT', 'EMFILE', 'torn', 'gone', 'MemoryError'])
        ops.append(o)
    return {'ops': ops, 'share': rng.random() < 0.6}


def zero_bounds(o, r, lb, ub):
    """Bounds that are exactly zero."""
    if o.get('zb'):
        for j in range(len(lb)):
            k = r.randint(3)
            if k == 0:
                lb[j], ub[j] = 0.0, abs(ub[j, 0]) + 0.1
            elif k == 1:
                lb[j], ub[j] = -abs(lb[j, 0]) - 0.1, 0.0


def program(o):
    """(data in calling order, G, h with G x >= h, c, Q, truth)"""
    r = gens.RS(o['s'])
    m, M, sc, meth, case = o['m'], o['M'], o['scale'], o['meth'], o['case']
    c = r.normal(size=(m, 1)) * sc
    x0 = r.uniform(-1, 1, (m, 1))
    Q = np.zeros((m, m))
    if meth.startswith('qp'):
        B = r.normal(size=(m, m))
        q = o['q']
        if q == 'strict':
            Q = B.T.dot(B) / m + 0.2 * np.eye(m)
        elif q == 'diag':
            Q = np.diag(r.uniform(0.2, 3, m))
        elif q == 'psd':
            k = max(1, m // 2)
            Q = B[:k].T.dot(B[:k]) / m
        elif q == 'asym':
            Q = B.T.dot(B) / m + 0.2 * np.eye(m) + (B - B.T)
        Q = Q * sc
    S = 0.5 * (Q + Q.T)
    truth = 'optimal'
    if meth == 'lp_eq':
        M = min(M, m)
        A = r.normal(size=(M, m))
        lb, ub = -r.uniform(0.5, 2, (m, 1)), r.uniform(0.5, 2, (m, 1))
        zero_bounds(o, r, lb, ub)
        x0 = lb + (ub - lb) * r.uniform(0, 1, (m, 1))
        if case == 'degenerate':
            k = r.randint(4)
            if k == 0:
                A[-1] = A[0]
            elif k == 1:
                j = r.randint(m)
                lb[j] = ub[j] = x0[j]
            elif k == 2:
                c[:] = 0.0
            else:
                x0 = np.where(r.uniform(size=(m, 1)) < 0.5, lb, ub)
        b = A.dot(x0)
        if case == 'infeasible':
            k = r.randint(3)
            a = A[0]
            if k == 0:
                b[0] = (np.where(a > 0, a * ub[:, 0], a * lb[:, 0])).sum() + 0.5
            elif k == 1:
                A = np.vstack((A, A[:1]))
                b = np.vstack((b, b[:1] + 0.5))
            else:
                j = r.randint(m)
                lb[j], ub[j] = ub[j].copy(), lb[j].copy()
            truth = 'infeasible'
        if case == 'unbounded':
            if m == 1:
                A, b = np.zeros((1, 1)), np.zeros((1, 1))
                ray = np.ones(1)
            else:
                A = A[:m - 1]
                b = b[:m - 1]
                ray = np.linalg.svd(A)[2][-1]
            lb[ray < 0], ub[ray > 0] = -np.inf, np.inf
            if c[:, 0].dot(ray) > -0.1 * sc:
                c = c - ((c[:, 0].dot(ray) + 0.5 * sc) * ray)[:, None]
            truth = 'unbounded'
        f = np.isfinite(np.vstack((lb, -ub)))[:, 0]
        I = np.eye(m)
        G = np.vstack((np.vstack((I, -I))[f], A, -A))
        h = np.vstack((np.vstack((lb, -ub))[f], b, -b))[:, 0]
        return (c, A, b, lb, ub), G, h, c[:, 0], Q, truth
    if meth == 'qp_bnd':
        lb, ub = -r.uniform(0.1, 2, (m, 1)), r.uniform(0.1, 2, (m, 1))
        if r.uniform() < 0.3:
            sh = r.normal(size=(m, 1)) * 2
            lb, ub = lb + sh, ub + sh
        zero_bounds(o, r, lb, ub)
        pd = np.linalg.eigvalsh(S)[0] > 1e-6 * sc
        if case == 'ok' and pd and r.uniform() < 0.3:
            lb[r.uniform(size=m) < 0.5] = -np.inf
            ub[r.uniform(size=m) < 0.5] = np.inf
        if case == 'degenerate':
            k = r.randint(3)
            j = r.randint(m)
            if k == 0:
                lb[j] = ub[j]
            elif k == 1:
                c[:] = 0.0
            else:
                lb[:], ub[:] = 0.0, np.abs(ub)
        if case == 'infeasible':
            j = r.randint(m)
            lb[j], ub[j] = ub[j, 0] + 0.5, lb[j, 0]
            truth = 'infeasible'
        if case == 'unbounded':
            j = r.randint(m)
            Q[j], Q[:, j] = 0.0, 0.0
            c[j] = sc * r.choice([-1.0, 1.0])
            if c[j] < 0:
                ub[j] = np.inf
            else:
                lb[j] = -np.inf
            truth = 'unbounded'
        f = np.isfinite(np.vstack((lb, -ub)))[:, 0]
        I = np.eye(m)
        return (c, Q, lb, ub), np.vstack((I, -I))[f], np.vstack((lb, -ub))[f][:, 0], c[:, 0], Q, truth
    A = r.normal(size=(M, m))
    s = r.uniform(0, 1, (M, 1)) * (r.uniform(size=(M, 1)) < 0.7)
    if r.uniform() < 0.3:
        x0 = x0 + r.normal(size=(m, 1)) * 2
    b = A.dot(x0) - s
    pd = meth == 'qp_ineq' and np.linalg.eigvalsh(S)[0] > 1e-6 * sc
    if case != 'unbounded' and not (pd and r.uniform() < 0.3):
        I = np.eye(m)
        A = np.vstack((A, I, -I))
        b = np.vstack((b, -3 + x0, -3 - x0))
    if case == 'degenerate':
        k = r.randint(3)
        if k == 0:
            A, b = np.vstack((A, A[:1])), np.vstack((b, b[:1]))
        elif k == 1:
            c[:] = 0.0
        else:
            b = b - A.dot(x0)
            b = np.where(np.abs(b) < 1e-12, 0.0, b)
    if case == 'infeasible':
        A = np.vstack((A, A[:1], -A[:1]))
        t = r.normal()
        b = np.vstack((b, [[t + 0.5]], [[-t + 0.5]]))
        truth = 'infeasible'
    if case == 'unbounded':
        if meth == 'qp_ineq':
            Q = np.zeros((m, m))
            if m > 1:
                u = np.linalg.qr(r.normal(size=(m, m)))[0]
                Q = u[:, 1:].dot(np.diag(r.uniform(0.2, 2, m - 1))).dot(u[:, 1:].T) * sc
                ray = u[:, 0]
            else:
                ray = np.ones(1)
        else:
            ray = r.normal(size=m)
            ray /= np.linalg.norm(ray)
        t = A.dot(ray)
        A[t < 0] *= -1
        b = A.dot(x0) - s
        c = c - ((c[:, 0].dot(ray) + 0.7 * sc) * ray)[:, None]
        truth = 'unbounded'
    data = (c, A, b) if meth == 'lp_ineq' else (c, Q, A, b)
    return data, A, b[:, 0], c[:, 0], Q, truth


def dress(a, dt):
    if dt == 'F':
        return np.asfortranarray(a)
    if dt == 'ro':
        a = a.copy()
        a.setflags(write=False)
        return a
    if dt == 'view':
        big = np.full((2 * a.shape[0], 2 * a.shape[1]), 7e77)
        big[::2, ::2] = a
        return big[::2, ::2]
    return a


def run(plan, ctx):
    from .. import lib
    backend = plan.get('backend', 'scipy')
    w = ctx.world()
    call = {'lp_eq': 'linear_program_eq', 'lp_ineq': 'linear_program_ineq', 'qp_bnd': 'quadratic_program_bnd',
            'qp_ineq': 'quadratic_program_ineq'}
    solvers = {}
    for o in plan['ops']:
        ctx.sig(o['meth'], o['m'], o['M'], o['case'], o['q'], o['scale'], o['dt'], o['solver'], str(o.get('fault')), o.get('disk'), backend)
        data, G, h, c, Q, truth = program(o)
        args = [dress(a.copy(), o['dt']) for a in data]
        name = o['solver']
        if name not in solvers or not plan['share']:
            solvers[name] = lib.QPSolver() if name == 'default' else lib.QPSolver(solver=name)
        s = solvers[name]
        grb = backend == 'gurobi' and name in ('GUROBI', 'default')
        f, disk = o.get('fault'), o.get('disk')
        arm = []
        if f:
            arm.append(Armed('gurobi-env', 0, 'GurobiError') if grb and f['env'] else
                       Armed('gurobi', f['k'], f['gkind']) if grb else Armed('solver', f['k'], f['kind']))
        cwd = os.path.join(ctx.scratch, 'cwd')
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        if disk == 'gone':
            os.rmdir(cwd) if not os.listdir(cwd) else None
        elif disk:
            arm.append(Armed('disk', 0, 'ENOSPC' if disk == 'torn' else disk, sticky=True))
            w.disk_hook = hook if disk == 'torn' else None
        before = set(os.listdir(cwd)) if os.path.exists(cwd) else set()
        w.arm(*arm)
        w.recording = []
        r = attempt(w, getattr(s, call[o['meth']]), *args)
        rec, w.recording = w.recording, None
        ngrb = w.calls['gurobi'] + w.calls['gurobi-env']
        w.disarm()
        w.disk_hook = None
        os.chdir(ctx.scratch)
        if disk == 'gone':
            ctx.probe('working directory removed')
        struck = [x for x in arm if x.fired and x.cat != 'disk']
        dfault = [x for x in arm if x.fired and x.cat == 'disk']
        if ngrb and not grb:
            need(False, 'backend', 'solver {!r} used Gurobi', name)
        for a, b in zip(args, data):
            need(np.array_equal(a, b), 'modified', '{} changed its arguments', o['meth'])
        if struck:
            need(not r.ok, 'swallowed', '{} {} returned {} although the solver failed ({})', o['meth'], truth, r.value, struck[0].kind)
            if struck[0].exc is not None and struck[0].kind in ('MemoryError', 'Interrupt'):
                need(r.exc is struck[0].exc, 'exception', 'the solver raised {!r}, the caller got {}', struck[0].exc, r)
            ctx.probe('solver failures surfaced')
            ctx.interesting = True
        elif truth != 'optimal':
            need(not r.ok, truth, '{} returned {} for a program that is {}', o['meth'], r.value, truth)
            ctx.probe(truth + ' programs reported')
            ctx.interesting = True
        if not r.ok:
            for x in dfault:
                need(not (r.exc is x.exc and x.kind != 'MemoryError') and not isinstance(r.exc, OSError), 'masked',
                     'a {} of the disk hides that the program was not solved: {}', x.kind, r)
            if disk == 'gone':
                need(not isinstance(r.exc, OSError), 'masked', 'an unusable working directory hides that the program was not solved: {}', r)
            own = [v for v in rec if v[0] == 'solver' and hasattr(v[4], 'success') and not v[4].success]
            if not struck and truth == 'optimal':
                need(bool(own), 'raised', '{} (m={}, {}) raised {}', o['meth'], o['m'], o['case'], r)
                ctx.probe('solver itself gave up')
            # the diagnostic file
            reported = own or any(x.returned for x in struck) or \
                (grb and any(x.kind in ('infeasible', 'inf_or_unbd', 'unbounded', 'iteration', 'time', 'interrupted', 'numeric',
                                        'suboptimal') for x in struck))
            if reported and not disk:
                new = sorted(set(os.listdir(cwd)) - before)
                need(len(new) == 1, 'dump', 'the unsolved program left {} files', new)
                check_dump(os.path.join(cwd, new[0]), data)
                ctx.probe('diagnostic files read')
            continue
        # an answer
        ctx.interesting = True
        x = r.value
        m = o['m']
        need(isinstance(x, np.ndarray) and x.shape == (m, 1), 'shape', 'the answer is {}', np.shape(x))
        need(np.isfinite(x).all(), 'nonfinite', 'the answer is {}', x.ravel())
        x = x[:, 0]
        size = max(1.0, np.abs(h).max() if h.size else 0.0, np.abs(x).max())
        gap = (h - G.dot(x)).max() if h.size else 0.0
        need(gap <= 2e-6 * size, 'infeasible-answer', '{} violates a constraint by {:.3g}', o['meth'], gap)
        if os.path.isdir(cwd):
            need(set(os.listdir(cwd)) == before, 'dump', 'a solved program left files')
        st, xr = ref.convex_qp(c, Q, G, h) if np.any(Q) else best_lp(c, G, h)
        if st != 'optimal' or (h.size and (h - G.dot(xr)).max() > 1e-7 * size):
            ctx.probe('reference gave up')
            continue
        val = lambda v: c.dot(v) + v.dot(Q).dot(v)
        osc = max(np.abs(c).max() * max(1.0, np.abs(xr).max()), np.abs(Q).max() * max(1.0, np.abs(xr).max()) ** 2)
        tol = (2e-5 if o['meth'] != 'qp_ineq' or grb else 5e-4 if np.any(Q) else 2e-3)
        need(val(x) - val(xr) <= tol * osc, 'suboptimal', '{} (m={}, {}, {}) has objective {:.8g}, the minimum is {:.8g}', o['meth'],
             m, o['case'], o['q'], val(x), val(xr))
        ctx.digest(round(val(x) / max(osc, 1e-300), 2))
        ctx.probe('answers compared')


def best_lp(c, G, h):
    st, f, x = ref.lp_min(c, G, h)
    return ('optimal', x) if st == 0 else (str(st), None)


def hook(world, name, orig, a, k, fault):
    """A write that ends after a few bytes."""
    if fault is None:
        return orig(*a, **k)
    if a and isinstance(a[0], str):
        with seams.ORIG['open'](a[0] + '.npz', 'wb') as fh:
            fh.write(b'PK\x03\x04torn')
    fault.exc = OSError(28, 'No space left on device (injected)')
    raise fault.exc


def check_dump(path, data):
    try:
        z = np.load(path, allow_pickle=True)
        got = [np.asarray(z[k]) for k in z.files if k not in ('res',)]
    except Exception as e:
        need(False, 'dump', 'the diagnostic file cannot be read: {!r}', e)
    got = [g for g in got if g.dtype.kind in 'fiu']
    for d in data:
        need(any(g.size == d.size and np.array_equal(g.ravel(), d.ravel()) for g in got), 'dump',
             'the diagnostic file does not contain one of the {} arrays of the program', len(data))
