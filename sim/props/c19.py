"""C19: a surface trained through the active subspace models the fibre averages."""
import itertools

import numpy as np

from .. import gens, doms, ref, seams
from ..user import Sim, FUNS, RETS
from ..world import attempt, must, need, make_draws

RULE = ('A run trains an active-subspace surface (polynomial of degree 0-4, radial basis) one to three times, through a '
        'simulation interface or with data, under ordinary or adversarial draws, and compares its predictions and gradients '
        'with an independently trained surface on the fibre averages of the ledger, an own polynomial fit, finite '
        'differences and the simulated function itself. Non-trivial: predictions were compared; distinct by domain, surface, '
        'mode, N, NMC, function and draw policy.')
REAL = ['active_subspaces.response_surfaces', 'active_subspaces.utils.response_surfaces', 'active_subspaces.domains',
        'active_subspaces.utils.designs', 'active_subspaces.utils.simrunners', 'SciPy SLSQP, HiGHS, fminbound']
STUB = ['random outcomes', 'the simulation']
ASSUMPTIONS = ['radial-basis predictions are compared exactly only when the training points have the same order as in the '
               'ledger, since the length-scale search is sensitive to rounding',
               'ill-conditioned fits (above 1e8) are compared with the underlying surface only']


def gen(rng, i, tier):
    d = doms.spec(rng, None, 5, 3)
    if d['bounded'] and d['n'] >= 2:
        d['n'], d['m'] = 2, max(3, min(d['m'], 4))
    if not d['bounded'] and d['n'] == 3 and rng.random() < 0.5:
        d['n'] = 2
    big = rng.random() < 0.05
    if big and d['n'] <= 2:
        d['m'], d['kind'] = rng.choice([6, 8, 10]), 'haar'
    ops = []
    surf = rng.choice(['poly', 'poly', 'poly', 'rbf', 'rbf', 'default'])
    deg = rng.choice([1, 2, 2, 3, 4] + ([5] if d['n'] == 1 else [])) if surf == 'poly' else rng.choice([0, 1, 2, 2])
    if surf == 'default':
        deg = 2
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = {'how': rng.choice(['interface', 'interface', 'data']), 'f': rng.choice(['act', 'act', 'ridge', 'quad', 'exp', 'act-big']),
              'fs': rng.randrange(1 << 30), 'rs': rng.randrange(1 << 30), 'NMC': rng.choice([1, 2, 3, 5, 10]), 'ret': rng.choice(RETS)}
        need_ = {1: deg + 1, 2: (deg + 1) * (deg + 2) // 2, 3: (deg + 1) * (deg + 2) * (deg + 3) // 6}[d['n']]
        if op['how'] == 'data':
            op['N'] = need_ + rng.choice([0, 1, 3, 10, -1])
            op['v'] = rng.choice([None, None, 'small', 'big', 'const', 'zero', 'mixed']) if surf != 'poly' else None
        elif d['bounded']:
            op['N'] = rng.choice([1, 2, need_, need_ + 2]) if d['n'] == 1 else rng.choice([1, 2, 3, 4])
            if d['n'] > 1:
                op['NMC'] = min(op['NMC'], 4)
        else:
            k = {1: [need_, need_ + 2, 3, 1], 2: [9, 16, 25, 10], 3: [27, 30, 64]}[d['n']]
            op['N'] = rng.choice(k)
        op['N'] = max(op['N'], 1)
        if big and op['how'] == 'data':
            op['N'] = max(op['N'], rng.choice([60, 120]))
        elif big and not d['bounded']:
            op['N'], op['NMC'] = max(op['N'], rng.choice([30, 50]) if d['n'] > 1 else 20), rng.choice([1, 12, 25])
        elif big:
            op['N'], op['NMC'] = (rng.choice([15, 30]), rng.choice([5, 12])) if d['n'] == 1 else (rng.choice([2, 6]), rng.choice([2, 12]))
        if rng.random() < 0.35:
            op['draws'] = {'kind': rng.choice(['corner', 'scaled-normal', 'cluster', 'sticky', 'positive', 'low-uniform', 'mid-uniform']),
                           'scale': rng.choice([3.0, 1e-3])}
        op['state'] = rng.random() < 0.15
        op['runner'] = rng.choice([True, True, 'derived']) if rng.random() < 0.3 else False
        ops.append(op)
    return {'dom': d, 'surf': surf, 'deg': deg, 'ops': ops, 'ps': rng.randrange(1 << 30), 'derived': rng.random() < 0.2,
            'pts': rng.choice([6, 6, 6, 6, 1, 2, 40, 300, 1200])}


def active_poly(W1, deg, s, big=False):
    """A polynomial of the active variables of degree at most deg, as function of the inputs."""
    rng = gens.RS(s)
    n = W1.shape[1]
    E = [e for e in itertools.product(range(deg + 1), repeat=n) if sum(e) <= deg]
    c = rng.normal(size=len(E)) * (1e3 if big else 1.0)

    def of_y(y):
        return float(sum(ci * np.prod(np.power(y, e)) for ci, e in zip(c, E)))
    return lambda x: of_y(np.dot(np.ravel(x), W1))


def basis(Y, deg):
    n = Y.shape[1]
    E = [e for e in itertools.product(range(deg + 1), repeat=n) if sum(e) <= deg]
    return np.array([[np.prod(np.power(y, e)) for e in E] for y in Y]).reshape((len(Y), len(E)))


def run(plan, ctx):
    from .. import lib
    d = plan['dom']
    w = ctx.world(quiet=plan['surf'] != 'poly')
    ss, dom, avm = must(w, 'building the domain', doms.make, lib, d)
    W, n, m = ss.eigenvecs.copy(), d['n'], d['m']
    W1, ev = W[:, :n], ss.eigenvals.copy()
    if d['bounded'] and n > 1 and len(dom.vertY) > 20:
        ctx.probe('too many vertices')
        return
    deg = plan['deg']

    def surface():
        if plan['surf'] == 'poly':
            return lib.PolynomialApproximation(deg)
        return (lib.MyRadialBasis if plan.get('derived') else lib.RadialBasisApproximation)(deg)
    if plan['surf'] == 'default':
        asrs = lib.ActiveSubspaceResponseSurface(avm)
    else:
        asrs = lib.ActiveSubspaceResponseSurface(avm, surface())
    for op in plan['ops']:
        N, NMC = op['N'], op['NMC']
        exact = None
        if op['f'] in ('act', 'act-big'):
            fun = exact = active_poly(W1, deg, op['fs'], op['f'] == 'act-big')
        else:
            fun = gens.function({'s': op['fs'], 'f': op['f']}, m)[0]
        ctx.sig(d['kind'], m, n, d['bounded'], plan['surf'], deg, op['how'], N, NMC, op['f'], str(op.get('draws')), op['state'], op.get('v'))
        v = None
        fresh = surface()
        ordered = True
        if op['how'] == 'data':
            r = gens.RS(op['rs'])
            X = r.uniform(-1, 1, (N, m))
            F = np.array([[float(fun(x))] for x in X]).reshape((N, 1))
            if op.get('v') == 'small':
                v = r.uniform(1e-8, 1e-3, (N, 1))
            elif op.get('v') == 'big':
                v = r.uniform(0.1, 10.0, (N, 1))
            elif op.get('v') == 'const':
                v = np.full((N, 1), r.uniform(0.05, 2.0))
            elif op.get('v') == 'zero':
                v = np.zeros((N, 1))
            elif op.get('v') == 'mixed':
                v = r.choice([0.0, 1e-6, 0.5, 3.0], (N, 1))
            o = attempt(w, asrs.train_with_data, X, F, **({} if v is None else {'v': v}))
            Y, E = X.dot(W1), F
        else:
            def prep(world):
                world.draws, world.ndraws = make_draws(op.get('draws')), 0
                seams.ORIG['seed'](op['rs'])
            sim = Sim(fun, m, {'ret': op['ret'], 'state': op['state']}, world=w)
            fn = lib.runner(sim, op['runner']) if op['runner'] else sim
            prep(w)
            o = attempt(w, asrs.train_with_interface, fn, N, NMC)
            w.draws = None
            L, F = sim.X(), sim.F()
            if not len(L):
                need(not o.ok, 'ledger', 'trained without a simulation')
                ctx.probe('design failed')
                continue
            r = fibres(ctx, lib, plan, op, ss, dom, avm, prep, L, W1, n, N, NMC)
            if r is None:
                continue
            Y, ind, ordered = r
            E, v = ref.fibre_cond(F, ind, len(Y))
        if plan['surf'] == 'poly':
            o2 = attempt(ctx.world(quiet=plan['surf'] != 'poly'), fresh.train, Y, E)
        else:
            o2 = attempt(ctx.world(quiet=plan['surf'] != 'poly'), fresh.train, Y, E, v=v, e=ev)
        if o.ok != o2.ok:
            if not ordered and plan['surf'] != 'poly':
                continue
            need(False, 'differs', 'training through the active subspace: {}, the underlying surface: {}', o, o2)
        if not o.ok:
            ctx.probe('both refuse')
            continue
        ctx.interesting = True

        def retrain(k):
            r, s = gens.RS(k), surface()
            jig = [A * (1 + r.uniform(-1, 1, np.shape(A)) * 10.0 ** r.uniform(-15, -12)) for A in (Y, E)]
            s.train(jig[0], jig[1], v=v, e=ev)
            return s
        compare(ctx, lib, asrs, fresh, retrain, plan, Y, E, W1, n, m, deg, exact, ordered, d, op)


def fibres(ctx, lib, plan, op, ss, dom, avm, prep, L, W1, n, N, NMC):
    """Active points of the simulated inputs (one for each fibre), the fibre of every row, and whether in ledger order."""
    w2 = ctx.world(quiet=plan['surf'] != 'poly')
    prep(w2)
    o = attempt(w2, lib.av_design, avm, N, NMC=NMC)
    d = plan['dom']
    nv = len(dom.vertX) if d['bounded'] else 0
    K = (len(L) - nv) // NMC
    need(len(L) == K * NMC + nv and K >= 1, 'ledger', '{} simulations for NMC={} and {} vertices', len(L), NMC, nv)
    if o.ok:
        Y, X, ind = o.value
        need(len(L) == len(X) + nv, 'ledger', '{} simulations for a design of {} points and {} vertices', len(L), len(X), nv)
        if np.abs(L[:len(X)] - X).max() <= 1e-12 * max(1.0, np.abs(X).max()):
            ind = np.asarray(ind).ravel()
            if nv:
                need(np.abs(L[len(X):] - dom.vertX).max() < 1e-12, 'vertices', 'the vertices were not simulated')
                Y = np.vstack((Y, dom.vertY))
                ind = np.concatenate((ind, len(Y) - nv + np.arange(nv)))
            return Y, ind, True
    ctx.probe('design not repeated')
    # group by the active variables
    Yl = L.dot(W1)
    Y, ind = [], np.zeros(len(L), dtype=int)
    for i, y in enumerate(Yl):
        for j, t in enumerate(Y):
            if np.abs(t - y).max() < 1e-7:
                ind[i] = j
                break
        else:
            ind[i] = len(Y)
            Y.append(y)
    Y = np.array(Y)
    if len(Y) != K + nv:
        return None
    return Y, ind, False


def sensitive(ctx, plan, retrain, YX, f, f3, tol):
    """Whether changes in the last digits of the data move the predictions of the length-scale search."""
    for k in range(20):
        o = attempt(ctx.world(quiet=plan['surf'] != 'poly'), retrain, k)
        if not o.ok:
            return True
        p = must(ctx.world(quiet=plan['surf'] != 'poly'), 'predict of a retrained surface', o.value.predict, YX)[0]
        if np.abs(p - f).max() <= tol or np.abs(p - f3).max() > tol:
            return True
    return False


def compare(ctx, lib, asrs, fresh, retrain, plan, Y, E, W1, n, m, deg, exact, ordered, d, op):
    r = gens.RS(plan['ps'])
    K = plan.get('pts', 6)
    X = r.uniform(-1, 1, (K, m))
    w = ctx.world(quiet=plan['surf'] != 'poly')
    f, g = must(w, 'predict', asrs.predict, X, compgrad=True)
    need(np.shape(f) == (K, 1) and np.shape(g) == (K, m), 'shape', 'predictions {} and gradients {}', np.shape(f), np.shape(g))
    YX = X.dot(W1)
    f2, g2 = must(w, 'predict of the underlying surface', asrs.respsurf.predict, YX, compgrad=True)
    sf = max(np.abs(E).max(), np.abs(f2).max(), 1e-12)
    need(np.abs(f - f2).max() <= 1e-9 * sf, 'forward', 'predictions are not the underlying surface\'s at the active variables')
    gx = g2.dot(W1.T)
    sg = max(np.abs(gx).max(), sf, 1e-12)
    need(np.abs(g - gx).max() <= 1e-9 * sg, 'gradient', 'gradients are not mapped back by the active basis')
    for name, val in (('gradient', must(w, 'gradient', asrs.gradient, X)), ):
        need(np.shape(val) == (K, m) and np.abs(val - gx).max() <= 1e-9 * sg, 'gradient', '{} differs from predict', name)
    need(np.abs(must(w, 'call', asrs, X) - f2).max() <= 1e-9 * sf, 'forward', 'calling differs from predict')
    need(np.abs(must(w, 'gradient_av', asrs.gradient_av, YX) - g2).max() <= 1e-9 * sg, 'gradient', 'gradient_av differs')
    need(np.abs(must(w, 'predict_av', asrs.predict_av, YX)[0] - f2).max() <= 1e-9 * sf, 'forward', 'predict_av differs')
    # the independently trained surface
    f3, g3 = must(w, 'predict of a fresh surface', fresh.predict, YX, compgrad=True)
    B = basis(Y, deg)
    scale = np.abs(B).max(axis=0)
    scale[scale == 0] = 1.0
    sv = np.linalg.svd(B / scale, compute_uv=False)
    cond = sv[0] / max(sv[-1], 1e-300)
    BX = basis(YX, deg)
    if ordered:
        tol = 1e-9 * sf if plan['surf'] == 'poly' else 1e-7 * sf
        tol = max(tol, 1e-12 * cond * sf) if cond < 1e8 else None
        if plan['surf'] != 'poly':
            tol = 1e-6 * sf
        if tol is not None:
            err = np.abs(f3 - f).max()
            tol = max(tol, 1e-11 * np.abs(BX / scale).max() * cond * sf)
            if err <= tol or plan['surf'] == 'poly' or not sensitive(ctx, plan, retrain, YX, f, f3, tol):
                need(err <= tol, 'training',
                     'predictions differ by {:.3g} from a surface trained on the fibre averages', err)
                ctx.probe('compared with a fresh surface')
            else:
                ctx.probe('sensitive to rounding')
    if plan['surf'] == 'poly' and cond < 1e8 and len(Y) >= B.shape[1]:
        c = np.linalg.lstsq(B / scale, E, rcond=None)[0]
        err = np.abs((BX / scale).dot(c) - f).max()
        need(err <= 1e-11 * max(cond, 10.0) * sf * max(np.abs(BX / scale).max(), 1.0) * 10, 'fit',
             'predictions differ by {:.3g} from the least-squares polynomial', err)
        ctx.probe('compared with an own fit')
    if exact is not None and not op['state'] and cond < 1e5:
        want = np.array([[exact(x)] for x in X])
        ext = max(np.abs(BX / scale).max(), 1.0)
        if plan['surf'] == 'poly':
            tol = 1e-10 * cond * ext * sf + 1e-9 * sf
        else:
            # the kernel matrix may be badly conditioned
            tol = 1e-4 * sf * ext
        err = np.abs(f - want).max()
        if cond < 1e4 or plan['surf'] == 'poly':
            need(err <= tol, 'reproduce', 'a polynomial of degree {} of the active variables is missed by {:.3g} of {:.3g}', deg, err, sf)
            ctx.probe('polynomials reproduced')
    # derivative of the prediction
    q = ctx.world(quiet=plan['surf'] != 'poly')
    for k in range(min(n, 2)):
        ds = []
        h0 = 1e-3 * max(0.3, np.abs(YX).max())
        ell = getattr(asrs.respsurf, 'ell', None)
        for h in (h0, h0 / 2, h0 / 4):
            P, M = YX.copy(), YX.copy()
            P[:, k] += h
            M[:, k] -= h
            a = must(q, 'predict_av', asrs.predict_av, P)[0]
            b = must(q, 'predict_av', asrs.predict_av, M)[0]
            ds.append((a - b).ravel() / (2 * h))
        D1, D2 = (4 * ds[1] - ds[0]) / 3, (4 * ds[2] - ds[1]) / 3
        for i in list(range(min(K, 6))) + list(range(max(6, K - 3), K)):
            s = max(abs(g2[i, k]), abs(D2[i]), sf * 1e-3)
            agree = abs(D1[i] - D2[i])
            if agree < 1e-5 * s:
                need(abs(D2[i] - g2[i, k]) <= 20 * agree + 1e-4 * s, 'derivative', 'the gradient {:.6g} is not the derivative {:.6g} of the prediction',
                     g2[i, k], D2[i])
                ctx.probe('derivatives compared')
    if plan['surf'] == 'poly' and cond < 1e6:
        ctx.digest(f)
    else:
        ctx.digest(np.shape(f))
