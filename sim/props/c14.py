"""C14: re-used objects behave like fresh ones; reading changes nothing."""
import copy

import numpy as np

from .. import gens, graph, flow, seams
from ..user import Sim
from ..world import attempt, need, Armed

RULE = ('A run puts one object (subspace, surface, map, domain, runner, solver) through a history of calls with other data, '
        'sizes, dimensions and weights, refused arguments, injected failures and reading in between; after every successful '
        'call a new object is given only that call and the two are compared, attributes and answers. Reading calls are '
        'repeated, reordered, permuted and split into batches. Non-trivial: an object with a past was compared; distinct by '
        'the history.')
REAL = ['active_subspaces (all modules but the plotter)', 'numpy', 'SciPy']
STUB = ['failures at external calls', 'the simulations']
ASSUMPTIONS = ['answers are compared up to a relative 1e-8; where copies trained on data changed in the last digits differ as '
               'much, nothing is decided']

OBJ = {'ss': ['compute', 'compute', 'compute', 'partition'], 'poly': ['poly'], 'rbf': ['rbf'],
       'asrs': ['data', 'data', 'iface', 'compute', 'partition', 'boundary'], 'mvm': ['mvm', 'mvm', 'compute', 'boundary'],
       'dom': ['compute', 'partition', 'boundary', 'boundary']}
SPLIT = ['forward', 'predict', 'gradient', 'call', 'predict_av', 'poly', 'rbf', 'mvm', 'norm', 'run', 'grun', 'fd']


def gen(rng, i, tier):
    kind = rng.choice(['ss', 'ss', 'poly', 'rbf', 'asrs', 'asrs', 'mvm', 'dom', 'reads', 'reads', 'runner', 'batch', 'batch'])
    g = graph.spec(rng, 4)
    if rng.random() < 0.5:
        g['dom']['n'] = 1
    p = {'kind': kind, 'g': g, 'ops': []}
    if kind in OBJ:
        for _ in range(rng.choice([2, 2, 3, 4, 6])):
            g2 = dict(g)
            if kind == 'ss' and rng.random() < 0.5:        # a subspace alone may change its dimension
                g2 = dict(g, dom=dict(g['dom'], m=rng.choice([2, 3, 4, 5])))
            o = graph.op(rng, g2, rng.choice(OBJ[kind]))
            if rng.random() < 0.3:
                o['fault'] = {'frac': rng.random(), 'kind': rng.choice(['MemoryError', 'Interrupt', 'MemoryError'])}
            if rng.random() < 0.4:
                o['reads'] = [flow.op(rng, g, rng.choice(['forward', 'predict', 'predict_av', 'gradient', 'inverse', 'poly', 'rbf', 'mvm', 'avquad']))]
            p['ops'].append(o)
        # some calls again with the same sizes and other data, or the very same call
        for o in list(p['ops']):
            if rng.random() < 0.35:
                q = dict(o, reads=[])
                q.pop('fault', None)
                if rng.random() < 0.7:
                    q['s'] = rng.randrange(1 << 30)
                    if 'd' in q:
                        q['d'] = dict(q['d'], s=rng.randrange(1 << 30))
                p['ops'].insert(rng.randint(0, len(p['ops'])), q)
    else:
        setup = []
        for what in ('poly', 'rbf', 'data', 'mvm'):
            o = graph.op(rng, g, what)
            o.pop('bad', None)
            setup.append(o)
        p['setup'] = setup
        names = {'reads': None, 'runner': ['run', 'grun', 'run', 'lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq', 'integrate', 'fd'], 'batch': SPLIT}[kind]
        for _ in range(rng.choice([2, 3, 4, 6])):
            o = flow.op(rng, g, rng.choice(names) if names else None, heavy=rng.random() < 0.3)
            if kind == 'batch':
                o['M'] = rng.choice([2, 3, 5, 8, 8, 8, 70, 300, 1500]) if o['read'] != 'mvm' else rng.choice([2, 3, 12])
                o['perm'] = rng.randrange(1 << 30)
                if o['read'] in ('poly', 'rbf'):
                    o['dim'] = setup[('poly', 'rbf').index(o['read'])]['dim']
            elif rng.random() < 0.3:
                o['fault'] = {'frac': rng.random(), 'kind': rng.choice(['MemoryError', 'Interrupt'])}
            elif o['read'] in ('run', 'grun', 'fd', 'integrate') and rng.random() < 0.3:
                o['beh'] = {'fail': rng.choice([0, 1, 3]), 'exc': rng.choice(['exc', 'Interrupt', 'ValueError'])}
            p['ops'].append(o)
        p['order'] = rng.randrange(1 << 30)
    return p


# -- objects with a past against new ones ---------------------------------------

def leaf(lib, g):
    """A graph without a domain, for objects that stand alone."""
    G = graph.Graph.__new__(graph.Graph)
    G.lib, G.g, G.m = lib, g, g['dom']['m']
    G.ss = lib.Subspaces()
    G.poly = lib.PolynomialApproximation(g['pdeg'])
    G.rbf = lib.RadialBasisApproximation(g['rdeg'])
    r = gens.RS(g['ps'])
    G.P = {k: r.uniform(-1, 1, (4, k)) for k in (1, 2, 3)}
    return G


def fresh(lib, G, kind, w):
    """A copy of the graph in which the object of interest is new."""
    F = copy.copy(G)
    if kind == 'ss':
        F.ss = lib.Subspaces()
    elif kind == 'poly':
        F.poly = lib.PolynomialApproximation(G.g['pdeg'])
    elif kind == 'rbf':
        F.rbf = lib.RadialBasisApproximation(G.g['rdeg'])
    elif kind == 'asrs':
        F.asrs = G.new_asrs(G.avm)
    elif kind == 'mvm':
        F.mvm = type(G.mvm)(G.dom)
    elif kind == 'dom':
        o = attempt(w, type(G.dom), G.ss)
        if not o.ok:
            return None
        F.dom = o.value
        F.avm = type(G.avm)(F.dom)
    return F


def answers(G, kind, w):
    """All that the object says about itself and about points."""
    out = {}

    def ask(name, fn):
        seams.ORIG['seed'](1234)
        o = attempt(w, fn)
        out[name] = ('exc', type(o.exc).__name__) if not o.ok else \
            ('ok', [None if x is None else np.array(x, dtype=float, copy=True) for x in (o.value if isinstance(o.value, (tuple, list)) else [o.value])])
        return o.value if o.ok else None
    if kind == 'ss':
        s = G.ss
        for k in ('eigenvals', 'eigenvecs', 'W1', 'W2', 'e_br', 'sub_br'):
            ask(k, lambda: getattr(s, k))
        return out
    if kind in ('poly', 'rbf'):
        q = getattr(G, kind)
        for k in ('N', 'Rsqr', 'X', 'f', 'poly_weights') + (('g', 'H') if kind == 'poly' else ('radial_weights', 'K', 'ell')):
            ask(k, lambda: getattr(q, k))
        for k in (1, 2, 3):
            ask('predict%d' % k, lambda: q.predict(G.P[k], True))
        return out
    Y = attempt(w, G.avm.forward, G.XP)
    Y = np.array(Y.value[0]) if Y.ok else None
    if kind == 'asrs':
        q = G.asrs
        for k in ('N', 'Rsqr', 'X', 'f', 'poly_weights', 'radial_weights', 'ell', 'K', 'g', 'H'):
            ask(k, lambda: getattr(q.respsurf, k, None))
        ask('predict', lambda: q.predict(G.XP, True))
        ask('gradient', lambda: q.gradient(G.XP))
        ask('call', lambda: q(G.XP))
        if Y is not None:
            ask('predict_av', lambda: q.predict_av(Y, True))
            ask('gradient_av', lambda: q.gradient_av(Y))
    elif kind == 'mvm':
        if Y is not None and Y.shape[1] < G.m:
            ask('mapped', lambda: G.mvm.inverse(Y))
            ask('inactive', lambda: G.mvm.regularize_z(Y, 1))
    elif kind == 'dom':
        d = G.dom
        for k in ('m', 'n', 'vertY', 'vertX'):
            ask(k, lambda: getattr(d, k))
        ask('hull', lambda: None if d.convhull is None else d.convhull.equations)
        if d.constraints is not None:
            t = gens.RS(5).normal(size=(3, d.n))
            ask('constraints', lambda: [d.constraints['fun'](y) for y in t] + [d.constraints['jac'](y) for y in t])
        ask('forward', lambda: G.avm.forward(G.XP))
        if Y is not None and Y.shape[1] < G.m:
            ask('inverse', lambda: G.avm.inverse(0.9 * Y, 2))
    return out


MAIN = {'ss': ('compute', 'partition'), 'poly': ('poly',), 'rbf': ('rbf',), 'asrs': ('data', 'iface'), 'mvm': ('mvm',), 'dom': ('boundary',)}


def histories(plan, ctx, lib, w):
    kind = plan['kind']
    G = leaf(lib, plan['g']) if kind in ('ss', 'poly', 'rbf') else graph.Graph(lib, plan['g'], w)
    past = False
    last = None                 # the last successful compute of a subspace, which a partition refers to
    for k, o in enumerate(plan['ops']):
        main = o['op'] in MAIN[kind]
        if o['op'] == 'partition' and kind == 'ss' and last is None:
            continue
        c = G.call(o)
        if c is None:
            continue
        F = fresh(lib, G, kind, w) if main else None
        bare = main and F is not None
        n = 0
        if bare:
            if kind == 'ss' and o['op'] == 'partition':
                seams.ORIG['seed'](last['rs'])
                attempt(w, F.call(last))
            # a domain computes its boundary when it is made: it is the new one already
            w.arm()
            seams.ORIG['seed'](o['rs'])
            of = attempt(w, F.call(o))
            n = w.calls['any']
            w.disarm()
        if o.get('fault'):
            w.arm(Armed('any', int(o['fault']['frac'] * max(n, 8)), o['fault']['kind']))
            seams.ORIG['seed'](o['rs'])
            oa = attempt(w, G.call(o))
            w.disarm()
            past = True
            ctx.probe('failed calls' if not oa.ok else 'faults that did not strike')
        seams.ORIG['seed'](o['rs'])
        oa = attempt(w, c)
        if o.get('bad') in ('nan', 'inf') and oa.ok:
            past = True
            last = None if kind == 'ss' else last
            ctx.probe('trained on non-finite data')
            if o['op'] == 'compute' and kind != 'ss':
                return
            continue
        if bare:
            need(oa.ok == of.ok and (oa.ok or type(oa.exc) == type(of.exc)), 'outcome', '{} after {} earlier calls gives {}, on a new object {}',
                 o['op'], k, oa, of)
            if oa.ok:
                if kind == 'ss' and o['op'] == 'compute':
                    last = o
                d = graph.differ(answers(F, kind, w), answers(G, kind, w), 1e-8)
                if d is not None and sensitive(lib, G, kind, o, last, w):
                    ctx.probe('sensitive to rounding')
                    return
                need(d is None, 'differs', '{} after {} earlier calls: {} {}', o['op'], k, *(d or ('', '')))
                ctx.probe('compared: ' + kind)
                if past:
                    ctx.interesting = True
                    ctx.probe('compared with a past')
        past = True
        ctx.sig(o['op'], oa.ok, o.get('M'), o.get('dim'), o.get('ss'), bool(o.get('fault')), o.get('d', {}).get('m'), o.get('d', {}).get('M'))
        for q in o.get('reads') or []:
            if kind in ('ss',):
                continue
            if kind in ('poly', 'rbf'):
                if q['read'] != kind:
                    continue
                attempt(w, flow_leaf(G, q))
            else:
                cq = flow.call(G, q)
                if cq is not None:
                    attempt(w, cq)


def flow_leaf(G, q):
    X = gens.RS(q['s']).uniform(-1, 1, (q['M'], q['dim']))
    return lambda: getattr(G, q['read']).predict(X, compgrad=True)


def sensitive(lib, G, kind, o, last, w):
    """Whether new objects given data changed in the last digits disagree among themselves."""
    ref = None
    for t in range(10):
        keep = [bytearray(24 * t + 8) for _ in range(50)]
        F = fresh(lib, G, kind, w)
        for q in ([last, o] if kind == 'ss' and o['op'] == 'partition' else [o]):
            hold = {}
            c = F.call(q, hold=hold)
            if t:
                r = gens.RS(t)
                for v in hold.values():
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v *= 1 + r.uniform(-1, 1, v.shape) * 10.0 ** r.uniform(-16, -14)
            seams.ORIG['seed'](q['rs'])
            attempt(w, c)
        a = answers(F, kind, w)
        del keep
        if ref is None:
            ref = a
        elif graph.differ(ref, a, 1e-8) is not None:
            return True
    return False


# -- reading ------------------------------------------------------------------

def trained(plan, lib, w):
    G = graph.Graph(lib, plan['g'], w)
    for o in plan['setup']:
        seams.ORIG['seed'](o['rs'])
        c = G.call(o)
        if c is not None:
            attempt(w, c)
    return G


def reads(plan, ctx, lib, w):
    """The same readings, on shared runners and solvers in one order with failures in between, and again in another order."""
    G = trained(plan, lib, w)
    before = G.state()
    first = {}
    shared = {}
    runners = {}
    for j, o in enumerate(plan['ops']):
        c = reading(G, o, {}, {}, lib)
        if c is None:
            continue
        w.arm()
        seams.ORIG['seed'](o['s'] % 1000)
        first[j] = flow.outcome(attempt(w, c))
        n = w.calls['any']
        w.disarm()
        if o.get('fault') and n:
            cf = reading(G, o, shared, runners, lib)
            w.arm(Armed('any', int(o['fault']['frac'] * n), o['fault']['kind']))
            seams.ORIG['seed'](o['s'] % 1000)
            of = attempt(w, cf)
            w.disarm()
            ctx.probe('failed readings' if not of.ok else 'faults that did not strike')
        elif o.get('beh'):
            of = attempt(w, reading(G, o, shared, runners, lib, o['beh']))
            ctx.probe('failed readings' if not of.ok else 'faults that did not strike')
        k = graph.same_state(before, G.state())
        need(k is None, 'changed', 'reading ({}) changed {}', o['read'], k)
        ctx.sig(o['read'], o.get('M'), o.get('N'), first[j][0], bool(o.get('fault')), bool(o.get('beh')))
    order = list(first)
    gens.RS(plan.get('order', 0)).shuffle(order)
    for j in order + order[::-1]:
        o = plan['ops'][j]
        c = reading(G, o, shared, runners, lib)
        seams.ORIG['seed'](o['s'] % 1000)
        r = flow.outcome(attempt(w, c))
        d = mismatch(first[j], r)
        if d is not None and rounding(plan, lib, w, G, o, first[j]):
            ctx.probe('sensitive to rounding')
            continue
        need(d is None, 'repeat', '{} repeated after other readings: {}', o['read'], d)
        ctx.probe('repeated readings')
        ctx.interesting = True
    k = graph.same_state(before, G.state())
    need(k is None, 'changed', 'reading changed {}', k)


def reading(G, o, objs, runners, lib, beh=None, hold=None):
    """The call; runs go through the shared runner of their kind, whose simulation is one function."""
    if o['read'] not in ('run', 'grun'):
        return flow.call(G, o, objs=objs, beh=beh, hold=hold)
    grad = o['read'] == 'grun'
    key = (o['read'], o['m'])
    if key not in runners:
        f, df = gens.function({'s': G.g['ps'], 'f': 'exp'}, o['m'])
        s = Sim(df if grad else f, o['m'], {}, grad=grad)
        runners[key] = (s, (lib.SimulationGradientRunner if grad else lib.SimulationRunner)(s))
    s, R = runners[key]
    X = gens.RS(o['s']).uniform(-1, 1, (o['M'], o['m']))
    if hold is not None:
        hold['X'] = X

    def go():
        s.calls, s.raised, s.beh = [], None, dict(beh or {})
        return R.run(X)
    return go


def mismatch(x, y, tol=1e-8):
    d = graph.differ({'r': x}, {'r': y}, tol)
    return None if d is None else d[1]


def rounding(plan, lib, w, G, o, ref):
    for t in range(8):
        keep = [bytearray(24 * t + 8) for _ in range(50)]
        hold = {}
        c = reading(G, o, {}, {}, lib, hold=hold)
        if t:
            r = gens.RS(t)
            for v in hold.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v *= 1 + r.uniform(-1, 1, v.shape) * 10.0 ** r.uniform(-16, -14)
        seams.ORIG['seed'](o['s'] % 1000)
        r = flow.outcome(attempt(w, c))
        del keep
        if mismatch(ref, r) is not None:
            return True
    return False


def batch(plan, ctx, lib, w):
    """Points permuted and split: the value at a point does not depend on the company."""
    G = trained(plan, lib, w)
    before = G.state()
    for o in plan['ops']:
        hold = {}
        c = flow.call(G, o, objs={}, hold=hold)
        if c is None:
            continue
        P = hold.get('Y', hold.get('X'))
        fn = pointwise(G, o, lib, hold)
        if fn is None or P is None:
            continue
        whole = attempt(w, fn, P)
        if not whole.ok:
            continue
        V = flat_rows(whole.value, len(P))
        if V is None:
            continue
        tol = tolerance(G, o, V)
        r = gens.RS(o.get('perm', 0))
        perm = r.permutation(len(P))
        ps = attempt(w, fn, P[perm].copy())
        need(ps.ok, 'outcome', '{}: fails on the same points in another order: {}', o['read'], ps)
        compare(flat_rows(ps.value, len(P)), V[perm], tol, o, 'in another order')
        k = 1 + r.randint(len(P) - 1)
        a, b = attempt(w, fn, P[:k].copy()), attempt(w, fn, P[k:].copy())
        need(a.ok and b.ok, 'outcome', '{}: fails on a part of the points: {} {}', o['read'], a, b)
        compare(np.vstack((flat_rows(a.value, k), flat_rows(b.value, len(P) - k))), V, tol, o, 'in two parts')
        j = r.randint(len(P))
        dup = attempt(w, fn, np.vstack((P, P[j:j + 1])))
        need(dup.ok, 'outcome', '{}: fails with a point twice: {}', o['read'], dup)
        compare(flat_rows(dup.value, len(P) + 1), np.vstack((V, V[j:j + 1])), tol, o, 'with a point twice')
        ctx.interesting = True
        ctx.probe('batches: ' + o['read'])
        ctx.sig(o['read'], len(P), k)
        s = graph.same_state(before, G.state())
        need(s is None, 'changed', 'reading ({}) changed {}', o['read'], s)


def pointwise(G, o, lib, hold):
    what = o['read']
    if what == 'forward':
        return G.avm.forward
    if what == 'predict':
        return lambda X: G.asrs.predict(X, compgrad=True)
    if what == 'gradient':
        return G.asrs.gradient
    if what == 'call':
        return G.asrs
    if what == 'predict_av':
        return lambda Y: G.asrs.predict_av(Y, compgrad=True)
    if what in ('poly', 'rbf'):
        return lambda X: getattr(G, what).predict(X, compgrad=True)
    if what == 'mvm':
        return lambda Y: G.mvm.inverse(Y)[0]
    if what == 'norm':
        N = lib.BoundedNormalizer(hold['lb'], hold['ub'])
        return lambda X: (N.normalize(X), N.unnormalize(X))
    if what in ('run', 'grun', 'fd'):
        f, df = gens.function({'s': o['s'], 'f': o['f']}, o['m'])
        s = Sim(df if what == 'grun' else f, o['m'], {}, grad=what == 'grun')
        if what == 'fd':
            return lambda X: lib.finite_difference_gradients(X, s, h=1e-3)
        R = (lib.SimulationGradientRunner if what == 'grun' else lib.SimulationRunner)(s)
        return R.run
    return None


def flat_rows(v, M):
    parts = [np.asarray(x, dtype=float) for x in (v if isinstance(v, tuple) else (v,)) if x is not None]
    for p in parts:
        need(p.ndim == 2 and len(p) == M, 'shape', 'the result has shape {} for {} points', p.shape, M)
    return np.hstack(parts)


def tolerance(G, o, V):
    s = max(1.0, np.abs(V[np.isfinite(V)]).max() if np.isfinite(V).any() else 1.0)
    what = o['read']
    t = 1e-10
    if what == 'mvm':
        t = 1e-5
    if what == 'fd':
        t = 1e-7
    if what in ('rbf', 'predict', 'gradient', 'call', 'predict_av'):
        q = G.rbf if what == 'rbf' else G.asrs.respsurf
        w = getattr(q, 'radial_weights', None)
        if w is not None and np.isfinite(w).all():
            e = getattr(q, 'ell', None)
            e = 1.0 if e is None else float(np.abs(np.asarray(e)).min())
            t = 1e-10 + 1e-12 * float(np.abs(w).sum()) * (1 + 1 / max(e, 1e-6)) / s * max(1.0, float(np.abs(q.f).max()) if getattr(q, 'f', None) is not None else 1.0)
    return t * s


def compare(A, B, tol, o, how):
    need(A.shape == B.shape, 'shape', '{} {}: {} instead of {}', o['read'], how, A.shape, B.shape)
    need(np.array_equal(np.isnan(A), np.isnan(B)), 'batch', '{} {}: finiteness', o['read'], how)
    D = np.abs(A - B)
    D = D[np.isfinite(D)]
    need(D.size == 0 or D.max() <= tol, 'batch', '{} {}: values differ by {:.3g} (allowed {:.3g})', o['read'], how, D.max() if D.size else 0, tol)


def run(plan, ctx):
    from .. import lib
    w = ctx.world(quiet=True)
    d = plan['g']['dom']
    ctx.sig(plan['kind'], d['kind'], d['m'], d['n'], d['bounded'], plan['g']['surf'])
    if plan['kind'] in OBJ:
        histories(plan, ctx, lib, w)
    elif plan['kind'] == 'batch':
        batch(plan, ctx, lib, w)
    else:
        reads(plan, ctx, lib, w)
    ctx.digest(ctx.interesting)
