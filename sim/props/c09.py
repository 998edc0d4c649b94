"""C09: simulations run exactly once per point and their failures surface."""
import numpy as np

from .. import gens, doms, seams, sched
from ..user import Sim, RETS, EXCEPTIONS
from ..world import attempt, must, need, make_draws, Armed, SimInterrupt

RULE = ('A run passes simulated user simulations (failing, interrupted, returning NaN, reusing their output buffer, modifying '
        'their input, stateful, drawing, calling the library themselves, shared by scheduled threads) to the runners, finite '
        'differences, integrals and training, with library-level failures in some runs, and compares the ledger of calls '
        'and the returned numbers. Non-trivial: a ledger was compared or a failure surfaced; distinct by operation, sizes, '
        'behaviour, fault and schedule.')
REAL = ['active_subspaces.utils.simrunners', 'active_subspaces.gradients', 'active_subspaces.integrals',
        'active_subspaces.response_surfaces']
STUB = ['the user simulation', 'thread schedule', 'random outcomes', 'failures at external calls']
ASSUMPTIONS = ['the required points of an integral or a design are those that the rule or design returns for the same seed']

EXC = ['exc', 'Interrupt'] + sorted(EXCEPTIONS)


def gen(rng, i, tier):
    what = rng.choice(['run', 'run', 'grun', 'grun', 'fd', 'fd', 'integrate', 'av_integrate', 'iface', 'threads', 'threads', 'nested', 'nested'])
    m = rng.choice([1, 2, 3, 5])
    p = {'what': what, 'm': m, 's': rng.randrange(1 << 30), 'f': rng.choice(['quad', 'ridge', 'exp', 'const']), 'rs': rng.randrange(1 << 30)}
    p['M'] = rng.choice([1, 2, 3, 7, 20]) if rng.random() < 0.94 else rng.choice([64, 150, 300, 600])
    p['dup'] = rng.choice([0, 0, 2])
    p['layout'] = rng.choice([None, None, 'F', 'view', 'ro', 'int'])
    p['h'] = rng.choice([1e-6, 1e-3, 0.5])
    p['grad'] = what == 'grun' or (what in ('threads', 'nested') and rng.random() < 0.4)
    p['runner'] = rng.choice([True, True, 'derived']) if rng.random() < 0.5 else False
    p['repeat'] = rng.choice([1, 1, 2])
    b = {'ret': rng.choice(['row', 'col', 'flat']) if p['grad'] else rng.choice(RETS)}
    total = p['M'] * (m + 1) if what == 'fd' else p['M']
    r = rng.random()
    if r < 0.3:
        b['fail'] = rng.choice([0, total - 1, rng.randrange(total), rng.randrange(total + 3)])
        b['exc'] = rng.choice(EXC)
    elif r < 0.5:
        b['nan'] = [[rng.choice([0, total - 1, rng.randrange(total)]), rng.choice(['nan', 'inf', '-inf'])] for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.3:
        b['state'] = True
    if rng.random() < 0.2:
        b['mutate'] = True
    if rng.random() < 0.2:
        b['draw'] = True
    if rng.random() < 0.25:
        b['buffer'] = True
    if rng.random() < 0.4 and not b.get('mutate'):
        b['retain'] = True
    p['beh'] = b
    if what in ('integrate', 'av_integrate', 'iface'):
        d = doms.spec(rng, None, 4, 2)
        p['dom'] = d
        big = d['bounded'] and d['n'] > 1
        p['N'] = rng.choice([1, 2, 3]) if big else rng.choice([1, 3, 5, 9])
        p['NMC'] = rng.choice([1, 2, 3])
        p['grad'] = False
        p['beh']['ret'] = rng.choice(RETS)
        if b.get('fail') is not None:
            b['fail'] = rng.choice([0, 1, 2, 5])
    if what == 'threads':
        p['threads'] = [{'M': rng.choice([1, 2, 4, 8]), 's': rng.randrange(1 << 30),
                         'beh': dict({k: v for k, v in b.items() if k not in ('fail', 'nan')}, **({'fail': rng.randrange(4), 'exc': rng.choice(EXC)} if rng.random() < 0.2 else {}))}
                        for _ in range(rng.choice([2, 2, 3]))]
        p['policy'] = rng.choice([{'kind': 'random', 'p': rng.choice([0.05, 0.3, 0.7])}, {'kind': 'stores', 'p': rng.choice([0.001, 0.01])}, {'kind': 'stores', 'p': rng.choice([0.001, 0.01])}, {'kind': 'pct', 'd': rng.choice([1, 2, 4]), 'span': 80}])
        p['policy']['seed'] = rng.randrange(1 << 30)
    if what == 'nested':
        p['inner'] = {'M': rng.choice([1, 2, 5]), 'at': rng.choice([0, 0, 1, 3]), 'fail': rng.choice([None, None, None, 0, 1]), 'lib': rng.random() < 0.3}
    if rng.random() < 0.15:
        p['fault'] = {'cat': rng.choice(['alloc', 'any', 'rng']), 'frac': rng.random(), 'kind': rng.choice(['MemoryError', 'Interrupt'])}
    return p


class BSim(Sim):
    """A simulation that may hand out the same array every time, and that may keep the rows it was given."""
    def __call__(self, *a, **k):
        if self.beh.get('retain') and len(a) == 1 and isinstance(a[0], np.ndarray):
            if not hasattr(self, 'rows'):
                self.rows = []
            self.rows.append((a[0], np.array(a[0], dtype=float)))
        r = Sim.__call__(self, *a, **k)
        if self.beh.get('buffer') and isinstance(r, np.ndarray):
            if not hasattr(self, 'buf') or self.buf.shape != r.shape:
                self.buf = np.empty_like(r)
            self.buf[...] = r
            return self.buf
        return r


def points(s, M, m, dup, layout):
    r = gens.RS(s)
    X = r.uniform(-1, 1, (M, m))
    if layout == 'int':
        X = r.randint(-3, 4, (M, m)).astype(float)
    for _ in range(dup):
        X[r.randint(M)] = X[r.randint(M)]
    keep = X.copy()
    if layout == 'F':
        X = np.asfortranarray(X)
    elif layout == 'view':
        B = np.zeros((2 * M, m + 2))
        B[::2, 1:m + 1] = X
        X = B[::2, 1:m + 1]
    elif layout == 'ro':
        X.setflags(write=False)
    elif layout == 'int':
        X = X.astype(int)
    return X, keep


def rowkey(x):
    return tuple(np.round(np.asarray(x, dtype=float), 11) + 0.0)


def attribute(rows, sim, F, what):
    """Every row's output is one computed from that row; each call once."""
    need(len(sim.calls) == len(rows), 'calls', '{} simulations for {} points ({})', len(sim.calls), len(rows), what)
    need(sim.after == 0, 'calls', 'a simulation was started after one had failed')
    for x, was in getattr(sim, 'rows', []):
        need(np.array_equal(x, was), 'row-reused', 'the row a simulation was given changed after its call ({})', what)
    want, got = {}, {}
    for x, y in sim.calls:
        want.setdefault(rowkey(x), []).append(np.ravel(y))
    for x in rows:
        need(rowkey(x) in want, 'point', 'no simulation was run at the point {} ({})', x, what)
        got.setdefault(rowkey(x), 0)
        got[rowkey(x)] += 1
    for k, v in got.items():
        need(len(want[k]) == v, 'calls', '{} simulations at a point that is required {} times ({})', len(want[k]), v, what)
    if F is None:
        return
    need(len(F) == len(rows), 'shape', '{} outputs for {} points', len(F), len(rows))
    used = {}
    for x, f in zip(rows, F):
        k = rowkey(x)
        left = used.setdefault(k, list(range(len(want[k]))))
        hit = [j for j in left if np.array_equal(want[k][j], np.ravel(f), equal_nan=True)]
        need(bool(hit), 'attribution', 'the point {} is given the output {}, its simulation returned {} ({})', x, np.ravel(f),
             [v.tolist() for v in want[k]], what)
        left.remove(hit[0])


def surfaced(ctx, o, sim, what, upto=None):
    """The exception of the simulation is what the caller got."""
    need(not o.ok, 'swallowed', 'the simulation failed, {} returned {}', what, None if not o.ok else np.ravel(np.asarray(o.value, dtype=object))[:3])
    need(o.exc is sim.raised, 'other-exception', 'the simulation raised {!r}, the caller of {} got {!r}', sim.raised, what, o.exc)
    need(sim.after == 0 and sim.calls[-1][1] is None, 'after-failure', 'simulations were started after one had failed')
    ctx.probe('failures surfaced')


def run(plan, ctx):
    from .. import lib
    w = ctx.world()
    what, m, grad = plan['what'], plan['m'], plan['grad']
    ctx.sig(what, m, plan['M'], plan['f'], grad, str(plan['beh']), str(plan.get('fault')), plan['layout'], str(plan.get('threads')),
            str(plan.get('inner')), str(plan.get('dom', {}).get('kind')), plan.get('N'), plan.get('NMC'))
    f, df = gens.function({'s': plan['s'], 'f': plan['f']}, m)
    fun = df if grad else f
    cls = lib.SimulationGradientRunner if grad else lib.SimulationRunner
    if what in ('run', 'grun'):
        X, keep = points(plan['s'], plan['M'], m, plan['dup'], plan['layout'])
        beh = dict(plan['beh'])
        if plan['layout'] not in ('ro',) and beh.get('mutate'):
            X = X.copy()
        first = None
        cur = [None]
        R = cls(lambda x: cur[0](x))
        for t in range(plan['repeat']):
            sim = cur[0] = BSim(fun, m, beh, grad=grad, world=w)
            if plan.get('fault'):
                struck(ctx, w, plan, cur, lambda b=None: BSim(fun, m, beh, grad=grad, world=w), lambda: R.run(X.copy()), 'run')
                sim = cur[0] = BSim(fun, m, beh, grad=grad, world=w)
            o = attempt(w, R.run, X.copy() if beh.get('mutate') and X.flags.writeable else X)
            ctx.interesting = True
            if sim.raised is not None:
                surfaced(ctx, o, sim, 'run')
                continue
            need(o.ok, 'raised', 'running simulations raised {}', o)
            F = o.value
            need(isinstance(F, np.ndarray) and F.shape == (plan['M'], m if grad else 1), 'shape', 'the outputs have shape {}', np.shape(F))
            attribute(keep, sim, F, what)
            ctx.digest(F)
            if first is not None:
                need(np.array_equal(first, F, equal_nan=True), 'repeat', 'running the same points again returned other outputs')
            first = F
        return
    if what == 'fd':
        X, keep = points(plan['s'], plan['M'], m, plan['dup'], plan['layout'])
        sim = BSim(fun, m, plan['beh'], world=w)
        cur = [sim]
        fn = lambda x: cur[0](x)
        fn = lib.runner(fn, plan['runner']) if plan['runner'] else fn
        h = plan['h']
        if plan.get('fault'):
            struck(ctx, w, plan, cur, lambda: BSim(fun, m, plan['beh'], world=w), lambda: lib.finite_difference_gradients(X, fn, h=h), what)
            sim = cur[0] = BSim(fun, m, plan['beh'], world=w)
        o = attempt(w, lib.finite_difference_gradients, X, fn, h=h)
        ctx.interesting = True
        if sim.raised is not None:
            return surfaced(ctx, o, sim, what)
        need(o.ok, 'raised', 'finite differences raised {}', o)
        rows = [x for x in keep] + [x + h * e for x in keep for e in np.eye(m)]
        attribute(rows, sim, None, what)
        need(np.shape(o.value) == keep.shape, 'shape', 'the gradients have shape {}', np.shape(o.value))
        differences(keep, sim, o.value, h, m)
        ctx.digest(o.value)
        return
    if what in ('integrate', 'av_integrate', 'iface'):
        return rules(ctx, lib, plan, w)
    if what == 'threads':
        return threads(ctx, lib, plan, w, fun, cls)
    return nested(ctx, lib, plan, w, fun, cls)


def struck(ctx, w, plan, cur, fresh, call, what):
    """A failure of the library's own external calls must not be lost either."""
    f = plan['fault']
    w.arm()
    seams.ORIG['seed'](plan['rs'])
    cur[0] = fresh()
    o = attempt(w, call)
    c = w.calls[f['cat']]
    w.disarm()
    if not c or not o.ok:
        return
    w.arm(Armed(f['cat'], min(c - 1, int(f['frac'] * c)), f['kind']))
    cur[0] = fresh()
    seams.ORIG['seed'](plan['rs'])
    o = attempt(w, call)
    hit = w.disarm()
    if hit and hit[0].fired and o.ok:
        ctx.probe('absorbed faults')
    elif hit and hit[0].fired:
        ctx.probe('library failures surfaced')


def differences(X, sim, D, h, m):
    """Every entry is a difference of the outputs at a row and at that row with one input moved."""
    at = {}
    for x, y in sim.calls:
        at.setdefault(rowkey(x), []).append(float(np.ravel(y)[0]))
    with np.errstate(all='ignore'):
        for i, x in enumerate(X):
            for j in range(m):
                a, b = at[rowkey(x)], at[rowkey(x + h * np.eye(m)[j])]
                cand = [(v - u) / h for u in a for v in b]
                ok = any((np.isnan(c) and np.isnan(D[i, j])) or c == D[i, j] or abs(c - D[i, j]) <= 1e-12 * max(abs(u) for u in a + b) / abs(h)
                         for c in cand)
                need(ok, 'attribution', 'entry ({}, {}) of the gradients is {}, the simulated outputs give {}', i, j, D[i, j], cand[:3])


def rules(ctx, lib, plan, w):
    d, what = plan['dom'], plan['what']
    ss, dom, avm = must(w, 'building the domain', doms.make, lib, d)
    n, m = d['n'], d['m']
    dim = n if what == 'av_integrate' else m
    f = gens.function({'s': plan['s'], 'f': plan['f']}, dim)[0]
    beh = plan['beh']
    cur = [BSim(f, dim, beh, world=w)]
    fn = lambda x: cur[0](x)
    if plan['runner'] and what != 'av_integrate':
        fn = lib.runner(fn, plan['runner'])
    asrs = lib.ActiveSubspaceResponseSurface(avm, lib.PolynomialApproximation(1))
    call = {'integrate': lambda: lib.integrals.integrate(fn, avm, plan['N'], NMC=plan['NMC']),
            'av_integrate': lambda: lib.integrals.av_integrate(fn, avm, plan['N']),
            'iface': lambda: asrs.train_with_interface(fn, plan['N'], NMC=plan['NMC'])}[what]
    if plan.get('fault'):
        struck(ctx, w, plan, cur, lambda: BSim(f, dim, beh, world=w), call, what)
    # which points are required: the rule or design for the same seed
    seams.ORIG['seed'](plan['rs'])
    if what == 'integrate':
        q = attempt(w, lib.integrals.quadrature_rule, avm, plan['N'], NMC=plan['NMC'])
        rows = q.value[0] if q.ok else None
    elif what == 'av_integrate':
        q = attempt(w, lib.integrals.av_quadrature_rule, avm, plan['N'])
        rows = q.value[0] if q.ok else None
    else:
        q = attempt(w, lib.av_design, avm, plan['N'], NMC=plan['NMC'])
        rows = q.value[1] if q.ok else None
        if rows is not None and d['bounded']:
            rows = np.vstack((rows, dom.vertX))
    sim = cur[0] = BSim(f, dim, beh, world=w)
    seams.ORIG['seed'](plan['rs'])
    o = attempt(w, call)
    if sim.raised is not None:
        ctx.interesting = True
        return surfaced(ctx, o, sim, what)
    if rows is None or beh.get('draw'):
        return
    if not o.ok and not sim.calls:
        ctx.probe('no design')
        return
    ctx.interesting = True
    need(len(sim.calls) == len(rows), 'calls', '{} simulations for {} points of the {}', len(sim.calls), len(rows), what)
    L = sim.X()
    D = np.abs(L[:, None] - rows[None]).max(axis=2)
    scale = max(1.0, np.abs(rows).max())
    if D.min(axis=1).max() > 1e-9 * scale:
        ctx.probe('points not repeated')
        return
    from scipy.optimize import linear_sum_assignment
    a, b = linear_sum_assignment(np.where(D < 1e-9 * scale, 0.0, 1.0))
    need(D[a, b].max() < 1e-9 * scale, 'point', 'the simulations were not run once at each point of the {}', what)
    if what in ('integrate', 'av_integrate') and o.ok and not beh.get('state') and not np.isfinite(sim.F()).all():
        mu = o.value[0] if what == 'integrate' else o.value
        wt = q.value[1].ravel()[b][np.argsort(a)]
        badw = wt[~np.isfinite(sim.F().ravel())]
        if (badw > 0).any():
            need(not np.isfinite(mu), 'made-up', 'an output was not finite, the integral is {}', mu)
    ctx.probe('ledgers of rules')


def threads(ctx, lib, plan, w, fun, cls):
    T = plan['threads']
    if not T:
        return
    m, grad = plan['m'], plan['grad']
    s = sched.Scheduler(w, plan['policy'] or {'kind': 'serial'})
    sims, data = [], []
    for t in T:
        b = dict(t['beh'])
        b['ret'] = plan['beh']['ret']
        sims.append(BSim(fun, m, b, grad=grad, world=w, hook=lambda sim, k, x: s.point(('simulation', k))))
        data.append(points(t['s'], t['M'], m, 0, None))
    R = cls(lambda x: sims[s.me()](x))
    old = seams.set_world(w)
    try:
        outs = s.run([(lambda i=i: R.run(data[i][0].copy())) for i in range(len(T))])
    finally:
        seams.set_world(old)
    ctx.schedule = s.switches
    ctx.sched_sigs.append(repr(s.switches[:300]))
    w.fired['preemptions'] += len(s.switches)
    ctx.interesting = True
    for i, o in enumerate(outs):
        if o is not None and not o.ok and type(o.exc).__name__ == 'Violation':
            raise o.exc
        if sims[i].raised is not None:
            surfaced(ctx, o, sims[i], 'run in a thread')
            continue
        need(o is not None and o.ok, 'raised', 'running simulations in a thread raised {}', o)
        need(np.shape(o.value) == (T[i]['M'], m if grad else 1), 'shape', 'the outputs have shape {}', np.shape(o.value))
        attribute(data[i][1], sims[i], o.value, 'thread')
        ctx.digest(o.value)
    ctx.probe('thread ledgers', len(T))


def nested(ctx, lib, plan, w, fun, cls):
    """The simulation itself uses the same runner (or other parts of the library) while it runs."""
    m, grad, q = plan['m'], plan['grad'], plan['inner']
    X, keep = points(plan['s'], plan['M'], m, plan['dup'], None)
    X2, keep2 = points(plan['s'] + 1, q['M'], m, 0, None)
    stack, done = [], []

    def hook(sim, k, x):
        if k != q['at'] or len(stack) > 1:
            return
        if q['lib']:
            g = gens.function({'s': 3, 'f': 'quad'}, m)[0]
            Sim3 = BSim(g, m, {}, world=w)
            D = lib.finite_difference_gradients(X2.copy(), Sim3, h=1e-3)
            attribute([y for y in keep2] + [y + 1e-3 * e for y in keep2 for e in np.eye(m)], Sim3, None, 'inner differences')
            differences(keep2, Sim3, D, 1e-3, m)
            return
        b = dict(plan['beh'])
        for z in ('fail', 'exc', 'nan', 'mutate'):
            b.pop(z, None)
        if q['fail'] is not None:
            b.update(fail=q['fail'], exc='exc')
        inner = BSim(fun, m, b, grad=grad, world=w)
        stack.append(inner)
        try:
            out = R.run(X2.copy())
            done.append((inner, out))
        finally:
            stack.pop()
    outer = BSim(fun, m, plan['beh'], grad=grad, world=w, hook=hook)
    stack.append(outer)
    R = cls(lambda x: stack[-1](x))
    o = attempt(w, R.run, X.copy())
    ctx.interesting = True
    for inner, out in done:
        attribute(keep2, inner, out, 'inner run')
        ctx.probe('nested runs')
    if outer.raised is not None:
        return surfaced(ctx, o, outer, 'a run whose simulation runs others')
    if q['fail'] is not None and not q['lib'] and q['fail'] < q['M'] and q['at'] < plan['M']:
        need(not o.ok and type(o.exc).__name__ == 'SimFault', 'swallowed', 'a failure inside a nested run was lost: {}', o)
        return
    need(o.ok, 'raised', 'a run whose simulation runs others raised {}', o)
    attribute(keep, outer, o.value, 'outer run')
    ctx.digest(o.value)
