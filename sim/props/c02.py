"""C02: a failed operation leaves every object exactly as it was, and the retry succeeds."""
from .. import graph, seams
from ..world import attempt, need, Armed, make_draws

RULE = ('A run builds a graph of objects (subspace, domain, maps, polynomial, radial basis, active-subspace surface, '
        'minimization map) twice, brings both to the same state by successful operations, then strikes operations on one of '
        'them at a seeded call (linear algebra, allocation, random draw, solver, hull, user simulation) or with bad '
        'arguments; the other performs the same operations undisturbed. Non-trivial: an operation raised on an object '
        'that had a previous state; distinct by operations, fault, sizes.')
REAL = ['active_subspaces (subspaces, domains, optimizers, response surfaces)', 'numpy', 'SciPy solvers']
STUB = ['failures at external calls', 'random outcomes', 'the simulation']
ASSUMPTIONS = ['attributes are compared bitwise, predictions up to rounding; radial-basis retries that differ are not decided '
               'when copies trained on data changed in the last digits differ as well']

CATS = ['linalg', 'linalg', 'alloc', 'alloc', 'rng', 'solver', 'hull', 'any', 'callback']
FIT = {'boundary': ['hull', 'hull', 'rng', 'alloc', 'linalg', 'any'], 'iface': CATS + ['callback'] * 4, 'mvm': ['linalg', 'alloc', 'alloc', 'any'],
       'poly': ['linalg', 'alloc', 'any'], 'rbf': ['linalg', 'alloc', 'solver', 'any'], 'data': ['linalg', 'alloc', 'solver', 'any']}
KINDS = {'linalg': ['LinAlgError', 'MemoryError', 'Interrupt'], 'alloc': ['MemoryError', 'Interrupt'], 'rng': ['MemoryError', 'Interrupt'],
         'solver': ['fail', 'fail-tempting', 'fail-nan', 'ValueError', 'MemoryError', 'Interrupt'],
         'hull': ['QhullError', 'MemoryError', 'Interrupt'], 'any': ['MemoryError', 'Interrupt'],
         'callback': ['exc', 'Interrupt', 'ValueError', 'MemoryError', 'StopIteration', 'OSError', 'RuntimeError', 'FloatingPointError', 'LinAlgError']}


def gen(rng, i, tier):
    g = graph.spec(rng)
    ops = []
    focus = rng.choice([None, None, 'compute', 'data', 'iface', 'mvm', 'rbf', 'poly', 'boundary'])
    for _ in range(rng.choice([2, 3, 3, 4, 6])):
        o = graph.op(rng, g, focus if focus and rng.random() < 0.7 else None)
        if o['op'] == 'boundary' and rng.random() < 0.8:
            # the subspace changes before its domain follows
            p = graph.op(rng, g, rng.choice(['compute', 'partition', 'partition']))
            if p['op'] == 'partition':
                p['n'] = rng.choice([1, 2])
            ops.append(p)
        if rng.random() < 0.6 and ops:
            c = rng.choice(FIT.get(o['op'], CATS) if rng.random() < 0.7 else CATS)
            o['fault'] = {'cat': c, 'kind': rng.choice(KINDS[c]), 'frac': rng.choice([0.0, 0.999, 0.999, rng.random(), rng.random()])}
        ops.append(o)
    return {'g': g, 'ops': ops}


def run(plan, ctx):
    from .. import lib
    rbf = plan['g']['surf'] != 'poly' or any(o['op'] == 'rbf' for o in plan['ops'])
    w = ctx.world(quiet=rbf)
    A = graph.Graph(lib, plan['g'], w)
    B = graph.Graph(lib, plan['g'], w)
    ctx.sig(plan['g']['dom']['kind'], plan['g']['dom']['m'], plan['g']['dom']['n'], plan['g']['dom']['bounded'], plan['g']['surf'])
    for k, o in enumerate(plan['ops']):
        w.ev('op', k, o['op'])
        before, sb = A.answers(w), A.state()
        # the twin, undisturbed, counts the calls
        hold = {}
        cb = B.call(o, world=w, hold=hold)
        ca = A.call(o, world=w)
        if cb is None:
            continue
        twin_before = None if o.get('bad') is None and o['op'] != 'partition' else (B.answers(w), B.state())
        w.arm()
        seams.ORIG['seed'](o['rs'])
        ob = attempt(w, cb)
        counts = dict(w.calls)
        if 'sim' in hold:
            counts['callback'] = len(hold['sim'].calls)
        f = o.get('fault')
        ctx.sig(o['op'], o.get('bad'), ob.ok, str(f and (f['cat'], f['kind'], int(4 * f['frac']))), o.get('ss'), o.get('M'))
        if not ob.ok:
            if twin_before is None:
                twin_before = (before, sb)
            unchanged(B, w, twin_before[0], twin_before[1], o, ob, 'refused')
            ctx.probe('refused calls')
            ctx.interesting = ctx.interesting or k > 0
        cnt = counts.get(f['cat'], 0) if f else 0
        if f and cnt and ob.ok:
            at = min(cnt - 1, int(f['frac'] * cnt))
            call = ca
            if f['cat'] == 'callback':
                call = A.call(o, beh={'fail': at, 'exc': f['kind']}, world=w)
                w.arm()
            else:
                w.arm(Armed(f['cat'], at, f['kind']))
            seams.ORIG['seed'](o['rs'])
            oa = attempt(w, call)
            w.disarm()
            if not oa.ok:
                unchanged(A, w, before, sb, o, oa, f)
                ctx.probe('struck operations')
                ctx.probe('struck: ' + o['op'])
                ctx.interesting = ctx.interesting or k > 0
            else:
                ctx.probe('absorbed faults')
        if o.get('bad') in ('nan', 'inf') and ob.ok:
            ctx.probe('trained on non-finite data')     # whatever LAPACK makes of it
            return
        w.arm()
        seams.ORIG['seed'](o['rs'])
        oa = attempt(w, ca)
        w.disarm()
        need(oa.ok == ob.ok and (oa.ok or type(oa.exc) == type(ob.exc)), 'retry', 'after a failure ({}) {} gives {}, on an object that never saw it {}',
             f, o['op'], oa, ob)
        if not oa.ok:
            unchanged(A, w, before, sb, o, oa, 'refused')
        ra, rb = A.answers(w), B.answers(w)
        d = graph.differ(rb, ra, 1e-9)
        if d is not None and ('rbf' in d[0] or 'asrs' in d[0]) and o['op'] in ('rbf', 'data', 'iface') and sensitive(lib, plan, ctx, k, d[0], rb):
            ctx.probe('sensitive to rounding')
            return
        need(d is None, 'retry-differs', 'after a failure ({}) and a retry of {}, {}: {}', f, o['op'], *(d or ('', '')))
    ctx.digest(ctx.interesting)


def unchanged(G, w, before, sb, o, oc, f):
    bad = graph.same_state(sb, G.state())
    need(bad is None, 'changed', '{} that raised {} (fault {}) changed {}', o['op'], oc, f, bad)
    d = graph.differ(before, G.answers(w), 1e-11)
    need(d is None, 'changed', '{} that raised {} (fault {}): {} {}', o['op'], oc, f, *(d or ('', '')))


def sensitive(lib, plan, ctx, k, name, rb):
    """Whether fresh graphs brought to the same state disagree among themselves (rounding in the length-scale search)."""
    w = ctx.world(quiet=True)
    ref = None
    for t in range(12):
        junk = [bytearray(16 * t + 8) for _ in range(50)]       # moves allocations
        G = graph.Graph(lib, plan['g'], w)
        for o in plan['ops'][:k + 1]:
            c = G.call(o, world=w)
            if c is not None:
                seams.ORIG['seed'](o['rs'])
                attempt(w, c)
        a = G.answers(w)
        if graph.differ(rb, a, 1e-9, name.split('.')[0]) is not None:
            return True
        del junk
    return False
