"""C04: designs and minimizers never disturb the caller's random stream."""
import numpy as np

from .. import gens, doms, seams, sched
from ..world import attempt, must, need, Armed, SimInterrupt, SimFault, Outcome

RULE = ('A run puts the global numpy stream into a seeded state, builds a maximin design or minimizes over an active-variable '
        'domain - returning, failing at a seeded call, interrupted at a seeded line, with objectives that draw or reseed, or '
        'next to another simulated thread that draws - and compares the global stream with a shadow stream that saw the '
        'caller\'s own draws only; then repeats the call under other stream states and compares results. Non-trivial: '
        'the call reached its optimizer; distinct by call, sizes, mode, fault position and schedule.')
REAL = ['active_subspaces.utils.designs', 'active_subspaces.optimizers', 'SciPy SLSQP, BFGS, fminbound']
STUB = ['failures', 'interrupts', 'thread schedule', 'objective functions']
ASSUMPTIONS = ['threads switch at source lines of the library, at its external calls and in callbacks; compiled code is atomic']


def gen(rng, i, tier):
    what = rng.choice(['maximin', 'maximin', 'interval', 'zonotope', 'unbounded', 'minimize', 'minimize'])
    p = {'what': what, 'stream': {'s': rng.randrange(1 << 30), 'adv': rng.choice([0, 1, 3, 623, 624]), 'gauss': rng.random() < 0.5},
         'mode': rng.choice(['plain', 'fault', 'fault', 'line', 'line', 'thread', 'thread', 'callback'])}
    if what == 'maximin':
        p['poly'] = {'s': rng.randrange(1 << 30), 'n': rng.choice([2, 2, 3]), 'K': rng.choice([3, 4, 6])}
        p['N'] = rng.choice([1, 2, 3, 4])
    else:
        d = doms.spec(rng, what == 'interval' or what == 'zonotope' or (what == 'minimize' and rng.random() < 0.5), 4, 2)
        if what == 'interval':
            d['n'] = 1
        if what == 'zonotope':
            d['m'], d['n'] = max(3, d['m']), 2
        p['dom'] = d
        p['f'] = {'s': rng.randrange(1 << 30), 'kind': rng.choice(['convex', 'convex', 'saddle', 'linear', 'nan', 'hole', 'flat', 'huge']), 'grad': rng.random() < 0.6}
        p['surf'] = rng.choice(['poly', 'poly', 'rbf']) if d['bounded'] else 'poly'
        if not d['bounded']:
            p['f']['kind'] = rng.choice(['convex'] * 4 + ['nan', 'hole', 'flat'])
    if p['mode'] == 'fault':
        c = rng.choice(['solver', 'solver', 'alloc', 'linalg', 'any', 'hull', 'objective'])
        p['fault'] = {'cat': c, 'frac': rng.choice([0.0, 0.999, rng.random(), rng.random()]),
                      'kind': rng.choice({'solver': ['fail', 'fail-tempting', 'fail-nan', 'ValueError', 'Interrupt'], 'hull': ['QhullError', 'Interrupt'],
                                          'linalg': ['LinAlgError', 'MemoryError', 'Interrupt'],
                                          'objective': ['exc', 'Interrupt']}.get(c, ['MemoryError', 'Interrupt']))}
    elif p['mode'] == 'line':
        p['interrupt'] = {'frac': rng.choice([0.0, 0.999, rng.random(), rng.random(), rng.random()]), 'kind': rng.choice(['Interrupt', 'exc'])}
    elif p['mode'] == 'thread':
        p['count'] = rng.choice([1, 3, 10, 40])
        p['two'] = rng.random() < 0.3
        p['policy'] = rng.choice([{'kind': 'random', 'p': rng.choice([0.01, 0.1, 0.5])}, {'kind': 'pct', 'd': rng.choice([1, 2, 4]), 'span': rng.choice([50, 500, 3000])}])
        p['policy']['seed'] = rng.randrange(1 << 30)
        p['reseed'] = rng.random() < 0.2
    elif p['mode'] == 'callback':
        p['cb'] = rng.choice(['draw', 'normal1', 'reseed', 'state'])
    return p


class Shadow:
    """The caller's use of the global stream, mirrored on a private one."""
    def __init__(self, spec):
        seams.ORIG['seed'](spec['s'] % (1 << 32))
        self.rs = gens.RS(spec['s'])
        if spec['adv']:
            np.random.uniform(size=spec['adv'])
            self.rs.uniform(size=spec['adv'])
        if spec['gauss']:
            np.random.normal()
            self.rs.normal()
        self.seen = 0

    def use(self, kind):
        self.seen += 1
        if kind == 'reseed':
            seams.ORIG['seed'](self.seen)
            self.rs.seed(self.seen)
            return
        if kind == 'state':
            st = gens.RS(self.seen + 77).get_state()
            seams.ORIG['set_state'](st)
            self.rs.set_state(st)
            return
        f = {'draw': lambda r: r.uniform(size=3), 'normal1': lambda r: r.normal(), 'int': lambda r: r.randint(0, 1000, 4),
             'perm': lambda r: r.permutation(5)}[kind]
        a, b = f(np.random), f(self.rs)
        need(np.array_equal(a, b), 'stream', 'the caller drew {} where its stream holds {}', np.ravel(a)[:3], np.ravel(b)[:3])

    def check(self, when):
        a, b = seams.ORIG['get_state'](), self.rs.get_state()
        need(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:], 'stream', 'the global stream was disturbed ({})', when)


def objective(spec, n):
    r = gens.RS(spec['s'])
    c = r.uniform(-0.3, 0.3, n)
    A = r.normal(size=(n, n))
    A = A.dot(A.T) / n + 0.3 * np.eye(n)
    b = r.normal(size=n)
    if spec['kind'] == 'convex':
        return (lambda y: float((y - c).dot(A).dot(y - c)) + 1.0), (lambda y: 2 * A.dot(y - c))
    if spec['kind'] == 'linear':
        return (lambda y: float(b.dot(y))), (lambda y: b.copy())
    if spec['kind'] == 'nan':
        return (lambda y: float('nan')), (lambda y: np.full(n, np.nan))
    if spec['kind'] == 'flat':
        return (lambda y: 2.0), (lambda y: np.zeros(n))
    if spec['kind'] == 'hole':
        return (lambda y: float('nan') if b.dot(y) > 0.2 else float((y - c).dot(y - c))), (lambda y: 2 * (y - c))
    if spec['kind'] == 'huge':
        return (lambda y: 1e120 * (1.0 + float((y - c).dot(y - c)))), (lambda y: 2e120 * (y - c))
    D = np.diag(np.where(np.arange(n) % 2, -0.5, 1.0))
    return (lambda y: float((y - c).dot(D).dot(y - c))), (lambda y: 2 * D.dot(y - c))


def build(plan, lib, w):
    """make(hook) -> the library call; hook runs in every evaluation of the objective."""
    what = plan['what']
    if what == 'maximin':
        d = plan['poly']
        P = gens.RS(d['s']).normal(size=(max(d['K'], d['n'] + 1), d['n']))
        vert = P[seams.ORIG['ConvexHull'](P).vertices]
        return lambda hook: (lambda: lib.designs.maximin_design(vert, plan['N']))
    ss, dom, avm = must(w, 'building the domain', doms.make, lib, plan['dom'])
    n, m = plan['dom']['n'], plan['dom']['m']
    if what == 'minimize':
        r = gens.RS(plan['f']['s'])
        p = n + 2 if m - n > 2 else n + 1
        M = (p + 1) * (p + 2) // 2 + 6
        X = r.uniform(-1, 1, (M, m))
        F = np.array([[float(np.sum((x - 0.1) ** 2) + 0.3 * x[0])] for x in X])
        asrs = lib.ActiveSubspaceResponseSurface(avm, lib.PolynomialApproximation(2) if plan['surf'] == 'poly' else
                                                 lib.RadialBasisApproximation(1))
        must(w, 'training', asrs.train_with_data, X, F)
        return lambda hook: (lambda: lib.minimize(asrs, X, F))
    f, df = objective(plan['f'], n)

    def make(hook):
        left = [200 if plan['f']['kind'] in ('nan', 'hole', 'huge') else 10 ** 9]       # SLSQP does not give up on these

        def fun(y):
            left[0] -= 1
            if left[0] < 0:
                raise SimFault('the user gives up')
            if hook is not None:
                hook()
            return f(np.atleast_1d(y).ravel())

        def grad(y):
            if hook is not None:
                hook()
            return df(np.atleast_1d(y).ravel())
        return lambda: lib.av_minimize(fun, dom, avdfun=grad if plan['f']['grad'] else None)
    return make


def flat(v):
    return np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in (v if isinstance(v, tuple) else (v,))])


def same(a, b):
    if a.ok != b.ok:
        return False
    if not a.ok:
        return type(a.exc) == type(b.exc)
    x, y = flat(a.value), flat(b.value)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-8, atol=1e-9, equal_nan=True)


def run(plan, ctx):
    from .. import lib
    w = ctx.world(quiet=True)
    make = build(plan, lib, w)
    mode = plan['mode']
    ctx.sig(plan['what'], mode, str(plan.get('fault')), str(plan.get('interrupt')), plan.get('count'), plan.get('cb'),
            plan.get('N'), str(plan.get('dom', {}).get('m')), str(plan.get('f', {}).get('kind')), str(plan.get('policy')))
    base_spec = dict(plan['stream'], s=plan['stream']['s'] + 1, adv=2)
    sh0 = Shadow(base_spec)
    lines = [0]

    def counted():
        o, n, _ = sched.interrupt_at(make(None), -1, None, count_only=True)
        lines[0] = n
        if not o.ok:
            raise o.exc
        return o.value
    w.arm()
    base = attempt(w, counted if mode == 'line' else make(None))
    counts = dict(w.calls)
    sh0.check('a first call, {}'.format(base))
    ctx.interesting = True
    sh = Shadow(plan['stream'])
    if mode == 'plain':
        o = attempt(w, make(None))
        sh.check('return')
        again(ctx, make, base, o)
    elif mode == 'fault':
        f = plan['fault']
        if f is None:
            return
        if f['cat'] == 'objective':
            k = [0]
            total = [0]

            def count():
                total[0] += 1
            attempt(w, make(count))
            sh.check('a call')
            at = int(f['frac'] * total[0])

            def hook():
                k[0] += 1
                if k[0] == at + 1:
                    w.fired['objective:' + f['kind']] += 1
                    raise (SimInterrupt('injected') if f['kind'] == 'Interrupt' else SimFault('injected'))
                sh.check('while the objective runs')
            o = attempt(w, make(hook))
            if total[0]:
                need(not o.ok, 'swallowed', 'a failing objective was ignored')
        else:
            c = counts.get(f['cat'], 0)
            if not c:
                return
            w.arm(Armed(f['cat'], min(c - 1, int(f['frac'] * c)), f['kind']))
            o = attempt(w, make(None))
            w.disarm()
        sh.check('a failing call: {}'.format(o))
        ctx.probe('failed calls')
        o = attempt(w, make(None))
        sh.check('the call after a failure')
        again(ctx, make, base, o)
    elif mode == 'line':
        if not plan['interrupt'] or not lines[0]:
            return
        k = 1 + int(plan['interrupt']['frac'] * (lines[0] - 1))
        exc = (lambda: SimInterrupt('injected')) if plan['interrupt']['kind'] == 'Interrupt' else (lambda: SimFault('injected'))
        old = seams.set_world(w)
        o, n, fired = sched.interrupt_at(make(None), k, exc)
        seams.set_world(old)
        if fired:
            w.fired['line:' + plan['interrupt']['kind']] += 1
            ctx.probe('interrupted lines')
            ctx.sig(fired)
        sh.check('interrupted at {}'.format(fired))
        o = attempt(w, make(None))
        sh.check('the call after an interrupt')
        again(ctx, make, base, o)
    elif mode == 'callback':
        o = attempt(w, make(lambda: sh.use(plan['cb'])))
        sh.check('objective that uses the stream')
        w.fired['objective:' + plan['cb']] += 1
        again(ctx, make, base, o)
        ctx.probe('draws by the objective', sh.seen)
    elif mode == 'thread':
        s = sched.Scheduler(w, plan['policy'] or {'kind': 'serial'})

        def drawer():
            kinds = ['draw', 'normal1', 'int', 'perm'] + (['reseed', 'state'] if plan['reseed'] else [])
            for j in range(plan['count']):
                s.point(('draw', j))
                sh.use(kinds[j % len(kinds)])
        hook = (lambda: s.point(('objective', 0)))
        fns = [make(hook), drawer] + ([make(hook)] if plan['two'] else [])
        old = seams.set_world(w)
        try:
            outs = s.run(fns)
        finally:
            seams.set_world(old)
        ctx.schedule = s.switches
        ctx.sched_sigs.append(repr(s.switches[:400]))
        w.fired['preemptions'] += len(s.switches)
        if outs[1] is not None and not outs[1].ok:
            raise outs[1].exc
        sh.check('a call beside a thread that draws')
        for o in [outs[0]] + outs[2:]:
            again(ctx, make, base, o)
        ctx.probe('draws by another thread', sh.seen)
    if base.ok:
        ctx.digest(np.round(flat(base.value), 6))


def again(ctx, make, base, o):
    """The same result whatever the stream holds."""
    if same(base, o):
        return
    w = ctx.world(quiet=True)
    for k in range(8):
        junk = [bytearray(24 * k + 8) for _ in range(60)]
        seams.ORIG['seed'](1)
        if not same(base, attempt(w, make(None))):
            ctx.probe('sensitive to rounding')
            return
        del junk
    need(False, 'dependent', 'the result depends on the global stream: {} {} and {} {}', base, base.value if base.ok else '',
         o, o.value if o.ok else '')
