"""C15: the library never modifies the caller's arrays, nor depends on them later."""
import numpy as np

from .. import gens, graph, flow, seams
from ..user import Sim
from ..world import attempt, need, Armed

RULE = ('A run makes a history of calls (estimating, training, mapping, predicting, integrating, solving, utilities) with '
        'caller-owned arrays in several memory layouts, some calls struck by a failure at a seeded external call or by a '
        'failing simulation; after every call all bytes of those arrays, and of all arrays returned before, are compared. Then '
        'the arrays and all returned arrays are overwritten, at once or between the calls, and the answers of all objects are '
        'compared. Non-trivial: arrays were overwritten under trained objects; distinct by the calls, layouts and faults.')
REAL = ['active_subspaces (all modules but the plotter)', 'numpy', 'SciPy']
STUB = ['failures at external calls', 'the simulations']
ASSUMPTIONS = ['attributes of the objects are theirs: only arrays passed in or returned are overwritten',
               'answers are compared up to a relative 1e-7']

FNS = ['as', 'ols', 'qphd', 'opg', 'eigpart', 'errbnd', 'ladle', 'process', 'process2', 'cond', 'bnorm', 'unorm', 'endpoints',
       'zonotope', 'unique', 'sample', 'har', 'reject', 'walk', 'expsq', 'gexpsq', 'polyb', 'gpolyb', 'jacobi', 'eigh', 'run', 'grun',
       'col', 'row', 'fd', 'llgw']
LAYOUTS = [None, None, 'F', 'view', 'rev', 'int', 'ro']


def gen(rng, i, tier):
    g = graph.spec(rng, 4)
    if rng.random() < 0.6:
        g['dom']['n'] = 1
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        r = rng.random()
        if r < 0.5:
            o = graph.op(rng, g)
            if 'd' in o and rng.random() < 0.6:
                o['d']['layout'] = rng.choice(['F', 'view', None])
        elif r < 0.75:
            o = flow.op(rng, g, heavy=rng.random() < 0.4)
        else:
            o = {'fn': rng.choice(FNS), 's': rng.randrange(1 << 30), 'M': rng.choice([1, 2, 3, 6, 12]), 'm': rng.choice([2, 3, 4])}
        o['lay'] = rng.choice(LAYOUTS)
        if rng.random() < 0.3:
            o['fault'] = {'frac': rng.choice([rng.random(), rng.random(), 0.999]), 'kind': rng.choice(['MemoryError', 'Interrupt'])}
        elif rng.random() < 0.15:
            o['beh'] = {'fail': rng.choice([0, 1, 3]), 'exc': rng.choice(['exc', 'Interrupt', 'ValueError'])}
        o['scribble'] = rng.choice([None, None, 'in', 'out', 'both'])
        ops.append(o)
    return {'g': g, 'ops': ops, 'end': rng.choice(['in', 'out', 'both', 'both']), 'how': rng.choice(['nan', 'big', 'zero', 'reuse'])}


# -- the caller's arrays --------------------------------------------------------

def layout(kind, o):
    """Rearranges an array in memory without changing its values (or rounds training data to integers)."""
    if kind == 'int' and o.get('op') in ('poly', 'rbf', 'data', 'mvm'):
        return lambda a: np.round(4 * a).astype(int) if np.isfinite(a).all() else a
    if kind in (None, 'int', 'ro'):
        return None
    if kind == 'F':
        return np.asfortranarray

    def lay(a):
        if a.ndim != 2:
            return a
        M, m = a.shape
        if kind == 'rev':
            B = np.full((M, m), np.nan)
            v = B[::-1]
            v[...] = a
            return v
        B = np.full((2 * M + 1, m + 2), 777.0)
        v = B[1::2, 1:m + 1]
        v[...] = a
        return v
    return lay


class Kept:
    """Arrays of the caller and what is in them."""
    def __init__(self, what, arrays):
        self.what = what
        self.items = []
        for name, a in arrays:
            self.items.append((name, a, root(a), None))
        self.update()

    def update(self):
        self.items = [(n, a, b, (a.copy(), b.copy())) for n, a, b, _ in self.items]

    def check(self, when):
        for n, a, b, (x, y) in self.items:
            need(same(a, x) and same(b, y), 'modified', '{} modified the array {} of {}', when, n, self.what)

    def scribble(self, how, seed):
        r = gens.RS(seed)
        for n, a, b, _ in self.items:
            if not b.flags.writeable:
                try:
                    b.flags.writeable = True
                except ValueError:
                    continue
            if a is not b and not a.flags.writeable:
                try:
                    a.flags.writeable = True
                except ValueError:
                    continue
            for t in (b, a):
                if not t.size:
                    continue
                if t.dtype.kind == 'f':
                    t[...] = np.nan if how == 'nan' else 0.0 if how == 'zero' else 1e6 * r.normal(size=t.shape) if how == 'big' \
                        else t.ravel()[r.permutation(t.size)].reshape(t.shape) * -1.5 + 0.3
                elif t.dtype.kind in 'iu':
                    t[...] = 0 if how == 'zero' else 7
        self.update()


def root(a):
    """The array at the bottom of a chain of views."""
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') if a.dtype.kind != 'O' else True)


def arrays_in(v, name='result', depth=0):
    """All arrays in a returned value."""
    if isinstance(v, np.ndarray):
        return [(name, v)] if v.dtype.kind in 'fiu' else []
    if isinstance(v, (tuple, list)) and depth < 3:
        return [x for k, u in enumerate(v) for x in arrays_in(u, '{}[{}]'.format(name, k), depth + 1)]
    if isinstance(v, dict) and depth < 3:
        return [x for k in v for x in arrays_in(v[k], '{}[{}]'.format(name, k), depth + 1)]
    return []


# -- functions that need no object ------------------------------------------------

def function(lib, o, hold, world):
    r = gens.RS(o['s'])
    M, m = o['M'], o['m']
    L = hold.pop('layout', None) or (lambda a: a)
    fn = o['fn']
    D = lib.domains
    S = lib.subspaces

    def put(name, a):
        hold[name] = L(a)
        return hold[name]

    def ortho():
        return gens.ortho({'s': o['s'] % 100000, 'm': m, 'n': 1, 'kind': 'haar'})
    if fn in ('as', 'ols', 'qphd', 'opg', 'llgw', 'fd', 'run', 'grun', 'process2'):
        if fn == 'qphd':
            M = max(M, (m + 1) * (m + 2) // 2 + 3)
        elif fn in ('ols', 'opg', 'llgw'):
            M = max(M, 2 * m + 6)
        X = put('X', r.uniform(-1, 1, (M, m)))
        f, df = gens.function({'s': o['s'], 'f': 'exp'}, m)
        F = put('f', np.array([[float(f(x))] for x in X]))
        wt = put('weights', r.uniform(0.2, 1.0, (M, 1)))
        if fn == 'as':
            G = put('df', np.array([df(x) for x in X]))
            return lambda: S.active_subspace(G, wt)
        if fn in ('ols', 'qphd', 'opg'):
            return lambda: getattr(S, fn + '_subspace')(X, F, wt)
        if fn == 'llgw':
            return lambda: lib.local_linear_gradients(X, F, weights=wt)
        if fn == 'process2':
            return lambda: lib.misc.process_inputs_outputs(X, F)
        # simulations that use one buffer for all their results
        buf = np.zeros((1, m if fn == 'grun' else 1))
        hold['buffer of the simulation'] = buf
        n = [0]

        def sim(x):
            n[0] += 1
            b = o.get('beh')
            if b and n[0] > b['fail']:
                raise ValueError('injected')
            buf[...] = df(np.asarray(x).ravel()) if fn == 'grun' else f(np.asarray(x).ravel())
            return buf
        if fn == 'fd':
            hold['expect'] = ('fd', np.array([df(x) for x in X]), 1e-2)
            return lambda: lib.finite_difference_gradients(X, sim, h=1e-5)
        hold['expect'] = (fn, np.array([df(x) for x in X]) if fn == 'grun' else F.copy(), 1e-12)
        return lambda: (lib.SimulationGradientRunner if fn == 'grun' else lib.SimulationRunner)(sim).run(X)
    if fn in ('eigpart', 'errbnd', 'ladle'):
        e = put('e', np.sort(r.uniform(0.1, 3, (m + 1, 1)), axis=0)[::-1].copy())
        if fn == 'eigpart':
            return lambda: S.eig_partition(e)
        if fn == 'errbnd':
            q = put('sub_err', r.uniform(0.01, 0.5, (m, 1)))
            return lambda: S.errbnd_partition(e, q)
        q = put('li_F', r.uniform(0.01, 0.5, (m, 1)))
        return lambda: S.ladle_partition(e, q)
    if fn == 'process':
        X = put('X', r.normal(size=(M, m)))
        return lambda: lib.misc.process_inputs(X)
    if fn == 'cond':
        F = put('f', r.normal(size=(2 * M, 1)))
        ind = put('ind', np.kron(np.arange(M), np.ones(2)).astype(int).reshape((-1, 1)))
        if ind.dtype.kind != 'i':
            ind = hold['ind'] = ind.astype(int)
        return lambda: lib.misc.conditional_expectations(F, ind)
    if fn in ('bnorm', 'unorm'):
        X = put('X', r.uniform(-1, 1, (M, m)))
        if fn == 'bnorm':
            lb, ub = put('lb', r.uniform(-2, -1, (m, 1))), put('ub', r.uniform(1, 2, (m, 1)))
            return lambda: (lambda N: (N.normalize(X), N.unnormalize(X)))(lib.BoundedNormalizer(lb, ub))
        A = r.normal(size=(m, m))
        mu, C = put('mu', r.normal(size=(m, 1))), put('C', A.dot(A.T) + np.eye(m))
        return lambda: (lambda N: (N.normalize(X), N.unnormalize(X)))(lib.UnboundedNormalizer(mu, C))
    if fn == 'endpoints':
        W1 = put('W1', ortho()[:, :1].copy())
        return lambda: D.interval_endpoints(W1)
    if fn == 'zonotope':
        W = gens.ortho({'s': o['s'] % 100000, 'm': max(m, 3), 'n': 2, 'kind': 'haar'})
        W1 = put('W1', W[:, :2].copy())
        return lambda: D.zonotope_vertices(W1)
    if fn == 'unique':
        T = put('S', r.randint(-1, 2, (M, m)).astype(float))
        return (lambda: D.unique_rows(T)) if hasattr(D, 'unique_rows') else None
    if fn in ('sample', 'har', 'reject', 'walk'):
        W = ortho()
        W1, W2 = put('W1', W[:, :1].copy()), put('W2', W[:, 1:].copy())
        y = hold['y'] = 0.3 * r.uniform(-1, 1, m).dot(W[:, :1])
        f = getattr(D, {'sample': 'sample_z', 'har': 'hit_and_run_z', 'reject': 'rejection_sampling_z', 'walk': 'random_walk_z'}[fn], None)
        return None if f is None else lambda: f(1 + M % 3, y, W1, W2)
    U = lib.usurf
    if fn in ('expsq', 'gexpsq'):
        f = getattr(U, 'exponential_squared' if fn == 'expsq' else 'grad_exponential_squared', None)
        X1, X2, ell = put('X1', r.normal(size=(M, m))), put('X2', r.normal(size=(3, m))), put('ell', r.uniform(0.5, 2, (m, 1)))
        return None if f is None else lambda: f(X1, X2, 1.3, ell)
    if fn in ('polyb', 'gpolyb'):
        f = getattr(U, 'polynomial_bases' if fn == 'polyb' else 'grad_polynomial_bases', None)
        X = put('X', r.normal(size=(M, m)))
        return None if f is None else lambda: f(X, 2)
    if fn == 'jacobi':
        ab = put('ab', r.uniform(0.5, 2, (m, 2)))
        f = getattr(lib.quadrature, 'jacobi_matrix', None)
        return None if f is None else lambda: f(ab)
    if fn == 'eigh':
        A = r.normal(size=(m, m))
        C = put('C', A.dot(A.T))
        f = getattr(S, 'sorted_eigh', None)
        return None if f is None else lambda: f(C)
    if fn in ('col', 'row'):
        A = hold['A'] = r.normal(size=m)
        f = getattr(lib.misc, 'atleast_2d_' + fn, None)
        return None if f is None else lambda: f(A)
    raise KeyError(fn)


# -- the run ----------------------------------------------------------------------

def ownable(hold):
    return [(k, v) for k, v in hold.items() if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu']


def run(plan, ctx):
    from .. import lib
    w = ctx.world(quiet=True)
    G = graph.Graph(lib, plan['g'], w)
    d = plan['g']['dom']
    ctx.sig(d['kind'], d['m'], d['n'], d['bounded'], plan['g']['surf'], plan.get('end'), plan.get('how'))
    ins, outs = [], []
    objs = {}
    how = plan.get('how', 'nan')
    trained = False
    for k, o in enumerate(plan['ops']):
        name = o.get('fn') or o.get('read') or o['op']
        hold = {'layout': layout(o.get('lay'), o)}
        if 'fn' in o:
            c = function(lib, o, hold, w)
        elif 'read' in o:
            c = flow.call(G, o, hold=hold, objs=objs, beh=o.get('beh'))
        else:
            c = G.call(o, beh=o.get('beh'), world=w, hold=hold)
        if c is None:
            continue
        expect = hold.pop('expect', None)
        buf = hold.pop('buffer of the simulation', None)
        mine = Kept(name, ownable(hold))
        if o.get('lay') == 'ro':
            for _, a in ownable(hold):
                a.flags.writeable = False
        f = o.get('fault')
        if f:
            seams.ORIG['seed'](o['s'] % 9999)
            w.arm(Armed('any', strike(lib, plan, o, f, w, G), f['kind']))
        seams.ORIG['seed'](o['s'] % 9999)
        oc = attempt(w, c)
        w.disarm()
        when = '{} ({})'.format(name, 'returned' if oc.ok else 'raised ' + type(oc.exc).__name__)
        mine.check(when)
        for q in ins + outs:
            q.check(when)
        ctx.probe('calls that {}'.format('returned' if oc.ok else 'raised'))
        ctx.sig(name, oc.ok, o.get('lay'), bool(f), o.get('scribble'), o.get('M'), o.get('ss'))
        if oc.ok and expect is not None and not o.get('beh'):
            v = np.asarray(oc.value)
            need(v.shape == expect[1].shape and np.abs(v - expect[1]).max() <= expect[2] * max(1.0, np.abs(expect[1]).max()), 'buffer',
                 '{}: results are wrong when the simulation returns the same array again and again', name)
            ctx.probe('simulations with one buffer')
        if buf is not None and oc.ok:
            buf[...] = 1e9
        ret = Kept('what {} returned'.format(name), arrays_in(oc.value) if oc.ok else [])
        if 'op' in o and oc.ok:
            trained = True
        if buf is not None and oc.ok:
            buf[...] = -1e9
            ret.check('the simulation that overwrote its buffer after ' + name)
        ins.append(mine)
        outs.append(ret)
        if o.get('scribble'):
            trial(G, w, ctx, ins, outs, o['scribble'], how, o['s'], plan, trained, name)
    trial(G, w, ctx, ins, outs, plan.get('end') or 'both', how, 5, plan, trained, 'all calls')


def strike(lib, plan, o, f, w, G):
    """Where the failure strikes: a fraction of the calls that the operation usually makes."""
    usual = {'compute': 12, 'iface': 60, 'data': 40, 'rbf': 40, 'poly': 12, 'mvm': 12, 'boundary': 30}
    n = usual.get(o.get('op'), 20)
    return int(f['frac'] ** 2 * n)


def trial(G, w, ctx, ins, outs, what, how, seed, plan, trained, after):
    before, state = G.answers(w), G.state()
    if what in ('in', 'both'):
        for q in ins:
            q.scribble(how, seed)
    if what in ('out', 'both'):
        for q in outs:
            q.scribble(how, seed + 1)
    for q in ins + outs:                # views of the same memory: take stock once all is written
        q.update()
    k = graph.same_state(state, G.state())
    need(k is None, 'depends', 'after {}: overwriting arrays ({}) changed the attribute {}', after, what, k)
    d = graph.differ(before, G.answers(w), 1e-7)
    need(d is None, 'depends', 'after {}: overwriting arrays ({}) changed the answer {}: {}', after, what, *(d or ('', '')))
    ctx.probe('overwritings')
    if trained:
        ctx.interesting = True
    for q in ins + outs:
        q.check('answering')
