"""C05: results are a function of the inputs and the numpy seed alone."""
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from .. import gens, graph, flow, seams, peer
from ..world import attempt, need, World, Armed, Skip, Violation
from ..zygote import send, recv

RULE = ('A run executes one workflow (building and training a graph of objects, then reading, integrating, designing, '
        'minimizing; the stream seeded once at its start) several times: in a clean process image, after a history of '
        'other library use in the same process (the same workflow, siblings with the same shapes and other data, other '
        'operations, with injected failures), in a world with another clock, entropy, process id and working directory, '
        'and in another process with another hash seed; all results and the state of the stream at the end are compared. '
        'Non-trivial: at least two variants were compared; distinct by workflow and history.')
REAL = ['active_subspaces (all modules but the plotter)', 'numpy', 'SciPy', 'the other process']
STUB = ['clock, entropy, process id', 'failures in the history', 'the simulation']
ASSUMPTIONS = ['results are compared up to a relative 1e-7; a workflow whose own repetitions with data changed in the last '
               'digits differ by as much is not decided']

PEER = {}


def prepare():
    """Start the other process."""
    d = tempfile.mkdtemp(prefix='peer', dir=os.getcwd())
    path = os.path.join(d, 's')
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(1000 + int(os.environ.get('PYTHONHASHSEED', '0'))), TZ='Asia/Tokyo', LC_ALL='C', SIM_PEER='1')
    p = subprocess.Popen([sys.executable, '-m', 'sim.peer', path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=d)
    if p.stdout.readline() != b'ready\n':
        raise RuntimeError('peer')
    PEER['path'] = path
    PEER['proc'] = p


def gen(rng, i, tier):
    g = graph.spec(rng, 4)
    if rng.random() < 0.5:
        g['dom']['n'] = 1
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops.append(graph.op(rng, g))
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops.append(flow.op(rng, g))
    if rng.random() < 0.5:
        rng.shuffle(ops)
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['same', 'sibling', 'sibling', 'other', 'shapes'])
        h = {'kind': k, 's': rng.randrange(1 << 30), 'keep': rng.random() < 0.3}
        if rng.random() < 0.4:
            h['fault'] = {'frac': rng.random(), 'kind': rng.choice(['MemoryError', 'Interrupt'])}
        if k == 'other':
            g2 = graph.spec(rng, 4)
            h['g'] = g2
            h['ops'] = [graph.op(rng, g2) for _ in range(2)] + [flow.op(rng, g2) for _ in range(2)]
        hist.append(h)
    return {'g': g, 'ops': ops, 'history': hist, 'seed0': rng.randrange(1 << 30), 'env': rng.randrange(1 << 20),
            'where': rng.choice(['peer', 'peer-history', 'here'])}


def sibling(plan, s):
    """The same workflow with the same shapes and other data."""
    p = {'g': dict(plan['g'], dom=dict(plan['g']['dom'], s=plan['g']['dom']['s'] + 1 + s % 5)), 'ops': []}
    for o in plan['ops']:
        q = dict(o, s=o['s'] + 1 + s % 7)
        if 'd' in q:
            q['d'] = dict(q['d'], s=q['d']['s'] + 1 + s % 3)
        p['ops'].append(q)
    return p


def workflow(w, plan, jitter=None, keep=None):
    """Results of all operations, one after another, with the stream seeded once."""
    from .. import lib
    G = graph.Graph(lib, plan['g'], w)
    seams.ORIG['seed'](plan.get('seed0', 5) % (1 << 32))
    out = []
    objs = {}
    if keep is not None:
        keep.append((G, objs))
    for o in plan['ops']:
        hold = {}
        if 'read' in o:
            c = flow.call(G, o, hold=hold, objs=objs, world=None)
        else:
            c = G.call(o, hold=hold)
        if jitter is not None:
            r = gens.RS(jitter)
            for v in hold.values():
                if isinstance(v, np.ndarray):
                    v *= 1 + r.uniform(-1, 1, v.shape) * 10.0 ** r.uniform(-15, -13)
        if c is None:
            out.append(('none', None))
            continue
        oc = attempt(w, c)
        if 'read' in o:
            out.append(flow.outcome(oc))
        else:
            out.append((('ok', []) if oc.ok else ('exc', type(oc.exc).__name__)))
            out.append(('ok', [np.array(v, dtype=float) for k, v in sorted(G.state().items()) if v is not None]))
    out.append(('ok', [np.random.uniform(size=3), np.atleast_1d(np.random.normal())]))
    return out


def environment(s):
    """Another clock, entropy, process id and working directory."""
    r = random.Random(s)
    w = World(seed=s, entropy_seed=s, t0=r.choice([0.0, 1.0e9, 4.0e9, -1.0e6]), quiet=True)
    w.jumps = r.choice([0.0, 0.1, 0.5])
    d = tempfile.mkdtemp(dir=os.getcwd())
    if s:                       # with what other programs, or earlier runs of the library, left there
        for n in ('seed', 'state.npy', 'active_subspaces.cfg', 'bad_scipy_lp_ineq_0000000001.npz', 'bad_scipy_qp_ineq_0000000002.npz'):
            open(os.path.join(d, n), 'w').write('1')
        os.mkdir(os.path.join(d, 'figs'))
    os.chdir(d)
    random.seed(s)
    return w


def past(w, plan, ctx=None):
    """What the process did with the library before."""
    kept = []
    for h in plan['history']:
        if h['kind'] == 'shapes':
            shapes(w, h['s'])
            continue
        p = {'same': lambda: plan, 'sibling': lambda: sibling(plan, h['s']), 'other': lambda: h}[h['kind']]()
        f = h.get('fault')
        if f:
            w.arm()
            workflow(w, p)
            n = w.calls['any']
            if n:
                w.arm(Armed('any', int(f['frac'] * n), f['kind']))
        try:
            workflow(w, p, keep=kept if h.get('keep') else None)
        except Violation:               # the injected failure struck while the domain was built
            pass
        w.disarm()
    return kept


def shapes(w, s):
    """Surfaces, runs and gradients in many numbers of inputs and degrees."""
    from .. import lib
    r = random.Random(s)
    rs = gens.RS(s)
    for _ in range(6):
        d = r.choice([1, 2, 3, 4, 5, 6, 11, 12, 13, 14, 21, 22])
        N = r.choice([1, 1, 2, 3, 4] if d <= 3 else ([1, 1, 2] if d <= 6 else [1]))
        M = graph.ncoef(N, d) + r.choice([0, 2])
        X = rs.uniform(-1, 1, (M, d))
        F = np.sum(X ** 2, axis=1).reshape((M, 1)) + X[:, :1]
        p = lib.PolynomialApproximation(N)
        attempt(w, lambda: (p.train(X, F), p.predict(X[:3], r.random() < 0.7)))
        if d <= 6:
            q = lib.RadialBasisApproximation(min(N, 2))
            attempt(w, lambda: (q.train(X, F), q.predict(X[:3], r.random() < 0.7)))
        if d > 1:
            seams.ORIG['seed'](s % 1000)
            attempt(w, lambda: lib.local_linear_gradients(X, F))
            attempt(w, lambda: lib.finite_difference_gradients(X, lambda x: float(np.sum(x)), h=1e-3))
        attempt(w, lib.quadrature.gauss_hermite, [N] * min(d, 3))


def variant_result(plan, variant):
    w = environment(variant['env'])
    wd = os.getcwd()
    try:
        kept = past(w, plan) if variant.get('history') else None
        r = workflow(w, plan, jitter=variant.get('jitter'))
        del kept
        return r
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(wd, ignore_errors=True)


def forked(plan, variant):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            send(wfd, variant_result(plan, variant))
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(0)
    os.close(wfd)
    try:
        return recv(r, 60)
    except EOFError:
        raise Skip()
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def differ(a, b, tol=1e-7):
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0] or (x[0] == 'exc' and x[1] != y[1]):
            return i, '{} and {}'.format(x[:2] if x[0] == 'exc' else x[0], y[:2] if y[0] == 'exc' else y[0])
        if x[0] != 'ok':
            continue
        if len(x[1]) != len(y[1]):
            return i, 'different number of results'
        for u, v in zip(x[1], y[1]):
            if u.shape != v.shape:
                return i, 'shapes {} and {}'.format(u.shape, v.shape)
            if not np.array_equal(np.isfinite(u), np.isfinite(v)):
                return i, 'finiteness'
            fin = np.isfinite(u)
            if fin.any():
                s = max(np.abs(u[fin]).max(), 1e-300)
                e = np.abs(u[fin] - v[fin]).max()
                if e > tol * s:
                    return i, 'differ by {:.3g} of {:.3g}'.format(e, s)
    return None


def run(plan, ctx):
    w = ctx.world(quiet=True)
    ctx.sig(plan['g']['dom']['kind'], plan['g']['dom']['m'], plan['g']['dom']['n'], plan['g']['dom']['bounded'],
            [(o.get('op'), o.get('read'), o.get('ss'), o.get('bad'), o.get('N')) for o in plan['ops']],
            [(h['kind'], bool(h.get('fault'))) for h in plan['history']], plan['where'])
    base = forked(plan, {'env': 0})
    clean = Clean(plan, base)
    seams.ORIG['seed'](3)
    past(w, plan)
    w2 = environment(plan['env'])
    w2.note('another environment')
    ctx.worlds.append(w2)
    variants = [('after a history and with another clock, entropy, process id and directory', workflow(w2, plan))]
    if plan['where'].startswith('peer') and 'path' in PEER:
        variants.append(('in another process', peer.ask(PEER['path'], {k: v for k, v in plan.items()},
                                                        {'env': plan['env'] + 1, 'history': plan['where'] == 'peer-history'})))
        ctx.probe('other process')
    for what, r in variants:
        d = differ(base, r)
        if d is not None:
            if clean.chaotic(d[0] + 1):
                ctx.probe('sensitive to rounding')
                return
            flat = []
            for o in plan['ops']:
                flat += [o.get('read') or o.get('op')] * (1 if 'read' in o else 2)
            need(False, 'differs', '{}: result {} ({}): {}', what, d[0], (flat + ['the stream afterwards'])[min(d[0], len(flat))], d[1])
    clean.close()
    ctx.interesting = True
    ctx.probe('results compared', len(base))
    bad = any(o.get('bad') in ('nan', 'inf') for o in plan['ops'])
    if not bad:
        ctx.digest([x[0] if x[0] != 'exc' else x for x in base])


class Clean:
    """A copy of the process without the history, for questions asked later."""
    def __init__(self, plan, base):
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                n = os.read(r, 8)
                if n:
                    os.write(w, b'1' if chaotic(plan, base[:int(n)]) else b'0')
            except BaseException:
                pass
            os._exit(0)
        os.close(r)
        os.close(w)

    def chaotic(self, n):
        os.write(self.w, b'%d' % n)
        a = os.read(self.r, 1)
        self.close()
        if not a:
            raise Skip()
        return a == b'1'

    def close(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)
            self.pid = 0


def chaotic(plan, base):
    """Whether one of these results moves when the data change in the last digits."""
    if any(o.get('bad') in ('nan', 'inf') for o in plan['ops']):
        return True
    for k in range(10):
        if differ(base, forked(plan, {'env': 0, 'jitter': k}), 1e-7) is not None:
            return True
    return False
