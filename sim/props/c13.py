"""C13: concurrent use of shared objects gives the sequential answers."""
import os

import numpy as np

from .. import gens, graph, flow, seams, sched, doms
from ..world import attempt, must, need, Skip, Violation, Outcome, SimInterrupt
from ..zygote import send, recv

RULE = ('Two to four simulated threads work at once: some read from one shared graph of trained objects (surfaces, maps, '
        'domains, runners, solvers), some estimate and train on graphs of their own; a seeded scheduler decides at every '
        'library line, external call and simulation who runs next. Every call is compared with the same call made alone in '
        'a clean process image; calls that draw random numbers are checked for validity. Non-trivial: at least one switch '
        'happened inside a call; distinct by operations and schedule.')
REAL = ['active_subspaces (all modules but the plotter)', 'numpy', 'SciPy', 'Python threads']
STUB = ['the choice of who runs next', 'the simulations', 'locks of the library']
ASSUMPTIONS = ['threads switch at source lines of the library, at its external calls and in callbacks; compiled code is atomic',
               'results are compared up to a relative 1e-7']

OWN = ['compute', 'compute', 'poly', 'rbf', 'data', 'mvm', 'partition', 'boundary', 'iface']


def gen(rng, i, tier):
    g = graph.spec(rng, 4)
    if rng.random() < 0.5:
        g['dom']['n'] = 1
    for o in (g,):
        o['rdeg'] = rng.choice([0, 1])
    setup = []
    for what in ('poly', 'rbf', 'data', 'mvm'):
        o = graph.op(rng, g, what)
        o.pop('bad', None)
        setup.append(o)
    threads = []
    shared = [flow.op(rng, g, heavy=False) for _ in range(2)]
    duel = rng.random() < 0.4
    shared = [flow.op(rng, g, heavy=False) for _ in range(rng.choice([1, 2, 3]))] if duel else shared
    for t in range(rng.choice([2, 2, 3]) if duel else rng.choice([2, 2, 2, 3, 3, 4])):
        if duel:        # the same operations with other data in every thread
            threads.append([dict(o, s=rng.randrange(1 << 30)) for o in shared])
            continue
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.25 and t:
                g2 = dict(g, dom=dict(g['dom'], s=rng.randrange(1 << 30)), ps=rng.randrange(1 << 30))
                o = graph.op(rng, g2, rng.choice(OWN))
                ops.append({'own': g2, 'o': o})
            elif rng.random() < 0.4:
                # the same operation in several threads, with the same or with other data
                o = dict(rng.choice(shared))
                if rng.random() < 0.7:
                    o['s'] = rng.randrange(1 << 30)
                ops.append(o)
            else:
                ops.append(flow.op(rng, g, heavy=False))
        for o in ops:
            if o.get('read') in ('integrate', 'fd') and rng.random() < 0.15:
                o['beh'] = {'fail': rng.choice([0, 1, 3]), 'exc': rng.choice(['exc', 'Interrupt'])}
        threads.append(ops)
    pol = rng.choice([{'kind': 'random', 'p': rng.choice([0.003, 0.03, 0.2, 0.7])}, {'kind': 'stores', 'p': rng.choice([0.001, 0.01])}, {'kind': 'stores', 'p': rng.choice([0.001, 0.01])}, {'kind': 'random', 'p': rng.choice([0.03, 0.2])},
                      {'kind': 'pct', 'd': rng.choice([1, 2, 3, 5]), 'span': rng.choice([30, 200, 1000, 5000])}])
    pol['seed'] = rng.randrange(1 << 30)
    return {'g': g, 'setup': setup, 'threads': threads, 'policy': pol, 'rs': rng.randrange(1 << 30)}


def build(plan, w, lib):
    G = graph.Graph(lib, plan['g'], w)
    for o in plan['setup']:
        c = G.call(o)
        if c is not None:
            attempt(w, c)
    return G


def own_graph(lib, spec, w):
    return graph.Graph(lib, spec, w)


def prepare_calls(plan, lib, w, hook):
    """All calls of all threads: [[(op, call, hold, own graph)]]."""
    G = build(plan, w, lib)
    objs = {}
    out = []
    for ops in plan['threads']:
        t = []
        for o in ops:
            hold = {}
            if 'own' in o:
                G2 = own_graph(lib, o['own'], w)
                c = G2.call(o['o'], hold=hold)
                t.append((o, c, hold, G2))
            else:
                c = flow.call(G, o, hook=hook, hold=hold, objs=objs, beh=o.get('beh'))
                t.append((o, c, hold, None))
        out.append(t)
    return G, out


def record(o, oc, G2, w):
    """What is compared: the outcome and, for estimation and training, what the own objects then say."""
    if G2 is None:
        return [flow.outcome(oc)]
    r = [('ok', []) if oc.ok else ('exc', type(oc.exc).__name__)]
    a = G2.answers(w)
    return r + [(k, a[k]) for k in sorted(a)]


def alone(plan, jitter=None):
    """Every call by itself, in a forked process."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            from .. import lib
            from ..world import World
            w = World(quiet=True)
            keep = [bytearray(40 * jitter + 8) for _ in range(50)] if jitter else None
            G, calls = prepare_calls(plan, lib, w, None)
            out = []
            for t in calls:
                row = []
                for o, c, hold, G2 in t:
                    if jitter:
                        rr = gens.RS(jitter)
                        for v in hold.values():
                            if isinstance(v, np.ndarray) and v.flags.writeable:
                                v *= 1 + rr.uniform(-1, 1, v.shape) * 10.0 ** rr.uniform(-16, -14)
                    seams.ORIG['seed'](plan['rs'])
                    if c is None:
                        row.append(None)
                        continue
                    row.append(record(o, attempt(w, c), G2, w))
                out.append(row)
            del keep
            send(wfd, out)
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(0)
    os.close(wfd)
    try:
        return recv(r, 60)
    except EOFError:
        raise Skip()
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def random_own(o):
    q = o['o']
    return q['op'] in ('iface', 'boundary') or (q['op'] == 'compute' and (q['ss'] == 'OPG' or q.get('nboot') or q['pt'] != 'EVG'))


def drawn(o):
    return o['read'] in flow.DRAWS


def mismatch(o, a, b):
    """How the outcome of a call differs from the one alone, or None. Calls that draw: only whether they succeed."""
    if (a is None) or (b is None):
        return None if a is b else 'presence'
    if 'own' in o:
        if a[0] != b[0] and not (random_own(o) and a[0][0] == b[0][0] == 'exc'):    # which error may depend on the draws
            return '{} instead of {}'.format(b[0], a[0])
        if random_own(o):
            return None
        A, B = dict(a[1:]), dict(b[1:])
        d = graph.differ(A, B, 1e-7)
        return None if d is None else '{}: {}'.format(*d)
    x, y = a[0], b[0]
    if x[0] != y[0] or (x[0] == 'exc' and x[1] != y[1]):
        return '{} instead of {}'.format(y if y[0] == 'exc' else 'a result', x if x[0] == 'exc' else 'a result')
    if drawn(o) or x[0] == 'exc':
        return None
    d = graph.differ({'r': x}, {'r': y}, 1e-7)
    return None if d is None else d[1]


def valid(o, v, hold, G, base):
    """A call that draws returned a valid result. `base` is the result alone: what does not depend on draws agrees."""
    what = o['read']
    W = G.ss.eigenvecs
    n = G.ss.W1.shape[1]
    bounded = G.g['dom']['bounded']
    name = 'threads: ' + what
    b = base[0][1]
    if what == 'inverse':
        X, ind = v
        doms.check_points(need, X, ind, hold['Y'], o['N'], W, n, bounded, 2e-6)
    elif what == 'design':
        Y, X, ind = v if np.shape(v[0])[1] == n and n < G.m else (v[1], v[0], v[2])
        need(np.shape(Y) == b[0].shape and np.abs(Y - b[0]).max() <= 1e-6, 'design', '{}: the active points differ from those alone', name)
        doms.check_points(need, X, ind, Y, o['NMC'], W, n, bounded, 2e-6)
    elif what in ('quad', 'avquad'):
        wt = np.asarray(v[1])
        need(np.isfinite(wt).all() and (wt >= 0).all() and wt.sum() <= 1 + 1e-9 and abs(wt.sum() - 1) < 1e-6, 'weights',
             '{}: weights with sum {}', name, wt.sum())
        if what == 'avquad':
            need(np.shape(v[0]) == b[0].shape, 'nodes', '{}: {} nodes instead of {}', name, len(v[0]), len(b[0]))
            A, B = np.asarray(v[0]), b[0]
            D = np.abs(A[:, None] - B[None]).max(axis=2)
            need(D.min(axis=0).max() <= 1e-6 and D.min(axis=1).max() <= 1e-6, 'nodes', '{}: the nodes differ from those alone', name)
        else:
            X, wx, ind = v
            NMC = o['NMC']
            need(len(X) == len(b[0]) and len(X) % NMC == 0, 'count', '{}: {} points instead of {}', name, len(X), len(b[0]))
            Y = np.asarray(X).dot(W[:, :n]).reshape((len(X) // NMC, NMC, n))
            doms.check_points(need, np.asarray(X), ind, Y[:, 0], NMC, W, n, bounded, 2e-6)
            need(np.abs(wt.reshape((-1, NMC)) - wt.reshape((-1, NMC))[:, :1]).max() <= 1e-14, 'split', '{}: uneven weights', name)
    elif what in ('integrate', 'av_integrate'):
        if hold.get('sims'):
            s = hold['sims'][0]
            F = s.F().ravel()
            mu = float(v[0] if what == 'integrate' else v)
            e = 1e-9 * max(1.0, np.abs(F).max())
            need(F.min() - e <= mu <= F.max() + e or abs(mu) <= np.abs(F).max() * 1e-3, 'integral', '{}: {} for outputs in [{}, {}]',
                 name, mu, F.min(), F.max())
            if what == 'integrate':
                need(v[1] - e <= v[0] <= v[2] + e, 'bounds', '{}: {} <= {} <= {}', name, v[1], v[0], v[2])
                need(len(F) % o['NMC'] == 0, 'ledger', '{}: {} simulations', name, len(F))
    elif what == 'llg':
        need(np.shape(v) == b[0].shape and np.isfinite(v).all(), 'shape', '{}: gradients {}', name, np.shape(v))
        if o['f'] == 'lin':
            # one exact gradient everywhere
            need(np.abs(v - b[0][:1]).max() <= 1e-7 * max(1.0, np.abs(b[0]).max()), 'gradient', '{}: a gradient differs', name)


def run(plan, ctx):
    from .. import lib
    w = ctx.world(quiet=True)
    ctx.sig(plan['g']['dom']['kind'], plan['g']['dom']['m'], plan['g']['dom']['n'], plan['g']['dom']['bounded'],
            [[(o.get('read'), o.get('o', {}).get('op')) for o in t] for t in plan['threads']], str(plan['policy']))
    if not plan['threads']:
        return
    base = alone(plan)
    s = sched.Scheduler(w, plan['policy'] or {'kind': 'serial'})
    G, calls = prepare_calls(plan, lib, w, lambda sim, k, x: s.point(('simulation', 0)))
    state = G.state()
    seams.ORIG['seed'](plan['rs'])
    got = [[None] * len(t) for t in calls]

    def body(i):
        def go():
            for j, (o, c, hold, G2) in enumerate(calls[i]):
                if c is None:
                    continue
                s.point(('call', j))
                try:
                    got[i][j] = Outcome(True, c(), None)
                except Violation:
                    raise
                except (Exception, SimInterrupt) as e:
                    got[i][j] = Outcome(False, None, e)
        return go
    old = seams.set_world(w)
    try:
        outs = s.run([body(i) for i in range(len(calls))])
    finally:
        seams.set_world(old)
    ctx.schedule = s.switches
    ctx.sched_sigs.append(repr(s.switches[:400]))
    w.fired['preemptions'] += len(s.switches)
    for o in outs:
        if o is not None and not o.ok:
            if isinstance(o.exc, sched.StepLimit):
                ctx.probe('too long')
                return
            raise o.exc
    ctx.interesting = len(s.switches) > 0
    ctx.probe('switches', len(s.switches))
    ctx.probe('lines where a switch happened', len(s.preempt_sites))
    for i, t in enumerate(calls):
        for j, (o, c, hold, G2) in enumerate(t):
            if c is None:
                continue
            oc = got[i][j]
            r = record(o, oc, G2, w)
            d = mismatch(o, base[i][j], r)
            if d is not None:
                if sensitive(plan, base, i, j, o):
                    ctx.probe('sensitive to rounding')
                    continue
                need(False, 'differs', 'thread {}, call {} ({}): {}', i, j, o.get('read') or 'own ' + o['o']['op'], d)
            ctx.probe('calls compared')
            if 'read' in o and drawn(o) and oc.ok:
                valid(o, oc.value, hold, G, base[i][j])
                ctx.probe('calls that draw checked')
            if 'read' in o and not o.get('beh') and hold.get('sims') and o['read'] in ('fd',) and oc.ok:
                need(len(hold['sims'][0].calls) == o['M'] * (o['m'] + 1), 'ledger', '{} simulations for {} rows', len(hold['sims'][0].calls), o['M'])
    k = graph.same_state(state, G.state())
    need(k is None, 'changed', 'reading changed {}', k)
    ctx.digest([[None if q is None else q.ok for q in t] for t in got])


def sensitive(plan, base, i, j, o):
    for k in range(1, 8):
        other = alone(plan, jitter=k)
        if mismatch(o, base[i][j], other[i][j]) is not None:
            return True
    return False
