"""A process that has imported the library behind the seams, and forks one child for every simulated run.

Each run starts from the same pristine process image, so a run is a function of its plan and the code alone.
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def recv(fd, timeout=None):
    def read(n):
        out = b''
        while len(out) < n:
            if timeout is not None:
                r, _, _ = select.select([fd], [], [], max(0.0, end - time.monotonic()))
                if not r:
                    raise TimeoutError
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    end = time.monotonic() + timeout if timeout is not None else 0
    n, = struct.unpack('>Q', read(8))
    return pickle.loads(read(n))


def case_seed(prop, base, i):
    return int.from_bytes(hashlib.blake2b('{}:{}:{}'.format(prop, base, i).encode(), digest_size=7).digest(), 'big')


def make_plan(mod, prop, base, i, tier):
    s = case_seed(prop, base, i)
    rng = random.Random(s)
    plan = mod.gen(rng, i, tier)
    plan['seed'] = s
    return plan


def run_inline(mod, plan, scratch):
    """Execute one plan in this process; returns a result dict."""
    from .world import Violation, Skip
    from . import seams
    res = {'status': 'ok', 'fired': {}, 'notes': {}, 'digest': '', 'sig': None, 'sim_time': 0.0, 'nlog': 0}
    ctx = Ctx(plan, scratch)
    seams.ORIG['seed'](plan.get('seed', 0) % (1 << 32))
    random.seed(plan.get('seed', 0))
    try:
        mod.run(plan, ctx)
    except Skip as e:
        res['status'] = 'skip'
        res['msg'] = str(e)
    except Violation as e:
        res.update(status='violation', code=e.code, msg=e.msg)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['{}:{} {}'.format(os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
        res.update(status='violation', code='malformed:' + type(e).__name__,
                   msg='the answer could not be interpreted: {}: {} at {}'.format(type(e).__name__, str(e)[:200], ' < '.join(reversed(where))))
    finally:
        seams.set_world(None)
    w = ctx.worlds
    for x in w:
        for k, v in x.fired.items():
            res['fired'][k] = res['fired'].get(k, 0) + v
        for k, v in x.notes.items():
            res['notes'][k] = res['notes'].get(k, 0) + v
        res['sim_time'] += x.sim_time
        res['nlog'] += x.nlog
    h = hashlib.blake2b(digest_size=8)
    for x in w:
        h.update(x.log.digest())
    h.update(repr(ctx.digest_items).encode())
    h.update(repr((res['status'], res.get('code'))).encode())
    res['digest'] = h.hexdigest()
    res['sig'] = ctx.signature()
    res['sched'] = ctx.sched_sigs
    res['stats'] = dict(ctx.stats)
    res['interesting'] = ctx.interesting
    if res['status'] == 'violation':
        res['events'] = [e for x in w[-2:] for e in x.events[-60:]]
        res['schedule'] = ctx.schedule
    return res


class Ctx:
    """What one run has at its disposal and reports back."""
    def __init__(self, plan, scratch):
        self.plan, self.scratch = plan, scratch
        self.worlds = []
        self.digest_items = []
        self.sched_sigs = []
        self.stats = Counter()
        self.interesting = False
        self.sigparts = []
        self.schedule = None

    def world(self, **k):
        from .world import World
        w = World(seed=self.plan.get('seed', 0), **k)
        self.worlds.append(w)
        return w

    def digest(self, *items):
        """Record outcomes in the run's digest; numbers are rounded so that only behaviour counts."""
        import numpy as np
        for it in items:
            if isinstance(it, np.ndarray):
                if it.dtype.kind == 'f' and it.size:
                    top = float(np.max(np.abs(np.where(np.isfinite(it), it, 0.0))))
                    it = np.round(it / 2.0 ** np.ceil(np.log2(max(top, 1e-300))), 6) + 0.0
                self.digest_items.append(hashlib.blake2b(np.ascontiguousarray(it).tobytes(), digest_size=6).hexdigest())
            else:
                self.digest_items.append(repr(it)[:200])

    def probe(self, name, n=1):
        self.stats[name] += n

    def sig(self, *parts):
        self.sigparts.append(parts)

    def signature(self):
        return hashlib.blake2b(repr(self.sigparts).encode(), digest_size=8).hexdigest()


def run_forked(mod, plan, scratch, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            d = tempfile.mkdtemp(dir=scratch)
            os.chdir(d)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(dn, 2)
            res = run_inline(mod, plan, d)
            os.chdir(scratch)
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
            shutil.rmtree(d, ignore_errors=True)
            send(w, res)
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    try:
        res = recv(r, timeout)
    except TimeoutError:
        os.kill(pid, signal.SIGKILL)
        res = dict(_blank(), status='violation', code='hang', msg='the run did not end within {} s'.format(timeout))
    except EOFError:
        _, st = os.waitpid(pid, 0)
        pid = None
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        if sig == signal.SIGKILL:
            res = dict(_blank(), status='killed', msg='killed')
        else:
            res = dict(_blank(), status='violation', code='crash', msg='the process died: signal {}, status {}'.format(sig, st))
    os.close(r)
    if pid is not None:
        os.waitpid(pid, 0)
    return res


def _blank():
    return {'fired': {}, 'notes': {}, 'digest': '', 'sig': None, 'sim_time': 0.0, 'nlog': 0, 'sched': [],
            'stats': {}, 'interesting': True, 'events': [], 'schedule': None}


def aggregate():
    return {'n': 0, 'status': Counter(), 'fired': Counter(), 'runs_with_fault': 0, 'notes': Counter(),
            'stats': Counter(), 'sigs': set(), 'nontrivial': set(), 'scheds': set(), 'sim_time': 0.0, 'events': 0,
            'digests': {}, 'violations': [], 'known': Counter(), 'cpu': 0.0, 'slow': []}


def merge(a, b):
    for k in ('n', 'runs_with_fault', 'sim_time', 'events', 'cpu'):
        a[k] += b[k]
    for k in ('status', 'fired', 'notes', 'stats', 'known'):
        a[k].update(b[k])
    for k in ('sigs', 'nontrivial', 'scheds'):
        a[k] |= b[k]
    a['digests'].update(b['digests'])
    a['violations'] += b['violations']
    a['slow'] = sorted(a['slow'] + b['slow'], reverse=True)[:5]


def worker(mod, prop, cmd, idxs, scratch, stopfile):
    agg = aggregate()
    t0 = time.monotonic()
    for i in idxs:
        if time.monotonic() - t0 > cmd['tcap']:
            break
        if os.path.exists(stopfile):
            try:
                if int(open(stopfile).read() or 0) < i:
                    break
            except (ValueError, OSError):
                pass
        plan = make_plan(mod, prop, cmd['base'], i, cmd['tier'])
        plan['backend'] = cmd['backend']
        tc = time.monotonic()
        res = run_forked(mod, plan, scratch, cmd['timeout'])
        if res['status'] == 'killed':
            time.sleep(1)
            res = run_forked(mod, plan, scratch, cmd['timeout'])
        agg['n'] += 1
        agg['slow'] = sorted(agg['slow'] + [(round(time.monotonic() - tc, 2), i)], reverse=True)[:5]
        agg['status'][res['status']] += 1
        agg['fired'].update(res['fired'])
        agg['notes'].update(res['notes'])
        agg['stats'].update(res['stats'])
        agg['sim_time'] += res['sim_time']
        agg['events'] += res['nlog']
        if res['fired']:
            agg['runs_with_fault'] += 1
        if res['sig']:
            agg['sigs'].add(res['sig'])
            if res['interesting'] and res['status'] in ('ok', 'violation'):
                agg['nontrivial'].add(res['sig'])
        agg['scheds'].update(res['sched'])
        if i < cmd.get('keep', 0):
            agg['digests'][i] = res['digest']
        if res['status'] == 'violation':
            known = [k for k in cmd['known'] if k['code'] == res['code'] and k['where'] in res['msg']]
            if known:
                agg['known'][known[0]['text']] += 1
                continue
            agg['violations'].append((i, plan, res))
            try:
                cur = int(open(stopfile).read() or 10 ** 12) if os.path.exists(stopfile) else 10 ** 12
            except (ValueError, OSError):
                cur = 10 ** 12
            if i < cur:
                tmp = stopfile + '.' + str(os.getpid())
                open(tmp, 'w').write(str(i))
                os.replace(tmp, stopfile)
            break
    ru = resource.getrusage(resource.RUSAGE_CHILDREN)
    agg['cpu'] = ru.ru_utime + ru.ru_stime
    return agg


def batch(mod, prop, cmd, scratch):
    pids = []
    W = cmd['workers']
    for k in range(W):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                send(w, worker(mod, prop, cmd, cmd['idxs'][k::W], scratch, cmd['stopfile']))
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        pids.append((pid, r))
    agg = aggregate()
    err = None
    for pid, r in pids:
        try:
            merge(agg, recv(r))
        except EOFError:
            err = 'a worker died'
        os.close(r)
        os.waitpid(pid, 0)
    agg['error'] = err
    return agg


def main():
    prop, backend, scratch = sys.argv[1:4]
    from . import seams
    seams.install(backend)
    mod = importlib.import_module('sim.props.' + prop.lower())
    out = os.dup(1)
    os.dup2(2, 1)
    from . import lib  # noqa
    if hasattr(mod, 'prepare'):
        mod.prepare()
    gc.collect()
    gc.freeze()
    send(out, 'ready')
    while True:
        try:
            cmd = recv(0)
        except EOFError:
            return
        if cmd['cmd'] == 'batch':
            send(out, batch(mod, prop, cmd, scratch))
        elif cmd['cmd'] == 'case':
            plan = cmd['plan']
            send(out, run_forked(mod, plan, scratch, cmd['timeout']))
        elif cmd['cmd'] == 'plan':
            send(out, make_plan(mod, prop, cmd['base'], cmd['i'], cmd['tier']))
        elif cmd['cmd'] == 'meta':
            send(out, {k: getattr(mod, k, None) for k in ('RULE', 'REAL', 'STUB', 'FAULTS', 'LEVEL', 'ASSUMPTIONS')})
        else:
            return


if __name__ == '__main__':
    main()
