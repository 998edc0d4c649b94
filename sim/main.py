"""Run one property's simulation, or replay one violation.

    python -m sim.main run C01        (VERIF_SEED, VERIF_TIER from the environment)
    python -m sim.main replay FILE
"""
import copy
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .zygote import send, recv, aggregate, merge

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('SIM_PYTHON', '/opt/venv/bin/python')


class Zygote:
    def __init__(self, prop, backend, hashseed, scratch):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONPATH=VERIF,
                   MPLCONFIGDIR=os.path.join(scratch, 'mpl'), HOME=scratch, LC_ALL='C.UTF-8', TZ='UTC')
        os.makedirs(os.path.join(scratch, 'mpl'), exist_ok=True)
        self.backend, self.hashseed = backend, hashseed
        self.p = subprocess.Popen([PY, '-m', 'sim.zygote', prop, backend, scratch], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=scratch)

    def ready(self):
        if recv(self.p.stdout.fileno()) != 'ready':
            raise RuntimeError('zygote')

    def ask(self, cmd):
        self.post(cmd)
        return self.get()

    def post(self, cmd):
        send(self.p.stdin.fileno(), cmd)

    def get(self):
        return recv(self.p.stdout.fileno())

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:') and 'property=' + prop + ' ' in l:
                import re
                m = re.match(r'known: property=(\S+) code=(\S+) where="([^"]*)" (.*)', l)
                if m:
                    out.append({'code': m.group(2), 'where': m.group(3), 'text': m.group(4)})
    return out


# -- minimisation -------------------------------------------------------------

LISTS = ('ops', 'faults', 'switches', 'threads', 'history', 'calls')


def candidates(x, path=()):
    """Smaller plans: chunks of lists removed, numbers reduced, optional parts dropped."""
    if isinstance(x, dict):
        for k in sorted(x):
            v = x[k]
            if isinstance(v, list) and k in LISTS and v:
                n = len(v)
                size = n
                while size >= 1:
                    for i in range(0, n, size):
                        y = copy.deepcopy(x)
                        y[k] = v[:i] + v[i + size:]
                        yield y
                    size //= 2
            if k in ('fault', 'draws', 'interrupt', 'policy') and v:
                y = copy.deepcopy(x)
                y[k] = None
                yield y
        for k in sorted(x):
            v = x[k]
            if isinstance(v, (dict, list)):
                for c in candidates(v):
                    y = copy.copy(x)
                    y[k] = c
                    yield y
            elif isinstance(v, bool):
                pass
            elif isinstance(v, int) and k in ('M', 'N', 'NMC', 'nboot', 'K', 'm', 'dup', 'reps', 'count') and v > 1:
                for nv in {1, v // 2, v - 1}:
                    if 0 < nv < v:
                        y = copy.copy(x)
                        y[k] = nv
                        yield y
            elif k == 'dup' and v:
                y = copy.copy(x)
                y[k] = 0
                yield y
            elif k in ('layout', 'w', 'noise') and v:
                y = copy.copy(x)
                y[k] = None
                yield y
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                for c in candidates(v):
                    y = list(x)
                    y[i] = c
                    yield y


def minimise(z, plan, res, budget_s, timeout):
    end = time.monotonic() + budget_s
    tried = kept = 0
    progress = True
    if res.get('schedule'):
        p2 = copy.deepcopy(plan)
        p2['policy'] = {'kind': 'plan', 'switches': res['schedule']}
        r = z.ask({'cmd': 'case', 'plan': p2, 'timeout': timeout})
        tried += 1
        if r['status'] == 'violation' and r['code'] == res['code']:
            plan, res = p2, r
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(plan):
            if time.monotonic() > end:
                break
            tried += 1
            r = z.ask({'cmd': 'case', 'plan': c, 'timeout': timeout})
            if r['status'] == 'violation' and r['code'] == res['code']:
                plan, res = c, r
                kept += 1
                progress = True
                break
    return plan, res, tried, kept


# -- one check ---------------------------------------------------------------

def check(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    sys.path.insert(0, VERIF)
    cfg = json.load(open(os.path.join(VERIF, 'sim', 'budget.json')))
    b = dict(cfg['default'])
    b.update(cfg.get(prop, {}))
    t = b[tier]
    scratch = tempfile.mkdtemp(prefix='sim-{}-'.format(prop))
    try:
        return _check(prop, seed, tier, b, t, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, seed, tier, b, t, scratch, t0):
    backends = b['backends']
    zs = [Zygote(prop, backends[k % len(backends)], k, scratch) for k in range(2)]
    try:
        for z in zs:
            z.ready()
        meta = zs[0].ask({'cmd': 'meta'})
        known = known_findings(prop)
        t_import = time.time() - t0
        N = int(os.environ.get('SIM_N', t['n']))
        workers = int(os.environ.get('SIM_WORKERS', t.get('workers', 8)))
        stop = os.path.join(scratch, 'stop')
        for k, z in enumerate(zs):
            z.post({'cmd': 'batch', 'idxs': list(range(k, N, 2)), 'workers': max(1, workers // 2), 'base': seed,
                    'tier': tier, 'tcap': t['cap'], 'timeout': t.get('timeout', 60), 'stopfile': stop,
                    'backend': z.backend, 'known': known, 'keep': t.get('keep', 24)})
        aggs = [z.get() for z in zs]
        t_search = time.time() - t0 - t_import
        agg = aggregate()
        for a in aggs:
            merge(agg, a)
            if a['error']:
                print('harness: ' + a['error'], file=sys.stderr)
        # determinism: the first runs again, in the other process when it has the same backend
        dchk = dmis = 0
        mism = []
        if not agg['violations']:
            for i in sorted(agg['digests'])[:t.get('keep', 24)]:
                home = zs[i % 2]
                z = zs[1 - i % 2] if len(set(backends)) == 1 else home
                plan = z.ask({'cmd': 'plan', 'base': seed, 'i': i, 'tier': tier})
                plan['backend'] = home.backend
                r = z.ask({'cmd': 'case', 'plan': plan, 'timeout': t.get('timeout', 60)})
                dchk += 1
                if r['digest'] != agg['digests'][i]:
                    dmis += 1
                    mism.append(i)
        rc = 0
        viol = None
        if agg['violations']:
            i, plan, res = min(agg['violations'], key=lambda v: v[0])
            z = zs[i % 2]
            to = 20 if res['code'] == 'hang' else t.get('timeout', 60)
            orig = plan
            plan, res, tried, kept = minimise(z, plan, res, t.get('min_s', 40), to)
            fresh = Zygote(prop, z.backend, z.hashseed, scratch)
            fresh.ready()
            r2 = fresh.ask({'cmd': 'case', 'plan': plan, 'timeout': t.get('timeout', 60)})
            same = r2['status'] == 'violation' and r2['code'] == res['code']
            exact = same and r2['digest'] == res['digest']
            fresh.close()
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '{}-{}-{}.json'.format(prop, seed, i))
            json.dump({'property': prop, 'verif_seed': seed, 'case': i, 'backend': z.backend,
                       'hashseed': z.hashseed, 'code': res['code'], 'message': res['msg'], 'plan': plan,
                       'events': res.get('events'), 'digest': res['digest'], 'original_plan': orig,
                       'minimisation': {'tried': tried, 'kept': kept}, 'reproduced_in_fresh_process': same,
                       'exactly': exact}, open(path, 'w'), indent=1)
            viol = (path, res)
            rc = 1
        for text, n in sorted(agg['known'].items()):
            print('KNOWN-FINDING: property={} {} ({} runs)'.format(prop, text, n))
        samples = []
        for k in range(2):
            p = zs[k].ask({'cmd': 'plan', 'base': seed, 'i': k, 'tier': tier})
            p['backend'] = zs[k].backend
            samples.append(p)
    finally:
        for z in zs:
            z.close()
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': b['level'],
          'coverage': {
              'evaluations': agg['n'],
              'distinct_nontrivial': len(agg['nontrivial']),
              'rule': meta['RULE'],
              'samples': samples,
              'planned': N,
              'outcomes': dict(agg['status']),
              'runs_per_hour': round(agg['n'] / max(t_search, 1e-9) * 3600),
              'seeds': '{} run seeds derived from VERIF_SEED={}'.format(agg['n'], seed),
              'faults_fired': dict(sorted(agg['fired'].items())),
              'runs_with_a_fault': agg['runs_with_fault'],
              'probes': dict(sorted(agg['stats'].items())),
              'world_notes': dict(sorted(agg['notes'].items())),
              'distinct_run_signatures': len(agg['sigs']),
              'distinct_interleavings': len(agg['scheds']),
              'simulated_seconds': round(agg['sim_time'], 3),
              'logged_events': agg['events'],
              'slowest_runs_s': agg['slow'], 'backends': backends, 'hash_seeds': [0, 1],
              'determinism': {'runs_repeated': dchk, 'digests_that_differ': dmis, 'which': mism},
              'components': {'real': meta['REAL'], 'stub': meta['STUB']},
              'import_s': round(t_import, 2), 'search_s': round(t_search, 2)},
          'assumptions': meta['ASSUMPTIONS'] or [],
          'wall_s': round(wall, 2), 'violations': len(agg['violations'])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.{}.tmp'.format(prop))
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    if viol:
        path, res = viol
        print('{}: {}'.format(res['code'], res['msg']))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if agg['n'] == 0:
        print('harness: nothing ran', file=sys.stderr)
        return 2
    print('{} {}: held on {} runs ({} distinct), {} faults fired, {:.0f} s; determinism {}/{}'.format(
        prop, tier, agg['n'], len(agg['nontrivial']), sum(agg['fired'].values()), wall, dchk - dmis, dchk))
    return rc


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='sim-replay-')
    try:
        z = Zygote(d['property'], d['backend'], d['hashseed'], scratch)
        z.ready()
        r = z.ask({'cmd': 'case', 'plan': d['plan'], 'timeout': 60})
        z.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps({k: r.get(k) for k in ('status', 'code', 'msg', 'digest')}, indent=1))
    for e in r.get('events') or []:
        print('  ', e)
    if r['status'] == 'violation':
        print('same violation: {}, same event log: {}'.format(r['code'] == d['code'], r['digest'] == d['digest']))
        print('VIOLATION property={} replay={}'.format(d['property'], path))
        return 1
    print('the violation does not occur')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == 'run':
        sys.exit(check(sys.argv[2]))
    elif sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(2)
