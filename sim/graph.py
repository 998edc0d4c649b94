"""A graph of library objects (subspace, domain, maps, surfaces), operations on it, and its observable answers."""
import numpy as np

from . import gens, doms, seams
from .props.c01 import args_of
from .user import Sim
from .world import attempt, Skip, make_draws


def spec(rng, mmax=4):
    d = doms.spec(rng, None, mmax, 2)
    return {'dom': d, 'pdeg': rng.choice([1, 2, 2, 3]), 'rdeg': rng.choice([0, 1, 2]),
            'surf': rng.choice(['poly', 'rbf', 'default']), 'sdeg': rng.choice([1, 2, 2]), 'ps': rng.randrange(1 << 30)}


def ncoef(deg, n):
    from math import comb
    return comb(deg + n, n)


SETUPS = ['compute', 'partition', 'boundary', 'poly', 'rbf', 'data', 'iface', 'mvm']


def op(rng, g, what=None):
    """One random operation; some have arguments that the library must refuse."""
    d = g['dom']
    m, n = d['m'], d['n']
    what = what or rng.choice(['compute', 'compute', 'boundary', 'poly', 'rbf', 'data', 'data', 'iface', 'iface', 'mvm', 'partition'])
    o = {'op': what, 'rs': rng.randrange(1 << 30), 's': rng.randrange(1 << 30)}
    bad = rng.random() < 0.12
    if what == 'compute':
        ss = rng.choice(['AS', 'AS', 'OLS', 'QPHD', 'OPG'])
        ds = gens.data_spec(rng, m)
        if ss == 'QPHD':
            ds['M'] = max(ds['M'], (m + 1) * (m + 2) // 2 + 2)
        pt = rng.choice(['EVG', 'EVG', 'RS', 'LI'])
        o.update(ss=ss, pt=pt, d=ds, X=rng.random() < 0.5,
                 nboot=0 if pt == 'EVG' and rng.random() < 0.6 else rng.choice([1, 2, 4]))
        if bad:
            o['bad'] = rng.choice(['type', 'ptype', 'mismatch', 'nan', 'nodf', 'nboot', 'weights'])
    elif what == 'partition':
        o['n'] = rng.choice([1, 1, 2, m - 1, m, m + 1, 0, -1])
    elif what in ('poly', 'rbf'):
        k = rng.choice([1, 2, 3])
        deg = g['pdeg'] if what == 'poly' else g['rdeg']
        o.update(dim=k, M=ncoef(deg, k) + rng.choice([0, 1, 3, 10]), f=rng.choice(['quad', 'lin', 'ridge', 'exp', 'const'] if what == 'rbf' else ['quad', 'lin', 'ridge', 'exp']))
        if what == 'poly':
            o['w'] = rng.random() < 0.4
        else:
            o['v'] = rng.choice([None, None, 'small', 'big'])
            o['e'] = rng.random() < 0.5
        if bad:
            o['bad'] = rng.choice(['few', 'mismatch', 'oned', 'nan', 'v', 'inf'])
    elif what == 'data':
        o.update(M=ncoef(g['sdeg'], n) + rng.choice([0, 1, 3, 10, 20]), f=rng.choice(['quad', 'lin', 'ridge', 'exp']),
                 v=rng.choice([None, None, 'small', 'big']))
        if bad:
            o['bad'] = rng.choice(['few', 'mismatch', 'oned', 'nan', 'v', 'cols'])
    elif what == 'iface':
        need_ = ncoef(g['sdeg'], n)
        if d['bounded']:
            N = rng.choice([1, 2, need_, need_ + 2]) if n == 1 else rng.choice([1, 2, 3])
            nmc = rng.choice([1, 2, 3, 5]) if n == 1 else rng.choice([1, 2, 3])
        else:
            N = rng.choice({1: [need_, need_ + 2, 5], 2: [9, 16, 4]}[n])
            nmc = rng.choice([1, 2, 5, 10])
        o.update(N=N, NMC=nmc, f=rng.choice(['quad', 'lin', 'ridge', 'exp']), runner=rng.random() < 0.3)
        if bad:
            o['bad'] = rng.choice(['Nfloat', 'NMCfloat', 'notcallable', 'exc', 'nan', 'inf', 'string'])
    elif what == 'mvm':
        p = n + 2 if m - n > 2 else n + 1
        o.update(M=ncoef(2, p) + rng.choice([0, 1, 5, 20]), f=rng.choice(['quad', 'quad', 'sep', 'exp']))
        if bad:
            o['bad'] = rng.choice(['few', 'mismatch', 'oned', 'nan', 'cols'])
    return o


class Graph:
    def __init__(self, lib, g, w):
        from .world import must
        self.lib, self.g = lib, g
        d = g['dom']
        seams.ORIG['seed'](d['s'] % (1 << 32))
        self.ss, self.dom, self.avm = must(w, 'building the domain', doms.make, lib, d)
        self.m = d['m']
        self.poly = lib.PolynomialApproximation(g['pdeg'])
        self.rbf = lib.RadialBasisApproximation(g['rdeg'])
        self.asrs = self.new_asrs(self.avm)
        self.mvm = (lib.BoundedMinVariableMap if d['bounded'] else lib.UnboundedMinVariableMap)(self.dom)
        r = gens.RS(g['ps'])
        self.XP = r.uniform(-0.7, 0.7, (4, self.m))
        self.P = {k: r.uniform(-1, 1, (4, k)) for k in (1, 2, 3)}

    def new_asrs(self, avm):
        lib, g = self.lib, self.g
        if g['surf'] == 'default':
            return lib.ActiveSubspaceResponseSurface(avm)
        return lib.ActiveSubspaceResponseSurface(avm, lib.PolynomialApproximation(g['sdeg']) if g['surf'] == 'poly'
                                                 else lib.RadialBasisApproximation(g['sdeg']))

    # -- operations
    def call(self, o, beh=None, world=None, hold=None):
        """The library call of the operation, its arguments made beforehand. `hold` receives the caller's arrays."""
        lib, what = self.lib, o['op']
        hold = hold if hold is not None else {}
        lay = hold.pop('layout', None) or (lambda a: a)
        bad = o.get('bad')
        r = gens.RS(o['s'])
        if what == 'compute':
            kw, data = args_of(o)
            if bad == 'type':
                kw['sstype'] = 'PCA'
            elif bad == 'ptype':
                kw['ptype'] = 'best'
            elif bad == 'nodf':
                kw['sstype'] = 'AS'
                kw.pop('df', None)
            elif bad == 'nboot':
                kw['ptype'], kw['nboot'] = ('RS', 'LI')[o['s'] % 2], 0
            elif bad == 'mismatch':
                k = 'df' if 'df' in kw else 'f'
                kw['weights'] = np.ones((len(kw[k]) + 1, 1))
            elif bad == 'weights':
                kw['weights'] = 'heavy'
            elif bad == 'nan':
                k = 'df' if 'df' in kw else 'f'
                kw[k] = kw[k].copy()
                kw[k][0, 0] = np.nan
            for k in ('X', 'f', 'df', 'weights'):
                if isinstance(kw.get(k), np.ndarray):
                    hold[k] = kw[k]
            return lambda: self.ss.compute(**kw)
        if what == 'partition':
            return lambda: self.ss.partition(o['n'])
        if what == 'boundary':
            if not self.g['dom']['bounded']:
                return None
            n = self.ss.W1.shape[1]
            if n > 2 or n >= self.m or not gens.separated(self.ss.eigenvecs, n):
                return None
            return lambda: self.dom.compute_boundary()
        if what == 'iface':
            fun = gens.function({'s': o['s'], 'f': o['f']}, self.m)[0]
            b = dict(beh or {})
            if bad == 'exc':
                b.update(fail=0, exc='exc')
            elif bad in ('nan', 'inf'):
                b['nan'] = [(0, bad)]
            sim = Sim(fun, self.m, b, world=world)
            hold['sim'] = sim
            fn = lib.runner(sim, o.get('runner')) if o.get('runner') else sim
            N, NMC = o['N'], o['NMC']
            if bad == 'Nfloat':
                N = float(N) + 0.5
            elif bad == 'NMCfloat':
                NMC = 2.5
            elif bad == 'notcallable':
                fn = 7
            elif bad == 'string':
                fn = lambda x: 'ten'
            return lambda: self.asrs.train_with_interface(fn, N, NMC=NMC)
        # training on data
        dim = o.get('dim', self.m)
        M = o['M']
        if bad == 'few':
            M = 1
        X = r.uniform(-1, 1, (M, dim))
        fun = gens.function({'s': o['s'], 'f': o['f']}, dim)[0]
        F = np.array([[float(fun(x))] for x in X]).reshape((M, 1))
        v = None
        if o.get('v'):
            v = r.uniform(1e-8, 1e-3, (M, 1)) if o['v'] == 'small' else r.uniform(0.1, 5.0, (M, 1))
        if bad == 'mismatch':
            F = F[:-1] if M > 1 else np.vstack((F, F))
        elif bad == 'oned':
            X = X[:, 0].copy()
        elif bad == 'nan':
            X = X.copy()
            X[0] = np.nan
        elif bad == 'inf':
            F = F.copy()
            F[0] = np.inf
        elif bad == 'cols':
            X = np.hstack((X, X))
        elif bad == 'v' and what in ('rbf', 'data'):
            v = np.ones((M + 1, 1))
        X, F = lay(X), lay(F)
        hold.update(X=X, f=F)
        if v is not None:
            v = hold['v'] = lay(v)
        if what == 'poly':
            if o.get('w'):
                wt = lay(r.uniform(0.2, 2.0, (M, 1)))
                hold['weights'] = wt
                return lambda: self.poly.train(X, F, weights=wt)
            return lambda: self.poly.train(X, F)
        if what == 'rbf':
            e = np.sort(r.uniform(0.1, 3.0, (dim + 2, 1)), axis=0)[::-1].copy() if o.get('e') else None
            if e is not None:
                e = hold['e'] = lay(e)
            return lambda: self.rbf.train(X, F, v=v, e=e)
        if what == 'data':
            return (lambda: self.asrs.train_with_data(X, F)) if v is None else (lambda: self.asrs.train_with_data(X, F, v=v))
        if what == 'mvm':
            return lambda: self.mvm.train(X, F)
        raise KeyError(what)

    # -- answers
    def answers(self, w, skip=()):
        """Everything the objects say: {name: ('ok', [arrays]) or ('exc', type)}."""
        out = {}

        def ask(name, fn, *a, **k):
            if name in skip:
                return None
            o = attempt(w, fn, *a, **k)
            if not o.ok:
                out[name] = ('exc', type(o.exc).__name__)
                return None
            v = o.value
            v = v if isinstance(v, (tuple, list)) else [v]
            out[name] = ('ok', [None if x is None else np.array(x, dtype=float, copy=True) for x in v])
            return o.value

        ss = self.ss
        ask('subspace', lambda: [ss.eigenvals, ss.eigenvecs, ss.W1, ss.W2, ss.e_br, ss.sub_br])
        Y = ask('forward', self.avm.forward, self.XP)
        Y = None if Y is None else np.array(Y[0])
        seams.ORIG['seed'](1234)
        if Y is not None and Y.shape[1] < self.m:
            ask('inverse', self.avm.inverse, Y, 2)
        d = self.dom
        ask('domain', lambda: [d.m, d.n, d.vertY, d.vertX])
        if self.g['dom']['bounded'] and d.n > 1 and d.constraints is not None:
            t = gens.RS(5).normal(size=(3, d.n))
            ask('constraints', lambda: [d.constraints['fun'](y) for y in t] + [d.convhull.equations])
        p = self.poly
        ask('poly', lambda: [p.poly_weights, p.g, p.H, p.Rsqr, p.N])
        q = self.rbf
        ask('rbf', lambda: [q.radial_weights, q.poly_weights, q.ell, q.K, q.Rsqr, q.N])
        for k in (1, 2, 3):
            ask('poly.predict%d' % k, p.predict, self.P[k], True)
            ask('rbf.predict%d' % k, q.predict, self.P[k], True)
        ask('asrs.predict', self.asrs.predict, self.XP, True)
        if Y is not None:
            ask('asrs.predict_av', self.asrs.predict_av, Y, True)
            ask('asrs.gradient_av', self.asrs.gradient_av, Y)
            if Y.shape[1] < self.m:
                ask('mvm.inverse', self.mvm.inverse, Y)
        return out

    def state(self):
        """Bitwise copies of what the objects document as their attributes."""
        out = {}
        for name, o, ks in (('ss', self.ss, ('eigenvals', 'eigenvecs', 'W1', 'W2', 'e_br', 'sub_br')),
                            ('dom', self.dom, ('m', 'n', 'vertY', 'vertX')),
                            ('poly', self.poly, ('N', 'Rsqr', 'X', 'f', 'poly_weights', 'g', 'H')),
                            ('rbf', self.rbf, ('N', 'Rsqr', 'X', 'f', 'K', 'ell', 'radial_weights', 'poly_weights')),
                            ('asrs', self.asrs.respsurf, ('N', 'Rsqr', 'X', 'f', 'K', 'ell', 'radial_weights', 'poly_weights', 'g', 'H'))):
            for k in ks:
                v = getattr(o, k, None)
                out[name + '.' + k] = None if v is None else np.array(v, copy=True)
        return out


def same_state(a, b):
    """Name of the first attribute that differs, or None."""
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return k
        if x is not None and not (x.shape == y.shape and np.array_equal(x, y, equal_nan=True)):
            return k
    return None


def differ(a, b, tol, names=None):
    """First answer that differs by more than tol (relative to the answer), or None."""
    for k in a:
        if names is not None and not k.startswith(names):
            continue
        if k not in b:
            return k, 'missing'
        x, y = a[k], b[k]
        if x[0] != y[0]:
            return k, '{} instead of {}'.format(y, x)
        if x[0] == 'exc':
            if x[1] != y[1]:
                return k, '{} instead of {}'.format(y[1], x[1])
            continue
        if len(x[1]) != len(y[1]):
            return k, 'number'
        for u, v in zip(x[1], y[1]):
            if (u is None) != (v is None):
                return k, 'presence'
            if u is None:
                continue
            if u.shape != v.shape:
                return k, 'shape {} instead of {}'.format(v.shape, u.shape)
            fin = np.isfinite(u)
            if not np.array_equal(fin, np.isfinite(v)) or not np.array_equal(np.isnan(u), np.isnan(v)):
                return k, 'finiteness'
            if u.size and fin.any():
                s = max(1e-300, np.abs(u[fin]).max())
                e = np.abs(u[fin] - v[fin]).max()
                if e > tol * s:
                    return k, 'changed by {:.3g} of {:.3g}'.format(e, s)
    return None
