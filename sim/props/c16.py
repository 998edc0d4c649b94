"""C16: plots are written completely where promised, or the failure is raised."""
import os
import shutil

import numpy as np

from .. import gens, seams
from ..world import attempt, need, Armed

RULE = ('A run makes one to three plots in a scratch directory in some state (no folder, folder, old figures, a file or a '
        'dangling link in the place of the folder, a figure name that is a directory or a full device), with saving on or '
        'off, several file types, labels and data sizes; a failure or the act of another process strikes one file-system '
        'call. The files afterwards and the artists of every figure at the moment it is saved and shown are checked. '
        'Non-trivial: a figure was judged or a failure reached the caller; distinct by plots, options, folder and fault.')
REAL = ['active_subspaces.utils.plotters', 'Matplotlib (drawing; rendering in a part of the runs)', 'SciPy geometry', 'the file system']
STUB = ['plt.show', 'rendering in the other runs (a marker is written to the same file)', 'failing file-system calls', 'the other process']
ASSUMPTIONS = ['a figure shows what its artists hold within the limits of its axes',
               'labels contain no path separators']

KINDS = ['eigenvalues', 'subspace_errors', 'eigenvectors', 'sufficient_summary', 'zonotope_2d_plot']
TYPES = ['.png', '.eps', '.pdf', '.svg', '.ps', '.jpg']
LABELS = [None, None, 'f', 'Drag', 'a b', 'x_1', 'lift (N)', 'v1.5', '', '100%', 'é']
STATES = ['none', 'none', 'none', 'dir', 'dir', 'old', 'file', 'dangling', 'isdir', 'full']
FAULTS = ['ENOSPC', 'EACCES', 'EIO', 'EROFS', 'EDQUOT', 'EMFILE', 'EEXIST', 'torn', 'Interrupt', 'MemoryError']


def gen(rng, i, tier):
    plots = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(KINDS)
        p = {'kind': k, 's': rng.randrange(1 << 30), 'label': rng.choice(LABELS), 'type': rng.choice(TYPES),
             'opts': rng.choice(['on', 'on', 'on', 'off', 'off', 'none', 'own', 'own-off'])}
        if k == 'eigenvalues':
            p.update(k=rng.choice([1, 2, 3, 5, 9, 15, 40]), out=rng.random() < 0.3, br=rng.random() < 0.6, zero=rng.random() < 0.1)
        elif k == 'subspace_errors':
            p.update(k=rng.choice([1, 2, 4, 8, 30]))
        elif k == 'eigenvectors':
            p.update(m=rng.choice([2, 3, 5, 7, 25]), k=rng.choice([1, 2, 3, 4, 5]), br=rng.random() < 0.5, inl=rng.random() < 0.5)
            p['k'] = min(p['k'], p['m'])
        elif k == 'sufficient_summary':
            p.update(M=rng.choice([1, 2, 3, 4, 20, 20, 250, 1100]), k=rng.choice([1, 2]), dup=rng.random() < 0.2)
        else:
            p.update(m=rng.choice([2, 3, 4, 6]), design=rng.choice([0, 0, 1, 4, 30]), y=rng.choice([0, 0, 1, 3, 4, 9, 300]))
        if rng.random() < 0.08:
            p['bad'] = True
        plots.append(p)
    p = {'plots': plots, 'state': rng.choice(STATES), 'render': rng.random() < (0.12 if tier == 'quick' else 0.3),
         'user': rng.random() < 0.25, 'close': rng.random() < 0.7}
    if rng.random() < 0.4:
        p['faults'] = [{'cat': rng.choice(['disk', 'disk', 'disk', 'any']), 'k': rng.choice([0, 1, 2, 3, 4]), 'kind': rng.choice(FAULTS), 'at': rng.randrange(len(plots))}]
    if rng.random() < 0.35:
        p['race'] = {'k': rng.choice([0, 0, 1, 1, 2, 3]), 'when': rng.choice(['before', 'after']), 'act': rng.choice(['create', 'create', 'create', 'remove', 'file']),
                     'at': rng.randrange(len(plots))}
    if rng.random() < 0.5:              # a calm run
        p.pop('race', None)
        p.pop('faults', None)
    return p


def prepare():
    import matplotlib
    matplotlib.use('Agg')
    import logging
    logging.getLogger('matplotlib').setLevel(logging.CRITICAL)
    seams.install_plot()
    import matplotlib.pyplot as plt
    from .. import lib  # noqa
    from active_subspaces.utils import plotters  # noqa
    plt.figure(figsize=(2, 2))
    plt.semilogy([1, 2], [1, 2])
    plt.gcf().canvas.draw()
    plt.close('all')


# -- data -----------------------------------------------------------------------

def data(p):
    """Arguments of a plot and what it has to show."""
    r = gens.RS(p['s'])
    kind = p['kind']
    bad = p.get('bad')
    if kind == 'eigenvalues':
        e = np.sort(10.0 ** r.uniform(-4, 3, (p['k'], 1)), axis=0)[::-1].copy()
        if p.get('zero') and p['k'] > 1:
            e[-1] = 0.0
        br = None
        if p.get('br'):
            br = np.hstack((e * r.uniform(0.3, 1.0, e.shape), e * r.uniform(1.0, 3.0, e.shape)))
            if p.get('out'):            # estimates far outside the ranges of their replicates
                e[0], e[-1] = e[0] * 10.0 ** r.uniform(0, 3), e[-1] * 10.0 ** r.uniform(-3, 0)
        return (e,), {'e_br': br}
    if kind == 'subspace_errors':
        b = np.sort(10.0 ** r.uniform(-3, 0, (p['k'], 3)), axis=1)
        return (b,), {}
    if kind == 'eigenvectors':
        W = np.linalg.qr(r.normal(size=(p['m'], p['m'])))[0][:, :p['k']].copy()
        br = None
        if p.get('br'):
            br = np.zeros((p['m'], 2 * p['k']))
            d = r.uniform(0, 0.2, (2,) + W.shape)
            br[:, ::2], br[:, 1::2] = np.maximum(-1, W - d[0]), np.minimum(1, W + d[1])
            if bad:
                br = br[:, :-1].copy() if p['s'] % 2 else np.hstack((br, br[:, :1]))
        return (W,), {'W_br': br, 'in_labels': ['p%d' % (j + 1) if j % 2 else 'input %s' % chr(97 + j) for j in range(p['m'])] if p.get('inl') else None}
    if kind == 'sufficient_summary':
        k = 3 if bad else p['k']
        y = r.normal(size=(p['M'], k))
        f = r.normal(size=(p['M'], 1)) * 10.0 ** r.randint(-2, 4)
        if p.get('dup') and p['M'] > 1:
            y[-1], f[-1] = y[0], f[0]
        return (y, f), {}
    W1 = gens.ortho({'s': p['s'] % 100000, 'm': max(3, p['m']), 'n': 2, 'kind': 'haar'})[:, :2] if p['m'] > 2 else np.array([[1.0, 0.2], [-0.3, 1.0]])
    C = r.choice([-1.0, 1.0], (64, len(W1))).dot(W1)
    C = np.vstack((C, -C))
    V = C[seams.ORIG['ConvexHull'](C).vertices].copy()
    design = y = f = None
    if p.get('design'):
        design = 0.6 * r.dirichlet(np.ones(len(V)), p['design']).dot(V)
    if p.get('y'):
        y = 0.9 * r.dirichlet(np.ones(len(V)), p['y']).dot(V)
        edge = p['s'] // 7 % 4
        if edge:
            # on the boundary, beyond it by rounding, beyond it in earnest, or twice the same point
            j = r.randint(len(y))
            k = max(1, len(y) // 2)
            y[j] = V[r.randint(len(V))] * (1.0, 1.0 + 1e-9, 1.05)[edge - 1]
            t = r.uniform(0, 1, (k, 1))
            q = seams.ORIG['ConvexHull'](V).simplices[r.randint(len(V), size=k)]
            y[:k] = (t * V[q[:, 0]] + (1 - t) * V[q[:, 1]]) * (1.0, 1.0 + 1e-9, 1.05)[edge - 1]
            y[-1] = y[0]
        f = r.normal(size=(p['y'], 1))
    if bad:
        w = p['s'] % 4
        if w == 0:
            V = np.hstack((V, V[:, :1]))
        elif w == 1:
            y, f = None, r.normal(size=(3, 1))
        elif w == 2:
            y, f = V[:3] * 0.5, r.normal(size=(4, 1))
        else:
            design = r.normal(size=(3, 3))
    return (V,), {'design': design, 'y': y, 'f': f}


def files(p):
    """The figure files a plot promises."""
    lab = 'Output' if p['label'] is None else p['label']
    typ = '.eps' if p['opts'] == 'none' else p['type']
    stems = {'eigenvalues': ['evals'], 'subspace_errors': ['subspace'], 'eigenvectors': ['evecs'], 'zonotope_2d_plot': ['zonotope_2d'],
             'sufficient_summary': ['ssp1', 'ssp2'][:p.get('k', 1)]}[p['kind']]
    return ['figs/{}_{}{}'.format(s, lab, typ) for s in stems]


def saves(p):
    return p['opts'] in ('on', 'none', 'own')


# -- figures ----------------------------------------------------------------------

def describe(fig):
    """What a figure holds, axes by axes."""
    out = []
    for ax in fig.axes:
        d = {'title': ax.get_title(), 'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(), 'xlim': ax.get_xlim(), 'ylim': ax.get_ylim(),
             'yscale': ax.get_yscale(), 'lines': [], 'scatter': [], 'polys': [], 'segs': [], 'ticks': []}
        if getattr(ax, '_colorbar', None) is not None or ax.get_label() == '<colorbar>':
            d['colorbar'] = True
        for l in ax.lines:
            if l.get_visible():
                d['lines'].append(np.column_stack((np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel())))
        for c in ax.collections:
            n = type(c).__name__
            if not c.get_visible():
                continue
            if n == 'PathCollection':
                d['scatter'].append((np.array(c.get_offsets(), float), None if c.get_array() is None else np.array(c.get_array(), float).ravel(), c.get_clim()))
            elif n == 'LineCollection':
                d['segs'] += [np.array(s, float) for s in c.get_segments()]
            else:
                d['polys'] += [np.array(q.vertices, float) for q in c.get_paths()]
        d['ticks'] = [t.get_text() for t in ax.get_xticklabels()]
        out.append(d)
    return out


def rows(A):
    A = np.asarray(A, float)
    A = A[np.isfinite(A).all(axis=1)]
    return A


def covers(A, B):
    """Every row of B is among the rows of A."""
    A, B = rows(A), rows(B)
    if not len(B):
        return True
    if not len(A):
        return False
    s = max(1e-300, np.abs(B).max())
    return bool((np.abs(A[:, None] - B[None]).max(axis=2).min(axis=0) <= 1e-12 * s).all())


def points(d):
    P = [l for l in d['lines']] + [s[0] for s in d['scatter']]
    return np.vstack(P) if P else np.zeros((0, 2))


def exact(d, want, what):
    P = points(d)
    need(covers(P, want), 'data', '{}: some of the data are not shown', what)
    need(covers(want, P), 'data', '{}: points are shown that are not in the data', what)
    finite = rows(P)
    # a repeated point is shown as often as it is given
    need(len(finite) >= len(want), 'data', '{}: {} points shown of {}', what, len(finite), len(want))


def one_dim(d, y, f):
    return y.shape[1] == 1 or covers(points(d), np.column_stack((y[:, 0], f.ravel())))


def ranged(d, x, lo, hi, what):
    V = np.vstack(d['polys']) if d['polys'] else np.zeros((0, 2))
    L, H = np.column_stack((x, lo)), np.column_stack((x, hi))
    need(covers(V, L) and covers(V, H), 'ranges', '{}: the ranges are not shown', what)
    need(covers(np.vstack((L, H)), V), 'ranges', '{}: other ranges than those given are shown', what)


def in_view(d, P, what, pos=False):
    P = rows(P)
    if pos:
        P = P[P[:, 1] > 0]
    (a, b), (c, e) = sorted(d['xlim']), sorted(d['ylim'])
    t, u = 1e-9 * (b - a), 1e-9 * (e - c)
    need((P[:, 0] >= a - t).all() and (P[:, 0] <= b + t).all() and (P[:, 1] >= c - u).all() and (P[:, 1] <= e + u).all(), 'view',
         '{}: data outside of the limits {} {}', what, d['xlim'], d['ylim'])


def main_axes(desc):
    return [d for d in desc if not d.get('colorbar')]


def judge(p, args, kw, descs, names):
    """The figures (descriptions, with their file names or None) show the data."""
    lab = 'Output' if p['label'] is None else p['label']
    kind = p['kind']
    for desc, name in zip(descs, names):
        what = '{} ({})'.format(kind, name or 'shown')
        A = main_axes(desc)
        if kind == 'eigenvalues':
            need(len(A) == 1, 'axes', '{}: {} axes', what, len(A))
            e, br = args[0].ravel(), kw['e_br']
            x = np.arange(1, len(e) + 1.0)
            P = np.column_stack((x, e))
            exact(A[0], P, what)
            if br is not None:
                ranged(A[0], x, br[:, 0], br[:, 1], what)
            else:
                need(not A[0]['polys'], 'ranges', '{}: ranges shown though none were given', what)
            need(A[0]['title'] == lab, 'label', '{}: title {!r} instead of {!r}', what, A[0]['title'], lab)
            need(A[0]['yscale'] == 'log', 'scale', '{}: scale {}', what, A[0]['yscale'])
            if (e > 0).all():
                in_view(A[0], P, what, True)
                if br is not None:
                    in_view(A[0], np.vstack((np.column_stack((x, br[:, 0])), np.column_stack((x, br[:, 1])))), what, True)
        elif kind == 'subspace_errors':
            need(len(A) == 1, 'axes', '{}: {} axes', what, len(A))
            b = args[0]
            x = np.arange(1, len(b) + 1.0)
            exact(A[0], np.column_stack((x, b[:, 1])), what)
            ranged(A[0], x, b[:, 0], b[:, 2], what)
            need(A[0]['title'] == lab, 'label', '{}: title {!r} instead of {!r}', what, A[0]['title'], lab)
            for j in range(3):
                in_view(A[0], np.column_stack((x, b[:, j])), what, True)
        elif kind == 'eigenvectors':
            W, br, inl = args[0], kw['W_br'], kw['in_labels']
            k = min(4, W.shape[1])
            need(len(A) == k, 'axes', '{}: {} axes for {} eigenvectors', what, len(A), k)
            x = np.arange(1, len(W) + 1.0)
            seen = False
            for j, d in enumerate(A):
                P = np.column_stack((x, W[:, j]))
                exact(d, P, what + ' eigenvector %d' % (j + 1))
                in_view(d, P, what)
                if br is not None:
                    ranged(d, x, br[:, 2 * j], br[:, 2 * j + 1], what)
                else:
                    need(not d['polys'], 'ranges', '{}: ranges shown though none were given', what)
                need(lab in d['title'], 'label', '{}: title {!r} without {!r}', what, d['title'], lab)
                if inl is not None and any(t in inl for t in d['ticks']):
                    need(d['ticks'] == inl, 'label', '{}: input labels {} instead of {}', what, d['ticks'], inl)
                    seen = True
            need(inl is None or seen, 'label', '{}: the input labels are not shown', what)
        elif kind == 'sufficient_summary':
            y, f = args
            need(len(A) == 1, 'axes', '{}: {} axes', what, len(A))
            two = 'ssp2' in name if name else not one_dim(A[0], y, f)
            if not two:
                exact(A[0], np.column_stack((y[:, 0], f.ravel())), what)
                in_view(A[0], np.column_stack((y[:, 0], f.ravel())), what)
                need(A[0]['ylabel'] == lab, 'label', '{}: label {!r} instead of {!r}', what, A[0]['ylabel'], lab)
            else:
                exact(A[0], y, what)
                in_view(A[0], y, what)
                colours(A[0], y, f.ravel(), what)
                need(A[0]['title'] == lab, 'label', '{}: title {!r} instead of {!r}', what, A[0]['title'], lab)
        else:
            V, D, y, f = args[0], kw['design'], kw['y'], kw['f']
            need(len(A) == 1, 'axes', '{}: {} axes', what, len(A))
            d = A[0]
            need(covers(points(d), V), 'data', '{}: vertices are not shown', what)
            allowed = [V] + ([D] if D is not None else []) + ([y] if y is not None else [])
            for extra in allowed[1:]:
                need(covers(points(d), extra), 'data', '{}: some of the points are not shown', what)
            need(covers(np.vstack(allowed), points(d)), 'data', '{}: points are shown that are not in the data', what)
            # the boundary: every edge of the hull
            q = seams.ORIG['ConvexHull'](V)
            segs = d['segs'] + [l[i:i + 2] for l in d['lines'] for i in range(len(l) - 1)]
            for s in q.simplices:
                E = V[s]
                need(any(len(t) == 2 and covers(t, E) for t in segs), 'data', '{}: an edge of the boundary is not shown', what)
            if y is not None:
                colours(d, y, f.ravel(), what)
                need(d['title'] == lab, 'label', '{}: title {!r} instead of {!r}', what, d['title'], lab)
            in_view(d, np.vstack(allowed), what)


def colours(d, y, f, what):
    need(len(d['scatter']) == 1, 'colours', '{}: {} scatters', what, len(d['scatter']))
    off, arr, clim = d['scatter'][0]
    need(arr is not None and len(arr) == len(off) == len(y), 'colours', '{}: colours missing', what)
    T, U = np.column_stack((off, arr)), np.column_stack((y, f))
    o, q = np.lexsort(T.T), np.lexsort(U.T)
    need(np.allclose(T[o], U[q], rtol=1e-12, atol=0), 'colours', '{}: wrong colour values', what)
    if len(set(f)) > 1:
        need(clim[0] <= f.min() + 1e-12 * abs(f.min()) and clim[1] >= f.max() - 1e-12 * abs(f.max()), 'colours', '{}: colour limits {} for [{}, {}]',
             what, clim, f.min(), f.max())


# -- the file system ----------------------------------------------------------------

def tree():
    out = {}
    for base, ds, fs in os.walk('.'):
        for n in ds + fs:
            q = os.path.join(base, n)
            st = os.lstat(q)
            out[os.path.normpath(q)] = (st.st_mode & 0o170000, st.st_size if not os.path.isdir(q) else 0, st.st_mtime_ns if not os.path.isdir(q) else 0)
    return out


def prepare_folder(state, plots):
    names = [n for p in plots for n in files(p)]
    if state in ('dir', 'old', 'isdir', 'full'):
        os.mkdir('figs')
    if state == 'old':
        for n in names:
            open(n, 'wb').write(b'an old figure')
    elif state == 'file':
        open('figs', 'wb').write(b'not a folder')
    elif state == 'dangling':
        os.symlink('nowhere/figs', 'figs')
    elif state == 'isdir':
        for n in set(names):
            os.mkdir(n)
    elif state == 'full':
        for n in set(names):
            os.symlink('/dev/full', n)


def complete(name, marker):
    """The file is a whole figure: the marker, or the beginning and end of its type."""
    if not os.path.isfile(name):
        return 'does not exist'
    b = open(name, 'rb').read()
    if b.startswith(b'SIMFIG'):
        return None if b == b'SIMFIG' + marker + b'END' else 'is not of this call'
    ext = name.rsplit('.', 1)[1]
    t = b[-64:]
    ok = {'png': b[:4] == b'\x89PNG' and b'IEND' in t, 'pdf': b[:4] == b'%PDF' and b'%%EOF' in t, 'svg': b'<svg' in b and b'</svg>' in t,
          'eps': b[:4] == b'%!PS' and (b'%%EOF' in t or b'showpage' in t), 'ps': b[:4] == b'%!PS' and (b'%%EOF' in t or b'showpage' in t),
          'jpg': b[:2] == b'\xff\xd8' and t[-2:] == b'\xff\xd9'}.get(ext, len(b) > 0)
    return None if ok else 'is incomplete'


class Desk:
    """What happens at the file-system calls of one plot."""
    def __init__(self, plan, j, w, ctx):
        self.plan, self.j, self.w, self.ctx = plan, j, w, ctx
        self.n = 0
        self.saved = []             # (file name, description) at the moment of saving
        self.shown = []
        self.struck = False
        self.removed = False        # another process removed the folder
        self.marker = b'%d' % j

    def __call__(self, w, name, orig, a, k, fault):
        race = self.plan.get('race')
        mine = race if race and race['at'] == self.j and race['k'] == self.n else None
        self.n += 1
        w.ev('disk', name)
        if mine and mine['when'] == 'before':
            self.act(mine['act'])
        try:
            return self.do(name, orig, a, k, fault)
        finally:
            if mine and mine['when'] == 'after':
                self.act(mine['act'])

    def act(self, act):
        from ..world import Violation  # noqa
        if act == 'create' and not os.path.lexists('figs'):
            os.mkdir('figs')
            self.w.fired['other process created the folder'] += 1
        elif act == 'remove' and os.path.isdir('figs'):
            shutil.rmtree('figs')
            self.removed = True
            self.w.fired['other process removed the folder'] += 1
            self.struck = True
        elif act == 'file' and not os.path.lexists('figs'):
            open('figs', 'w').write('x')
            self.w.fired['other process made a file'] += 1
            self.struck = True

    def do(self, name, orig, a, k, fault):
        from ..world import _exc
        save = name in ('savefig', 'Figure.savefig')
        if fault is not None:
            self.struck = True
            self.w.ev('fault', name, fault.kind)
            if name.startswith('path.'):
                return False
            if fault.kind == 'torn':
                if save:
                    t = self.target(name, a, k)
                    if isinstance(t, str):
                        try:
                            open(t, 'wb').write(b'SIMFIG' + self.marker)
                        except OSError:
                            pass
                raise _exc('ENOSPC')
            raise _exc(fault.kind)
        if not save:
            return orig(*a, **k)
        import matplotlib.pyplot as plt
        fig = plt.gcf() if name == 'savefig' else a[0]
        t = self.target(name, a, k)
        self.saved.append((t if isinstance(t, str) else None, describe(fig)))
        if self.plan.get('render') or not isinstance(t, str):
            return orig(*a, **k)
        with open(t, 'wb') as f:
            f.write(b'SIMFIG' + self.marker + b'END')

    def target(self, name, a, k):
        r = a[0 if name == 'savefig' else 1:]
        t = r[0] if r else k.get('fname')
        return os.fspath(t) if isinstance(t, (str, os.PathLike)) else t

    def show(self, w):
        import matplotlib.pyplot as plt
        w.note('shown')
        self.shown = [(n, describe(plt.figure(n))) for n in plt.get_fignums()]
        if self.plan.get('close'):
            plt.close('all')


def run(plan, ctx):
    from .. import lib  # noqa
    from active_subspaces.utils import plotters as P
    import matplotlib.pyplot as plt
    w = ctx.world()
    plots = plan['plots']
    ctx.sig(plan['state'], plan.get('render'), plan.get('user'), plan.get('close'))
    prepare_folder(plan['state'], plots)
    w.fired['folder: ' + plan['state']] += plan['state'] not in ('none', 'dir')
    mine = None
    if plan.get('user'):
        fig = plt.figure()
        plt.plot([3.0, 4.0], [5.0, 6.0])
        mine = (fig, describe(fig))
    for j, p in enumerate(plots):
        args, kw = data(p)
        desk = Desk(plan, j, w, ctx)
        w.disk_hook, w.show_hook = desk, desk.show
        f = [q for q in plan.get('faults') or [] if q['at'] == j]
        before = tree()
        copies = [np.array(a, copy=True) for a in list(args) + [v for v in kw.values() if isinstance(v, np.ndarray)]]
        had = set(plt.get_fignums())
        on = saves(p)
        own = {'savefigs': p['opts'] == 'own', 'figtype': p['type'], 'myfont': {'family': 'serif', 'weight': 'normal', 'size': 10}}
        folder = os.path.isdir('figs')
        obstacle = on and (plan['state'] in ('isdir', 'full') or (os.path.lexists('figs') and not folder) or (p['opts'] == 'own' and not folder))

        def call():
            kw2 = dict(kw)
            if p['label'] is not None:
                kw2['out_label'] = p['label']
            if p['opts'] in ('on', 'off'):
                kw2['opts'] = P.plot_opts(savefigs=p['opts'] == 'on', figtype=p['type'])
                need(kw2['opts']['savefigs'] == (p['opts'] == 'on') and kw2['opts']['figtype'] == p['type'], 'opts', 'options {}', kw2['opts'])
            elif p['opts'] in ('own', 'own-off'):
                kw2['opts'] = dict(own)
            r = getattr(P, p['kind'])(*args, **kw2)
            if p['opts'] in ('own', 'own-off'):
                need(kw2['opts'] == own, 'opts', 'the options were changed to {}', kw2['opts'])
            return r
        w.arm(*[Armed(q['cat'], q['k'], q['kind'] if q['cat'] == 'disk' or q['kind'] in ('Interrupt', 'MemoryError') else 'MemoryError') for q in f])
        oc = attempt(w, call)
        armed = w.disarm()
        w.disk_hook = w.show_hook = None
        after = tree()
        new = {n for n in after if before.get(n) != after[n]}
        gone = {n for n in before if n not in after}
        ctx.sig(p['kind'], p['label'], p['type'], p['opts'], p.get('k'), p.get('M'), p.get('design'), p.get('y'), oc.ok, [(q['k'], q['kind'], q['cat']) for q in f],
                str(plan.get('race')))
        what = '{} ({})'.format(p['kind'], p['opts'])
        now = [np.array(a, copy=True) for a in list(args) + [v for v in kw.values() if isinstance(v, np.ndarray)]]
        need(all(np.array_equal(x, y) for x, y in zip(copies, now)), 'modified', '{} changed its data', what)
        fault = any(a.fired for a in armed) or desk.struck
        raced = {'figs'} if plan.get('race') and plan['race']['at'] == j and plan['race']['act'] in ('create', 'file') else set()
        if not on:
            need(not (new - raced) and (not gone or desk.struck), 'wrote', '{}: saving is off, but {} changed', what, sorted(new - raced) or sorted(gone))
            ctx.probe('plots without saving')
        if p.get('bad') and bad_applies(p):
            need(not oc.ok, 'accepted', '{}: data of wrong sizes were accepted', what)
            ctx.probe('refused data')
            tidy(plt, mine, plan, had)
            continue
        if oc.ok:
            if on and not desk.removed:
                for n in files(p):
                    c = complete(n, desk.marker)
                    need(c is None, 'file', '{} returned, but {} {}', what, n, c)
                extra = new - set(files(p)) - {'figs'}
                need(not extra, 'wrote', '{}: wrote {} besides the promised figures', what, sorted(extra))
                need(not gone or desk.struck, 'removed', '{}: removed {}', what, sorted(gone))
                ctx.probe('plots saved')
            if not plan.get('close') or desk.shown:
                figs = [d for n, d in (desk.shown or [(n, describe(plt.figure(n))) for n in plt.get_fignums()]) if n not in had]
                need(len(figs) == len(files(p)), 'figures', '{}: {} figures shown instead of {}', what, len(figs), len(files(p)))
                judge(p, args, kw, figs, [None] * len(figs))
                if p['kind'] == 'sufficient_summary' and p['k'] == 2:
                    need(sorted(one_dim(main_axes(d)[0], *args) for d in figs) == [False, True], 'figures', '{}: not one figure of each kind', what)
                ctx.probe('figures shown', len(figs))
                ctx.interesting = True
            for t, d in desk.saved:
                if t is not None and on:
                    need(os.path.normpath(t) in [os.path.normpath(n) for n in files(p)], 'wrote', '{}: wrote {}', what, t)
                    judge(p, args, kw, [d], [t])
                    ctx.probe('figures saved')
        else:
            need(fault or obstacle, 'raised', '{} raised {}: {} though nothing had failed', what, type(oc.exc).__name__, str(oc.exc)[:200])
            ctx.probe('failures that reached the caller')
            ctx.interesting = True
        if mine is not None:
            if plt.fignum_exists(mine[0].number):
                need(repr(describe(mine[0])) == repr(mine[1]), 'others', '{}: drew into another figure', what)
        tidy(plt, mine, plan, had)
        ctx.digest(p['kind'], oc.ok, sorted(new))
    plt.close('all')


def bad_applies(p):
    return p['kind'] in ('sufficient_summary', 'zonotope_2d_plot') or (p['kind'] == 'eigenvectors' and p.get('br'))


def tidy(plt, mine, plan, had):
    """What is left open stays open, unless the user closes it."""
    if plan.get('close'):
        plt.close('all')
