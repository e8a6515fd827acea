"""C33 Histogram plots show the histograms of the file."""
import os
import warnings

import numpy as np

os.environ['MPLBACKEND'] = 'agg'
import matplotlib                                                   # noqa: E402
matplotlib.use('agg')
import matplotlib.collections as mcol                               # noqa: E402
import matplotlib.figure                                            # noqa: E402
import matplotlib.patches as mpatches                               # noqa: E402
import matplotlib.pyplot as plt                                     # noqa: E402

from harness import blocks_iact as bi, cli, enc, storage, trees     # noqa: E402
from harness.core import Sub, check                                 # noqa: E402
from harness.gen import composite                                   # noqa: E402


# ------------------------------------------------------------------ what a plot shows
def shown(fig):
    """title, edges, contents and the visible range of the first axes"""
    ax = fig.axes[0]
    out = dict(title=ax.get_title(), xlim=ax.get_xlim(), ylim=ax.get_ylim())
    mesh = [c for c in ax.collections if isinstance(c, mcol.QuadMesh)]
    if mesh:
        xy = mesh[0].get_coordinates()
        a = mesh[0].get_array()
        out.update(kind='2d', x=xy[0, :, 0], y=xy[:, 0, 1], regular=bool((xy[:, :, 0] == xy[0, :, 0]).all() and (xy[:, :, 1].T == xy[:, 0, 1]).all()),
                   data=np.ma.filled(np.ma.asarray(a, dtype='f8'), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1))
        return out
    bars = [p for p in ax.patches if isinstance(p, mpatches.Rectangle)]
    steps = [p for p in ax.patches if isinstance(p, mpatches.StepPatch)]
    if steps:
        s = steps[0].get_data()
        out.update(kind='1d', x=np.asarray(s.edges), data=np.asarray(s.values, dtype='f8'))
    else:
        out.update(kind='1d', x=np.array([b.get_x() for b in bars] + [bars[-1].get_x() + bars[-1].get_width()] if bars else []),
                   right=np.array([b.get_x() + b.get_width() for b in bars]),
                   data=np.array([b.get_y() + b.get_height() if b.get_y() == 0 or b.get_y() + b.get_height() != 0 else b.get_y() for b in bars], dtype='f8'))
    return out


class Screen:
    """records what is shown and saved"""

    def __enter__(self):
        self.seen = []
        self.open_figures = 0
        self.old = plt.show, matplotlib.figure.Figure.savefig

        def show(*a, **k):
            nums = plt.get_fignums()
            self.seen.append((None, {}, [shown(plt.figure(n)) for n in nums]))
            plt.close('all')

        def savefig(fig, fname, *a, **k):
            self.seen.append((fname, k, [shown(fig)]))
            if self.real:
                self.old[1](fig, fname, *a, **k)
            if len(plt.get_fignums()) > 15:
                plt.close('all')
        plt.show = show
        matplotlib.figure.Figure.savefig = savefig
        self.real = False
        return self

    def __exit__(self, *a):
        plt.show, matplotlib.figure.Figure.savefig = self.old
        plt.close('all')


def compare(s, h, what):
    check(s['title'] == h['title'], '%s: title %r instead of %r', what, s['title'], h['title'])
    two = h['n_bins_y'] > 0
    check(s['kind'] == ('2d' if two else '1d'), '%s: shown as %s', what, s['kind'])
    filled = h['data'] != 0
    for i, ax in enumerate('xy' if two else 'x'):
        lo, hi, n = h['lower_' + ax], h['upper_' + ax], h['n_bins_' + ax]
        edges = np.linspace(float(lo), float(hi), n + 1)
        check(len(s[ax]) == n + 1, '%s: %d edges along %s instead of %d', what, len(s[ax]), ax, n + 1)
        tol = (hi - lo) * 1e-6
        check(np.allclose(s[ax], edges, rtol=0, atol=tol), '%s: edges along %s are %s instead of %s', what, ax, s[ax], edges)
        if s.get('right') is not None:
            check(np.allclose(s['right'], edges[1:], rtol=0, atol=tol), '%s: upper edges along %s', what, ax)
        used = filled.any(axis=0 if ax == 'x' else 1) if two else filled
        if used.any():
            a, b = np.flatnonzero(used)[[0, -1]]
            l, r = s[ax + 'lim']
            check(l <= edges[a] + tol and edges[b + 1] - tol <= r, '%s: filled bins from %s to %s are outside of the shown range %s..%s along %s',
                  what, edges[a], edges[b + 1], l, r, ax)
    if two:
        check(s['regular'], '%s: irregular bins', what)
    check(s['data'].shape == h['data'].shape, '%s: shape %s', what, s['data'].shape)
    # bars are drawn with the precision of the sum of all
    data = h['data'].astype('f8')
    ok = np.allclose(s['data'], data, rtol=1e-6, atol=0 if two else 1e-6 * np.abs(data).sum())
    check(ok, '%s: contents %s instead of %s', what, s['data'], h['data'])


# ------------------------------------------------------------------ files
def gen(d):
    nodes, want = [], []
    for _ in range(d.int(1, 4)):
        m = d.int(0, 5)
        if m <= 3:
            b = bi.histograms(d, plot=True, n=d.choice([0, 1, 1, 2, 3]))
            nodes.append(dict(type=100, version=b['version'], id=b['id'], payload=b['payload'], ext=d.bool()))
            want += b['exp']
        else:
            nodes += [n for n in trees.tree(d, 2, 3) if n['type'] != 100]
    cut = d.chance(15)
    return dict(nodes=nodes, want=want, store=storage.gen(d, ['plain', 'plain', 'gzipmod', 'zstd']), cut=d.int(1, 15) if cut else 0,
                out=d.choice([None, 'hist', 'a.b', 'x_1']), fmt=d.choice([None, 'png', 'pdf', 'svg']), dpi=d.choice([None, 50, 72]), real=d.chance(4))


def oracle(case, ctx):
    data = enc.layout(case['nodes'])[0]
    if not data:
        return
    if case['cut']:
        # an incomplete header of another block
        data += enc.top(100, b'\0\0')[:case['cut']]
    path = ctx.file(storage.pack(data, case['store']))
    args = [path]
    base = None
    if case['out'] is not None:
        base = os.path.join(ctx.tmp, case['out'])
        args += ['-o', base]
    if case['fmt']:
        args += ['-f', case['fmt']]
    if case['dpi']:
        args += ['-r', str(case['dpi'])]
    with Screen() as screen, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        screen.real = case['real'] and len(case['want']) <= 3
        r = cli.run('plot_hists', *args)
    want = case['want']
    check(r.ok, 'plotting %d histograms: %r', len(want), r.error or r.err)
    check(len(screen.seen) == len(want), '%d plots of %d histograms', len(screen.seen), len(want))
    for i, ((fname, kw, figs), h) in enumerate(zip(screen.seen, want)):
        what = 'plot %d' % (i + 1)
        if base is None:
            check(fname is None, '%s is saved', what)
        else:
            name = '%s_%03d.%s' % (base, i + 1, case['fmt'] or 'pdf')
            check(fname is not None and os.fspath(fname) == name, '%s is saved as %r instead of %r', what, fname, name)
            check(kw.get('dpi') == (case['dpi'] or 300), '%s: resolution %r', what, kw.get('dpi'))
            if screen.real:
                check(os.path.getsize(name) > 100, '%s: nothing in %s', what, name)
                os.remove(name)
                ctx.label('really saved')
        check(len(figs) == 1, '%s: %d figures shown', what, len(figs))
        compare(figs[0], h, what)
        two = h['n_bins_y'] > 0
        ctx.label(('2d' if two else '1d') + ('' if (h['data'] != 0).any() else ' empty'))
        ctx.count()
    ctx.label('saved' if base else 'shown')


SUBS = [
    Sub('plots', oracle, lambda tier: composite(gen), quick=800, thorough=10000, case_timeout=120,
        nontrivial=lambda c: any((h['data'] != 0).any() for h in c['want']),
        rule='files with 0-4 blocks of 0-3 filled, sparse or empty one- and two-dimensional histograms of all kinds between other '
             'blocks, in any storage form, shown or saved in any format; non-trivial = at least one histogram is filled'),
]
