"""C31: the data shown by accuracy plots against the accuracies they were made from."""
import importlib.util
import itertools
import os

import numpy as np

from mc import core
from mc.core import leaves

ID = 'C31'
BOUNDS = {
    'quick': '1 and 2 moduli, all grid sizes from {2,3}^2 (1 modulus: {2,3,5}^2) and {2,3}^4, four marginals, equal and unequal '
             'bounds, limits left out or given, figure left out or given, three patterns of accuracies; figures of 6 training runs',
    'thorough': 'as quick with 3 moduli and sizes up to 7',
}
MARG = {'mean': np.mean, 'min': np.min, 'max': np.max, 'first': lambda a, axis: np.moveaxis(a, axis, range(len(axis)))[(0,) * len(axis)]}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['plot', 'script'])
        m = c.pick('moduli', [1, 2] if tier == 'quick' or part == 'script' else [1, 2, 3])
        if part == 'plot':
            if m == 3:
                c.pick('shape', [[2, 2, 3, 2, 2, 2], [2, 3, 2, 2, 3, 2]])
            elif m == 1:
                c.pick('shape', [list(s) for s in itertools.product([2, 3, 5] if tier == 'quick' else [2, 3, 5, 7], repeat=2)])
            else:
                c.pick('shape', [list(s) for s in itertools.product([2, 3], repeat=4)])
        else:
            c.pick('grid', [2, 3, 4] if m == 1 else [2])
    return leaves(scenario)


def script():
    path = os.path.join(core.REPO, 'scripts', 'train.py')
    spec = importlib.util.spec_from_file_location('train_script', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def contents(fig):
    """{(row, column): axes} of all subplots with data."""
    out = {}
    for ax in fig.axes:
        s = ax.get_subplotspec()
        if s is None or not (ax.images or ax.lines):
            continue
        key = (s.rowspan.start, s.colspan.start)
        out.setdefault(key, []).append(ax)
    return out


def inspect(ctx, fig, acc, bounds, names, marg, vmin, vmax):
    """Everything shown in one figure."""
    from sympy.printing import latex
    fig.canvas.draw_idle()
    n = acc.ndim
    shown = contents(fig)
    comp = lambda k: (bounds[k // 2], names[k // 2], 'Re' if k % 2 == 0 else 'Im')
    lo = acc.min() if vmin is None else vmin
    hi = acc.max() if vmax is None else vmax
    for i in range(n):
        r, _, _ = comp(i)
        axs = [a for a in shown.get((i, i), []) if a.lines]
        ctx.check(len(axs) == 1, 'one curve panel per component', component=i)
        ax = axs[0]
        other = tuple(k for k in range(n) if k != i)
        x = np.linspace(-r, r, acc.shape[i])
        line = ax.lines[0]
        ctx.close(np.asarray(line.get_xdata(), float), x, 'positions of the curve', rtol=1e-9, atol=1e-12)
        ctx.close(np.asarray(line.get_ydata(), float), acc.mean(axis=other), 'mean accuracy', rtol=1e-9, atol=1e-12)
        ctx.check(len(ax.collections) >= 1, 'range is shown')
        v = np.concatenate([p.vertices for p in ax.collections[0].get_paths()])
        for k, y in enumerate(x):
            rows = v[np.abs(v[:, 0] - y) < 1e-9 * max(1, r)]
            ctx.check(len(rows) > 0, 'range at each position', at=y)
            ctx.close(rows[:, 1].min(), np.take(acc, k, i).min(), 'lowest accuracy', rtol=1e-9, atol=1e-12)
            ctx.close(rows[:, 1].max(), np.take(acc, k, i).max(), 'highest accuracy', rtol=1e-9, atol=1e-12)
        ctx.close(np.array(ax.get_ylim()), [lo, hi], 'limits of the curve panels', rtol=1e-9, atol=1e-12)
    for i in range(n):
        for j in range(i + 1, n):
            axs = [a for a in shown.get((j, i), []) if a.images]
            ctx.check(len(axs) == 1, 'one image for each pair of components', pair=(i, j))
            ax = axs[0]
            im = ax.images[0]
            other = tuple(k for k in range(n) if k not in (i, j))
            want = marg(acc, axis=other) if other else acc
            (ri, ni, ci), (rj, nj, cj) = comp(i), comp(j)
            data = np.asarray(im.get_array(), float)
            ctx.equal(data.shape, (acc.shape[j], acc.shape[i]), 'image has the first component along x')
            left, right, bottom, top = im.get_extent()
            if im.origin == 'upper':
                data = data[::-1]
            dx, dy = (right - left) / data.shape[1], (top - bottom) / data.shape[0]
            xs, ys = left + dx * (np.arange(data.shape[1]) + .5), bottom + dy * (np.arange(data.shape[0]) + .5)
            # an inverted extent would show the data mirrored: sort by coordinate
            data = data[np.argsort(ys)][:, np.argsort(xs)]
            ctx.close(data, want.T, 'marginal accuracy of the pair', rtol=1e-9, atol=1e-12, pair=(i, j))
            ctx.close(np.sort(xs), np.linspace(-ri, ri, len(xs)), 'pixels at the grid values (x)', rtol=1e-9, atol=1e-9, pair=(i, j))
            ctx.close(np.sort(ys), np.linspace(-rj, rj, len(ys)), 'pixels at the grid values (y)', rtol=1e-9, atol=1e-9, pair=(i, j))
            ctx.close(np.array(im.get_clim()), [lo, hi], 'common colour scale', rtol=1e-9, atol=1e-12)
            if j == n - 1:
                t = ax.get_xlabel()
                ctx.check(ci in t and latex(ni) in t, 'bottom row names the component along x', got=t, pair=(i, j))
            if i == 0:
                t = ax.get_ylabel()
                ctx.check(cj in t and latex(nj) in t, 'left column names the component along y', got=t, pair=(i, j))
    t = [a for a in shown[n - 1, n - 1] if a.lines][0].get_xlabel()
    ctx.check(comp(n - 1)[2] in t and latex(comp(n - 1)[1]) in t, 'last curve panel names its component', got=t)


def run(unit, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import sympy
    m = unit['moduli']
    names = sympy.symbols(['psi', 'phi', 'chi'])[:m]
    if unit['part'] == 'plot':
        mod = script()
        shape = tuple(unit['shape'])
        i = np.arange(int(np.prod(shape)))
        patterns = [0.3 + 0.2 * np.cos(1.7 * i + 0.4), 0.1 + (i * 7 % len(i)) / len(i), 1. / (1 + i)]
        cases = [('mean', [1.] * m, None, None, False), ('min', [2., .5, 1.][:m], None, None, True),
                 ('max', [2., .5, 1.][:m], 0., 2., False), ('first', [.3, 10., 1.][:m], 0.05, None, True)]
        for k, (marg, bounds, vmin, vmax, given) in enumerate(cases):
            acc = patterns[k % 3].reshape(shape)
            keep = acc.copy()
            ctx.where = dict(marginal=marg, bounds=bounds, vmin=vmin, vmax=vmax)
            fig = plt.figure() if given else None
            if given:
                plt.figure()             # current figure is another one
            out = mod.plot_accuracies(acc, bounds, names, fig=fig, vmin=vmin, vmax=vmax, marg2d=MARG[marg])
            if given and out is not None:
                ctx.check(out is fig, 'the figure asked for is used')
            fig = fig or out or plt.gcf()
            inspect(ctx, fig, keep, bounds, names, MARG[marg], vmin, vmax)
            ctx.equal(acc, keep, 'input unchanged')
            ctx.state((m, shape, marg, str(bounds), vmin, vmax))
            ctx.outcome(acc)
            ctx.ran(1, 1)
            plt.close('all')
        ctx.sample(shape=shape, cases=len(cases))
        return

    import jax
    jax.config.update('jax_enable_x64', True)
    from mc.props import c27
    v = c27.variety_of(m)
    figs = {}
    N = unit['grid']
    bounds = [2., .5][:m]

    def saved(fig, name):
        open(name, 'wb').close()
        figs[os.path.basename(name)] = fig
    seen = c27.train(c27.config(m, 'plain', 3, grid=N, batch=5, evaluation=True), 2, keep_plots=saved)
    out = c27.load(seen['disk'][-1]['sigma_final.npz'])
    for how in ('min', 'max', 'mean'):
        f = f'final-{how}.pdf'
        ctx.check(f in figs, 'figure is saved', file=f)
        ctx.where = dict(file=f)
        inspect(ctx, figs[f], out['sigmas'], bounds, list(v.parameters), MARG[how], None, None)
        ctx.state((m, N, how))
        ctx.outcome(out['sigmas'])
        ctx.ran(1, 1)
    ctx.sample(grid=N, moduli=m, files=sorted(figs))
