"""C19: every combination of batched and unbatched arguments against stacked single calls."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves

ID = 'C19'
BOUNDS = {
    'quick': '22 public functions; every argument single, with one or with two leading axes (lengths 3x2, 2 equal to the '
             'number of affine coordinates), all combinations, one axis of length 70 for all arguments or one of them, optional arguments given or left out; keyword and positional; '
             'plain and compiled; geometry functions on 2 families with all layouts of matrix, points and moduli',
    'thorough': 'as quick with axis lengths 1x3 and 2x2x2 as well and more families',
}
FUNCS = ['change_chart', 'hom_to_affine', 'hom_to_affine_patch', 'affine_to_hom', 'fs_metric', 'fs_metric_c', 'fs_potential',
         'fs_potential_hom', 'jacobian_embed', 'induced_metric', 'induced_metric_c', 'v.defining', 'v.grad_defining',
         'v.best_dependent', 'v.jacobian_embed', 'v.induced_metric', 'v.induced_fs', 'v.weights', 'v.solve_defining', 'sections']
GEOM = ['kahler_potential', 'metric', 'eta', 'ricci', 'ricci_scalar']


def units(tier):
    def scenario(c):
        f = c.pick('function', GEOM[::-1] + FUNCS + ['sigma_accuracy'])
        c.pick('axes', [[3, 2]] if tier == 'quick' else [[3, 2], [1, 3], [2, 2]])
        if f.startswith('v.') or f in GEOM or f == 'sections':
            quick = ['gen1'] if f in ('kahler_potential', 'eta', 'ricci_scalar', 'ricci') else ['gen1', 'mix2']
            c.pick('spec', quick if tier == 'quick' else ['gen1', 'mix2'] if f in GEOM else ['gen1', 'mix2', 'dwork3', 'fermat1'])
        if f in GEOM:
            c.pick('h', [0, 1, 2])
        if f in ('v.induced_fs', 'v.induced_metric', 'v.weights', 'v.jacobian_embed'):
            c.pick('zs', [0, 1, 2])
    long = [dict(u, axes=[1, 70]) for u in leaves(scenario) if u['axes'] == [3, 2] and u['function'] != 'v.solve_defining'
            and u.get('h', 1) == 1 and u.get('zs', 1) == 1 and u.get('spec', 'gen1') == 'gen1']
    return leaves(scenario) + long


def pool(shape, kind=0):
    """Distinct deterministic complex entries of moderate size."""
    n = int(np.prod(shape))
    i = np.arange(n)
    a = 0.9 * np.cos(1.3 * i * (1 + kind) + 0.4 + kind) + 0.8j * np.sin(2.1 * i + 0.2 * kind) + 0.15
    return a.reshape(shape)


class Arg:
    """Pool of single values with two leading axes; layouts 0, 1 or 2 of them used."""

    def __init__(self, data, layouts=(0, 1, 2), absent=False, tie=None, py=False):
        self.data, self.layouts, self.tie, self.py = np.asarray(data), layouts, tie, py
        self.options = list(layouts) + ([None] if absent else [])

    def value(self, lay, jnp):
        if lay is None:
            return None
        x = self.data if lay == 2 else self.data[0] if lay == 1 else self.data[0, 0]
        if self.py and lay == 0:
            return int(x)
        return jnp.array(x)

    def element(self, lay, i, j):
        if lay is None:
            return None
        return (i if lay == 2 else 0, j if lay >= 1 else 0)


def setup(unit, tier):
    """Function, its arguments and fixed arguments for one entry of the list of functions."""
    import jax
    import jax.numpy as jnp
    import cyjax
    from cyjax import donaldson as D
    f = unit['function']
    A, B = unit['axes']
    spec = o.SPECS[unit['spec']] if 'spec' in unit else None
    n = spec.n if spec else 3
    m = n - 1
    aff = lambda k=0: pool((A, B, m), k)
    hom = lambda k=0: pool((A, B, n), k)
    pat = lambda k=0: ((np.arange(A * B) * (2 + k) + k) % n).reshape(A, B)
    dep = lambda k=0: ((np.arange(A * B) * 3 + 1 + k) % m).reshape(A, B)
    static = {}
    v = None
    if spec:
        v = spec.make()
        npar = len(spec.params)
        par = Arg(pool((A, B, npar), 3)) if npar else None
    if f == 'change_chart':
        fn, args = cyjax.change_chart, dict(affine=Arg(aff()), old_patch=Arg(pat(), py=True), new_patch=Arg(pat(1), py=True))
    elif f == 'hom_to_affine':
        fn, args = cyjax.hom_to_affine, dict(hom=Arg(hom()))
    elif f == 'hom_to_affine_patch':
        fn, args = cyjax.hom_to_affine, dict(hom=Arg(hom()), patch=Arg(pat(), py=True))
    elif f == 'affine_to_hom':
        fn, args = cyjax.affine_to_hom, dict(affine=Arg(aff()), patch=Arg(pat(), py=True))
    elif f == 'fs_metric':
        fn, args = cyjax.fs_metric, dict(zs=Arg(aff()))
    elif f == 'fs_metric_c':
        fn, args = cyjax.fs_metric, dict(zs=Arg(aff()), zs_c=Arg(aff(1), tie='zs'))
    elif f == 'fs_potential':
        fn, args = cyjax.fs_potential, dict(zs=Arg(aff()), zs_c=Arg(aff(1), tie='zs', absent=True))
    elif f == 'fs_potential_hom':
        fn, args = cyjax.fs_potential, dict(zs=Arg(hom()), zs_c=Arg(hom(1), tie='zs', absent=True))
        static = dict(hom=True)
    elif f == 'jacobian_embed':
        fn, args = cyjax.jacobian_embed, dict(grad_def=Arg(aff()), dependent=Arg(dep(), py=True))
    elif f in ('induced_metric', 'induced_metric_c'):
        fn = cyjax.induced_metric
        args = dict(metric=Arg(pool((A, B, m, m))), grad_def=Arg(aff(1)), dependent=Arg(dep(), py=True))
        if f.endswith('_c'):
            args['grad_def_c'] = Arg(aff(2), (0, 2))
            args['metric'] = Arg(args['metric'].data, (0, 1))
    elif f == 'v.defining':
        fn, args = v.defining, dict(zs=Arg(aff()), params=par, patch=Arg(pat(), py=True))
    elif f == 'v.grad_defining':
        fn, args = v.grad_defining, dict(zs=Arg(aff()), params=par, patch=Arg(pat(), py=True))
    elif f == 'v.best_dependent':
        fn, args = v.best_dependent, dict(zs=Arg(aff()), params=par, patch=Arg(pat(), py=True))
    elif f == 'v.jacobian_embed':
        fn, args = v.jacobian_embed, dict(zs=Arg(aff()), params=par, patch=Arg(pat(), py=True),
                                          dependent=Arg(dep(), (0, 1, 2), True, py=True))
    elif f == 'v.induced_metric':
        fn, args = v.induced_metric, dict(metric=Arg(pool((A, B, m, m))), zs=Arg(aff(1)), params=par,
                                          patch=Arg(pat(), (0, 1), py=True), dependent=Arg(dep(), (0, 2), True, py=True))
    elif f == 'v.induced_fs':
        fn, args = v.induced_fs, dict(zs=Arg(aff(1)), params=par, patch=Arg(pat(), py=True),
                                      zs_c=Arg(aff(2), absent=True, tie='zs'), dependent=Arg(dep(), (0, 1), True, py=True))
    elif f == 'v.weights':
        fn, args = v.sample_intersect_weights, dict(zs=Arg(aff(1)), params=par, patch=Arg(pat(), py=True),
                                                    dependent=Arg(dep(), (0, 2), True, py=True))
    elif f == 'v.solve_defining':
        static = dict(dependent=1, patch=0)
        fn, args = v.solve_defining, dict(zs=Arg(pool((A, B, m - 1), 1)), params=par)
    elif f == 'sections':
        sec = D.MonomialBasisFull(n - 1, 2)
        fn, args = sec, dict(zs=Arg(aff()), patch=Arg(pat(), py=True))
    elif f in GEOM:
        sec = D.MonomialBasisFull(n - 1, 1)
        fn = getattr(D.AlgebraicMetric(v, sec), f)
        H = np.stack([[o.hermitian(sec.size, 'full') + 0.3 * (i + 2 * j) * np.diag(np.arange(sec.size) % 2 + 0.2)
                       for j in range(B)] for i in range(A)])
        quick = tier == 'quick'
        args = dict(h=Arg(H, (unit['h'],)), zs=Arg(aff(1)), params=Arg(pool((A, B, npar), 3)), patch=Arg(pat(), (0, 2), py=True),
                    dependent=Arg(dep(), (1,), True, py=True))
        if quick and f.startswith('ricci') and unit['h']:
            args['dependent'] = Arg(dep(), (1,))
        if f in ('eta', 'metric') and unit['h'] == 0:
            args['grad_def'] = Arg(aff(2), (1,), absent=True)
        elif unit['h'] == 1:
            args['grad_def'] = Arg(aff(2), (2,))
    elif f == 'sigma_accuracy':
        w = o.SPECS['dwork1'].make()
        sec = D.MonomialBasisFull(2, 1)
        am = D.AlgebraicMetric(w, sec)
        key = jax.random.PRNGKey(5)
        H = np.stack([[o.hermitian(3, 'full') + 0.3 * (i + 2 * j) * np.diag(np.arange(3)) for j in range(B)] for i in range(A)])
        fn = lambda params, h: am.sigma_accuracy(key, params, h, 20)
        args = dict(params=Arg(pool((A, B, 1), 3)), h=Arg(H))
    args = {k: a for k, a in args.items() if a is not None}
    if 'zs' in unit:
        args['zs'] = Arg(args['zs'].data, (unit['zs'],))
    if spec is not None and not spec.params and f.startswith('v.'):
        static['params'] = None
    return fn, args, static


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    f = unit['function']
    A, B = unit['axes']
    fn, args, static = setup(unit, ctx.tier)

    def single(**kw):
        return fn(**kw, **static)

    fast = jax.jit(single) if f != 'v.solve_defining' else single
    memo = {}

    def one(lays, i, j):
        key_ = tuple((k, a.element(lays[k], i, j)) for k, a in args.items())
        if key_ not in memo:
            kw = {}
            for k, a in args.items():
                e = a.element(lays[k], i, j)
                if e is not None:
                    kw[k] = jnp.array(a.data[e])
            memo[key_] = jax.tree_util.tree_map(np.asarray, fast(**kw))
        return memo[key_]

    names = list(args)
    combos = 0
    jits = {}
    for opts in itertools.product(*[args[k].options for k in names]):
        lays = dict(zip(names, opts))
        if any(a.tie and lays[k] is not None and lays[k] != lays[a.tie] for k, a in args.items()):
            continue
        top = max(x for x in opts if x is not None)
        if B > 10 and (top != 1 or 0 < sum(x != 1 for x in opts) < len(opts) - 1):
            continue        # long axes: all arguments or one of them
        shape = {0: (), 1: (B,), 2: (A, B)}[top]
        ctx.where = dict(layout=lays)
        ctx.state((str(unit), opts))
        kw = {k: args[k].value(lays[k], jnp) for k in names if lays[k] is not None}
        rows = [[one(lays, i, j) for j in range(B if top >= 1 else 1)] for i in range(A if top == 2 else 1)]
        flat = [x for r in rows for x in r]
        want = jax.tree_util.tree_map(lambda *xs: np.stack(xs).reshape(shape + xs[0].shape), *flat)
        got = jax.tree_util.tree_map(np.asarray, fn(**kw, **static))
        if f == 'v.induced_metric' and lays['dependent'] is None:
            # the chosen coordinate does not depend on the metric and is not repeated for each metric
            got = (got[0], np.broadcast_to(got[1], want[1].shape))
        same(ctx, jax, got, want, f'{f}, batched')
        ctx.ran(1, len(flat))
        combos += 1
        heavy = f in GEOM or f in ('sigma_accuracy', 'v.solve_defining')
        if (not heavy and (combos % 5 == 1 or not f.startswith('v.') or ctx.tier != 'quick')) or (
                combos % 9 == 1 and f != 'v.solve_defining'):
            sig = tuple(sorted(kw))
            if sig not in jits:
                jits[sig] = jax.jit(lambda **q: fn(**q, **static))
            got = jax.tree_util.tree_map(np.asarray, jits[sig](**{k: jnp.asarray(x) for k, x in kw.items()}))
            if f == 'v.induced_metric' and lays['dependent'] is None:
                got = (got[0], np.broadcast_to(got[1], want[1].shape))
            same(ctx, jax, got, want, f'{f}, compiled')
            ctx.ran(1, len(flat))
        if not heavy and not static and f != 'sections':
            order = names
            if all(lays[k] is not None for k in order) and not (f in ('v.induced_fs', 'v.induced_metric')):
                same(ctx, jax, jax.tree_util.tree_map(np.asarray, fn(*[kw[k] for k in order])), want, f'{f}, positional')
                ctx.ran(1, len(flat))
    for x in list(memo.values())[:50]:
        ctx.outcome(*[np.asarray(y) for y in jax.tree_util.tree_leaves(x)])
    ctx.sample(function=f, layouts=combos, last={k: x for k, x in lays.items()})


def same(ctx, jax, got, want, what):
    ctx.equal(str(jax.tree_util.tree_structure(got)), str(jax.tree_util.tree_structure(want)), f'{what}: structure')
    for g, w in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
        ctx.equal(g.shape, w.shape, f'{what}: shape')
        if g.dtype.kind in 'iu':
            ctx.equal(g, w, f'{what}: values')
        else:
            sc = max(1., float(np.abs(w).max()) if w.size else 1.)
            ctx.close(g, w, f'{what}: values', rtol=1e-8, atol=1e-9 * sc)
