"""C30: derivatives of public quantities by automatic differentiation against difference quotients of their values."""
import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props import c19

ID = 'C30'
BOUNDS = {
    'quick': '23 public functions x each of their continuous arguments x every real direction of it x 6 points and the point with '
             'a vanishing coordinate; forward and reverse mode; loss, balancing step, accuracy, matrix decoding and network as '
             'functions of matrix, moduli and trainable parameters; polynomials of 8 kinds at points with zeros; 2 families',
    'thorough': 'as quick on 5 families, curvature included on all of them',
}
ASSUMPTIONS = ['reference derivative: eighth order difference quotient of the values in double precision, agreement to 1e-6 '
               '(1e-5 for curvature)']
SPECS = {'quick': ['gen1', 'mix2'], 'thorough': ['gen1', 'mix2', 'dwork2', 'quad2', 'fermat2']}
SKIP = {'v.solve_defining', 'v.best_dependent'}
DISCRETE = {'patch', 'old_patch', 'new_patch', 'dependent'}
OTHER = ['loss', 'balance', 'sigma', 'decode', 'network', 'poly']


def units(tier):
    def scenario(c):
        f = c.pick('function', c19.GEOM[::-1] + [x for x in c19.FUNCS if x not in SKIP] + OTHER)
        if f in OTHER:
            c.pick('spec', SPECS[tier] if f in ('loss', 'balance') else ['gen1'])
            return
        c.pick('axes', [[3, 2]])
        if f.startswith('v.') or f in c19.GEOM or f == 'sections':
            c.pick('spec', SPECS[tier][:1] if tier == 'quick' and f.startswith('ricci') else SPECS[tier])
        if f in c19.GEOM:
            c.pick('h', [0])
        if f in ('v.induced_fs', 'v.induced_metric', 'v.weights', 'v.jacobian_embed'):
            c.pick('zs', [0])
    return leaves(scenario)


C8 = {1: 4 / 5, 2: -1 / 5, 3: 4 / 105, 4: -1 / 280}


def directions(x):
    out = []
    for i in np.ndindex(*x.shape):
        e = np.zeros(x.shape, x.dtype)
        e[i] = 1
        out.append(e)
        if np.iscomplexobj(x):
            out.append(1j * e)
    return out


def derivative(ctx, f, x, what, tol=1e-6, step=1e-3, second=False, values=None):
    """f: array -> array (jax); compare jvp, vjp with difference quotients along every direction.

    values: function whose difference quotients are the reference (f itself unless given).
    """
    import jax
    import jax.numpy as jnp
    values = values or f
    x = np.asarray(x)
    dirs = np.stack(directions(x))
    fj = jax.jit(f)
    val = np.asarray(fj(jnp.array(x)))
    shifts = np.array([k * s for k in C8 for s in (1, -1)]) * step
    coef = np.array([C8[k] * s for k in C8 for s in (1, -1)]) / step
    pts = x + shifts.reshape(-1, 1, *([1] * x.ndim)) * dirs[None]
    vals = np.asarray(jax.jit(jax.vmap(jax.vmap(values)))(jnp.array(pts)))
    want = np.tensordot(coef, vals, 1)
    fwd = np.asarray(jax.jit(jax.vmap(lambda d: jax.jvp(f, (jnp.array(x),), (d,))[1]))(jnp.array(dirs)))
    sc = max(1., float(np.abs(want).max()))
    ctx.check(np.all(np.isfinite(val)), f'{what}: finite value')
    ctx.close(fwd, want, f'{what}: forward mode', rtol=tol, atol=tol * sc)
    # reverse mode: cotangents picking real and imaginary part of every entry
    parts = [lambda q: jnp.real(q)] + ([lambda q: jnp.imag(q)] if np.iscomplexobj(val) else [])
    for k, part in enumerate(parts):
        g = np.asarray(jax.jit(jax.jacrev(lambda q: part(f(q)).reshape(-1)))(jnp.array(x)))
        # jax: gradient of a real function is the conjugate pairing, df(d) = Re(sum g d)
        got = np.real(np.tensordot(dirs, g, (list(range(1, dirs.ndim)), list(range(1, g.ndim)))))
        w = (np.imag(want) if k else np.real(want)).reshape(len(dirs), -1)
        ctx.close(got, w, f'{what}: reverse mode', rtol=tol, atol=tol * sc)
    if second:
        d0 = dirs[0]
        one = lambda q, d: jax.jvp(f, (q,), (d,))[1]
        got = np.asarray(jax.jit(jax.vmap(lambda d: jax.jvp(lambda q: one(q, jnp.array(d0)), (jnp.array(x),), (d,))[1]))(
            jnp.array(dirs)))
        vals = np.asarray(jax.jit(jax.vmap(jax.vmap(lambda q: one(q, jnp.array(d0)))))(jnp.array(pts)))
        ctx.close(got, np.tensordot(coef, vals, 1), f'{what}: second derivative', rtol=tol, atol=10 * tol * sc)
    ctx.outcome(want)
    ctx.ran(2 + len(parts) + len(shifts), len(dirs))
    for i in range(len(dirs)):
        ctx.state((ctx.unit_key, what, str(ctx.where), i))
    return want


def run(unit, ctx):
    import jax.numpy as jnp
    f = unit['function']
    ctx.unit_key = str(unit)
    if f in OTHER:
        return other(unit, ctx)
    fn, args, static = c19.setup(unit, 'quick')
    heavy = f.startswith('ricci')
    tol = 1e-5 if heavy else 1e-6
    slow = heavy or f in c19.GEOM or f in ('v.induced_fs', 'v.induced_metric', 'v.jacobian_embed', 'v.weights')
    at = [(i, j) for i in range(3) for j in range(2)]
    at = at if not slow or ctx.tier == 'thorough' else at[1::4] if heavy else at[1::2]
    for name, a in args.items():
        if name in DISCRETE or a is None:
            continue
        for left_out in ((True,) if f in c19.GEOM else (False, True)):
            if left_out and not any(None in b.options for k, b in args.items() if k != name):
                if f not in c19.GEOM:
                    continue
            for i, j in at:
                if left_out and 'dependent' in args and near_tie(unit, args, i, j):
                    continue
                fixed = {k: (int if k in DISCRETE else jnp.array)(b.data[i, j]) for k, b in args.items()
                         if k != name and b is not None and not (left_out and None in b.options)}
                for zero in (False, True):
                    x = np.array(a.data[i, j])
                    if zero:
                        if name not in ('zs', 'affine', 'hom') or (i, j) != at[-1] or heavy or f == 'hom_to_affine_patch':
                            continue
                        x[(int(fixed.get('new_patch', 0)) + 1) % len(x) if f == 'change_chart' else -1] = 0
                        if f == 'change_chart':
                            continue
                    ctx.where = dict(argument=name, point=(i, j), zero=zero, left_out=left_out)

                    def call(q):
                        out = fn(**{name: q}, **fixed, **static)
                        return flat(jnp, out)
                    w = derivative(ctx, call, x, f, tol, second=f in ('kahler_potential', 'fs_potential', 'v.defining', 'sections') and (i, j) == at[0])
    ctx.sample(function=f, at=at, last=dict(ctx.where), derivative=w)


def near_tie(unit, args, i, j):
    """Whether two coordinates compete for being the dependent one at this point."""
    spec = o.SPECS[unit['spec']]
    z = o.to_hom(args['zs'].data[i, j], int(args['patch'].data[i, j]))
    g = np.abs(np.delete(spec.poly(args['params'].data[i, j]).grad(z), int(args['patch'].data[i, j])))
    g = np.sort(g)
    return len(g) > 1 and g[-2] > 0.9 * g[-1]


def flat(jnp, out):
    """All continuous parts of an output as one vector."""
    import jax
    parts = [jnp.ravel(x).astype(complex) for x in jax.tree_util.tree_leaves(out)
             if jnp.asarray(x).dtype.kind in 'fc']
    return jnp.concatenate(parts)


def other(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    from cyjax import ml
    from mc import spy
    from mc.props.c29 import points
    f = unit['function']
    spec = o.SPECS[unit['spec']]
    n = spec.n
    par = np.array(spec.par_values[0], complex)
    if f in ('loss', 'balance', 'sigma'):
        zs, patch = points(spec, par, 6)
        zs = zs * 0.9 + 0.02j        # off the variety, where every quantity is defined as well
        size = n
        H = o.hermitian(size, 'full')
        w = 0.5 + np.arange(len(zs)) % 3
        v = spec.make()
        sec = D.MonomialBasisFull(n - 1, 1)
        smp = lambda p=par, z=zs, q=w: (jnp.asarray(p), jnp.asarray(z), jnp.array(patch), jnp.asarray(q))
        if f == 'loss':
            am = D.AlgebraicMetric(v, sec)
            one = lambda y: jnp.reshape(y, (1,)) * 1.

            def frozen(h, sample):
                """The loss with the mean it normalises by held at its value here, from values of eta."""
                p, z, k, q = sample(None)
                e0 = am.eta(h(None), z, p, k).real
                m = (q * e0).mean() / q.mean()

                def loss(x):
                    p, z, k, q = sample(x)
                    e = am.eta(h(x), z, p, k).real
                    return one((q * (e / m - 1) ** 2).mean() + jnp.log(jnp.where(e < 0, e, 0) ** 2 + 1).mean())
                return loss
            x = np.linspace(0.5, 1.5, size * size)
            x[size:] *= 0.1
            orr = lambda q, d: jnp.asarray(d if q is None else q)
            hq = lambda q: ml.cholesky_from_param(orr(q, x))
            hc = lambda q: jnp.array(H)
            for what, at, h, sample in (
                    ('trainable parameters', x, hq, lambda q: smp()),
                    ('moduli', par, hc, lambda q: smp(p=orr(q, par))),
                    ('points', zs, hc, lambda q: smp(z=orr(q, zs)))):
                r = derivative(ctx, lambda q: one(ml.variance_eta_loss(h(q), sample(q), am)), at, f'loss of {what}',
                               values=frozen(h, sample))
        else:
            script = spy.Script(zs, patch, w)
            script.load(list(range(len(zs))))
            am = D.AlgebraicMetric(spy.scripted(v, script), sec)
            if f == 'balance':
                r = derivative(ctx, lambda q: jnp.ravel(am.donaldson_step(
                    jax.random.PRNGKey(0), ml.cholesky_from_param(q), jnp.asarray(par), 2.5, 1, len(zs))),
                    np.linspace(0.5, 1.5, size * size), 'balancing step')
            else:
                r = derivative(ctx, lambda q: jnp.reshape(am.sigma_accuracy(
                    jax.random.PRNGKey(0), jnp.asarray(par), ml.cholesky_from_param(q), len(zs)), (1,)),
                    np.linspace(0.5, 1.5, size * size), 'accuracy', step=1e-3, tol=1e-4)
        ctx.rows(ctx.unit_key, zs)
    elif f == 'decode':
        for size in range(1, 5):
            x = np.cos(np.arange(size * size) * 1.7 + 0.3)
            ctx.where = dict(size=size)
            r = derivative(ctx, lambda q: jnp.ravel(ml.cholesky_from_param(q)), x, 'matrix', second=True)
            mixed = np.stack([x, x * 0.5 + 0.1])
            derivative(ctx, lambda q: jnp.ravel(jax.vmap(ml.cholesky_from_param)(q)), mixed, 'matrices')
    elif f == 'network':
        from jax.flatten_util import ravel_pytree
        psi = np.array([[0.5 + 0.2j], [-1.5j + 0.1], [-0.3 + 1j]])
        for sup in (True, False):
            for layers in ((), (3,)):
                for act in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):
                    ctx.where = dict(layers=layers, sig_suppress=sup, features=act)
                    net = ml.HNetMLP(2, layers, sig_suppress=sup, feature_angle=act[0], feature_abs=act[1],
                                     feature_parts=act[2])
                    p = net.init(jax.random.PRNGKey(0), jnp.array(psi))
                    p = jax.tree_util.tree_map(lambda a: a.astype(float), p)
                    flatp, back = ravel_pytree(p)
                    # away from kinks of the activation: every entry shifted by a fixed amount
                    x = np.asarray(flatp) * 0.3 + 0.21 + 0.1 * np.cos(np.arange(flatp.size) * 2.)
                    r = derivative(ctx, lambda q: jnp.ravel(net.apply(back(q), jnp.array(psi),
                                                                      deterministic=True)), x, 'network of its parameters',
                                   step=1e-4, tol=1e-5)
                    derivative(ctx, lambda q: jnp.ravel(net.apply(back(jnp.array(x)), q, deterministic=True)),
                               psi, 'network of moduli', step=1e-4, tol=1e-5)
    elif f == 'poly':
        from mc import polycases as pc
        for name in ('dwork', 'complex', 'parpow', 'mixed', 'two', 'factored', 'highpow', 'scalarpar'):
            case = pc.CASES[name]
            rows = pc.rows_for(case, 30)[:30]
            p = case.build('text')
            names = case.names()
            ex = case.expansion()

            def value(q):
                v, pr = split(case, q)
                return jnp.reshape(p(*v, params=pr if case.params else None), (1,)) * (1 + 0j)
            for row in rows:
                ctx.where = dict(case=name, row=row)
                want = derivative(ctx, value, row, 'polynomial')
                # exact derivative from the expansion
                env = dict(zip(names, row))
                exact = np.array([ex.diff(s).value(env) for s in names], complex)
                ctx.close(want[::2, 0], exact, 'difference quotient', rtol=1e-6, atol=1e-6 * max(1, np.abs(exact).max()))
                ctx.close(want[1::2, 0], 1j * exact, 'difference quotient', rtol=1e-6,
                          atol=1e-6 * max(1, np.abs(exact).max()))
            r = exact
    ctx.sample(function=f, spec=unit['spec'], derivative=r)


def split(case, row):
    """As Case.split for traced arrays."""
    out, k = [], 0
    for name, ind in case.variables:
        size = 1 if ind is None else len(ind)
        out.append(row[k] if ind is None else row[k:k + size])
        k += size
    return out, row[k:]
