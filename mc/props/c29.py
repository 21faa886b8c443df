"""C29: the library in the default single precision mode against its double precision results."""
import numpy as np

from mc import oracle as o
from mc.core import leaves, precision
from mc.props import c19

ID = 'C29'
BOUNDS = {
    'quick': '25 batched public functions (all arguments single or all batched, optional ones given or left out) on 2 '
             'families; sampling, volume, accuracy, balancing step, loss, matrix decoding, network and sampler in single '
             'precision; polynomials of 8 kinds',
    'thorough': 'as quick on 6 families',
}
ASSUMPTIONS = ['points are chosen well conditioned, single precision results may differ by 1e-3 relative to the largest entry '
               '(1e-2 for curvature)']
SPECS = {'quick': ['gen1', 'mix2', 'dwork2'], 'thorough': ['gen1', 'mix2', 'dwork2', 'fermat2', 'quad2', 'dwork3']}
OTHER = ['sample', 'solve', 'volume', 'sigma', 'balance', 'loss', 'decode', 'network', 'sampler', 'poly', 'random', 'objects']


def units(tier):
    def scenario(c):
        f = c.pick('function', c19.GEOM[::-1] + [x for x in c19.FUNCS if x != 'v.solve_defining'] + OTHER)
        if f in OTHER:
            c.pick('spec', ['gen1'] if f in ('decode', 'random', 'network', 'poly') or f == 'objects' and tier == 'quick'
                   else SPECS[tier])
            return
        c.pick('axes', [[3, 2]])
        if f.startswith('v.') or f in c19.GEOM or f == 'sections':
            c.pick('spec', SPECS[tier][:1 if f.startswith('ricci') else 2] if tier == 'quick' else SPECS[tier])
        if f in c19.GEOM:
            c.pick('h', [0, 2])
        if f in ('v.induced_fs', 'v.induced_metric', 'v.weights', 'v.jacobian_embed'):
            c.pick('zs', [0, 2])
    return leaves(scenario)


KINDS = {32: {'c': 'complex64', 'f': 'float32', 'i': 'int32', 'u': 'uint32'},
         64: {'c': 'complex128', 'f': 'float64', 'i': ('int64', 'int32'), 'u': ('uint32', 'uint64')}}


def widths(ctx, jax, out, bits):
    for x in jax.tree_util.tree_leaves(out):
        want = KINDS[bits].get(x.dtype.kind)
        if want is not None:
            ctx.check(str(x.dtype) in (want if isinstance(want, tuple) else (want,)), f'number type in {bits} bit mode',
                      got=str(x.dtype))


def agree(ctx, jax, got, want, what, tol=1e-3):
    ctx.equal(str(jax.tree_util.tree_structure(got)), str(jax.tree_util.tree_structure(want)), f'{what}: structure')
    for g, w in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
        ctx.equal(g.shape, w.shape, f'{what}: shape')
        ctx.equal(g.dtype.kind, w.dtype.kind, f'{what}: kind of number')
        if w.dtype.kind in 'iu':
            ctx.equal(g, w, f'{what}: values')
        else:
            sc = max(1e-6, float(np.abs(w).max()) if w.size else 1.)
            ctx.close(np.asarray(g, complex), np.asarray(w, complex), f'{what}: values', rtol=tol, atol=tol * sc)
        ctx.outcome(np.asarray(w))


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    f = unit['function']
    if f in OTHER:
        return other(unit, ctx)
    host = lambda t: jax.tree_util.tree_map(np.asarray, t)
    with precision(64):
        fn64, args, static = c19.setup(unit, 'quick')
    with precision(32):
        fn32, _, _ = c19.setup(unit, 'quick')
    names = list(args)
    tol = 1e-2 if f.startswith('ricci') else 1e-3
    count = 0
    for batched in (False, True):
        for left_out in (False, True):
            lays = {}
            for k, a in args.items():
                given = [x for x in a.options if x is not None]
                lays[k] = None if left_out and None in a.options else max(given) if batched else min(given)
            for k, a in args.items():
                if a.tie and lays[k] is not None:
                    lays[k] = lays[a.tie]
            if left_out and not any(None in a.options for a in args.values()):
                continue
            ctx.where = dict(layout=lays)
            ctx.state((str(unit), str(lays)))
            out = {}
            for bits, fn in ((64, fn64), (32, fn32)):
                with precision(bits):
                    kw = {k: args[k].value(lays[k], jnp) for k in names if lays[k] is not None}
                    out[bits] = host(fn(**kw, **static))
                    widths(ctx, jax, out[bits], bits)
                    if bits == 32 and batched:
                        jitted = host(jax.jit(lambda **q: fn(**q, **static))(
                            **{k: jnp.asarray(x) for k, x in kw.items()}))
            agree(ctx, jax, out[32], out[64], f, tol)
            if batched:
                agree(ctx, jax, jitted, out[64], f'{f}, compiled', tol)
            ctx.ran(2 + batched, max(1, jax.tree_util.tree_leaves(out[64])[0].size))
            count += 1
    ctx.sample(function=f, layouts=count, last=lays)


def points(spec, par, count=12):
    """Affine points on the variety, charts of maximal modulus, from the reference."""
    zs, patches = [], []
    f = spec.poly(par)
    g = 0.8 * np.exp(1j * np.arange(1, 60).reshape(-1, 1) * np.arange(1, spec.n).reshape(1, -1) * 1.7)
    g = g * (0.4 + 0.5 * np.cos(np.arange(1, 60)[:, None] * 2.3 + np.arange(spec.n - 1)) ** 2)
    for row in g:
        hom = np.concatenate([row, [0]])
        co = coefficients(f, hom)
        for r in np.roots(co):
            z = hom.copy()
            z[-1] = r
            p = int(np.argmax(np.abs(z)))
            zs.append(np.delete(z / z[p], p))
            patches.append(p)
        if len(zs) >= count:
            break
    return np.array(zs[:count]), np.array(patches[:count])


def coefficients(f, hom):
    """Coefficients in the last coordinate, highest first."""
    n = len(hom)
    vals = {}
    for e, c in f.t.items():
        m = c
        for i in range(n - 1):
            m = m * hom[i] ** e[i]
        vals[e[-1]] = vals.get(e[-1], 0) + m
    return [vals.get(k, 0) for k in range(max(vals), -1, -1)]


def other(unit, ctx):
    import jax
    import jax.numpy as jnp
    import cyjax
    from cyjax import donaldson as D
    f = unit['function']
    spec = o.SPECS[unit['spec']]
    par = np.array(spec.par_values[0], complex) if spec.params else None
    host = lambda t: jax.tree_util.tree_map(np.asarray, t)
    n = spec.n
    ctx.state(str(unit))

    def both(build, what, tol=1e-3):
        """build() runs under each mode and returns arrays."""
        out = {}
        for bits in (64, 32):
            with precision(bits):
                out[bits] = host(build())
                widths(ctx, jax, out[bits], bits)
        agree(ctx, jax, out[32], out[64], what, tol)
        ctx.ran(2, 2)
        return out[64]

    P = lambda: None if par is None else jnp.array(par)
    if f == 'sample':
        for bits in (32, 64):
            with precision(bits):
                v = spec.make()
                for count in (1, 5, 12):
                    for seed in (0, 3):
                        key = jax.random.PRNGKey(seed)
                        (zs, patch), w = v.sample_intersect(key, P(), count, affine=True, weights=True)
                        hom = v.sample_intersect(key, P(), count)
                        widths(ctx, jax, (zs, patch, w, hom), bits)
                        zs, patch, w, hom = host((zs, patch, w, hom))
                        ctx.where = dict(count=count, seed=seed, bits=bits)
                        ctx.equal(str((zs.shape, patch.shape, w.shape, hom.shape)),
                                  str(((count, n - 1), (count,), (count,), (count, n))), 'shapes')
                        eps = 1e-10 if bits == 64 else 3e-4
                        z = o.to_hom(zs.astype(complex), patch)
                        ctx.check(np.abs(spec.poly(() if par is None else par)(z)).max() < eps, 'points on the variety')
                        ctx.check(np.abs(zs).max() <= 1 + 1e-5, 'coordinates bounded by one')
                        ctx.check(np.all(np.isfinite(w)) and np.all(w > 0), 'weights positive and finite')
                        ctx.close(zs, o.to_affine(hom.astype(complex), patch), 'same points', rtol=1e-3, atol=1e-3)
                        ctx.rows(str(unit) + str(bits), hom)
                        ctx.outcome(zs)
                        ctx.ran(2, count)
        ctx.sample(function=f, spec=unit['spec'], point=zs[0])
    elif f == 'solve':
        given = np.array([0.7 * np.exp(1j * (k + 1)) for k in range(n - 2)])
        for patch in [None, *range(n)]:
            for dep in range(n - (patch is not None)):
                ctx.where = dict(patch=patch, dependent=dep)
                g = given if patch is not None else np.append(given, 0.9)
                out = both(lambda: canonical(jnp, spec.make().solve_defining(jnp.array(g), P(), dep, patch)), 'solutions', 5e-3)
                ctx.state((str(unit), patch, dep))
        ctx.sample(function=f, spec=unit['spec'], solutions=out)
    elif f == 'volume':
        for bits in (32, 64):
            with precision(bits):
                v = spec.make()
                m, var = v.compute_vol(jax.random.PRNGKey(2), P(), 3, 40, True)
                widths(ctx, jax, host((m, var)), bits)
                m, var = float(np.real(m)), float(np.real(var))
                ctx.where = dict(bits=bits)
                ctx.check(np.isfinite(m) and m > 0 and var > 0 and np.isfinite(var), 'volume and variance', got=(m, var))
                ctx.outcome(m)
                ctx.ran(1, 1)
        ctx.sample(function=f, spec=unit['spec'], volume=m, variance=var)
    elif f in ('sigma', 'balance', 'loss', 'objects'):
        zs, patch = points(spec, () if par is None else par)
        sec_n = n - 1
        size = D.MonomialBasisFull(sec_n, 1).size
        H = o.hermitian(size, 'full')
        w = 0.5 + np.arange(len(zs)) % 3

        def metric():
            from mc import spy
            v = spec.make()
            script = spy.Script(zs.astype(complex if jax.config.jax_enable_x64 else np.complex64), patch,
                                w.astype(float if jax.config.jax_enable_x64 else np.float32))
            script.load(list(range(len(zs))))
            return D.AlgebraicMetric(spy.scripted(v, script), D.MonomialBasisFull(sec_n, 1))
        pat = lambda: jnp.array(patch)
        if f == 'sigma':
            out = both(lambda: metric().sigma_accuracy(jax.random.PRNGKey(0), P() if par is not None else jnp.zeros(0),
                                                       jnp.array(H), len(zs)), 'sigma accuracy', 5e-3)
        elif f == 'balance':
            out = both(lambda: metric().donaldson_step(jax.random.PRNGKey(0), jnp.array(H), P(), 2.5, 3, len(zs) // 3),
                       'balancing step', 2e-2)
        elif f == 'loss':
            from cyjax import ml
            smp = lambda: (P() if par is not None else jnp.zeros(0), jnp.array(zs), pat(), jnp.array(w))
            am = lambda: D.AlgebraicMetric(spec.make(), D.MonomialBasisFull(sec_n, 1))
            out = both(lambda: ml.variance_eta_loss(jnp.array(H), smp(), am()), 'loss', 5e-3)
            x = np.linspace(0.5, 1.5, size * size)
            x[size:] *= 0.1
            out = both(lambda: jax.grad(lambda q: ml.variance_eta_loss(ml.cholesky_from_param(q), smp(), am()))(
                jnp.array(x)), 'gradient of the loss', 2e-2)
        else:
            for k in range(4):
                ctx.where = dict(point=zs[k], patch=int(patch[k]))
                out = both(lambda: {q: getattr(D.GeometricObjects(
                    jnp.array(H), jnp.array(zs[k]), P(), spec.make(),
                    D.MonomialBasisFull(sec_n, 1), int(patch[k])), q)
                    for q in ('kahler', 'g_proj', 'g_proj_h', 'g_proj_ha', 'g_loc', 'eta', 'ricci_loc', 'ricci_scalar')},
                    'geometric objects', 2e-2)
        ctx.rows(str(unit), zs)
        ctx.sample(function=f, spec=unit['spec'], value=out)
    elif f == 'decode':
        from cyjax import ml
        for size in range(1, 7):
            x = np.cos(np.arange(size * size) * 1.7 + 0.3)
            ctx.where = dict(size=size)
            out = both(lambda: ml.cholesky_from_param(jnp.array(x)), 'matrix')
            ctx.close(out, out.conj().T, 'Hermitian', rtol=1e-12, atol=1e-12)
            both(lambda: ml.cholesky_from_param(ml.hermitian_param_init(jax.random.PRNGKey(0), size)), 'initial matrix')
            with precision(32):
                m = np.asarray(ml.cholesky_from_param(jnp.array(x)))
                ctx.close(m, m.conj().T, 'Hermitian in single precision', rtol=1e-6, atol=1e-6)
            ctx.state((f, size))
        ctx.sample(function=f, matrix=out)
    elif f == 'network':
        from cyjax import ml
        psi = np.array([[0.5 + 0.2j], [-1.5j], [2.], [-0.3 + 1j]])
        for sup in (True, False):
            for layers in ((), (4,), (5, 3)):
                for act in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):
                    ctx.where = dict(layers=layers, sig_suppress=sup, features=act)
                    net = ml.HNetMLP(2, layers, sig_suppress=sup, feature_angle=act[0], feature_abs=act[1], feature_parts=act[2])
                    with precision(32):
                        p = net.init(jax.random.PRNGKey(0), jnp.array(psi))
                        p = jax.tree_util.tree_map(lambda a: np.asarray(
                            a + 0.2 * jnp.cos(jnp.arange(a.size, dtype=a.dtype)).reshape(a.shape)), p)
                    out = both(lambda: net.apply(jax.tree_util.tree_map(jnp.asarray, jax.tree_util.tree_map(
                        lambda a: np.asarray(a, np.float64 if jax.config.jax_enable_x64 else np.float32), p)),
                        jnp.array(psi), deterministic=True), 'network output')
                    ctx.state((f, str(ctx.where)))
        ctx.sample(function=f, output=out)
    elif f == 'sampler':
        from cyjax import ml
        for bits in (32, 64):
            with precision(bits):
                v = spec.make()
                k = len(spec.params)

                def draw(key, count):
                    return 0.3 * jax.random.normal(key, (count, k)) + (0.4 + 0.2j) if k else jnp.zeros((count, 0))
                if not k:
                    continue
                s = ml.BatchSampler(3, v, draw, 2, 3, 2)
                for _ in range(5):
                    pr, zs, pt, w = out = next(s)
                    widths(ctx, jax, host(out), bits)
                    pr, zs, pt, w = host(out)
                    ctx.where = dict(bits=bits)
                    ctx.equal(str((pr.shape, zs.shape, pt.shape, w.shape)), str(((2, k), (2, 3, n - 1), (2, 3), (2, 3))), 'shapes')
                    for a in range(2):
                        val = spec.poly(pr[a])(o.to_hom(zs[a].astype(complex), pt[a]))
                        ctx.check(np.abs(val).max() < (1e-9 if bits == 64 else 1e-3), 'points of their moduli')
                    ctx.outcome(zs)
                    ctx.ran(1, 1)
        ctx.sample(function=f, spec=unit['spec'])
    elif f == 'poly':
        from mc import polycases as pc
        from cyjax.polynomial import univariate_coefficients
        for name in ('dwork', 'complex', 'parpow', 'mixed', 'two', 'factored', 'const', 'highpow'):
            case = pc.CASES[name]
            rows = pc.rows_for(case, 60)[-60:]
            v, pr = case.split(rows)
            ctx.where = dict(case=name)
            p = case.build('text')
            kw = lambda: dict(params=jnp.array(pr) if case.params else None)
            if name != 'const':
                both(lambda: p.transform_eval()(*[jnp.array(x) for x in v], **kw()), 'value')
            with precision(32):
                got = p.transform_eval()(*[jnp.array(x) for x in v], **kw())
                ctx.close(np.asarray(got, complex), case.value(rows), 'value', rtol=1e-4, atol=1e-3)
                if len(case.variables) == 1 and case.variables[0][1] is not None:
                    cs = univariate_coefficients(p, case.names()[0])
                    tot = 0
                    for k, c in enumerate(reversed(cs)):
                        q = jax.vmap(lambda a, b: c(a, b))(jnp.array(v[0][:, 1:]), jnp.array(pr)) if callable(c) else c
                        tot = tot + np.asarray(q) * rows[:, 0] ** k
                    ctx.close(tot, case.value(rows), 'coefficients', rtol=1e-4, atol=1e-3)
            ctx.rows((f, name), rows)
        ctx.sample(function=f)
    elif f == 'random':
        from cyjax import random as R
        for bits in (32, 64):
            with precision(bits):
                key = jax.random.PRNGKey(1)
                for name, args in (('uniform_components', ((40, 2),)), ('uniform_angle', ((40, 2), 0.5, 2.)),
                                   ('angles', ((40,),)), ('complex_sphere', ((40, 3),)), ('real_sphere', ((40, 3),))):
                    if not hasattr(R, name):
                        continue
                    ctx.where = dict(generator=name, bits=bits)
                    x = np.asarray(getattr(R, name)(key, *args))
                    widths(ctx, jax, x, bits)
                    ctx.check(np.all(np.isfinite(x)), 'finite')
                    a = np.abs(x)
                    if name == 'uniform_angle':
                        ctx.check(np.all((a > 0.5 - 1e-5) & (a < 2 + 1e-5)), 'radius')
                    if name.endswith('sphere'):
                        ctx.close((a ** 2).sum(-1), np.ones(40), 'norm', rtol=1e-5, atol=1e-5)
                    ctx.outcome(x)
                    ctx.state((f, name, bits))
                    ctx.ran(1, 1)
        ctx.sample(function=f)


def canonical(jnp, pts):
    """Solutions in an order which does not depend on rounding."""
    k = jnp.argsort(jnp.round(pts.sum(-1).real, 2) * 1000 + jnp.round(pts.sum(-1).imag, 2))
    return pts[k]
