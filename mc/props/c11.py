"""C11: sampled points for every count, output form, key and call history of the alphabet."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves, precision
from mc.props.c18 import tour

ID = 'C11'
BOUNDS = {
    'quick': '14 hypersurface families (degree equal to, below and above the dimension), 1-2 moduli, keys 0-2, counts '
             '1..2*degree+1 and 24 (ambient dimension above 2: 1, degree-1, degree, degree+1, 2*degree+1, 24), 130 and 1003, all four output forms, jitted and plain, vectorized over keys and moduli, repeated '
             'calls in changed order; multiples 1e-13 and 1e9 of the equation; varieties of one equation with different inputs in turn; double and single precision',
    'thorough': 'as quick with keys 0-7, all moduli, counts 0..4*degree+1 and 97',
}


def units(tier):
    def scenario(c):
        c.pick('spec', o.SPECS)
        c.pick('bits', [64, 32])
        if c.values['bits'] == 32:
            c.pick('part', ['single'])
        else:
            c.pick('part', ['counts', 'history'])
    return leaves(scenario) + [dict(part='twins', bits=64)]


def run(unit, ctx):
    with precision(unit['bits']):
        _run(unit, ctx)


def proj_dist(a, b):
    """sin of the angle between rows (all pairs)."""
    a = a / np.linalg.norm(a, axis=-1, keepdims=True)
    b = b / np.linalg.norm(b, axis=-1, keepdims=True)
    c = np.abs(a @ b.conj().T)
    return np.sqrt(np.maximum(0, 1 - np.minimum(1, c) ** 2))


def residual(poly, z):
    s = np.zeros(z.shape[:-1])
    for e, c in poly.t.items():
        s = s + abs(c) * np.prod(np.abs(z) ** np.array(e), -1)
    return np.abs(poly(z)) / s


def judge_hom(ctx, poly, z, count, n, eps):
    z = np.asarray(z)
    ctx.check(z.shape == (count, n), 'requested number of points', got=z.shape, want=(count, n))
    ctx.check(np.isfinite(z).all(), 'finite coordinates')
    if count == 0:
        return
    r = residual(poly, z)
    ctx.check((r < eps).all(), 'points on the variety', worst=float(r.max()))
    if count > 1:
        d = proj_dist(z, z) + np.eye(count)
        ctx.check(d.min() > 30 * eps ** 0.5 * 1e-3, 'no repeated points', closest=float(d.min()),
                  pair=[int(i) for i in np.unravel_index(int(d.argmin()), d.shape)])


def judge_affine(ctx, poly, zs, patch, count, n, eps, hom=None):
    zs, patch = np.asarray(zs), np.asarray(patch)
    ctx.check(zs.shape == (count, n - 1) and patch.shape == (count,), 'affine shapes', got=[zs.shape, patch.shape])
    ctx.check(np.issubdtype(patch.dtype, np.integer), 'integer patches')
    if count == 0:
        return None
    ctx.check(((patch >= 0) & (patch < n)).all(), 'patch range')
    ctx.check((np.abs(zs) <= 1 + 10 * eps).all(), 'patch of maximal modulus', worst=float(np.abs(zs).max()))
    back = o.to_hom(zs, patch)
    ctx.check((residual(poly, back) < eps).all(), 'affine points on the variety')
    if hom is not None:
        d = proj_dist(back, np.asarray(hom)).diagonal()
        ctx.check((d < max(1e-6, 50 * eps)).all(), 'affine and homogeneous output describe the same points',
                  worst=float(d.max()))
    return back


def judge_weights(ctx, poly, w, hom, eps):
    w = np.asarray(w)
    n = hom.shape[-1]
    ctx.check(w.shape == (len(hom),), 'one weight per point', got=w.shape)
    if not len(hom):
        return
    pat = np.argmax(np.abs(hom), -1)
    aff = o.to_affine(hom, pat)
    g = np.stack([poly.fix_one(int(p)).grad(a) for p, a in zip(pat, aff)])
    dep = np.argmax(np.abs(g), -1)
    ok = np.abs(g).max(-1) > 0.1
    want, _, _ = o.weights(poly, aff, pat, dep)
    if ok.any():
        ctx.close(w[ok], want[ok], 'weights belong to the points', rtol=max(1e-7, 200 * eps), atol=1e-9)


def forms(v, key, P, count):
    """All output forms: hom, affine, hom+weights, affine+weights."""
    hom = v.sample_intersect(key, P, count)
    aff = v.sample_intersect(key, P, count, affine=True)
    hw = v.sample_intersect(key, P, count, weights=True)
    aw = v.sample_intersect(key, P, count, affine=True, weights=True)
    return hom, aff, hw, aw


def judge_all(ctx, poly, out, count, n, eps):
    hom, aff, hw, aw = out
    judge_hom(ctx, poly, hom, count, n, eps)
    judge_affine(ctx, poly, aff[0], aff[1], count, n, eps, hom)
    ctx.check(np.shape(hw[0]) == (count, n), 'homogeneous with weights', got=np.shape(hw[0]))
    ctx.close(hw[0], np.asarray(hom), 'same points with weights', rtol=50 * eps, atol=50 * eps)
    judge_weights(ctx, poly, hw[1], np.asarray(hw[0], complex), eps)
    judge_affine(ctx, poly, aw[0][0], aw[0][1], count, n, eps, hom)
    ctx.close(aw[0][0], np.asarray(aff[0]), 'same affine points with weights', rtol=50 * eps, atol=50 * eps)
    ctx.equal(aw[0][1], np.asarray(aff[1]), 'same patches with weights')
    ctx.close(aw[1], np.asarray(hw[1]), 'same weights in both forms', rtol=max(1e-7, 200 * eps), atol=1e-9)
    ctx.ran(4, 4 * count)


def twins(unit, ctx):
    """Varieties of one equation with different inputs, used in turn."""
    import jax
    import jax.numpy as jnp
    specs = o.twins()
    vs = [s.make() for s in specs]
    order = tour(len(specs), 2)
    for t, i in enumerate(order):
        par = specs[i].par_values[t % 2]
        P = jnp.array(np.array(par, complex))
        ctx.where = dict(inputs=specs[i].name, before=specs[order[t - 1]].name)
        ctx.state((i, order[t - 1], t))
        out = jax.tree_util.tree_map(np.asarray, forms(vs[i], jax.random.PRNGKey(t), P, 4))
        judge_all(ctx, specs[i].poly(par), out, 4, 3, 1e-9)
        new = specs[i].make().sample_intersect(jax.random.PRNGKey(t), P, 4)
        ctx.close(new, out[0], 'points of a new variety', rtol=1e-8, atol=1e-8)
        ctx.ran(1, 4)
    ctx.sample(equation=specs[0].text(), inputs=[s.name for s in specs])


def _run(unit, ctx):
    import jax
    import jax.numpy as jnp
    import cyjax
    if unit['part'] == 'twins':
        return twins(unit, ctx)
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    n, deg = spec.n, spec.degree
    quick = ctx.tier == 'quick'
    eps = 1e-9 if unit['bits'] == 64 else 2e-3
    keys = [jax.random.PRNGKey(k) for k in range(3 if quick else 8)]
    pars = spec.par_values[:2] if quick else spec.par_values
    cdt = np.complex128 if unit['bits'] == 64 else np.complex64
    jit = jax.jit(lambda key, P, count: forms(v, key, P, count), static_argnums=2)

    if unit['part'] in ('counts', 'single'):
        counts = list(range(1 if quick else 0, (2 if quick else 4) * deg + 2)) + [24 if quick else 97]
        if quick and n > 3:
            counts = [1, deg - 1, deg, deg + 1, 2 * deg + 1, 24]
        counts.append(130)
        if unit['part'] == 'single':
            counts = [1, deg, deg + 1]
            pars = pars[:1]
        for par, count in itertools.product(pars, counts):
            poly = spec.poly(par)
            P = None if not spec.params else jnp.array(np.array(par, cdt))
            firsts = []
            for i, key in enumerate(keys[:1] if count > 100 else keys):
                ctx.where = dict(par=par, count=count, key=i)
                ctx.state((unit['spec'], par, count, i, unit['bits']))
                out = jax.tree_util.tree_map(np.asarray, jit(key, P, count))
                judge_all(ctx, poly, out, count, n, eps)
                if count:
                    firsts.append(out[0])
                    ctx.outcome(out[0][0])
            # different keys give different points
            if count:
                for a, b in itertools.combinations(firsts, 2):
                    ctx.check(proj_dist(a, b).min() > 1e-5, 'different keys share a point')
        ctx.sample(family=unit['spec'], counts=counts, point=out[0][0] if len(out[0]) else None)
        return

    # ---- call histories on one object: results are a function of key, moduli and count
    par = pars[0]
    count = deg + 2
    P = None if not spec.params else jnp.array(np.array(par, cdt))
    P2 = None if not spec.params else jnp.array(np.array(spec.par_values[-1], cdt))
    ref = {}
    calls = [('a', keys[0], P, count), ('b', keys[1], P, count), ('c', keys[0], P2, count), ('d', keys[0], P, 1)]
    for name, key, q, cnt in calls:
        ctx.where = dict(call=name)
        fresh = spec.make()
        out = jax.tree_util.tree_map(np.asarray, forms(fresh, key, q, cnt))
        judge_all(ctx, spec.poly(par if name != 'c' else spec.par_values[-1]), out, cnt, n, eps)
        ref[name] = out
    # many points at once
    ctx.where = dict(count=1003)
    hom = np.asarray(v.sample_intersect(keys[1], P, 1003))
    judge_hom(ctx, spec.poly(par), hom, 1003, n, eps)
    ctx.state((unit['spec'], 'many'))
    ctx.ran(1, 1003)
    # multiples of the equation
    for c in (1e-13, 1e9):
        many = cyjax.VarietySingle.from_sympy(f'{c!r}*({spec.text()})', 'z', n, list(spec.params))
        ctx.where = dict(multiple=c)
        hom, aff, hw, aw = jax.tree_util.tree_map(np.asarray, forms(many, keys[2], P, count))
        judge_all(ctx, spec.poly(par), (hom, aff, (hw[0], hw[1] * c ** 2), (aw[0], aw[1] * c ** 2)), count, n, eps)
        ctx.state((unit['spec'], 'multiple', c))
    hists = list(itertools.permutations(range(4), 2))
    for hist in hists[::4] if quick and n > 3 else hists:
        for idx in hist:
            name, key, q, cnt = calls[idx]
            ctx.where = dict(history=hist, call=name)
            hom = v.sample_intersect(key, q, cnt)
            ctx.close(hom, ref[name][0], 'depends on key, moduli and count only', rtol=1e-8, atol=1e-8)
            (aff, pat), w = v.sample_intersect(key, q, cnt, True, True)
            ctx.close(aff, ref[name][3][0][0], 'depends on key, moduli and count only', rtol=1e-8, atol=1e-8)
            ctx.close(w, ref[name][3][1], 'depends on key, moduli and count only', rtol=1e-6, atol=1e-8)
            ctx.state((unit['spec'], hist, name))
            ctx.ran(2, 2 * cnt)
    # compiled, also with traced moduli; vectorized over keys and moduli
    ctx.where = dict(call='jit')
    got = jax.tree_util.tree_map(np.asarray, jit(keys[0], P, count))
    ctx.close(got[0], ref['a'][0], 'jitted', rtol=1e-7, atol=1e-8)
    kk = jnp.stack([keys[0], keys[1]])
    ctx.where = dict(call='vmap')
    if P is None:
        vm = jax.vmap(lambda k: v.sample_intersect(k, None, count, affine=True, weights=True))(kk)
        pl = [par, par]
    else:
        vm = jax.vmap(lambda k, q: v.sample_intersect(k, q, count, affine=True, weights=True))(kk, jnp.stack([P, P2]))
        pl = [par, spec.par_values[-1]]
    for i in range(2):
        ctx.where = dict(call='vmap', row=i)
        one = v.sample_intersect(keys[i], P if i == 0 else P2, count, affine=True, weights=True)
        ctx.equal(vm[0][1][i], one[0][1], 'vectorized patches')
        ctx.close(vm[0][0][i], np.asarray(one[0][0]), 'vectorized points', rtol=1e-7, atol=1e-8)
        ctx.close(vm[1][i], np.asarray(one[1]), 'vectorized weights', rtol=1e-6, atol=1e-8)
        judge_affine(ctx, spec.poly(pl[i]), vm[0][0][i], vm[0][1][i], count, n, eps)
        ctx.ran(1, count)
    ctx.sample(family=unit['spec'], history='ordered pairs of 4 calls')
