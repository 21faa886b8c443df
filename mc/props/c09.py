"""C09: gradient, embedding Jacobian and induced metric for all patches and eliminated coordinates."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props.c18 import tour

ID = 'C09'
BOUNDS = {
    'quick': '13 hypersurface families (complex coefficients, 0-2 parameters, degree different from dimension), up to '
             '3 moduli each, every patch and homogeneous input, every eliminated coordinate or none, complete products '
             'of 5/4/3 coordinate values (not only on the variety); conjugate coordinates/gradient left out, given, '
             'independent; three ambient metrics; single, batched and mixed calls; varieties of one equation with different inputs in turn',
    'thorough': 'as quick with products of 8/6/4/3 values',
}
VALUES = [0.7 - 0.4j, 1, -1.3j, 0, 2 + 1j, -0.2 + 0.9j, -1, 0.1]
PARTS = ['gradient', 'jacobian', 'metric', 'conjugate', 'plain']


def units(tier):
    def scenario(c):
        c.pick('spec', o.SPECS)
        c.pick('part', PARTS)
    return leaves(scenario) + [dict(part='twins')]


def points(spec, tier):
    m = spec.n - 1
    k = {2: 5, 3: 4, 4: 3}[m] if tier == 'quick' else {2: 8, 3: 6, 4: 4}[m]
    return o.grid(VALUES[:k], m)


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    import cyjax
    if unit['part'] == 'twins':
        return twins(unit, ctx)
    spec = o.SPECS[unit['spec']]
    part = unit['part']
    v = spec.make()
    n, m = spec.n, spec.n - 1
    aff = points(spec, ctx.tier)
    tol = dict(rtol=1e-10, atol=1e-10)
    ctx.check(v.dim_complex == n and v.dim_projective == n - 1 and v.dim == v.dim_variety == n - 2
              and v.par_count == len(spec.params) and [str(s) for s in v.parameters] == list(spec.params)
              and v.num_defining == 1, 'dimensions and parameters')

    if part == 'plain':
        return plain(unit, ctx, spec, m)

    for par in spec.par_values:
        poly = spec.poly(par)
        P = None if not spec.params else jnp.array(np.array(par, complex))
        ctx.where = dict(par=par)
        if part == 'gradient':
            hom = o.grid(VALUES[:3], n)
            ctx.close(v.defining(jnp.array(hom), P), poly(hom), 'defining, homogeneous', **tol)
            ctx.close(v.grad_defining(jnp.array(hom), P), poly.grad(hom), 'gradient, homogeneous', **tol)
            ctx.close(v.grad_defining(jnp.array(hom[-1]), P), poly.grad(hom[-1]), 'gradient, single', **tol)
            ctx.ran(3, 2 * len(hom))
            ctx.rows((unit['spec'], par, 'hom'), hom)
            allz = np.concatenate([aff] * n)
            allp = np.repeat(np.arange(n), len(aff))
            wd = np.concatenate([poly.fix_one(p)(aff) for p in range(n)])
            wg = np.concatenate([poly.fix_one(p).grad(aff) for p in range(n)])
            ctx.rows((unit['spec'], par, 'aff'), allz, allp)
            ctx.outcomes_rows(wg)
            ctx.close(v.defining(jnp.array(allz), P, jnp.array(allp)), wd, 'defining, all patches', **tol)
            ctx.close(v.grad_defining(jnp.array(allz), P, jnp.array(allp)), wg, 'gradient, all patches', **tol)
            if P is not None:
                PP = jnp.broadcast_to(P, (len(allz), len(P)))
                ctx.close(v.grad_defining(jnp.array(allz), PP, jnp.array(allp)), wg, 'gradient, parameter rows', **tol)
            for p in range(n):
                ctx.where = dict(par=par, patch=p)
                ctx.close(v.grad_defining(jnp.array(aff), P, p), poly.fix_one(p).grad(aff), 'gradient in patch', **tol)
                ctx.close(v.grad_defining(jnp.array(aff[-1]), P, p), poly.fix_one(p).grad(aff[-1]),
                          'gradient in patch, single', **tol)
                ctx.ran(2, len(aff))
            best = np.asarray(v.best_dependent(jnp.array(allz), P, jnp.array(allp)))
            maximal(ctx, best, wg, 'best dependent coordinate')
            for r in range(0, len(allz), max(1, len(allz) // 16)):
                b = v.best_dependent(jnp.array(allz[r]), P, int(allp[r]))
                maximal(ctx, np.asarray(b)[None], wg[r:r + 1], 'best dependent coordinate, single')
            ctx.ran(4, 3 * len(allz))
            # keyword call
            ctx.close(v.grad_defining(zs=jnp.array(aff), params=P, patch=1), poly.fix_one(1).grad(aff), 'keywords', **tol)
        else:
            # points where at least one gradient entry is not small
            for p in range(n):
                f = poly.fix_one(p)
                G = f.grad(aff)
                for d in list(range(m)) + [None]:
                    amax = np.abs(G).max(-1)
                    if d is None:
                        keep = amax > 0.1
                    else:
                        keep = np.abs(G[:, d]) > np.maximum(0.05, 0.05 * amax)
                    z, g = aff[keep], G[keep]
                    if not len(z):
                        continue
                    ctx.where = dict(par=par, patch=p, dependent=d)
                    ctx.rows((unit['spec'], par, p, d, part), z)
                    if part == 'jacobian':
                        jacobian(ctx, v, jnp, cyjax, z, g, P, p, d, tol)
                    elif part == 'metric':
                        metric(ctx, v, jnp, cyjax, z, g, P, p, d, tol)
                    else:
                        conjugate(ctx, v, jnp, cyjax, poly, z, g, P, p, d, tol)
    ctx.sample(family=unit['spec'], text=spec.text(), point=aff[-1])


def twins(unit, ctx):
    """Varieties of one equation with different inputs, used in turn."""
    import jax.numpy as jnp
    specs = o.twins()
    vs = [s.make() for s in specs]
    order = tour(len(specs), 2)
    tol = dict(rtol=1e-10, atol=1e-10)
    for t, i in enumerate(order):
        poly = specs[i].poly(specs[i].par_values[t % 2])
        P = jnp.array(np.array(specs[i].par_values[t % 2], complex))
        z = np.array([[0.7 - 0.4j, -0.3 + 0.1j * t], [0.2j, 1.1]])
        for p in range(3):
            g = poly.fix_one(p).grad(z)
            ctx.where = dict(inputs=specs[i].name, before=specs[order[t - 1]].name, patch=p)
            ctx.state((i, order[t - 1], t % 2, p))
            for v in (vs[i], specs[i].make()):
                ctx.close(v.defining(jnp.array(z), P, p), poly.fix_one(p)(z), 'defining', **tol)
                ctx.close(v.grad_defining(jnp.array(z), P, p), g, 'gradient', **tol)
                j, d = v.jacobian_embed(jnp.array(z), P, p)
                ctx.close(j, np.stack([o.jac_embed(a, int(b)) for a, b in zip(g, d)]), 'Jacobian', **tol)
                ctx.ran(3, 6)
        ctx.outcomes_rows(g)
    ctx.sample(equation=specs[0].text(), inputs=[s.name for s in specs])


def maximal(ctx, dep, grad, what):
    """The chosen index is a maximiser of the gradient modulus (any one if several)."""
    a = np.abs(grad)
    rows = np.arange(len(a))
    ctx.check(dep.shape == (len(a),), what + ': shape', got=dep.shape)
    ctx.check(((dep >= 0) & (dep < a.shape[1])).all(), what + ': range')
    bad = a[rows, dep] < a.max(-1) * (1 - 1e-9) - 1e-12
    ctx.check(not bad.any(), what, index=int(np.argmax(bad)), got=dep[np.argmax(bad)], grad=grad[np.argmax(bad)])


def jacobian(ctx, v, jnp, cyjax, z, g, P, p, d, tol):
    Z = jnp.array(z)
    pat = jnp.full(len(z), p)
    if d is None:
        j, dep = v.jacobian_embed(Z, P, pat)
        dep = np.asarray(dep)
        maximal(ctx, dep, g, 'reported dependent coordinate')
        j1, d1 = v.jacobian_embed(Z[0], P, p)
        ctx.close(j1, o.jac_embed(g[0], int(d1)), 'Jacobian, single', **tol)
        maximal(ctx, np.asarray(d1)[None], g[:1], 'reported dependent coordinate, single')
        j2, d2 = v.jacobian_embed(Z, P, p, None)
        ctx.close(j2, o.jac_embed(g, np.asarray(d2)), 'Jacobian, explicit None', **tol)
    else:
        j = v.jacobian_embed(Z, P, pat, d)
        dep = np.full(len(z), d)
        ctx.close(v.jacobian_embed(Z[0], P, p, d), o.jac_embed(g[0], d), 'Jacobian, single', **tol)
        ctx.close(v.jacobian_embed(Z, P, p, jnp.array(dep)), o.jac_embed(g, d), 'Jacobian, index per row', **tol)
        ctx.close(cyjax.jacobian_embed(jnp.array(g), d), o.jac_embed(g, d), 'Jacobian of gradient', **tol)
        ctx.close(cyjax.jacobian_embed(jnp.array(g), jnp.array(dep)), o.jac_embed(g, d),
                  'Jacobian of gradient, rows', **tol)
        ctx.close(cyjax.jacobian_embed(jnp.array(g[-1]), d), o.jac_embed(g[-1], d), 'Jacobian of gradient, single', **tol)
    j = np.asarray(j)
    ctx.close(j, o.jac_embed(g, dep), 'Jacobian', **tol)
    m = z.shape[-1]
    ctx.check(j.shape == (len(z), m - 1, m), 'one row per local coordinate')
    ctx.close(np.einsum('rij,rj->ri', j, g) / np.abs(g).max(-1, keepdims=True), np.zeros((len(z), m - 1)),
              'annihilates the gradient', rtol=0, atol=1e-9)
    for r in range(0, len(z), max(1, len(z) // 8)):
        keep = [i for i in range(m) if i != dep[r]]
        ctx.close(j[r][:, keep], np.eye(m - 1), 'identity on local coordinates', **tol)
    ctx.ran(4, 3 * len(z))


def ambients(cyjax, jnp, z):
    m = z.shape[-1]
    i = np.arange(m)
    A = np.cos(i[:, None] * 2 + i) + 1j * np.sin(1 + 3 * i[:, None] - i) + 2 * np.eye(m)   # not Hermitian
    return [('fs', o.fs_metric(z)), ('constant', np.broadcast_to(A, (len(z), m, m))),
            ('varying', A * (1 + np.arange(len(z)))[:, None, None] / len(z))]


def metric(ctx, v, jnp, cyjax, z, g, P, p, d, tol):
    Z = jnp.array(z)
    pat = jnp.full(len(z), p)
    for name, met in ambients(cyjax, jnp, z):
        ctx.where['ambient'] = name
        M = jnp.array(met)
        for conj in (False, True):
            zc = jnp.array(z.conj()) if conj else None
            got = v.induced_metric(M, Z, P, pat, zc, d)
            if d is None:
                got, dep = got
                dep = np.asarray(dep)
                maximal(ctx, dep, g, 'reported dependent coordinate')
            else:
                dep = np.full(len(z), d)
            J = o.jac_embed(g, dep)
            want = J @ met @ J.conj().swapaxes(-1, -2)
            ctx.close(got, want, 'induced metric', **tol)
            ctx.outcomes_rows(want[:50])
            one = v.induced_metric(M[0], Z[0], P, p, None if zc is None else zc[0], d)
            if d is None:
                one, d1 = one
                J1 = o.jac_embed(g[0], int(d1))
                ctx.close(one, J1 @ met[0] @ J1.conj().T, 'induced metric, single', **tol)
            else:
                ctx.close(one, want[0], 'induced metric, single', **tol)
            ctx.ran(2, len(z) + 1)
        if d is not None:
            # function form: conjugate gradient left out, given, and independent
            gc = np.conj(g)
            ctx.close(cyjax.induced_metric(M, jnp.array(g), d), want, 'function', **tol)
            ctx.close(cyjax.induced_metric(M, jnp.array(g), d, jnp.array(gc)), want, 'function, conjugate given', **tol)
            ctx.close(cyjax.induced_metric(M, jnp.array(g), jnp.full(len(z), d), None), want, 'function, rows', **tol)
            g2 = gc * (1 + 0.5j) + 0.3 * np.arange(1, gc.shape[1] + 1)
            ok = np.abs(g2[:, d]) > 0.05
            if ok.any():
                w2 = J[ok] @ met[ok] @ o.jac_embed(g2[ok], d).swapaxes(-1, -2)
                ctx.close(cyjax.induced_metric(M[ok], jnp.array(g[ok]), d, jnp.array(g2[ok])), w2,
                          'function, independent conjugate gradient', rtol=1e-9, atol=1e-9)
            ctx.ran(4, 4 * len(z))
    fs = v.induced_fs(Z, P, pat, None, d)
    fc = v.induced_fs(Z, P, pat, jnp.array(z.conj()), d)
    if d is None:
        (fs, dep), (fc, dep2) = fs, fc
        maximal(ctx, np.asarray(dep), g, 'reported dependent coordinate')
        maximal(ctx, np.asarray(dep2), g, 'reported dependent coordinate')
        J, J2 = o.jac_embed(g, np.asarray(dep)), o.jac_embed(g, np.asarray(dep2))
    else:
        J = J2 = o.jac_embed(g, d)
    w = o.fs_metric(z)
    want = J @ w @ J.conj().swapaxes(-1, -2)
    ctx.close(fs, want, 'induced Fubini-Study metric', **tol)
    ctx.close(fc, J2 @ w @ J2.conj().swapaxes(-1, -2), 'induced Fubini-Study metric, conjugate given', **tol)
    ctx.check(np.linalg.eigvalsh(np.asarray(fs)).min() > 0, 'positive definite')
    ctx.ran(2, 2 * len(z))


def conjugate(ctx, v, jnp, cyjax, poly, z, g, P, p, d, tol):
    """Explicit conjugates: any value, not just the actual conjugate."""
    zc = z.conj() * (1 - 0.2j) + 0.1
    f = poly.fix_one(p)
    # the conjugate polynomial at zc
    gc = f.grad(zc.conj()).conj()
    if d is None:
        dep = np.argmax(np.abs(g), -1)
    else:
        dep = np.full(len(z), d)
    rows = np.arange(len(z))
    ok = (np.abs(gc[rows, dep]) > 0.05) & (np.abs(1 + (z * zc).sum(-1)) > 0.2)
    if not ok.any():
        return
    z, zc, g, gc, dep = z[ok], zc[ok], g[ok], gc[ok], dep[ok]
    met = o.fs_metric(z, zc)
    got = v.induced_metric(jnp.array(met), jnp.array(z), P, p, jnp.array(zc), jnp.array(dep))
    want = o.jac_embed(g, dep) @ met @ o.jac_embed(gc, dep).swapaxes(-1, -2)
    ctx.close(got, want, 'induced metric, independent conjugates', rtol=1e-8, atol=1e-8)
    got = v.induced_fs(jnp.array(z), P, p, jnp.array(zc), jnp.array(dep))
    ctx.close(got, want, 'induced FS metric, independent conjugates', rtol=1e-8, atol=1e-8)
    ctx.ran(2, 2 * len(z))


def plain(unit, ctx, spec, m):
    """Jacobian and pullback of plain gradient values, complete products incl. zeros; real and complex."""
    import jax.numpy as jnp
    import cyjax
    vals = [1, 0, -2, 0.5j, 3 - 1j][:5 if m < 4 else 3]
    g = o.grid(vals, m)
    real = o.grid([1., 0., -2., 0.5], m).real
    for d in range(m):
        for arr in (g, real):
            a = arr[arr[:, d] != 0]
            ctx.where = dict(dependent=d, real=arr is real)
            ctx.close(cyjax.jacobian_embed(jnp.array(a), d), o.jac_embed(a, d), 'Jacobian', rtol=1e-12, atol=1e-12)
            ctx.rows((unit['spec'], d, 'plain'), a)
            k = len(a) // 2
            ctx.close(cyjax.jacobian_embed(jnp.array(a[:2 * k]).reshape(2, k, m), d),
                      o.jac_embed(a[:2 * k], d).reshape(2, k, m - 1, m), 'two leading axes', rtol=1e-12, atol=1e-12)
            ctx.ran(2, 2 * len(a))
        # only ratios of the gradient enter
        a = g[g[:, d] != 0]
        A = np.cos(np.arange(m * m)).reshape(m, m) + 1j
        J = o.jac_embed(a, d)
        for s in (1e-12, 1e-6, 1e9):
            ctx.where = dict(dependent=d, scale=s)
            ctx.rows((unit['spec'], d, 'scale', s), a)
            ctx.close(cyjax.jacobian_embed(jnp.array(a * s), d), J, 'Jacobian of a scaled gradient', rtol=1e-12, atol=1e-12)
            got = np.asarray(cyjax.induced_metric(jnp.array(A * s), jnp.array(a * s), d)) / s
            ctx.close(got, J @ A @ J.conj().swapaxes(-1, -2), 'pullback with a scaled gradient', rtol=1e-11, atol=1e-11)
            ctx.ran(2, 2 * len(a))
    # all dependent indices at once for one gradient
    a = g[np.all(g != 0, 1)][-1]
    ctx.close(cyjax.jacobian_embed(jnp.array(a), jnp.arange(m)), np.stack([o.jac_embed(a, d) for d in range(m)]),
              'index batch only', rtol=1e-12, atol=1e-12)
    ctx.sample(gradient=a)
