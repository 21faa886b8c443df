"""C12: Monte Carlo weights at exactly solved points, for every patch and eliminated coordinate."""
import math

import numpy as np

from mc import oracle as o
from mc.core import leaves, precision
from mc.props.c16 import far_points
from mc.props.c18 import tour

ID = 'C12'
BOUNDS = {
    'quick': '14 hypersurface families plus linear ones in dimension 1-3, all moduli of the alphabet, points solved from '
             'complete products of coordinate values, every admissible (patch, eliminated coordinate) description and the '
             'automatic choice, joint/separate output, normalized/unnormalized/scaled volume; multiples 1e-6..1e5 of the equation in all patches with coordinates up to 150; single, batched, mixed; varieties of one equation with different inputs in turn',
    'thorough': 'as quick with larger coordinate alphabets',
}
VALUES = [0.7 - 0.4j, -0.3, 1, 0, -0.9j, 0.5 + 0.8j]


def units(tier):
    def scenario(c):
        c.pick('kind', ['family', 'linear', 'samples', 'scaled'])
        if c.values['kind'] == 'linear':
            c.pick('n', [3, 4, 5])
        else:
            c.pick('spec', o.SPECS)
    return leaves(scenario) + [dict(kind='twins')]


def run(unit, ctx):
    if unit['kind'] == 'linear':
        return linear(unit, ctx)
    if unit['kind'] == 'samples':
        return samples(unit, ctx)
    if unit['kind'] == 'twins':
        return twins(unit, ctx)
    if unit['kind'] == 'scaled':
        return scaled(unit, ctx)
    import jax.numpy as jnp
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    n = spec.n
    k = {3: 5, 4: 4, 5: 3}[n] + (ctx.tier != 'quick')
    for par in spec.par_values:
        poly = spec.poly(par)
        P = None if not spec.params else jnp.array(np.array(par, complex))
        hom = o.solve_points(poly, n, VALUES[:k], n - 1, 0, mingrad=0.2)
        # more points, solved for another coordinate, not normalized at patch 0
        hom = np.concatenate([hom, o.solve_points(poly, n, VALUES[:2], 0, 1, mingrad=0.2) * (1 - 0.5j)])
        rows, pats, deps, zs = o.descriptions(poly, hom, mingrad=0.2)
        ctx.check(len(zs) > 10, 'points exist')
        ctx.rows((unit['spec'], par), zs, pats, deps)
        Z, PT, DP = jnp.array(zs), jnp.array(pats), jnp.array(deps)
        ww, wv, wd = o.weights(poly, zs, pats, deps)
        ctx.outcomes_rows(ww)
        tol = dict(rtol=1e-8, atol=1e-10)
        ctx.where = dict(par=par, batch=len(zs))
        got = np.asarray(v.sample_intersect_weights(Z, P, PT, DP))
        ctx.close(got, ww, 'weights', **tol)
        ctx.check(np.isrealobj(got) and np.isfinite(got).all() and (got > 0).all(), 'real, finite, positive')
        ctx.close(v.sample_intersect_weights(Z, P, PT), ww, 'weights, automatic elimination', **tol)
        # coordinate-free: all descriptions of one point agree; the holomorphic form exists globally only for
        # degree = number of coordinates, otherwise its patch enters and only the eliminated coordinate is free
        group = rows if spec.degree == n else rows * n + pats
        lo = np.full(group.max() + 1, np.inf)
        hi = np.zeros(group.max() + 1)
        np.minimum.at(lo, group, got)
        np.maximum.at(hi, group, got)
        seen = hi > 0
        ctx.check((hi[seen] <= lo[seen] * (1 + 1e-7)).all(), 'independent of the description')
        a, b = v.sample_intersect_weights(Z, P, PT, DP, separate=True)
        ctx.close(a, wv, 'volume density', **tol)
        ctx.close(b, wd, 'normalized Fubini-Study density', **tol)
        a, b = v.sample_intersect_weights(Z, P, PT, separate=True)
        ctx.close(np.asarray(a) / np.asarray(b), ww, 'ratio, automatic elimination', **tol)
        uw, uv, ud = o.weights(poly, zs, pats, deps, normalized=False)
        ctx.close(v.sample_intersect_weights(Z, P, PT, DP, None), uw, 'weights, unnormalized', **tol)
        a, b = v.sample_intersect_weights(Z, P, PT, DP, vol=None, separate=True)
        ctx.close(a, uv, 'volume density, unnormalized', **tol)
        ctx.close(b, ud, 'Fubini-Study density, unnormalized', **tol)
        for vol in (1, 2.5, 0.3):
            ctx.close(v.sample_intersect_weights(Z, P, PT, DP, vol), vol * ww, 'weights, scaled volume', **tol)
            a, b = v.sample_intersect_weights(Z, P, PT, DP, vol, True)
            ctx.close(np.asarray(a) / np.asarray(b), vol * ww, 'ratio, scaled volume', **tol)
            ctx.close(b, wd, 'Fubini-Study density, scaled volume', **tol)
        ctx.ran(12, 12 * len(zs))
        if P is not None:
            PP = jnp.broadcast_to(P, (len(zs), len(P)))
            ctx.close(v.sample_intersect_weights(Z, PP, PT, DP), ww, 'weights, moduli rows', **tol)
            ctx.ran(1, len(zs))
        for p in range(n):
            for d in range(n - 1):
                m = (pats == p) & (deps == d)
                if not m.any():
                    continue
                ctx.where = dict(par=par, patch=p, dependent=d)
                ctx.close(v.sample_intersect_weights(Z[m], P, p, d), ww[m], 'weights, fixed description', **tol)
                i = int(np.argmax(m))
                ctx.close(v.sample_intersect_weights(Z[i], P, p, d), ww[i], 'weights, single point', **tol)
                ctx.close(v.sample_intersect_weights(Z[i], P, p), ww[i], 'weights, single, automatic', **tol)
                ctx.ran(3, m.sum() + 2)
    ctx.sample(family=unit['spec'], point=zs[0], patch=pats[0], dependent=deps[0], weight=ww[0])


def scaled(unit, ctx):
    """Multiples of the equation, all patches in which the coordinates are not extremely large."""
    import cyjax
    import jax.numpy as jnp
    spec = o.SPECS[unit['spec']]
    n = spec.n
    par = spec.par_values[0]
    base = spec.poly(par)
    P = None if not spec.params else jnp.array(np.array(par, complex))
    hom = o.solve_points(base, n, VALUES[:3 if n < 5 else 2], n - 1, 0, mingrad=0.2)
    for c in (1., 1e-6, 1e-3, 1e5):
        text = f'{c!r}*({spec.text()})'
        v = cyjax.VarietySingle.from_sympy(text, 'z', n, list(spec.params)) if c != 1 else spec.make()
        for p in range(n):
            h = hom[np.abs(hom[:, p]) > 0.02]
            if not len(h):
                continue
            z = o.to_affine(h, p)
            g = base.fix_one(p).grad(z)
            d = np.abs(g).argmax(-1)
            ctx.where = dict(multiple=c, patch=p)
            ctx.rows((unit['spec'], 'scaled', c, p), z)
            ww, wv, wd = o.weights(base, z, np.full(len(z), p), d)
            t = dict(rtol=1e-7, atol=0)
            got = v.sample_intersect_weights(jnp.array(z), P, p)
            ctx.close(np.asarray(got) * c ** 2, ww, 'weights for a multiple of the equation', **t)
            a, b = v.sample_intersect_weights(jnp.array(z), P, p, jnp.array(d), separate=True)
            ctx.close(np.asarray(a) * c ** 2, wv, 'volume density for a multiple of the equation', **t)
            ctx.close(b, wd, 'Fubini-Study density for a multiple of the equation', **t)
            ctx.outcomes_rows(ww)
            ctx.ran(2, 2 * len(z))
        for size in (10, 50, 150):
            h, pt = far_points(base, n, size)
            z = o.to_affine(h, pt)
            d = np.array([np.argmax(np.abs(base.fix_one(int(p)).grad(x))) for p, x in zip(pt, z)])
            ctx.where = dict(multiple=c, size=size)
            ctx.check(len(z) > 3, 'points exist')
            ctx.rows((unit['spec'], 'far', c, size), z)
            ww, wv, wd = o.weights(base, z, pt, d)
            t = dict(rtol=1e-6, atol=0)
            a, b = v.sample_intersect_weights(jnp.array(z), P, jnp.array(pt), jnp.array(d), separate=True)
            ctx.close(np.asarray(a) * c ** 2, wv, 'volume density far out', **t)
            ctx.close(b, wd, 'Fubini-Study density far out', **t)
            got = v.sample_intersect_weights(jnp.array(z), P, jnp.array(pt))
            ctx.close(np.asarray(got) * c ** 2, ww, 'weights far out', **t)
            ctx.ran(2, 2 * len(z))
    ctx.sample(family=unit['spec'], multiple=c)


def twins(unit, ctx):
    """Varieties of one equation with different inputs, used in turn."""
    import jax.numpy as jnp
    specs = o.twins()
    vs = [s.make() for s in specs]
    order = tour(len(specs), 2)
    for t, i in enumerate(order):
        par = specs[i].par_values[t % 2]
        poly = specs[i].poly(par)
        P = jnp.array(np.array(par, complex))
        hom = o.solve_points(poly, 3, VALUES[:2], 2, 0, mingrad=0.2)
        rows, pats, deps, zs = o.descriptions(poly, hom, mingrad=0.2)
        ww, wv, wd = o.weights(poly, zs, pats, deps)
        ctx.where = dict(inputs=specs[i].name, before=specs[order[t - 1]].name)
        ctx.state((i, order[t - 1], t % 2))
        for v in (vs[i], specs[i].make()):
            ctx.close(v.sample_intersect_weights(jnp.array(zs), P, jnp.array(pats), jnp.array(deps)), ww, 'weights', rtol=1e-8)
            a, b = v.sample_intersect_weights(jnp.array(zs), P, jnp.array(pats), separate=True)
            ctx.close(np.asarray(a) / np.asarray(b), ww, 'ratio of the densities', rtol=1e-8)
            ctx.ran(2, 2 * len(zs))
        ctx.outcomes_rows(ww)
    ctx.sample(equation=specs[0].text(), inputs=[s.name for s in specs])


def linear(unit, ctx):
    """Hyperplanes: Fubini-Study volume density integrates to one."""
    import cyjax
    import jax.numpy as jnp
    n = unit['n']
    dim = n - 2
    for drop in range(n):
        v = cyjax.VarietySingle.from_sympy(f'z{drop}', 'z', n)
        for patch in range(n):
            if patch == drop:
                continue
            dep = drop - (drop > patch)
            x = o.grid(VALUES[:4], dim)
            zs = np.insert(x, dep, 0, axis=1)
            ctx.where = dict(zero=drop, patch=patch)
            ctx.rows((n, drop, patch), zs)
            dv, da = v.sample_intersect_weights(jnp.array(zs), None, patch, dep, separate=True)
            r2 = (np.abs(x) ** 2).sum(-1)
            want = math.factorial(dim) / np.pi ** dim / (1 + r2) ** (dim + 1)
            ctx.close(da, want, 'unit total Fubini-Study volume of a linear subspace', rtol=1e-10)
            ctx.close(dv, np.ones(len(zs)), 'volume density', rtol=1e-10)
            ctx.close(v.sample_intersect_weights(jnp.array(zs), None, patch), 1 / want, 'weights', rtol=1e-10)
            ctx.outcomes_rows(want)
            ctx.ran(2, 2 * len(zs))
            if dim == 1:
                # integral over the line by Gauss quadrature: r^2 = t / (1 - t), uniform angle
                t, gw = np.polynomial.legendre.leggauss(12)
                t, gw = (t + 1) / 2, gw / 2
                r = np.sqrt(t / (1 - t))
                pts = np.insert((r * np.exp(0.4j))[:, None], dep, 0, axis=1)
                _, da = v.sample_intersect_weights(jnp.array(pts), None, patch, dep, separate=True)
                total = (np.asarray(da) * np.pi / (1 - t) ** 2 * gw).sum()
                ctx.close(total, 1., 'total volume', rtol=1e-9)
    ctx.sample(hyperplane=f'z{drop}=0', dimension=dim)


def samples(unit, ctx):
    """Weights attached to generated samples, double and single precision."""
    import jax
    import jax.numpy as jnp
    spec = o.SPECS[unit['spec']]
    for bits in (64, 32):
        with precision(bits):
            v = spec.make()
            par = spec.par_values[0]
            P = None if not spec.params else jnp.array(np.array(par, np.complex128 if bits == 64 else np.complex64))
            for k in range(2):
                ctx.where = dict(bits=bits, key=k)
                (zs, pat), w = v.sample_intersect(jax.random.PRNGKey(k), P, spec.degree + 3, affine=True, weights=True)
                zs, pat, w = np.asarray(zs, complex), np.asarray(pat), np.asarray(w)
                ctx.state((unit['spec'], bits, k))
                poly = spec.poly(par)
                g = np.stack([poly.fix_one(int(p)).grad(z) for p, z in zip(pat, zs)])
                ok = np.abs(g).max(-1) > 0.1
                ww, _, _ = o.weights(poly, zs, pat, np.abs(g).argmax(-1))
                ctx.close(w[ok], ww[ok], 'weights of samples', rtol=1e-7 if bits == 64 else 2e-2, atol=1e-9)
                ctx.check((w > 0).all(), 'positive')
                ctx.outcomes_rows(w)
                ctx.ran(1, len(zs))
    ctx.sample(family=unit['spec'], weight=w[0])
