"""C16: potential, metric, volume ratio and curvature against total derivatives along the variety."""
import numpy as np

from mc import oracle as o
from mc.core import leaves, precision
from mc.props.c18 import tour

ID = 'C16'
BOUNDS = {
    'quick': '14 hypersurface families in dimension 1-3, full bases of degree 1-3 (dimension 3: 1-2) and reduced bases at or '
             'above the degree of the hypersurface where small, matrices identity/diagonal/full complex/strongly anisotropic and multiples 1e-12 and 1e12, '
             'points solved from complete products of coordinate values (and points with coordinates up to 150, also for 1e-7 times the equation), every admissible (patch, eliminated coordinate) '
             'description and the automatic choice, homogeneous input, vectors as diagonal matrices; double precision, one '
             'single precision pass; metrics of different varieties and sections in turn',
    'thorough': 'as quick with all moduli, larger coordinate products and one more degree',
}
VALUES = [0.7 - 0.4j, -0.3, 1, 0, -0.9j]
QTY = ('kahler', 'metric', 'eta', 'ricci', 'ricci_scalar')
REDUCED = {'fermat1': [3, 4], 'dwork1': [4], 'gen1': [3], 'quad2': [2, 3], 'mix1': [4], 'dwork2': [4], 'cub3': [3]}


def units(tier):
    def scenario(c):
        spec = c.pick('spec', o.SPECS)
        n = o.SPECS[spec].n
        if c.pick('part', ['near', 'far']) == 'far':
            c.pick('kind', ['full'])
            c.pick('k', [1] if tier == 'quick' else [1, 2])
            return
        kind = c.pick('kind', ['full', 'reduced'] if spec in REDUCED and (tier != 'quick' or spec not in ('dwork1', 'mix1')) else ['full'])
        if kind == 'full':
            c.pick('k', [1, 2] if n == 5 and tier == 'quick' else [1, 2, 3])
        else:
            c.pick('k', REDUCED[spec][-1:] if tier == 'quick' else REDUCED[spec])
    return leaves(scenario) + [dict(part='twins')]


def sections(spec, v, unit, par):
    from cyjax import donaldson as D
    if unit['kind'] == 'full':
        return D.MonomialBasisFull(spec.n - 1, unit['k'])
    return D.MonomialBasisReduced(v, unit['k'], None if not spec.params else np.array(par, complex))


def matrices(n):
    out = {k: o.hermitian(n, k) for k in ('id', 'diag', 'full')}
    full = out['full']
    s = np.sqrt(1 + 3 * (np.arange(n) % 3))
    out['aniso'] = full * s[:, None] * s[None, :]
    return out


def expect(poly, pows, H, zs, pats, deps, k):
    res = {}
    for p in sorted(set(pats)):
        for d in sorted(set(deps)):
            m = np.nonzero((pats == p) & (deps == d))[0]
            if not len(m):
                continue
            r = o.geometry(poly, pows, H, zs[m], p, d, k)
            for q, v in r.items():
                res.setdefault(q, np.zeros((len(zs),) + v.shape[1:], complex))[m] = v
    return res


def twins(unit, ctx):
    """Metrics of different varieties and sections with equal shapes, used in turn."""
    import jax.numpy as jnp
    from cyjax import donaldson as D
    specs = o.twins()
    full = D.MonomialBasisFull(2, 2)

    class Flip(D.LBSections):
        """The same monomials in reversed order."""
        size = full.size

        def __call__(self, zs, patch, conj=False, **kwargs):
            return full(zs, patch, conj, **kwargs)[..., ::-1]

    flip = Flip(2)
    cases = [(specs[0], full), (specs[2], full), (specs[0], flip), (specs[1], D.MonomialBasisFull(2, 1))]
    ams = [D.AlgebraicMetric(s.make(), sec) for s, sec in cases]
    order = tour(len(cases), 2)
    for t, i in enumerate(order):
        spec, sec = cases[i]
        par = spec.par_values[t % 2]
        poly, P = spec.poly(par), jnp.array(np.array(par, complex))
        pows = [tuple(int(x) for x in e) for e in np.asarray((full if sec is flip else sec).power_matrix)][::-1 if sec is flip else 1]
        H = o.hermitian(sec.size, 'full')
        hom = o.solve_points(poly, 3, VALUES[:2], 2, 0, mingrad=0.2)
        rows, pats, deps, zs = o.descriptions(poly, hom, mingrad=0.2)
        m = slice(t % 3, t % 3 + 3)
        want = expect(poly, pows, H, zs[m], pats[m], deps[m], sec.degree)
        ctx.where = dict(object=i, before=order[t - 1])
        ctx.state((i, order[t - 1], t % 2))
        args = jnp.array(H), jnp.array(zs[m]), P, jnp.array(pats[m]), jnp.array(deps[m])
        for am in (ams[i], D.AlgebraicMetric(spec.make(), sec)):
            tol = dict(rtol=1e-7, atol=1e-9)
            ctx.close(am.kahler_potential(*args), want['kahler'], 'potential', **tol)
            ctx.close(am.metric(*args)[0], want['metric'], 'metric', **tol)
            ctx.close(am.eta(*args), want['eta'], 'volume ratio', **tol)
            ctx.close(am.ricci_scalar(*args), want['ricci_scalar'], 'Ricci scalar', rtol=1e-6, atol=1e-7)
            ctx.ran(4, 12)
        ctx.outcomes_rows(want['eta'])
    ctx.sample(equation=specs[0].text(), objects=len(cases))


def far_points(poly, n, t):
    """Points for which coordinate 1/t, that of the given patch, is small; and the patches."""
    hom, pats = [], []
    for p in range(n):
        others = [i for i in range(n) if i != p]
        for last in others[::n - 2]:
            free = [i for i in others if i != last]
            for vals in ([0.8 - 0.5j, -0.6, 0.9j], [1, 0.5j, 0.4]):
                z = np.zeros(n, complex)
                z[p] = 1 / t
                z[free] = vals[:len(free)]
                co = np.array([c(z) for c in poly.collect(last)])
                nz = np.nonzero(np.abs(co) > 1e-9)[0]
                for r in np.roots(co[nz[0]:])[:2]:
                    x = z.copy()
                    x[last] = r
                    g = np.abs(poly.grad(x))
                    if np.abs(x).max() < 3 and np.delete(g, np.argmax(np.abs(x))).max() > 0.2 and np.delete(g, p).max() > 0.2:
                        hom.append(x)
                        pats.append(p)
    return np.array(hom), np.array(pats)


def far(unit, ctx):
    """Patches in which the coordinates are large and the metric is tiny."""
    import jax
    import jax.numpy as jnp
    import cyjax
    from cyjax import donaldson as D
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    n, k = spec.n, unit['k']
    par = spec.par_values[0]
    P = None if not spec.params else jnp.array(np.array(par, complex))
    poly = spec.poly(par)
    sec = sections(spec, v, unit, par)
    pows = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    am = D.AlgebraicMetric(v, sec)
    H = o.hermitian(sec.size, 'full')

    def compiled(am):
        return jax.jit(lambda h, z, par, patch: (
            am.metric(h, z, par, patch), am.ricci_scalar(h, z, par, patch), am.eta(h, z, par, patch)))

    quantities = compiled(am)
    factor = 1e-7
    multiple = compiled(D.AlgebraicMetric(
        cyjax.VarietySingle.from_sympy(f'{factor!r}*({spec.text()})', 'z', n, list(spec.params)), sec))

    for t, tol in ((10, 1e-6), (50, 1e-4), (150, 3e-3)):
        hom, pats = far_points(poly, n, t)
        best = np.argmax(np.abs(hom), axis=1)
        zs, zb = o.to_affine(hom, pats), o.to_affine(hom, best)
        ctx.where = dict(size=t)
        ctx.check(len(zs) > 3, 'points exist')
        ctx.rows((str(unit), t), zs, pats)
        db = np.array([np.argmax(np.abs(poly.fix_one(int(p)).grad(z))) for p, z in zip(best, zb)])
        (g, gp, gd), S, eta = jax.tree_util.tree_map(np.asarray, quantities(jnp.array(H), jnp.array(zs), P, jnp.array(pats)))
        want = expect(poly, pows, H, zs, pats, gd, k)
        inner = expect(poly, pows, H, zb, best, db, k)
        ok = np.linalg.eigvalsh(inner['metric'])[:, 0] > 5e-3
        ctx.check(ok.mean() > 0.3, 'mostly regular')
        sc = np.abs(want['metric']).max((1, 2), keepdims=True)
        ctx.close((g / sc)[ok], (want['metric'] / sc)[ok], 'metric far out', rtol=1e-6, atol=1e-6)
        ctx.close((eta / want['eta'])[ok], np.ones(ok.sum()), 'volume ratio far out', rtol=1e-6, atol=1e-6)
        big = np.abs(inner['ricci_scalar'][ok]).max()
        ctx.close(S[ok], inner['ricci_scalar'][ok], 'Ricci scalar far out', rtol=tol, atol=tol * big)
        ctx.outcomes_rows(S[ok])
        ctx.ran(3, 3 * ok.sum())
        (gm, _, gd), Sm, em = jax.tree_util.tree_map(np.asarray, multiple(jnp.array(H), jnp.array(zs), P, jnp.array(pats)))
        want = expect(poly, pows, H, zs, pats, gd, k)
        ctx.close((gm / sc)[ok], (want['metric'] / sc)[ok], 'metric for a multiple of the equation', rtol=1e-6, atol=1e-6)
        ctx.close((em / want['eta'])[ok] / factor ** 2, np.ones(ok.sum()), 'volume ratio for a multiple of the equation', rtol=1e-6, atol=1e-6)
        ctx.close(Sm[ok], inner['ricci_scalar'][ok], 'Ricci scalar for a multiple of the equation', rtol=tol, atol=tol * big)
        ctx.ran(3, 3 * ok.sum())
    ctx.sample(family=unit['spec'], far_point=zs[0], patch=pats[0], metric=g[0])


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    if unit['part'] == 'twins':
        return twins(unit, ctx)
    if unit['part'] == 'far':
        return far(unit, ctx)
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    n, k = spec.n, unit['k']
    size = {3: 4, 4: 3, 5: 2}[n] + (ctx.tier != 'quick' and n < 5)
    deep = ctx.tier != 'quick' or k == 2 or unit['kind'] == 'reduced'
    pars = spec.par_values if ctx.tier != 'quick' else spec.par_values[:2]
    if n == 5 or not deep:
        pars = pars[:1]
    sec = sections(spec, v, unit, pars[0])
    pows = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    am = D.AlgebraicMetric(v, sec)

    def everything(h, zs, params, patch, dep):
        a = (h, zs, params, patch, dep)
        return (am.kahler_potential(*a), am.metric(*a), am.eta(*a), am.ricci(*a), am.ricci_scalar(*a))

    jitted = jax.jit(everything)

    def auto(h, zs, params, patch):
        a = (h, zs, params, patch)
        return (am.kahler_potential(*a), am.metric(*a), am.eta(*a), am.ricci(*a), am.ricci_scalar(*a))

    jauto = jax.jit(auto)

    @jax.jit
    def diagonal(h, zs, params, patch, dep):
        def one(z, p, d):
            g = D.GeometricObjects(h, z, params, v, sec, p, dependent=d)
            return g.kahler, (g.g_loc, g.patch, g.dependent), g.eta, (g.ricci_loc, g.patch, g.dependent), g.ricci_scalar
        return jax.vmap(one)(zs, patch, dep)

    def compare(got, want, pats, deps, what):
        K, (g, gp, gd), eta, (R, rp, rd), S = [jax.tree_util.tree_map(np.asarray, x) for x in got]
        if pats is not None:
            ctx.equal(gp, pats, f'{what}: patch reported with the metric')
            ctx.equal(gd, deps, f'{what}: coordinate reported with the metric')
            ctx.equal(rp, pats, f'{what}: patch reported with the Ricci tensor')
            ctx.equal(rd, deps, f'{what}: coordinate reported with the Ricci tensor')
        tol = dict(rtol=1e-7, atol=1e-8)
        ctx.close(K, want['kahler'], f'{what}: potential', **tol)
        ctx.close(g, want['metric'], f'{what}: metric', **tol)
        ctx.close(eta, want['eta'], f'{what}: volume ratio', rtol=1e-7, atol=1e-12)
        sc = max(1, np.abs(want['ricci']).max())
        ctx.close(R, want['ricci'], f'{what}: Ricci tensor', rtol=1e-6, atol=1e-7 * sc)
        ctx.close(S, want['ricci_scalar'], f'{what}: Ricci scalar', rtol=1e-6, atol=1e-7 * sc)
        ctx.close(g, g.conj().swapaxes(-1, -2), f'{what}: metric Hermitian', **tol)
        ctx.close(R, R.conj().swapaxes(-1, -2), f'{what}: Ricci tensor Hermitian', rtol=1e-6, atol=1e-7 * sc)
        ctx.check((np.linalg.eigvalsh(g) > 0).all(), f'{what}: metric positive')
        ctx.check(np.abs(eta.imag).max() <= 1e-9 * np.abs(eta).max(), f'{what}: ratio real')
        ctx.check(np.abs(S.imag).max() <= 1e-7 * sc, f'{what}: scalar real')
        ctx.check((eta.real > 0).all(), f'{what}: ratio positive')

    for par in pars:
        poly = spec.poly(par)
        P = None if not spec.params else jnp.array(np.array(par, complex))
        hom = o.solve_points(poly, n, VALUES[:size], n - 1, 0, mingrad=0.2)
        hom = np.concatenate([hom, o.solve_points(poly, n, VALUES[:2], 0, n - 1, mingrad=0.2)])
        rows, pats, deps, zs = o.descriptions(poly, hom, minabs=0.3, mingrad=0.2)
        ctx.check(len(zs) > 10, 'points exist')
        Z, PT, DP = jnp.array(zs), jnp.array(pats), jnp.array(deps)
        for name, H in matrices(sec.size).items():
            if name == 'id' and (n == 5 or not deep):
                continue
            ctx.where = dict(par=par, matrix=name)
            ctx.rows((unit['spec'], str(unit), par, name), zs, pats, deps)
            want = expect(poly, pows, H, zs, pats, deps, k)
            # points where the metric degenerates are reported with the loss of accuracy they cause
            ev = np.linalg.eigvalsh(want['metric'])
            ok = ev[:, 0] > np.maximum(1e-2 * ev[:, -1], 2e-3)
            ctx.check(ok.mean() > 0.3, 'mostly regular', share=ok.mean())
            sel = lambda t: jax.tree_util.tree_map(lambda x: x[ok], t)
            h = jnp.array(H)
            compare(sel(jitted(h, Z, P, PT, DP)), sel(want), pats[ok], deps[ok], 'compiled')
            ctx.outcomes_rows(want['eta'][ok])
            ctx.ran(5, 5 * ok.sum())
            if name == 'full':
                for c in (1e-12, 1e12):
                    ctx.where['multiple'] = c
                    many = dict(want, kahler=want['kahler'] + np.log(c) / (np.pi * k))
                    compare(sel(jitted(c * h, Z, P, PT, DP)), sel(many), pats[ok], deps[ok], 'multiple of the matrix')
                    ctx.ran(5, 5 * ok.sum())
            if not deep:
                continue
            if name in ('id', 'diag'):
                compare(sel(diagonal(jnp.array(np.diag(H).real), Z, P, PT, DP)), sel(want), pats[ok], deps[ok],
                        'diagonal as vector')
                ctx.ran(5, 5 * ok.sum())
            # automatic elimination: some maximiser of the gradient
            got = jauto(h, Z, P, PT)
            gd, rd = np.asarray(got[1][2]), np.asarray(got[3][2])
            g = np.stack([np.abs(poly.fix_one(int(p)).grad(z)) for p, z in zip(pats, zs)])
            for dd in (gd, rd):
                ctx.check((g[np.arange(len(g)), dd] >= g.max(-1) * (1 - 1e-9)).all(), 'eliminates a steepest coordinate')
            ctx.equal(gd, rd, 'one elimination')
            wa = expect(poly, pows, H, zs, pats, gd, k)
            compare(sel(got), sel(wa), pats[ok], gd[ok], 'automatic')
            ctx.ran(5, 5 * ok.sum())
            # plain, single points, one per description kind
            if name == 'full':
                seen = set()
                for i in np.nonzero(ok)[0]:
                    if (pats[i], deps[i]) in seen or (len(seen) > 1 and ctx.tier == 'quick'):
                        continue
                    seen.add((pats[i], deps[i]))
                    one = lambda t: jax.tree_util.tree_map(lambda x: np.asarray(x)[i], t)
                    compare(jax.tree_util.tree_map(np.asarray, everything(h, Z[i], P, int(pats[i]), int(deps[i]))),
                            one(want), pats[i], deps[i], 'single')
                    ctx.ran(5, 5)
        if not deep:
            continue
        # homogeneous input: the patch is chosen by the library, everything else as in that patch
        H = matrices(sec.size)['full']
        m = min(len(hom), 40)
        got = jax.jit(lambda h, z, p: auto(h, z, p, None))(jnp.array(H), jnp.array(hom[:m] * (0.3 - 1.1j)), P)
        gp, gd = np.asarray(got[1][1]), np.asarray(got[1][2])
        ctx.check((np.abs(hom[np.arange(m), gp]) >= np.abs(hom[:m]).max(-1) * (1 - 1e-9)).all(), 'patch of the largest coordinate')
        aff = o.to_affine(hom[:m], gp)
        wh = expect(poly, pows, H, aff, gp, gd, k)
        ok = np.linalg.eigvalsh(wh['metric'])[:, 0] > 2e-3
        sel = lambda t: jax.tree_util.tree_map(lambda x: np.asarray(x)[ok], t)
        ctx.where = dict(par=par, homogeneous=True)
        compare(sel(got), sel(wh), gp[ok], gd[ok], 'homogeneous')
        ctx.ran(5, 5 * ok.sum())
    if n < 5 and k == 2:
        with precision(32):
            sec32 = sections(spec, spec.make(), unit, pars[0])
            am32 = D.AlgebraicMetric(spec.make(), sec32)
            H = matrices(sec.size)['full']
            p32 = None if P is None else P.astype(np.complex64)
            a = (jnp.array(H, np.complex64), jnp.array(zs, np.complex64), p32, PT.astype(np.int32), DP.astype(np.int32))
            want = expect(poly, pows, H, zs, pats, deps, k)
            ev = np.linalg.eigvalsh(want['metric'])
            ok = ev[:, 0] > 0.02
            ctx.where = dict(par=par, bits=32)
            ctx.close(np.asarray(am32.metric(*a)[0])[ok], want['metric'][ok], 'single precision metric', rtol=1e-2, atol=1e-3)
            ctx.close(np.asarray(am32.eta(*a))[ok], want['eta'][ok], 'single precision ratio', rtol=3e-2, atol=1e-2)
            ctx.ran(2, 2 * ok.sum())
    ctx.sample(family=unit['spec'], sections=len(pows), point=zs[0], patch=pats[0], dependent=deps[0])
