"""C17: one point, all of its descriptions: scalars agree, potentials and tensors transform."""
import numpy as np

from mc import oracle as o
from mc.core import leaves

ID = 'C17'
BOUNDS = {
    'quick': '14 hypersurface families in dimension 1-3, full bases of degree 2 (dimension 3: 1), full complex matrix and '
             'four positive rescalings, points solved from complete products of coordinate values; all pairs of admissible '
             '(patch, eliminated coordinate) descriptions; homogeneous input under 6 complex rescalings; gradient supplied '
             'or left out, eliminated coordinate given or automatic',
    'thorough': 'as quick with all moduli, degrees 1-3 and larger coordinate products',
}
VALUES = [0.7 - 0.4j, -0.3, 1, 0, -0.9j]
SCALES = [1, -2, 0.3 - 1.1j, 1e3j, 1e-9, 1e12 + 2e11j]


def units(tier):
    def scenario(c):
        spec = c.pick('spec', o.SPECS)
        n = o.SPECS[spec].n
        c.pick('k', ([2] if n < 5 else [1]) if tier == 'quick' else [1, 2, 3])
    return leaves(scenario)


def pair_jacobian(poly, hom, a, b):
    """d x'_k / d x_i between local coordinates a=(patch, dep) and b, rows i, columns k."""
    (p, d), (q, e) = a, b
    n = poly.n
    z = o.to_affine(hom[None], p)[0]
    J = o.jac_embed(poly.fix_one(p).grad(z[None]), d)[0]        # d z_j / d x_i
    J = np.insert(J, p, 0, axis=1)                               # homogeneous, Z_p = 1
    Z = hom / hom[p]
    dw = J / Z[q] - Z[None, :] * J[:, [q]] / Z[q] ** 2           # d (Z_j / Z_q)
    dw = np.delete(dw, q, axis=1)
    return np.delete(dw, e, axis=1)


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D, hom_to_affine
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    n, k = spec.n, unit['k']
    sec = D.MonomialBasisFull(n - 1, k)
    am = D.AlgebraicMetric(v, sec)
    cy = spec.degree == n
    H = o.hermitian(sec.size, 'full')
    size = {3: 4, 4: 3, 5: 2}[n] + (ctx.tier != 'quick' and n < 5)

    def everything(*a):
        K = am.kahler_potential(*a)
        g, gp, gd = am.metric(*a)
        R, rp, rd = am.ricci(*a)
        return dict(K=K, g=g, R=R, eta=am.eta(*a), S=am.ricci_scalar(*a), p=gp, d=gd, rp=rp, rd=rd)

    jitted = jax.jit(everything)
    aff = lambda z, p: (lambda x: (x[0], p, x[1]))(hom_to_affine(z))
    get = lambda *a: {q: np.asarray(x) for q, x in jitted(*a).items()}
    for par in (spec.par_values if ctx.tier != 'quick' else spec.par_values[:1]):
        poly = spec.poly(par)
        P = None if not spec.params else jnp.array(np.array(par, complex))
        hom = o.solve_points(poly, n, VALUES[:size], n - 1, 0, mingrad=0.2)
        hom = np.concatenate([hom, o.solve_points(poly, n, VALUES[:2], 0, n - 1, mingrad=0.2)])
        rows, pats, deps, zs = o.descriptions(poly, hom, minabs=0.3, mingrad=0.2)
        Z, PT, DP, h = jnp.array(zs), jnp.array(pats), jnp.array(deps), jnp.array(H)
        r = get(h, Z, P, PT, DP)
        w = np.asarray(v.sample_intersect_weights(Z, P, PT, DP))
        ctx.ran(6, 6 * len(zs))
        ev = np.linalg.eigvalsh(r['g'])
        ok = ev[:, 0] > np.maximum(1e-2 * ev[:, -1], 2e-3)
        ctx.check(ok.mean() > 0.3, 'mostly regular')
        ctx.where = dict(par=par)
        pairs = 0
        for row in sorted(set(rows)):
            idx = np.nonzero((rows == row) & ok)[0]
            for i in idx:
                for j in idx:
                    if j <= i and n > 3:
                        continue
                    a, b = (pats[i], deps[i]), (pats[j], deps[j])
                    det = dict(point=hom[row], first=a, second=b)
                    ctx.state((unit['spec'], k, par, row, a, b))
                    pairs += 1
                    jac = pair_jacobian(poly, hom[row], a, b)
                    t = np.log(np.abs(hom[row][a[0]] / hom[row][b[0]]) ** 2) / np.pi
                    ctx.close(r['K'][j], r['K'][i] + t, 'potential changes by the transition factor', rtol=1e-9, **det)
                    # compare where the target metric is the better conditioned one
                    sc = max(1., np.abs(r['R'][i]).max(), np.abs(r['R'][j]).max(), np.abs(jac).max() ** 2)
                    ctx.close(r['g'][i], jac @ r['g'][j] @ jac.conj().T, 'metric transforms', rtol=1e-7, atol=1e-9 * sc, **det)
                    ctx.close(r['R'][i], jac @ r['R'][j] @ jac.conj().T, 'Ricci tensor transforms', rtol=1e-5,
                              atol=1e-6 * sc * max(1, np.abs(jac).max() ** 2), **det)
                    ctx.close(r['S'][i], r['S'][j], 'Ricci scalar', rtol=1e-5, atol=1e-5, **det)
                    if cy or a[0] == b[0]:
                        ctx.close(r['eta'][i], r['eta'][j], 'volume ratio', rtol=1e-6, atol=1e-10, **det)
                        ctx.close(w[i], w[j], 'Monte Carlo weight', rtol=1e-6, atol=1e-10, **det)
        ctx.outcomes_rows(r['S'])
        # ---- homogeneous input, any rescaling
        first = {}
        for i in np.nonzero(ok)[0]:
            first.setdefault(rows[i], i)
        sel = np.array(sorted(first))
        ref = np.array([first[s] for s in sel])
        base = None
        for lam in SCALES:
            ctx.where = dict(par=par, rescaling=lam)
            ctx.rows((unit['spec'], k, par, lam), hom[sel])
            q = get(h, jnp.array(hom[sel] * lam), P, None, None)
            ww = np.asarray(v.sample_intersect_weights(*aff(jnp.array(hom[sel] * lam), P)))
            ctx.equal(q['p'], q['rp'], 'one patch')
            ctx.equal(q['d'], q['rd'], 'one eliminated coordinate')
            top = np.abs(hom[sel])
            ctx.check((top[np.arange(len(sel)), q['p']] >= top.max(-1) * (1 - 1e-9)).all(), 'largest coordinate')
            good = np.linalg.eigvalsh(q['g'])[:, 0] > 2e-3
            t = np.log(np.abs(hom[sel, pats[ref]] / hom[sel, q['p']]) ** 2) / np.pi
            ctx.close(q['K'], r['K'][ref] + t, 'potential of homogeneous input', rtol=1e-8)
            ctx.close(q['S'][good], r['S'][ref][good], 'Ricci scalar of homogeneous input', rtol=1e-5, atol=1e-5)
            fac = 1.
            if not cy:
                fac = np.abs(hom[sel, pats[ref]] / hom[sel, q['p']]) ** (2 * (spec.degree - n))
            ctx.close(q['eta'], r['eta'][ref] * fac, 'volume ratio of homogeneous input', rtol=1e-6, atol=1e-10)
            ctx.close(ww, w[ref] / fac, 'weight of homogeneous input', rtol=1e-6, atol=1e-10)
            if base is not None:
                same = (q['p'] == base['p']) & (q['d'] == base['d']) & good
                ctx.close(q['g'][same], base['g'][same], 'metric of homogeneous input', rtol=1e-7, atol=1e-9)
                ctx.close(q['R'][same], base['R'][same], 'Ricci tensor of homogeneous input', rtol=1e-5, atol=1e-6)
            base = base or q
            ctx.ran(6, 6 * len(sel))
        # ---- gradient supplied or left out, coordinate given or automatic
        m = np.nonzero(ok)[0]
        grad = np.stack([poly.fix_one(int(pats[i])).grad(zs[i]) for i in m])
        # without ties, so that rounding does not pick the automatic choice
        clear = np.sort(np.abs(grad), -1)
        clear = clear[:, -2] < clear[:, -1] * (1 - 1e-6)
        ctx.check(clear.any(), 'points without ties')
        m, grad = m[clear][:60], jnp.array(grad[clear][:60])
        for given in (True, False):
            ctx.where = dict(par=par, dependent_given=given)
            d = DP[m] if given else None
            with_ = get(h, Z[m], P, PT[m], d, grad)
            without = get(h, Z[m], P, PT[m], d)
            for q in with_:
                if q in ('p', 'd', 'rp', 'rd'):
                    ctx.equal(with_[q], without[q], f'gradient supplied: {q}')
                else:
                    sc = max(1., np.abs(without[q]).max())
                    ctx.close(with_[q], without[q], f'gradient supplied: {q}', rtol=1e-6, atol=1e-7 * sc)
            if cy or given:
                ctx.close(with_['eta'], r['eta'][m], 'volume ratio', rtol=1e-6, atol=1e-10)
            ctx.ran(10, 10 * len(m))
        # ---- positive multiples of the matrix
        for c in (1e-12, 0.5, 3., 1e10):
            ctx.where = dict(par=par, multiple=c)
            q = get(h * c, Z, P, PT, DP)
            ctx.close(q['K'], r['K'] + np.log(c) / (np.pi * k), 'potential of a multiple', rtol=1e-9)
            sc = max(1., np.abs(r['R'][ok]).max())
            for name, tol in (('g', 1e-9), ('eta', 1e-10)):
                ctx.close(q[name], r[name], f'{name} of a multiple', rtol=1e-6, atol=tol)
            for name in ('R', 'S'):
                ctx.close(q[name][ok], r[name][ok], f'{name} of a multiple', rtol=1e-5, atol=1e-7 * sc)
            ctx.rows((unit['spec'], k, par, 'multiple', c), zs)
            ctx.ran(5, 5 * len(zs))
    ctx.sample(family=unit['spec'], pairs=pairs, point=hom[0])
