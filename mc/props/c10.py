"""C10: completing partial coordinates to points of the variety, every position and patch."""
import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props.c18 import tour

ID = 'C10'
BOUNDS = {
    'quick': '13 hypersurface families (+ 4 with shifted coordinate labels), all moduli of the alphabet, affine input in '
             'every patch and homogeneous input, every missing coordinate, complete products of 5/4/3 given values '
             '(zeros and multiple roots included); single, batched, doubly batched, moduli batched along; homogeneous given values also scaled by 2^-24 and 2^10; varieties of one equation with different inputs in turn',
    'thorough': 'as quick with products of 7/5/4 values',
}
VALUES = [0, 1, -1.3j, 0.7 - 0.4j, 2 + 1j, -1, 0.1]
SCALES = [2. ** -24, 2. ** 10]
SHIFTED = ['dwork1', 'gen1', 'gen2', 'mix1']


def units(tier):
    def scenario(c):
        c.pick('spec', o.SPECS)
        c.pick('labels', ['plain', 'shifted'] if c.values['spec'] in SHIFTED else ['plain'])
        c.pick('patch', [None] + list(range(o.SPECS[c.values['spec']].n)))
    return leaves(scenario) + [dict(part='twins')]


def variety(spec, labels):
    import cyjax
    if labels == 'plain':
        return spec.make()
    start = 2
    return cyjax.VarietySingle(cyjax.HomPoly.from_sympy(
        spec.text('x', start=start), ['x'], list(spec.params),
        variable_indices=[list(range(start, start + spec.n))]))


def twins(unit, ctx):
    """Varieties of one equation with different inputs, used in turn."""
    import jax.numpy as jnp
    specs = o.twins()
    vs = [s.make() for s in specs]
    order = tour(len(specs), 2)
    for t, i in enumerate(order):
        par = specs[i].par_values[t % 2]
        for patch in (None, t % 3):
            size = 3 if patch is None else 2
            poly = specs[i].poly(par) if patch is None else specs[i].poly(par).fix_one(patch)
            z = np.array([[0.7 - 0.4j, -0.3 + 0.1j * t]])[:, :size - 1]
            for dep in range(size):
                ctx.where = dict(inputs=specs[i].name, before=specs[order[t - 1]].name, patch=patch, dependent=dep)
                ctx.state((i, order[t - 1], t, patch, dep))
                full = np.insert(z, dep, 0, axis=1)
                deg = max(e[dep] for e in poly.t)
                cf = np.array([[sum((c * np.prod([full[0, q] ** k for q, k in enumerate(e) if q != dep and k] or [1])
                                     for e, c in poly.t.items() if e[dep] == d), 0j) for d in range(deg, -1, -1)]])
                for v in (vs[i], specs[i].make()):
                    got = np.asarray(v.solve_defining(jnp.array(z), jnp.array(np.array(par, complex)), dep, patch))
                    judge(ctx, got, z, full, cf, poly, dep, deg, size, 'in turn')
                    ctx.ran(1, deg)
                ctx.outcome(np.round(np.sort_complex(got[0, :, dep]), 6))
    ctx.sample(equation=specs[0].text(), inputs=[s.name for s in specs])


def run(unit, ctx):
    import jax.numpy as jnp
    if 'part' in unit:
        return twins(unit, ctx)
    spec = o.SPECS[unit['spec']]
    v = variety(spec, unit['labels'])
    patch = unit['patch']
    n = spec.n
    size = n if patch is None else n - 1          # number of coordinates including the missing one
    k = {2: 5, 3: 4, 4: 3, 5: 3}[size] if ctx.tier == 'quick' else {2: 7, 3: 6, 4: 5, 5: 4}[size]
    given = o.grid(VALUES[:k], size - 1)
    for ip, par in enumerate(spec.par_values):
        poly = spec.poly(par) if patch is None else spec.poly(par).fix_one(patch)
        P = None if not spec.params else jnp.array(np.array(par, complex))
        # degree in the missing coordinate of the family
        fam = [e for _, _, e in spec.terms]
        fam = fam if patch is None else [e[:patch] + e[patch + 1:] for e in fam]
        for dep in range(size):
            deg = max(e[dep] for e in fam)
            full = np.insert(given, dep, 0, axis=1)
            byp = {}
            for e, c in poly.t.items():
                byp.setdefault(e[dep], []).append((e, c))
            co = np.stack([np.array([sum((c * np.prod([row[i] ** q for i, q in enumerate(e) if i != dep and q] or [1])
                                          for e, c in byp.get(d, [])), 0j) for row in full])
                           for d in range(deg, -1, -1)], -1)
            keep = np.abs(co[:, 0]) > 0.05
            z, cf, fl = given[keep], co[keep], full[keep]
            ctx.where = dict(par=par, dependent=dep)
            if not len(z):
                continue
            ctx.rows((unit['spec'], unit['labels'], patch, par, dep), z)
            Z = jnp.array(z)
            got = np.asarray(v.solve_defining(Z, P, dep, patch))
            judge(ctx, got, z, fl, cf, poly, dep, deg, size, 'batched')
            one = np.asarray(v.solve_defining(Z[-1], P, dep, patch))
            judge(ctx, one[None], z[-1:], fl[-1:], cf[-1:], poly, dep, deg, size, 'single')
            h = len(z) // 2
            if h:
                two = np.asarray(v.solve_defining(Z[:2 * h].reshape(2, h, size - 1), P, dep, patch))
                ctx.check(two.shape == (2, h, deg, size), 'shape, two leading axes', got=two.shape)
                judge(ctx, two.reshape(2 * h, deg, size), z[:2 * h], fl[:2 * h], cf[:2 * h], poly, dep, deg, size,
                      'two leading axes')
            if P is not None:
                rows = np.asarray(v.solve_defining(Z, jnp.broadcast_to(P, (len(z), len(P))), dep, patch))
                judge(ctx, rows, z, fl, cf, poly, dep, deg, size, 'moduli per row')
            if patch is None:
                omitted = np.asarray(v.solve_defining(Z, P, dep))
                judge(ctx, omitted, z, fl, cf, poly, dep, deg, size, 'patch omitted')
                # a homogeneous equation: scaling the given values scales the solutions
                for f in SCALES:
                    small = np.asarray(v.solve_defining(Z * f, P, dep, None))
                    judge(ctx, small / f, z, fl, cf, poly, dep, deg, size, 'given values scaled by %g' % f)
                    ctx.ran(1, len(z) * deg)
            kw = np.asarray(v.solve_defining(zs=Z, params=P, dependent=dep, patch=patch))
            judge(ctx, kw, z, fl, cf, poly, dep, deg, size, 'keywords')
            ctx.ran(4, 4 * len(z) * deg)
            ctx.outcomes_rows(np.sort_complex(np.round(got[:, :, dep], 5))[:200])
    ctx.sample(family=spec.text(), patch=patch, given=given[-1], solutions=got[-1])


def judge(ctx, got, z, full, cf, poly, dep, deg, size, what):
    ctx.check(got.shape == (len(z), deg, size), what + ': number of points', got=got.shape, want=(len(z), deg, size))
    rest = [i for i in range(size) if i != dep]
    ctx.close(got[:, :, rest], np.broadcast_to(z[:, None], (len(z), deg, size - 1)), what + ': given values kept',
              rtol=1e-14, atol=0)
    r = got[:, :, dep]
    # residual relative to the size of the terms
    scale = sum(np.abs(cf[:, [i]]) * np.abs(r) ** (deg - i) for i in range(deg + 1))
    res = np.abs(poly(got)) / (scale + 1e-30)
    ctx.check(np.isfinite(got).all(), what + ': finite')
    ctx.check((res < 1e-9).all(), what + ': on the variety', worst=float(res.max()), index=int(np.argmax(res.max(-1))))
    # multiset of roots: compare the monic polynomials
    pol = np.ones((len(z), 1), complex)
    for i in range(deg):
        pol = np.concatenate([pol, np.zeros((len(z), 1))], 1) - \
            np.concatenate([np.zeros((len(z), 1)), pol * r[:, [i]]], 1)
    want = cf / cf[:, [0]]
    err = np.abs(pol - want) / (1 + np.abs(want).max(-1, keepdims=True))
    ctx.check((err < 1e-8).all(), what + ': roots with multiplicity', worst=float(err.max()),
              given=z[int(np.argmax(err.max(-1)))], roots=r[int(np.argmax(err.max(-1)))])
