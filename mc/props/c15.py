"""C15: section values in every patch, mode and batch layout, transition functions and derivatives."""
import numpy as np

from mc import oracle as o
from mc.core import leaves, precision
from mc.props.c18 import tour

ID = 'C15'
BOUNDS = {
    'quick': 'projective dimension 1-4, degree 0-4 (dimension 4: 0-3, dimension 1: also 7 and 11, dimension 2: 6), full bases and reduced bases of 4 families, both '
             'evaluation modes, every patch and homogeneous input, complete products of coordinate values including '
             'zeros; single, batched, patch batched, doubly batched; transition functions between all patch pairs; '
             'first and second derivatives; scales 2^-24 and 2^16; bases of one degree in turn; double and single precision',
    'thorough': 'as quick with larger coordinate products',
}
VALUES = [0.7 - 0.4j, 0, -1, 1.3j, 2 + 1j, -0.2]
REDUCED = [('fermat1', 4), ('gen1', 3), ('dwork2', 4), ('quad2', 3)]


def units(tier):
    def scenario(c):
        kind = c.pick('kind', ['full', 'reduced'])
        if kind == 'full':
            c.pick('dim', [1, 2, 3, 4])
            c.pick('degree', list(range(5 if c.values['dim'] < 4 else 4)) + {1: [7, 11], 2: [6]}.get(c.values['dim'], []))
        else:
            c.pick('base', [list(b) for b in REDUCED])
        c.pick('bits', [64, 32])
    return leaves(scenario) + [dict(kind='twins', bits=b) for b in (64, 32)]


def run(unit, ctx):
    with precision(unit['bits']):
        _run(unit, ctx)


def basis(unit):
    from cyjax import donaldson as D
    if unit['kind'] == 'full':
        return D.MonomialBasisFull(unit['dim'], unit['degree']), unit['dim'] + 1, unit['degree']
    name, k = unit['base']
    spec = o.SPECS[name]
    par = None if not spec.params else np.array(spec.par_values[0], complex)
    return D.MonomialBasisReduced(spec.make(), k, par), spec.n, k


def twins(unit, ctx):
    """Bases of one degree on one space, used in turn."""
    import jax.numpy as jnp
    from cyjax import donaldson as D
    cdt, eps = (np.complex128, 1e-11) if unit['bits'] == 64 else (np.complex64, 2e-4)
    red = lambda name, k, i=0: D.MonomialBasisReduced(o.SPECS[name].make(), k, np.array(o.SPECS[name].par_values[i], complex)
                                                      if o.SPECS[name].params else None)
    full = D.MonomialBasisFull(2, 3)
    bases = [full, red('gen1', 3), red('mix1', 3), D.MonomialBasisFull(2, 4), red('fermat1', 3)]
    order = tour(len(bases), 2)
    for t, i in enumerate(order):
        b = bases[i]
        pows = [tuple(int(x) for x in r) for r in np.asarray(b.power_matrix)]
        z = np.array([[0.7 - 0.4j, -0.3 + 0.1j * t], [0.2j, 1.1]])
        for p in range(3):
            for kw in ({}, dict(precompute=False)):
                ctx.where = dict(basis=i, before=order[t - 1], patch=p, mode=kw)
                ctx.state((str(unit), i, order[t - 1], p, str(kw)))
                want = o.mono_eval(pows, np.insert(z, p, 1, axis=1))
                ctx.close(b(jnp.array(z.astype(cdt)), p, **kw), want, 'sections', rtol=eps, atol=eps * np.abs(want).max())
                ctx.ran(1, 2)
        ctx.outcomes_rows(want)
    ctx.sample(bases=[b.size for b in bases])


def _run(unit, ctx):
    import jax
    import jax.numpy as jnp
    if unit['kind'] == 'twins':
        return twins(unit, ctx)
    b, n, k = basis(unit)
    bits = unit['bits']
    cdt = np.complex128 if bits == 64 else np.complex64
    eps = 1e-11 if bits == 64 else 2e-4
    pm = np.asarray(b.power_matrix)
    pows = [tuple(int(x) for x in r) for r in pm]
    ctx.check(all(sum(e) == k for e in pows) and len(pows) == b.size, 'degree and size')
    size = {1: 6, 2: 5, 3: 3, 4: 3}[n - 1] if ctx.tier == 'quick' else {1: 6, 2: 6, 3: 5, 4: 4}[n - 1]
    if bits == 32:
        size = min(size, 3)
    aff = o.grid(VALUES[:size], n - 1)
    hom = o.grid(VALUES[:min(size, 3)], n)
    A = jnp.array(aff.astype(cdt))
    H = jnp.array(hom.astype(cdt))
    for kw in ({}, {'precompute': True}, {'precompute': False}, {'conj': True}):
        mode = str(kw)
        ctx.where = dict(mode=mode, patch=None)
        ctx.rows((str(unit), mode, 'hom'), hom)
        want = o.mono_eval(pows, hom)
        scale = dict(rtol=eps, atol=eps * max(1, np.abs(want).max()))
        ctx.close(b(H, None, **kw), want, 'homogeneous', **scale)
        ctx.close(b(H[-1], None, **kw), want[-1], 'homogeneous, single', **scale)
        ctx.outcomes_rows(want)
        ctx.ran(2, len(hom) + 1)
        allz, allp, allw = [], [], []
        for p in range(n):
            w = o.mono_eval(pows, o.to_hom(aff, p))
            scale = dict(rtol=eps, atol=eps * max(1, np.abs(w).max()))
            ctx.where = dict(mode=mode, patch=p)
            ctx.close(b(A, p, **kw), w, 'one patch', **scale)
            ctx.close(b(A[0], p, **kw), w[0], 'single', **scale)
            ctx.close(b(A[-1], jnp.array(p), **kw), w[-1], 'single', **scale)
            ctx.ran(3, len(aff) + 2)
            allz.append(aff)
            allp += [p] * len(aff)
            allw.append(w)
        allz, allp, allw = np.concatenate(allz), np.array(allp), np.concatenate(allw)
        # interleave patches
        order = np.argsort(np.arange(len(allz)) % len(aff), kind='stable')
        allz, allp, allw = allz[order], allp[order], allw[order]
        ctx.rows((str(unit), mode, 'aff'), allz, allp)
        ctx.where = dict(mode=mode, patch='per row')
        Z, PT = jnp.array(allz.astype(cdt)), jnp.array(allp)
        ctx.close(b(Z, PT, **kw), allw, 'patch per row', **scale)
        ctx.close(b(zs=Z, patch=PT, **kw), allw, 'keywords', **scale)
        h = len(allz) // 2
        ctx.close(b(Z[:2 * h].reshape(2, h, -1), PT[:2 * h].reshape(2, h), **kw),
                  allw[:2 * h].reshape(2, h, -1), 'two leading axes', **scale)
        ctx.close(b(A[-1], jnp.arange(n), **kw), np.stack([o.mono_eval(pows, o.to_hom(aff[-1], p)) for p in range(n)]),
                  'patch batch only', **scale)
        ctx.close(jax.jit(lambda z, p: b(z, p, **kw))(Z, PT), allw, 'jitted', **scale)
        ctx.close(jax.vmap(lambda z, p: b(z, p, **kw))(Z, PT), allw, 'vmapped', **scale)
        ctx.ran(6, 5 * len(allz))
    # ---- transition functions between all pairs of patches, from the real outputs
    nz = o.grid([v for v in VALUES[:4] if v != 0], n)[:60].astype(cdt)
    vals = [np.asarray(b(jnp.array(o.to_affine(nz, p).astype(cdt)), p)) for p in range(n)]
    for p in range(n):
        for q in range(n):
            ctx.where = dict(patches=(p, q))
            t = (nz[:, p] / nz[:, q]) ** k
            ctx.close(vals[q], vals[p] * t[:, None], 'transition function', rtol=1e-9 if bits == 64 else 1e-2,
                      atol=1e-9 if bits == 64 else 1e-3 * max(1, np.abs(vals[q]).max()))
            ctx.ran(1, len(nz))
    # ---- derivatives of the default evaluation
    if bits == 64:
        polys = [o.P({e: 1.0}, n) for e in pows]
        jac = jax.jit(jax.vmap(jax.jacfwd(lambda z, p: b(z, p), holomorphic=True), (0, None)))
        hes = jax.jit(jax.vmap(jax.jacfwd(jax.jacfwd(lambda z, p: b(z, p), holomorphic=True), holomorphic=True), (0, None)))
        rev = jax.jit(jax.vmap(jax.jacrev(lambda z, p: b(z, p), holomorphic=True), (0, None)))
        jh = jax.jit(jax.vmap(jax.jacfwd(lambda z: b(z, None), holomorphic=True)))
        ctx.where = dict(derivative='homogeneous')
        ctx.close(jh(H[:100]), np.stack([q.grad(hom[:100]) for q in polys], 1), 'first derivative', rtol=1e-10, atol=1e-10)
        z = aff[:80]
        for p in range(n):
            ctx.where = dict(derivative=True, patch=p)
            qs = [q.fix_one(p) for q in polys]
            w1 = np.stack([q.grad(z) for q in qs], 1)
            w2 = np.stack([q.hess(z) for q in qs], 1)
            ctx.close(jac(A[:80], p), w1, 'first derivative', rtol=1e-10, atol=1e-10)
            ctx.close(rev(A[:80], p), w1, 'first derivative, reverse mode', rtol=1e-10, atol=1e-10)
            ctx.close(hes(A[:80], p), w2, 'second derivative', rtol=1e-10, atol=1e-10)
            ctx.ran(3, 3 * len(z))
            nzr = np.all(z != 0, -1)
            lg = jax.vmap(jax.jacfwd(lambda x: b(x, p, precompute=False), holomorphic=True))(A[:80][nzr])
            ctx.close(lg, w1[nzr], 'first derivative, logarithmic mode away from zeros', rtol=1e-9, atol=1e-9)
    # homogeneous of the given degree at every scale
    if bits == 64:
        for f in (2. ** -24, 2. ** 16):
            for kw in ({}, {'precompute': False}):
                ctx.where = dict(scale=f, mode=str(kw))
                w = o.mono_eval(pows, hom)
                ctx.close(np.asarray(b(H * f, None, **kw)) / f ** k, w, 'scaled coordinates', rtol=1e-10,
                          atol=1e-10 * np.abs(w).max())
                ctx.ran(1, len(hom))
    # real coordinates
    if bits == 64:
        r = o.grid([1., -0.5, 2.], n - 1).real
        w = o.mono_eval(pows, o.to_hom(r, 0))
        ctx.where = dict(real=True)
        ctx.close(b(jnp.array(r), 0), w.real, 'real coordinates', rtol=1e-11, atol=1e-11)
    ctx.sample(basis=str(unit), size=b.size, point=aff[-1])
