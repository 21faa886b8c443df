"""C02: Fubini-Study metric, potential and the mixed complex Hessian."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves, precision

ID = 'C02'
BOUNDS = {
    'quick': 'dimension 1-4, complete products of 8/6/4/3 coordinate values, conjugate argument '
             'omitted/conjugate/independent, all chart pairs, leading ranks 0-2, Hessian argument '
             'positions: all ordered pairs among 2 and 3 arguments; dimensions up to 12 and scales 1e-12..1e12 at 4 points; '
             'double and single precision',
    'thorough': 'dimension 1-5, products of 11/8/6/4/3 values, otherwise as quick',
}
VALUES = [0, 1, 0.5 - 0.25j, -1j, 2 + 1j, -0.1 + 0.7j, -3, 8j, 0.01, -0.6 - 0.6j, 20]
CONJ = [0.3, 1 - 1j, 0.5 + 0.5j]     # independent "conjugate" coordinates
SIZE = {'quick': {1: 8, 2: 6, 3: 4, 4: 3}, 'thorough': {1: 11, 2: 8, 3: 6, 4: 4, 5: 3}}


def units(tier):
    def scenario(c):
        c.pick('dim', SIZE[tier])
        bits = c.pick('bits', [64, 32])
        c.pick('part', ['metric', 'potential', 'shapes']
               + (['hessian', 'charts', 'args'] if bits == 64 else []))

    def wide(c):
        c.pick('dim', [1, 2, 3, 5, 6, 9, 12])
        c.pick('bits', [64, 32])
        c.pick('part', ['wide'])
    return leaves(scenario) + leaves(wide)


def run(unit, ctx):
    with precision(unit['bits']):
        _run(unit, ctx)


def _run(unit, ctx):
    import jax
    import jax.numpy as jnp
    import cyjax
    dim, part, bits = unit['dim'], unit['part'], unit['bits']
    tol = dict(rtol=1e-11, atol=1e-12) if bits == 64 else dict(rtol=2e-5, atol=2e-6)
    ctype = np.complex128 if bits == 64 else np.complex64
    if part == 'wide':
        return wide(ctx, dim, ctype, tol)
    vals = VALUES[:SIZE[ctx.tier][dim]]
    z = o.grid(vals, dim)
    # independent conjugates: keep away from 1 + z.zc = 0
    zi = np.repeat(z, len(CONJ), 0)
    zci = np.concatenate([np.full_like(z, c)[None] for c in CONJ]).swapaxes(0, 1).reshape(-1, dim)
    zci = zci * (1 + 0.1 * np.arange(dim))
    keep = np.abs(1 + (zi * zci).sum(-1)) > 0.3
    zi, zci = zi[keep], zci[keep]

    def forms():
        yield 'omitted', z, None, z.conj()
        yield 'conjugate', z, z.conj(), z.conj()
        yield 'independent', zi, zci, zci

    def J(a):
        return jnp.array(a.astype(ctype))

    if part == 'metric':
        for name, a, c, cc in forms():
            ctx.where = dict(form=name)
            got = np.asarray(cyjax.fs_metric(J(a)) if c is None else cyjax.fs_metric(J(a), J(c)))
            ctx.close(got, o.fs_metric(a, cc), 'metric value', **tol)
            if name != 'independent':
                ctx.close(got, got.conj().swapaxes(-1, -2), 'Hermitian', **tol)
                ctx.check(np.linalg.eigvalsh(got.astype(complex)).min() > 0, 'positive definite')
            ctx.rows(('metric', name), a, cc)
            ctx.outcomes_rows(got)
            ctx.ran(1, len(a))
        ctx.sample(z=z[-1], metric=o.fs_metric(z[-1]))

    elif part == 'potential':
        for name, a, c, cc in forms():
            ctx.where = dict(form=name)
            got = cyjax.fs_potential(J(a)) if c is None else cyjax.fs_potential(J(a), J(c))
            ctx.close(np.exp(np.asarray(got)), 1 + (a * cc).sum(-1), 'exp of potential', rtol=tol['rtol'] * 5,
                      atol=tol['atol'] * 5)
            ctx.close(np.asarray(got).real, np.log(np.abs(1 + (a * cc).sum(-1))), 'potential', **tol)
            for hom in (False, True):
                h = a[np.abs((a * cc).sum(-1)) > 0.1] if hom else a
                hc = cc[np.abs((a * cc).sum(-1)) > 0.1] if hom else cc
                got = cyjax.fs_potential(J(h), None if c is None else J(hc), hom=hom)
                want = (h * hc).sum(-1) + (0 if hom else 1)
                ctx.close(np.exp(np.asarray(got)), want, f'exp of potential hom={hom}',
                          rtol=tol['rtol'] * 5, atol=tol['atol'] * 5)
            ctx.rows(('pot', name), a, cc)
            ctx.outcomes_rows(np.asarray(got))
            ctx.ran(3, len(a))
        if dim <= 4:
            # homogeneous potential of every patch: differ by log |h_p|^2
            nz = [v for v in vals if v != 0][:4]
            h = o.grid(nz, dim + 1)
            full = np.asarray(cyjax.fs_potential(J(h), hom=True))
            for p in range(dim + 1):
                aff = o.to_affine(h, p)
                ctx.where = dict(patch=p)
                got = np.asarray(cyjax.fs_potential(J(aff)))
                ctx.close(got + np.log(np.abs(h[:, p]) ** 2), full, 'change of potential', **tol)
                ctx.ran(1, len(h))
            ctx.rows('pothom', h)
        ctx.sample(z=z[-1], potential=float(np.log(1 + np.sum(np.abs(z[-1]) ** 2))))

    elif part == 'shapes':
        base = z[:6] if len(z) >= 6 else z
        m = o.fs_metric(base)
        k = np.log(1 + (np.abs(base) ** 2).sum(-1))
        real = np.array([1.0, -0.5, 2.0, 0.25, 3.0][:dim])
        ctx.close(cyjax.fs_metric(jnp.array(real)), o.fs_metric(real), 'real coordinates', **tol)
        ctx.close(cyjax.fs_potential(jnp.array(real)), np.log(1 + (real ** 2).sum()), 'real coordinates', **tol)
        for shape in [(), (1,), (len(base),), (2, len(base) // 2), (len(base) // 2, 2), (1, 2, len(base) // 2)]:
            cnt = int(np.prod(shape))
            a = base[:cnt].reshape(*shape, dim) if shape else base[-1]
            wm = m[:cnt].reshape(*shape, dim, dim) if shape else m[-1]
            wk = k[:cnt].reshape(shape) if shape else k[-1]
            for conj in (False, True):
                ctx.where = dict(shape=shape, conj=conj)
                c = J(a.conj()) if conj else None
                ctx.close(cyjax.fs_metric(J(a), c), wm, 'metric, leading shape', **tol)
                ctx.close(np.asarray(cyjax.fs_potential(J(a), c)).real, wk, 'potential, leading shape', **tol)
                ctx.close(np.exp(np.asarray(cyjax.fs_potential(J(a), c, hom=True)).real) + 1, np.exp(wk),
                          'hom potential, leading shape', rtol=tol['rtol'] * 10, atol=tol['atol'] * 10)
                ctx.state(('shape', dim, shape, conj))
                ctx.ran(3, cnt)
        ctx.sample(shapes='rank 0-3')

    elif part == 'hessian':
        hess = jax.jit(jax.vmap(cyjax.complex_hessian(cyjax.fs_potential)))
        for name, a, c, cc in forms():
            ctx.where = dict(form=name)
            got = np.asarray(hess(J(a), J(cc)))
            ctx.close(got, o.fs_metric(a, cc), 'mixed Hessian of potential', **tol)
            ctx.close(got, np.asarray(cyjax.fs_metric(J(a), J(cc))), 'Hessian equals metric', **tol)
            ctx.rows(('hess', name), a, cc)
            ctx.ran(1, len(a))
        ctx.sample(z=z[-1])

    elif part == 'charts':
        nz = [v for v in vals if v != 0 and abs(v) < 5][:5]
        h = o.grid(nz, dim + 1) if dim < 4 else o.grid(nz[:3], dim + 1)
        for p, q in itertools.product(range(dim + 1), repeat=2):
            hp = h / h[:, [p]]
            zp, zq = o.to_affine(hp, p), o.to_affine(hp, q)
            ip = [i for i in range(dim + 1) if i != p]
            iq = [i for i in range(dim + 1) if i != q]
            Jm = np.zeros((len(h), dim, dim), complex)
            for r, a in enumerate(ip):
                for s, b in enumerate(iq):
                    Jm[:, r, s] = (a == b) / hp[:, q] - hp[:, b] * (a == q) / hp[:, q] ** 2
            ctx.where = dict(p=p, q=q)
            gp = np.asarray(cyjax.fs_metric(J(zp)))
            gq = np.asarray(cyjax.fs_metric(J(zq)))
            ctx.close(Jm @ gq @ Jm.conj().swapaxes(-1, -2), gp, 'covariance', rtol=1e-10, atol=1e-10)
            ctx.ran(2, len(h))
            ctx.state(('charts', dim, p, q))
        ctx.rows('charts', h)
        ctx.sample(point=h[0])

    else:  # argument positions of the mixed Hessian, with an extra argument
        A = np.array([[1 + 0.5j * i - 0.3 * j + 0.1 * i * j for j in range(dim)] for i in range(dim)])

        def core(x, y, t):
            return jnp.sum(t * jnp.outer(x ** 2, y ** 3) * A) + jnp.sum(x ** 3) + t * jnp.sum(y) \
                + jnp.prod(x) * jnp.prod(y ** 2)

        a, c = zi, zci
        t = 0.7 - 0.2j
        want = t * A * 2 * a[:, :, None] * 3 * c[:, None, :] ** 2
        for i in range(dim):
            for j in range(dim):
                dx = np.prod(np.delete(a, i, 1), 1)
                dy = 2 * c[:, j] * np.prod(np.delete(c, j, 1), 1) ** 2
                want[:, i, j] += dx * dy
        tt = jnp.asarray(t)
        cases = []
        for order in itertools.permutations('xyt'):
            def fn(*args, order=order):
                kw = dict(zip(order, args))
                return core(kw['x'], kw['y'], kw['t'])
            cases.append((order, fn, order.index('x'), order.index('y')))
        cases.append((('x', 'y'), lambda x, y: core(x, y, tt), 0, 1))
        cases.append((('y', 'x'), lambda y, x: core(x, y, tt), 1, 0))
        for order, fn, i, j in cases:
            ctx.where = dict(order=order)
            h = cyjax.complex_hessian(fn, i, j)
            data = dict(x=J(a), y=J(c), t=tt)
            got = jax.vmap(h, [None if k == 't' else 0 for k in order])(*[data[k] for k in order])
            ctx.close(got, want, 'mixed Hessian for argument order', rtol=1e-10, atol=1e-10)
            one = h(*[data[k] if k == 't' else data[k][0] for k in order])
            ctx.close(one, want[0], 'single call', rtol=1e-10, atol=1e-10)
            if order == ('x', 'y', 't'):
                ctx.close(cyjax.complex_hessian(fn)(J(a[0]), J(c[0]), tt), want[0], 'default positions',
                          rtol=1e-10, atol=1e-10)
            ctx.state(('args', dim, order))
            ctx.ran(2, len(a) + 1)
        ctx.rows('args', a, c)
        ctx.sample(order='all permutations of (z, conj, extra)')


def wide(ctx, dim, ctype, tol):
    """Other dimensions and overall scales: metric relative to its largest entry, potentials absolutely."""
    import jax
    import jax.numpy as jnp
    import cyjax
    i = np.arange(dim)
    base = np.stack([(0.6 + 0.3 * np.sin(1. + i + r)) * np.exp(1j * (r + i ** 2)) for r in range(4)])
    top = 12 if ctype is np.complex128 else 6
    hess = jax.jit(jax.vmap(cyjax.complex_hessian(cyjax.fs_potential)))
    for e in range(-top, top + 1, 2 if dim < 4 else 6):
        z = (base * 10. ** e).astype(ctype)
        ctx.rows(('wide', dim, e), z)
        ctx.where = dict(scale=e)
        r2 = (np.abs(z.astype(complex)) ** 2).sum(-1)
        # without cancellation: ((1 + r2) 1 - conj(z) z) / (1 + r2)^2, exact sums of positive terms on the diagonal
        zz = z.astype(complex)
        want = -zz.conj()[:, :, None] * zz[:, None, :]
        for k in range(dim):
            want[:, k, k] = 1 + np.delete(np.abs(zz) ** 2, k, 1).sum(-1)
        want = want / (1 + r2)[:, None, None] ** 2
        sc = np.abs(want).max((1, 2))[:, None, None]
        eps = 1e-9 if ctype is np.complex128 else 1e-4
        # one coordinate: everything but 1 cancels
        if dim > 1 or abs(e) <= top // 4:
            ctx.close(np.asarray(cyjax.fs_metric(jnp.array(z))) / sc, want / sc, 'metric', rtol=eps, atol=eps)
            if abs(e) <= top // 2:
                got = np.asarray(hess(jnp.array(z), jnp.array(z.conj())))
                ctx.close(got / sc, want / sc, 'Hessian of the potential', rtol=eps, atol=eps)
        ctx.close(cyjax.fs_potential(jnp.array(z)), np.log1p(r2), 'potential', rtol=eps, atol=tol['atol'])
        ctx.close(cyjax.fs_potential(jnp.array(z), hom=True), np.log(r2), 'homogeneous potential', rtol=eps, atol=eps)
        ctx.close(cyjax.fs_potential(jnp.array(z), jnp.array(z.conj()), hom=True), np.log(r2), 'homogeneous potential',
                  rtol=eps, atol=eps)
        ctx.outcomes_rows(want.reshape(len(z), -1))
        ctx.ran(5, 5 * len(z))
    ctx.sample(dim=dim, point=base[0])
