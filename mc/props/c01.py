"""C01: chart conversions."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves, precision

ID = 'C01'
BOUNDS = {
    'quick': 'projective dimension 1-4 (5-16 with one point per largest coordinate), all patches, all chart-change chains of length <=3, '
             'complete products of 9/7/5/4 coordinate values for dimension 1/2/3/4, overall scales 1e-145..1e145, double and single precision',
    'thorough': 'projective dimension 1-5, chains of length <=4 (dimension <=3), products of '
                '12/9/7/5/4 values',
}
VALUES = [0, 1, -1, 0.5 - 0.25j, 1j, 3, -2 + 2j, 1e-3j, 40, 0.7 + 0.7j, -1e-2, -6j]
WIDE = [5, 6, 7, 9, 11, 16]
SIZE = {'quick': {1: 9, 2: 7, 3: 5, 4: 4}, 'thorough': {1: 12, 2: 9, 3: 7, 4: 5, 5: 4}}


def units(tier):
    def scenario(c):
        dim = c.pick('dim', SIZE[tier])
        bits = c.pick('bits', [64, 32])
        part = c.pick('part', ['charts', 'auto', 'scale', 'single', 'index']
                      + [f'chain{p}' for p in range(dim + 1)])

    def wide(c):
        c.pick('dim', WIDE)
        c.pick('bits', [64, 32])
        c.pick('part', ['wide', 'index'])
    return leaves(scenario) + leaves(wide)


def run(unit, ctx):
    with precision(unit['bits']):
        _run(unit, ctx)


def _run(unit, ctx):
    import jax.numpy as jnp
    import cyjax
    dim, part, bits = unit['dim'], unit['part'], unit['bits']
    n = dim + 1
    # every intermediate of the reference is a quotient of alphabet values
    tol = dict(rtol=1e-12, atol=1e-14) if bits == 64 else dict(rtol=3e-6, atol=1e-7)
    ctype = np.complex128 if bits == 64 else np.complex64
    if part == 'wide':
        return wide(ctx, n, ctype, tol)
    vals = VALUES[:SIZE[ctx.tier].get(dim, 1)]
    hom = o.grid(vals, n) if part != 'index' else None
    hom = hom[np.any(hom != 0, axis=1)] if part != 'index' else None

    if part == 'charts':
        ctx.rows('hom', hom)
        for p in range(n):
            h = hom[hom[:, p] != 0].astype(ctype)
            want = o.to_affine(h, p)
            ctx.where = dict(call='hom_to_affine', patch=p)
            got = cyjax.hom_to_affine(jnp.array(h), p)
            ctx.close(got, want, 'affine coordinates', **tol)
            got2 = cyjax.hom_to_affine(jnp.array(h), jnp.full(len(h), p))
            ctx.close(got2, want, 'affine coordinates (array patch)', **tol)
            ctx.where = dict(call='affine_to_hom', patch=p)
            back = cyjax.affine_to_hom(got, p)
            ctx.close(back, o.to_hom(want, p), 'homogeneous coordinates', **tol)
            # proportional to the point we started from
            ctx.close(np.asarray(back) * h[:, [p]], h, 'round trip', rtol=tol['rtol'] * 4,
                      atol=1e-5 if bits == 32 else 1e-12)
            ctx.close(cyjax.hom_to_affine(back, p), got, 'second trip', **tol)
            ctx.ran(4, len(h))
            ctx.outcomes_rows(want)
        # rows with different patches in one call, two leading axes
        h = o.grid([v for v in vals if v != 0][:4], n).astype(ctype)
        pats = np.arange(len(h)) % n
        want = o.to_affine(h, pats)
        ctx.where = dict(call='mixed patches')
        got = cyjax.hom_to_affine(jnp.array(h), jnp.array(pats))
        ctx.close(got, want, 'mixed patches', **tol)
        k = len(h) // 2
        got = cyjax.hom_to_affine(jnp.array(h[:2 * k].reshape(2, k, n)),
                                  jnp.array(pats[:2 * k].reshape(2, k)))
        ctx.close(got, want[:2 * k].reshape(2, k, dim), 'two leading axes', **tol)
        ctx.ran(2, len(h))
        ctx.sample(part=part, hom=h[0], patch=int(pats[0]), affine=want[0])

    elif part == 'auto':
        ctx.rows('auto', hom)
        h = hom.astype(ctype)
        ctx.where = dict(call='hom_to_affine', patch=None)
        zs, patch = cyjax.hom_to_affine(jnp.array(h))
        zs, patch = np.asarray(zs), np.asarray(patch)
        ctx.check(patch.shape == (len(h),), 'patch shape', got=patch.shape)
        ctx.check(np.issubdtype(patch.dtype, np.integer), 'patch is an integer')
        ctx.check(np.all((patch >= 0) & (patch < n)), 'patch range')
        mod = np.abs(h)
        pm = mod[np.arange(len(h)), patch]
        bad = pm < mod.max(1) * (1 - 1e-6)
        ctx.check(not bad.any(), 'selected patch has maximal modulus',
                  point=h[bad][:1], patch=patch[bad][:1])
        ctx.check(np.all(np.abs(zs) <= 1 + 1e-6), 'affine coordinates bounded by one')
        ctx.close(zs, o.to_affine(h, patch), 'affine coordinates in selected patch', **tol)
        ctx.ran(1, len(h))
        ctx.outcomes_rows(patch)
        ctx.sample(part=part, hom=h[3], patch=int(patch[3]), affine=zs[3])

    elif part == 'scale':
        # a homogeneous point is the same point at every overall scale
        for e in (-145, -100, -60, -30, -12, -6, 6, 12, 30, 60, 100, 145) if bits == 64 else (-15, -8, 8, 15):
            h = (hom * 10. ** e).astype(ctype)
            ctx.rows(('scale', e), h)
            ctx.where = dict(call='hom_to_affine', scale=e)
            zs, patch = cyjax.hom_to_affine(jnp.array(h))
            zs, patch = np.asarray(zs), np.asarray(patch)
            mod = np.abs(h)
            bad = mod[np.arange(len(h)), patch] < mod.max(1) * (1 - 1e-6)
            ctx.check(not bad.any(), 'selected patch has maximal modulus',
                      point=h[bad][:1], patch=patch[bad][:1])
            ctx.close(zs, o.to_affine(hom, patch), 'affine coordinates in selected patch', **tol)
            ctx.outcomes_rows(patch)
            for p in range(n):
                live = hom[:, p] != 0
                got = cyjax.hom_to_affine(jnp.array(h[live]), p)
                ctx.close(got, o.to_affine(hom[live], p), 'affine coordinates', **tol)
            ctx.ran(n + 1, len(h))
        ctx.sample(part=part, hom=h[3], patch=int(patch[3]), affine=zs[3])

    elif part == 'single':
        small = o.grid([0, 1, -2j] if dim < 4 else [0, 1 - 1j], n)
        small = small[np.any(small != 0, axis=1)].astype(ctype)
        ctx.rows('single', small)
        for h in small:
            z, p = cyjax.hom_to_affine(jnp.array(h))
            ctx.where = dict(point=h, patch=int(p))
            ctx.check(np.shape(p) == (), 'scalar patch')
            ctx.check(abs(h[int(p)]) >= np.abs(h).max() * (1 - 1e-6), 'maximal modulus')
            ctx.close(z, o.to_affine(h, int(p)), 'auto', **tol)
            for p in range(n):
                if h[p] == 0:
                    continue
                for form in (int, jnp.asarray):
                    z = cyjax.hom_to_affine(jnp.array(h), form(p))
                    ctx.close(z, o.to_affine(h, p), 'single point', **tol)
                    ctx.close(cyjax.affine_to_hom(z, form(p)), o.to_hom(o.to_affine(h, p), p),
                              'single point back', **tol)
                for q in range(n):
                    if h[q] != 0:
                        ctx.where = dict(point=h, old=p, new=q)
                        ctx.close(cyjax.change_chart(z, p, q), o.to_affine(h, q),
                                  'chart change', **tol)
                        ctx.ran(1, 1)
                ctx.ran(4, 2)

    elif part == 'index':
        for p in range(n):
            others = [i for i in range(n) if i != p]
            for a, hidx in enumerate(others):
                ctx.state(('index', dim, p, a))
                ctx.where = dict(patch=p, affine=a, hom=hidx)
                for form in (int, jnp.asarray):
                    ctx.equal(int(cyjax.index_affine_to_hom(form(p), form(a))), hidx, 'affine to hom index')
                    ctx.equal(int(cyjax.index_hom_to_affine(form(p), form(hidx))), a, 'hom to affine index')
                    ctx.ran(2, 1)
            ctx.equal(cyjax.index_affine_to_hom(p, jnp.arange(dim)), others, 'index array')
            ctx.equal(cyjax.index_hom_to_affine(p, jnp.array(others)), np.arange(dim), 'index array')
        ctx.sample(part=part, dim=dim)

    else:  # chains of chart changes
        start = int(part[5:])
        depth = 3 if ctx.tier == 'quick' or dim > 3 else 4
        nz = [v for v in vals if v != 0]
        h = np.concatenate([hom[:len(hom) // 2], o.grid(nz[:4], n)]).astype(ctype)
        h = h[h[:, start] != 0]
        h = h / h[:, [start]]
        h = h[np.abs(h).max(1) < 1e3]
        base = jnp.array(o.to_affine(h, start))
        ltol = dict(rtol=1e-11, atol=1e-13) if bits == 64 else dict(rtol=2e-5, atol=1e-6)

        def walk(z, cur, live, path):
            if len(path) > depth:
                return
            for q in range(n):
                keep = live & (np.abs(h[:, q]) > 1e-2)
                if not keep.any():
                    continue
                ctx.where = dict(chain=path + [q])
                out = cyjax.change_chart(z, cur, q)
                want = o.to_affine(h[keep], q)
                ctx.close(np.asarray(out)[keep], want, 'chart change', **ltol)
                if len(path) == 1:
                    arr = cyjax.change_chart(z, jnp.full(len(h), cur), jnp.full(len(h), q))
                    ctx.close(np.asarray(arr)[keep], want, 'chart change (array patches)', **ltol)
                ctx.state(('chain', dim, path + [q]))
                ctx.ran(1, int(keep.sum()))
                walk(out, q, keep, path + [q])
        ctx.rows(('chain', start), h)
        walk(base, start, np.ones(len(h), bool), [start])
        ctx.sample(part=part, point=h[-1])


def wide(ctx, n, ctype, tol):
    """Many coordinates: every position of the largest one, every pair of patches."""
    import jax.numpy as jnp
    import cyjax
    i = np.arange(n)
    h = (0.6 + 0.3 * np.sin(1. + i)) * np.exp(1j * (1 + i ** 2))
    h = np.stack([np.where(i == m, 5 * np.exp(0.3j * m), h) for m in range(n)]).astype(ctype)
    ctx.rows(('wide', n), h)
    ctx.where = dict(call='hom_to_affine', patch=None)
    zs, patch = cyjax.hom_to_affine(jnp.array(h))
    ctx.equal(np.asarray(patch), i, 'selected patch')
    ctx.close(zs, o.to_affine(h, i), 'affine coordinates in selected patch', **tol)
    for p in range(n):
        zp = o.to_affine(h, p)
        ctx.where = dict(patch=p)
        ctx.close(cyjax.hom_to_affine(jnp.array(h), p), zp, 'affine coordinates', **tol)
        ctx.close(cyjax.affine_to_hom(jnp.array(zp), p), o.to_hom(zp, p), 'homogeneous coordinates', **tol)
        q = np.arange(n)
        got = cyjax.change_chart(jnp.array(np.repeat(zp[:, None], n, 1)), p, jnp.array(np.broadcast_to(q, (n, n))))
        ctx.close(got, np.stack([o.to_affine(h, k) for k in q], 1), 'chart change', rtol=tol['rtol'] * 10,
                  atol=tol['atol'] * 100)
        ctx.outcomes_rows(zp)
        ctx.ran(3, n * (n + 2))
    ctx.sample(part='wide', hom=h[0])
