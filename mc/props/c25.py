"""C25: every outcome of an enumerated random source is fed through the generators."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves

ID = 'C25'
TECHNIQUE = 'exhaustive enumeration of the outcomes of the random source, discretized to a grid per number drawn; support is ' \
            'checked for every outcome, the measure by summing over all of them'
BOUNDS = {
    'quick': 'per value drawn a grid of up to 64 equidistant levels (all combinations, at most 50000 outcomes) for the measure and '
             'the levels 0, 1, 0.13, 0.5-, 0.87 for support; shapes up to rank 2 and size 3, real dimensions 1-4, complex '
             'dimensions 1-3, projective dimensions 1-2, overlaps of dimension 1-3 for all patch pairs and 3 patch sizes, 9 annuli, '
             'shuffles of axes of length up to 3',
    'thorough': 'as quick with at most 500000 outcomes, all patch sizes and projective dimension 3',
}
ASSUMPTIONS = ['random bits are derived from keys through the split, fold_in and random_bits operations of JAX']
EDGE = [0., 1., .13, .499, .87]


def units(tier):
    def scenario(c):
        g = c.pick('gen', ['components', 'annulus', 'unit', 'real', 'complex', 'projective', 'overlap', 'shuffle'])
        if g == 'annulus':
            c.pick('radii', [[None, None], [0, 1], [0.5, 1], [1, 3], [0.2, 0.7], [0, 2.5], [1e-4, 3e-4], [0, 1e-3], [50, 400]])
        elif g == 'real':
            c.pick('dim', [1, 2, 3, 4])
        elif g == 'complex':
            c.pick('dim', [1, 2, 3])
        elif g == 'projective':
            c.pick('dim', [1, 2] + ([3] if tier != 'quick' else []))
            c.pick('affine', [None, True, False])
        elif g == 'overlap':
            d = c.pick('dim', [1, 2, 3])
            c.pick('size', [1.5, 4.] if d == 3 and tier == 'quick' else [1.5, 2., 4.])
            i = c.pick('this', list(range(d + 1)))
            c.pick('other', [j for j in range(d + 1) if j != i])
    return leaves(scenario)


def run(unit, ctx):
    from mc.keys import Tape
    tape = Tape()
    limit = 50000 if ctx.tier == 'quick' else 500000
    globals()[unit['gen']](unit, ctx, tape, limit)


def outcomes(ctx, tape, fn, what, limit, levels=None):
    out, k, G = tape.enumerate(fn, limit, levels)
    if out is None:
        ctx.sample(skipped=what, values=k, levels=G)
        return None
    ctx.where = dict(what=what, values=k, levels=G)
    n = G ** k
    leaf = out[0] if isinstance(out, tuple) else out
    ctx.check(len(leaf) == n, 'one value per outcome', values=k)
    ctx.ran(1, n)
    ctx.rows((what, k, G), *([a.reshape(n, -1) for a in out] if isinstance(out, tuple) else [leaf.reshape(n, -1)]))
    if levels is None:
        # two outcomes of the source which give the same value: counted, not judged
        ctx.outcomes_rows(leaf.reshape(n, -1))
    return out


def shapes(ctx, tape, fn, dtype_complex=True, support=None):
    """Requested shapes, and the same constraints for every entry."""
    import jax.numpy as jnp
    for shape in [(), (1,), (2,), (3,), (0,), (2, 1), (1, 2), (2, 3), (0, 2)]:
        ctx.where = dict(shape=shape)
        tape.levels = EDGE
        k = tape.size(lambda key: fn(key, shape))
        out = np.asarray(tape.enumerate(lambda key: fn(key, shape), levels=[.3])[0])
        ctx.equal(out.shape, (1, *shape), 'requested shape')
        ctx.equal(np.iscomplexobj(out), dtype_complex, 'kind of values')
        ctx.ran(1, 1)
        if support is not None and k and len(EDGE) ** k <= 2 ** 17 and out.size:
            res = outcomes(ctx, tape, lambda key: fn(key, shape), 'support %s' % (shape,), 2 ** 17, EDGE)
            if res is not None:
                support(res)


def independent(ctx, tape, fn, limit, moments):
    """Two entries of one array: joint moments factorize."""
    out = outcomes(ctx, tape, lambda key: fn(key, (2,)), 'pairs', limit)
    if out is None:
        return
    a, b = out[:, 0], out[:, 1]
    for p, q in itertools.product(range(3), repeat=2):
        for r, s in itertools.product(range(3), repeat=2):
            x, y = a ** p * np.conj(a) ** q, b ** r * np.conj(b) ** s
            ctx.close((x * y).mean(), x.mean() * y.mean(), 'entries are independent', rtol=1e-3, atol=2e-3 * moments)
    ctx.close((np.abs(a) ** 2).mean(), (np.abs(b) ** 2).mean(), 'entries have the same distribution', rtol=1e-9)


def components(unit, ctx, tape, limit):
    from cyjax import random as r

    def support(z):
        ctx.check((np.abs(z.real) <= 1).all() and (np.abs(z.imag) <= 1).all(), 'inside the square',
                  worst=np.abs(np.stack([z.real, z.imag])).max())
    shapes(ctx, tape, r.uniform_components, support=support)
    z = outcomes(ctx, tape, lambda k: r.uniform_components(k, ()), 'measure', limit)
    if z is not None:
        support(z)
        uniform_quantiles(ctx, (z.real + 1) / 2, 'real part')
        uniform_quantiles(ctx, (z.imag + 1) / 2, 'imaginary part')
        cells(ctx, (z.real + 1) / 2, (z.imag + 1) / 2)
    independent(ctx, tape, r.uniform_components, limit, 4.)
    ctx.sample(gen='components', outcomes=len(z))


def uniform_quantiles(ctx, x, what):
    x = np.sort(x)
    want = (np.arange(len(x)) + .5) / len(x)
    ctx.check(np.abs(x - want).max() < 0.02, 'uniform distribution: ' + what, worst=np.abs(x - want).max())


def cells(ctx, x, y):
    h = np.histogram2d(x, y, bins=4, range=[[0, 1], [0, 1]])[0] / len(x)
    ctx.check(h.sum() > 0.999, 'all outcomes inside')
    ctx.close(h, np.full((4, 4), 1 / 16), 'uniform joint distribution', rtol=0.13, atol=0)


def annulus(unit, ctx, tape, limit):
    from cyjax import random as r
    lo, hi = unit['radii']
    if lo is None:
        fn, (lo, hi) = r.uniform_angle, (0, 1)
    else:
        fn = lambda key, shape: r.uniform_angle(key, shape, lo, hi)
        one = np.asarray(tape.enumerate(lambda k: r.uniform_angle(k, (2,), minrad=lo, maxrad=hi), levels=[.3])[0])
        two = np.asarray(tape.enumerate(lambda k: fn(k, (2,)), levels=[.3])[0])
        ctx.equal(one, two, 'radii by name')

    def support(z):
        a = np.abs(z)
        ctx.check((a >= lo - 1e-12).all() and (a <= hi * (1 + 1e-12)).all(), 'between the radii', range=(a.min(), a.max()))
    shapes(ctx, tape, fn, support=support)
    z = outcomes(ctx, tape, lambda k: fn(k, ()), 'measure', limit)
    if z is not None:
        support(z)
        u = (np.abs(z) ** 2 - lo ** 2) / (hi ** 2 - lo ** 2)
        t = np.angle(z) / (2 * np.pi) % 1
        uniform_quantiles(ctx, u, 'squared modulus')
        uniform_quantiles(ctx, t, 'argument')
        cells(ctx, u, t)
    independent(ctx, tape, fn, limit, max(hi, 1.) ** 8)
    ctx.sample(gen='annulus', radii=(lo, hi), outcomes=len(z))


def unit(unit, ctx, tape, limit):
    from cyjax import random as r

    def support(z):
        ctx.close(np.abs(z), np.ones(z.shape), 'unit modulus', rtol=1e-12, atol=0)
    shapes(ctx, tape, r.uniform_angle_unit, support=support)
    z = outcomes(ctx, tape, lambda k: r.uniform_angle_unit(k, ()), 'measure', limit)
    support(z)
    uniform_quantiles(ctx, np.angle(z) / (2 * np.pi) % 1, 'argument')
    independent(ctx, tape, r.uniform_angle_unit, limit, 1.)
    ctx.sample(gen='unit', outcomes=len(z))


def isotropic(ctx, x, tol):
    """Moments of the uniform distribution on the real unit sphere."""
    n = x.shape[-1]
    ctx.close(np.linalg.norm(x, axis=-1), np.ones(len(x)), 'unit norm', rtol=1e-12, atol=0)
    ctx.close(x.mean(0), np.zeros(n), 'mean', rtol=0, atol=1e-3)
    ctx.close(np.einsum('ai,aj->ij', x, x) / len(x), np.eye(n) / n, 'second moments', rtol=0, atol=2e-3)
    if n > 1:
        e = np.eye(n)
        want = (np.einsum('ij,kl->ijkl', e, e) + np.einsum('ik,jl->ijkl', e, e) + np.einsum('il,jk->ijkl', e, e)) / (n * (n + 2))
        got = np.einsum('ai,aj,ak,al->ijkl', x, x, x, x, optimize=True) / len(x)
        ctx.close(got, want, 'fourth moments', rtol=0, atol=tol * 3 / (n * (n + 2)))


TOL = {2: 0.015, 3: 0.04, 4: 0.07, 6: 0.14}


def real(unit, ctx, tape, limit):
    from cyjax import random as r
    n = unit['dim']
    for lead in [(), (1,), (2,), (2, 1), (0,), (2, 2)]:
        shape = (*lead, n)
        got = np.asarray(tape.enumerate(lambda k: r.real_sphere(k, shape), levels=[.3])[0])
        ctx.equal(got.shape, (1, *shape), 'requested shape')
        ctx.check(not np.iscomplexobj(got), 'real values')
    ctx.close(np.asarray(r.real_sphere(np.zeros(2, np.uint32), ())), 1., 'no dimension', rtol=1e-12)
    for levels in (None, EDGE):
        x = outcomes(ctx, tape, lambda k: r.real_sphere(k, (n,)), 'points', limit, levels)
        if x is None:
            continue
        ctx.close(np.linalg.norm(x, axis=-1), np.ones(len(x)), 'unit norm', rtol=1e-12, atol=0)
        if levels is None:
            isotropic(ctx, x, TOL.get(n, 0.15))
    if n <= 2:
        x = outcomes(ctx, tape, lambda k: r.real_sphere(k, (2, n)), 'pairs', limit)
        if x is not None:
            got = np.einsum('ai,aj,ak,al->ijkl', x[:, 0], x[:, 0], x[:, 1], x[:, 1]) / len(x)
            ctx.close(got, np.einsum('ij,kl->ijkl', np.eye(n), np.eye(n)) / n ** 2, 'rows are independent', rtol=0, atol=5e-3)
            ctx.close(np.einsum('ai,ak->ik', x[:, 0], x[:, 1]) / len(x), np.zeros((n, n)), 'rows are uncorrelated', rtol=0, atol=5e-3)
            ctx.close(np.linalg.norm(x, axis=-1), np.ones(x.shape[:2]), 'unit norm per row', rtol=1e-12, atol=0)
    ctx.sample(gen='real sphere', dim=n)


def complex(unit, ctx, tape, limit):
    from cyjax import random as r
    n = unit['dim']
    for lead in [(), (1,), (2,), (2, 1), (0,), (2, 2)]:
        shape = (*lead, n)
        got = np.asarray(tape.enumerate(lambda k: r.complex_sphere(k, shape), levels=[.3])[0])
        ctx.equal(got.shape, (1, *shape), 'requested shape')
        ctx.check(np.iscomplexobj(got), 'complex values')
    one = np.asarray(r.complex_sphere(np.zeros(2, np.uint32), ()))
    ctx.close(np.abs(one), 1., 'no dimension', rtol=1e-12)
    for levels in (None, EDGE):
        z = outcomes(ctx, tape, lambda k: r.complex_sphere(k, (n,)), 'points', limit, levels)
        if z is None:
            continue
        ctx.close(np.linalg.norm(z, axis=-1), np.ones(len(z)), 'unit norm', rtol=1e-12, atol=0)
        if levels is None:
            isotropic(ctx, np.concatenate([z.real, z.imag], -1), TOL[2 * n])
    if n <= 1:
        z = outcomes(ctx, tape, lambda k: r.complex_sphere(k, (2, n)), 'pairs', limit)
        if z is not None:
            for a, b in itertools.product(range(-2, 3), repeat=2):
                if a or b:
                    m = (np.where(a >= 0, z[:, 0, 0], z[:, 0, 0].conj()) ** abs(a) *
                         np.where(b >= 0, z[:, 1, 0], z[:, 1, 0].conj()) ** abs(b)).mean()
                    ctx.close(m, 0., 'rows are independent', rtol=0, atol=5e-3, powers=(a, b))
    ctx.sample(gen='complex sphere', dim=n)


def projective(unit, ctx, tape, limit):
    from cyjax import random as r
    d, affine = unit['dim'], unit['affine']
    kw = {} if affine is None else dict(affine=affine)

    def fn(key, count=1):
        return r.uniform_projective(key, count, d, **kw)

    for count in (0, 1, 2, 3):
        got = tape.enumerate(lambda k: fn(k, count), levels=[.3])[0]
        if affine is False:
            ctx.equal(np.shape(got), (1, count, d + 1), 'homogeneous coordinates')
        else:
            ctx.equal(str((np.shape(got[0]), np.shape(got[1]))), str(((1, count, d), (1, count))), 'affine coordinates and patches')
    for levels in (None, [0., 1., .13, .499] if d > 1 else EDGE):
        out = outcomes(ctx, tape, fn, 'points', limit, levels)
        if out is None:
            continue
        if affine is False:
            hom = out[:, 0]
        else:
            zs, patch = out[0][:, 0], out[1][:, 0]
            ctx.check(((patch >= 0) & (patch <= d)).all(), 'valid patches')
            ctx.check((np.abs(zs) <= 1 + 1e-9).all(), 'largest coordinate scaled to one', worst=np.abs(zs).max())
            hom = o.to_hom(zs, patch)
        ctx.check(np.isfinite(hom).all() and (np.abs(hom).max(-1) > 0).all(), 'points of projective space')
        if levels is not None:
            continue
        h = hom / np.linalg.norm(hom, axis=-1, keepdims=True)
        rho = np.einsum('ai,aj->aij', h, h.conj())
        e = np.eye(d + 1)
        tol = {2: .04, 3: .07, 4: .1}[d + 1]
        ctx.close(rho.mean(0), e / (d + 1), 'second moments', rtol=0, atol=5e-3)
        want = (np.einsum('ij,kl->ijkl', e, e) + np.einsum('il,kj->ijkl', e, e)) / ((d + 1) * (d + 2))
        ctx.close(np.einsum('aij,akl->ijkl', rho, rho) / len(rho), want, 'uniform on projective space', rtol=0,
                  atol=tol * 2 / ((d + 1) * (d + 2)))
        if affine is not False:
            ctx.close(np.bincount(patch, minlength=d + 1) / len(patch), np.full(d + 1, 1 / (d + 1)), 'all patches equally likely',
                      rtol=0.12, atol=0)
    ctx.sample(gen='projective', dim=d, affine=affine)


def overlap(unit, ctx, tape, limit):
    from cyjax import random as r
    d, ps, i, j = unit['dim'], unit['size'], unit['this'], unit['other']

    def fn(key, count=1):
        return r.projective_overlap(key, count, d, i, j, ps)

    for count in (0, 1, 3):
        got = np.asarray(tape.enumerate(lambda k: fn(k, count), levels=[.3])[0])
        ctx.equal(got.shape, (1, count, d), 'shape')
        ctx.check(np.iscomplexobj(got), 'complex coordinates')
    loc = j if j < i else j - 1          # position of the other coordinate
    for levels in (None, EDGE if d < 3 else [0., 1., .13, .499]):
        z = outcomes(ctx, tape, fn, 'points', limit, levels)
        if z is None:
            continue
        z = z[:, 0]
        hom = o.to_hom(z, np.full(len(z), i))
        w = np.delete(hom / hom[:, j:j + 1], j, axis=-1)
        for what, x in (('this', z), ('other', w)):
            ctx.check((np.abs(x) <= ps * (1 + 1e-9)).all(), 'bounded by the patch size in the %s chart' % what, worst=np.abs(x).max())
        if levels is not None:
            # the boundary is reached
            a = np.abs(z[:, loc])
            ctx.close(a.min(), 1 / ps, 'smallest value of the other coordinate', rtol=1e-6)
            ctx.close(a.max(), ps, 'largest value of the other coordinate', rtol=1e-6)
            for q in range(d):
                ctx.close(np.abs(z[:, q]).max(), ps, 'the region is covered', rtol=1e-6)
            continue
        # the same coordinates in both charts, the exchanged one first
        zi = [loc] + [q for q in range(d) if q != loc]
        li = i if i < j else i - 1
        wi = [li] + [q for q in range(d) if q != li]
        A, B = z[:, zi], w[:, wi]
        feats = {}
        for name, x in (('A', A), ('B', B)):
            m = np.abs(x)
            f = [np.log(m[:, 0]), np.log(m[:, 0]) ** 2, m[:, 0], m[:, 0] ** 2, 1 / m[:, 0]]
            f += [m[:, q] for q in range(1, d)] + [m[:, q] ** 2 for q in range(1, d)]
            f += [m[:, q] * m[:, 0] for q in range(1, d)] + [m[:, q] ** 2 / m[:, 0] for q in range(1, d)]
            f += [m[:, q] * m[:, p] for q in range(1, d) for p in range(1, q)]
            f += [1. * (m[:, 0] < 1)]
            c = [x[:, q] ** a for q in range(d) for a in (1, 2)] + [x[:, q] * x[:, p].conj() for q in range(d) for p in range(q)] + \
                [x[:, q] * x[:, p] for q in range(d) for p in range(q)]
            feats[name] = (np.array([v.mean() for v in f]), np.array([v.mean() for v in c]))
        ctx.close(feats['A'][0], feats['B'][0], 'symmetric under exchange of the charts', rtol=2e-2, atol=5e-3)
        ctx.close(feats['A'][1], np.zeros(len(feats['A'][1])), 'uniform phases', rtol=0, atol=1e-6 * ps ** 2)
        ctx.close((np.abs(A[:, 0]) < 1).mean(), .5, 'as many points on either side', rtol=1e-2)
        ctx.check(np.ptp(np.abs(A[:, 0])) > 0.5 * (ps - 1 / ps), 'the overlap is covered', spread=np.ptp(np.abs(A[:, 0])))
    ctx.sample(gen='overlap', dim=d, patches=(i, j), size=ps)


def shuffle(unit, ctx, tape, limit):
    """Shuffling one axis: rearranges along that axis only, each leading slice on its own."""
    import jax.numpy as jnp
    from cyjax.util import shuffle_axis
    for shape in [(1,), (2,), (3,), (2, 2), (2, 3), (3, 2), (1, 2, 2), (2, 2, 2)]:
        x = jnp.arange(int(np.prod(shape))).reshape(shape) + 10
        X = np.asarray(x)
        for axis in range(len(shape)):
            out = outcomes(ctx, tape, lambda k: shuffle_axis(k, x, axis), 'shuffle %s axis %d' % (shape, axis), 2 ** 17,
                           [.1, .4, .8])
            if out is None:
                continue
            n = int(np.prod(shape[:axis]))
            src = X.reshape(n, shape[axis], -1)
            seen = [set() for _ in range(n)]
            for row in np.unique(out.reshape(len(out), -1), axis=0):
                got = row.reshape(n, shape[axis], -1)
                for s in range(n):
                    perm = tuple(int(np.flatnonzero((src[s] == got[s][q]).all(-1))[0]) if (src[s] == got[s][q]).all(-1).any() else -1
                                 for q in range(shape[axis]))
                    ctx.equal(sorted(perm), list(range(shape[axis])), 'permutation along the axis')
                    seen[s].add(perm)
            import math
            for s in range(n):
                ctx.equal(len(seen[s]), math.factorial(shape[axis]), 'every permutation is possible')
            if n == 2 and shape[axis] == 2:
                ctx.equal(len(np.unique(out.reshape(len(out), -1), axis=0)), 4, 'slices are shuffled separately')
    ctx.sample(gen='shuffle', shape=shape)
