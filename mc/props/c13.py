"""C13: Monte Carlo integration against the explicit weighted mean of the recorded samples."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves

ID = 'C13'
TECHNIQUE = 'exhaustive enumeration of sample sets, integrand shapes and batch splits on the real integrators; ' \
            'every sampler call is recorded and the result recomputed from the record'
BOUNDS = {
    'quick': 'single integrals: all sample sets of size 1-3 over 3 values x 3 weights (size 2: also all weights scaled by 2^-60 and 2^40), 7 integrands (constant, scalar, '
             'vector, matrix, complex, several inputs); batched: batches 1-4 x batch sizes 1-4 and 1x300, 50x2, 9x33, keys 0-2, the same '
             'integrands, plain and jitted; volumes of 6 families, three batch splits; with and without variance',
    'thorough': 'as quick with sample sets up to size 4, batches and sizes up to 6, keys 0-5, all families',
}
VALS = [0.5, -1., 2.]
WTS = [1., 0.25, 3.]


def integrands():
    import jax.numpy as jnp
    return {
        'python one': (lambda z: 1, lambda z: np.ones(len(z)), True),
        'constant': (lambda z: jnp.ones(z.shape[0]) * 2.5, lambda z: 2.5 * np.ones(len(z)), True),
        'square': (lambda z: z ** 2, lambda z: z ** 2, True),
        'vector': (lambda z: jnp.stack([z, z ** 2 - 1], -1), lambda z: np.stack([z, z ** 2 - 1], -1), True),
        'vector3': (lambda z: jnp.stack([z, z ** 2 - 1, 1 - z], -1), lambda z: np.stack([z, z ** 2 - 1, 1 - z], -1), True),
        'matrix': (lambda z: z[:, None, None] * jnp.arange(1, 5).reshape(2, 2) + 0.5,
                   lambda z: z[:, None, None] * np.arange(1, 5).reshape(2, 2) + 0.5, True),
        'complex': (lambda z: (1 + 2j) * z + 1j * z ** 2, lambda z: (1 + 2j) * z + 1j * z ** 2, False),
    }


SPECS = {'quick': ['fermat1', 'dwork1', 'gen1', 'quad2', 'gen2', 'cub3'], 'thorough': list(o.SPECS)}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['single', 'batched', 'volume'])
        if part == 'volume':
            c.pick('spec', SPECS[tier])
        else:
            c.pick('fn', ['python one', 'constant', 'square', 'vector', 'vector3', 'matrix', 'complex'])
    return leaves(scenario)


def run(unit, ctx):
    {'single': single, 'batched': batched, 'volume': volume}[unit['part']](unit, ctx)


def expected(vals, w):
    """Mean and variance of the mean."""
    x = vals * w.reshape((-1,) + (1,) * (vals.ndim - 1))
    mean = x.mean(0)
    return mean, ((x - mean) ** 2).mean(0) / len(x)


def single(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax.util import mc_integrate
    fn, ref, real = integrands()[unit['fn']]
    key = jax.random.PRNGKey(3)
    for size in range(1, 4 if ctx.tier == 'quick' else 5):
        sets = list(itertools.product(itertools.product(range(3), range(3)), repeat=size))
        jf = jax.jit(lambda z, w: mc_integrate(key, size, fn, lambda k, c: (z, w), var=True))
        jn = jax.jit(lambda z, w: mc_integrate(key, size, fn, lambda k, c: (z, w)))
        for q, s in enumerate(sets):
            z = np.array([VALS[i] for i, _ in s])
            w = np.array([WTS[j] for _, j in s])
            ctx.where = dict(values=z, weights=w)
            ctx.state((unit['fn'], s))
            m, v = expected(ref(z), w)
            ctx.close(jn(z, w), m, 'mean', rtol=1e-11, atol=1e-12)
            gm, gv = jf(z, w)
            ctx.close(gm, m, 'mean with variance', rtol=1e-11, atol=1e-12)
            if real:
                ctx.close(gv, v, 'variance of the mean', rtol=1e-10, atol=1e-12)
            ctx.outcome(m)
            ctx.ran(2, 2)
            if size == 2:
                # small and large weights: relative accuracy
                for f in (2. ** -60, 2. ** 40):
                    gm, gv = jf(z, w * f)
                    ctx.close(np.asarray(gm) / f, m, 'mean for scaled weights', rtol=1e-11, atol=1e-12)
                    if real:
                        ctx.close(np.asarray(gv) / f / f, v, 'variance for scaled weights', rtol=1e-10, atol=1e-12)
                    ctx.ran(1, 1)
            if q % 40 == 0:
                # not compiled; record how the sampler is called
                calls = []

                def sample(k, c):
                    calls.append((np.asarray(k), c))
                    return jnp.array(z), jnp.array(w)
                ctx.close(mc_integrate(key, size, fn, sample), m, 'mean', rtol=1e-11, atol=1e-12)
                ctx.check(calls and all(c == size for _, c in calls), 'number of samples requested')
                gm, gv = mc_integrate(key, count=size, fn=fn, sample=sample, var=True)
                ctx.close(gm, m, 'mean', rtol=1e-11, atol=1e-12)
                if real:
                    ctx.close(gv, v, 'variance of the mean', rtol=1e-10, atol=1e-12)
                # samples may be any structure
                ctx.close(mc_integrate(key, size, lambda t: fn(t[0] - t[1]), lambda k, c: (
                    (jnp.array(z) + 1, jnp.ones(size)), jnp.array(w)), False), m, 'structured samples', rtol=1e-11, atol=1e-12)
                ctx.ran(3, 3)
    ctx.sample(integrand=unit['fn'], values=z, weights=w, mean=m)


def recorder():
    import jax
    import jax.numpy as jnp
    log = []

    def record(k, z, w):
        log.append((tuple(np.asarray(k).ravel().tolist()), np.array(z), np.array(w)))

    def sample(key, count):
        a, b = jax.random.split(jax.random.fold_in(key, 77))
        z = jnp.array(VALS)[jax.random.randint(a, (count,), 0, 3)] + 0.125 * jax.random.uniform(b, (count,))
        w = 0.5 + jax.random.uniform(a, (count,))
        jax.debug.callback(record, key, z, w)
        return z, w
    return log, sample


def read(log, ctx, batches, size):
    """Union of the recorded batches; repeated evaluations of one batch are merged."""
    import jax
    jax.effects_barrier()
    one = {}
    for k, z, w in log:
        one.setdefault(k, (z, w))
    ctx.check(len(one) == batches, 'fresh randomness in every batch', distinct=len(one), batches=batches)
    z = np.concatenate([a for a, _ in one.values()])
    w = np.concatenate([b for _, b in one.values()])
    ctx.check(len(z) == batches * size, 'samples per batch', got=len(z), want=batches * size)
    return z, w


def batched(unit, ctx):
    import jax
    from cyjax.util import mc_integrate_batched
    fn, ref, real = integrands()[unit['fn']]
    quick = ctx.tier == 'quick'
    top = 4 if quick else 6
    for batches, size in [*itertools.product(range(1, top + 1), repeat=2), (1, 300), (50, 2), (9, 33)]:
        log, sample = recorder()

        def call(key, var):
            return mc_integrate_batched(key, batches, size, fn, sample, var)
        compiled = jax.jit(call, static_argnums=1)
        plain = [(0, False)] if (batches + size) % 2 or not quick else []
        for seed, jit in [(k, True) for k in range(3 if quick else 6)] + plain:
            ctx.where = dict(batches=batches, size=size, key=seed, jit=jit)
            ctx.state((unit['fn'], batches, size, seed, jit))
            key = jax.random.PRNGKey(seed)
            c = compiled if jit else call
            log.clear()
            got = np.asarray(c(key, False))
            z, w = read(log, ctx, batches, size)
            m, v = expected(ref(z), w)
            ctx.close(got, m, 'mean over all batches', rtol=1e-10, atol=1e-11)
            log.clear()
            gm, gv = c(key, True)
            jax.block_until_ready((gm, gv))
            z, w = read(log, ctx, batches, size)
            m, v = expected(ref(z), w)
            ctx.close(gm, m, 'mean with variance', rtol=1e-10, atol=1e-11)
            if real:
                ctx.close(gv, v, 'variance of the mean', rtol=1e-9, atol=1e-12)
            ctx.outcome(m)
            ctx.ran(2, 2)
            if (batches, size, seed) == (2, 3, 0):
                log.clear()
                r = mc_integrate_batched(key=key, batches=batches, batch_size=size, fn=fn, sample=sample, var=False)
                jax.block_until_ready(r)
                z, w = read(log, ctx, batches, size)
                ctx.close(r, expected(ref(z), w)[0], 'keywords', rtol=1e-10, atol=1e-11)
    # different keys use different samples
    seen = {}
    for seed in range(3):
        log, sample = recorder()
        jax.block_until_ready(mc_integrate_batched(jax.random.PRNGKey(seed), 3, 2, fn, sample, False))
        for k in {k for k, _, _ in (jax.effects_barrier(), log)[1]}:
            ctx.check(k not in seen, 'batches of different keys share randomness')
            seen[k] = seed
    ctx.sample(integrand=unit['fn'], batches=batches, size=size, mean=m)


def volume(unit, ctx):
    import jax
    import jax.numpy as jnp
    spec = o.SPECS[unit['spec']]
    base = spec.make()
    log = []

    def record(k, w):
        log.append((tuple(np.asarray(k).ravel().tolist()), np.array(w)))

    def spy(self, key, *a, **kw):
        out = type(base).sample_intersect(self, key, *a, **kw)
        wts = kw.get('weights', a[3] if len(a) > 3 else False)
        if wts:
            jax.debug.callback(record, key, out[1])
        return out
    cls = type('Recorded', (type(base),), {'sample_intersect': spy})
    v = cls(spec.dim) if spec.kind else cls(base.defining_poly)
    quick = ctx.tier == 'quick'
    for par in spec.par_values[:1 if quick else 2]:
        P = None if not spec.params else jnp.array(np.array(par, complex))
        cases = [(1, 4), (2, 3), (3, 1)] if quick else list(itertools.product(range(1, 4), range(1, 6)))
        for batches, size in cases:
            for seed in range(1 if quick else 2):
                ctx.where = dict(par=par, batches=batches, size=size, key=seed)
                ctx.state((unit['spec'], par, batches, size, seed))
                log.clear()
                got = np.asarray(v.compute_vol(jax.random.PRNGKey(seed), P, batches, size))
                jax.effects_barrier()
                one = dict(log)
                ctx.check(len(one) == batches, 'fresh points in every batch', got=len(one))
                w = np.concatenate(list(one.values()))
                ctx.check(len(w) == batches * size, 'number of points', got=len(w))
                ctx.close(got, w.mean(), 'volume is the mean weight', rtol=1e-9)
                log.clear()
                gm, gv = v.compute_vol(jax.random.PRNGKey(seed), P, batches=batches, batch_size=size, var=True)
                jax.effects_barrier()
                w = np.concatenate(list(dict(log).values()))
                ctx.close(gm, w.mean(), 'volume with variance', rtol=1e-9)
                ctx.close(gv, w.var() / len(w), 'variance of the volume', rtol=1e-6, atol=1e-12 * w.mean() ** 2)
                ctx.outcome(got)
                ctx.ran(2, 2)
    ctx.sample(family=unit['spec'], volume=got)
