"""C22: decoding of real parameters for complete parameter products and polarization sets of every size."""
import itertools

import numpy as np

from mc.core import leaves, precision

ID = 'C22'
BOUNDS = {
    'quick': 'sizes 1-3: complete products of 4 / 4 / 3 values for all N^2 parameters; sizes 4-9: all unit vectors, all sums of two '
             'and differences (determines a quadratic map); identity start for sizes 1-40; fluctuations 4 values x 5 keys x sizes '
             '1-6; separate diagonal and upper entries in real and complex dtypes; double and single precision',
    'thorough': 'as quick with sizes up to 14 and start up to size 120',
}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['grid', 'polar', 'init'])
        if part == 'grid':
            c.pick('size', [1, 2, 3])
        elif part == 'polar':
            c.pick('size', [*range(4, 10 if tier == 'quick' else 15), 20])
        c.pick('bits', [64, 32])
    return leaves(scenario)


def reference(par, N):
    """Upper triangular factor from the documented parameter order, one row per parameter vector."""
    par = np.asarray(par, float)
    M = np.zeros((len(par), N, N), complex)
    pairs = [(i, j) for i in range(N) for j in range(i + 1, N)]
    for i in range(N):
        M[:, i, i] = par[:, i]
    for t, (i, j) in enumerate(pairs):
        M[:, i, j] = par[:, N + t] + 1j * par[:, N + len(pairs) + t]
    return M, M @ M.conj().swapaxes(1, 2)


def run(unit, ctx):
    with precision(unit['bits']):
        (init if unit['part'] == 'init' else decode)(unit, ctx)


def decode(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    N, bits = unit['size'], unit['bits']
    fdt = np.float64 if bits == 64 else np.float32
    tol = dict(rtol=1e-12, atol=1e-12) if bits == 64 else dict(rtol=1e-5, atol=1e-5)
    if unit['part'] == 'grid':
        vals = [-1.5, 0, 0.25, 2] if N < 3 else [-1.5, 0, 2]
        par = np.array(list(itertools.product(vals, repeat=N * N)), fdt)
    else:
        E = np.eye(N * N)
        i, j = np.triu_indices(N * N)
        if N > 15:
            # every parameter once with its neighbours
            i, j = np.concatenate([np.arange(N * N)] * 3), np.concatenate([(np.arange(N * N) + s) % (N * N) for s in (0, 1, N)])
        par = np.concatenate([E[i] + E[j], E[i] - 0.5 * E[j]]).astype(fdt)
    ctx.rows((unit['part'], N, bits), par)
    many = jax.jit(jax.vmap(ml.cholesky_from_param))
    for lo in range(0, len(par), 4000):
        p = par[lo:lo + 4000]
        M, want = reference(p, N)
        got = np.asarray(many(jnp.array(p)))
        ctx.equal(got.shape, want.shape, 'shape')
        ctx.check(np.iscomplexobj(got), 'complex')
        ctx.close(got, want, 'decoded matrix', **tol)
        ctx.close(got, got.conj().swapaxes(1, 2), 'Hermitian', **tol)
        ev = np.linalg.eigvalsh(want)
        gv = np.linalg.eigvalsh(got)
        sc = max(1, np.abs(want).max())
        ctx.check((gv >= -1e-4 * sc if bits == 32 else gv >= -1e-10 * sc).all(), 'positive semidefinite')
        reg = (p[:, :N] != 0).all(1)
        if bits == 64:
            ctx.check((gv[reg][:, 0] > 0).all(), 'positive definite')
            ctx.close(np.linalg.det(got[reg]).real, np.prod(p[reg][:, :N].astype(float) ** 2, 1), 'determinant', rtol=1e-8, atol=1e-8)
        ctx.outcomes_rows(want.reshape(len(p), -1))
        ctx.ran(1, len(p))
        for f in (2. ** -30, 2. ** 30) if bits == 64 else (2. ** -12, 2. ** 12):
            q = np.asarray(many(jnp.array(p * fdt(f))))
            ctx.close(q / f ** 2, want, 'scaled parameters', **tol)
            ctx.ran(1, len(p))
    step = max(1, len(par) // 60)
    for row in par[::step][:60]:
        ctx.where = dict(parameters=row)
        M, want = reference(row[None], N)
        ctx.close(ml.cholesky_from_param(jnp.array(row)), want[0], 'single', **tol)
        d, u = row[:N], M[0][np.triu_indices(N, 1)]
        ctx.close(ml.cholesky_decode(jnp.array(d), jnp.array(u)), want[0], 'diagonal and upper entries', **tol)
        ctx.ran(2, 2)
        if not np.any(u.imag):
            got = ml.cholesky_decode(jnp.array(d), jnp.array(u.real.astype(fdt)))
            ctx.close(got, want[0], 'real upper entries', **tol)
    ctx.sample(size=N, parameters=par[-1])


def init(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    bits = unit['bits']
    for N in range(1, 41 if ctx.tier == 'quick' else 121):
        key = jax.random.PRNGKey(N)
        ctx.where = dict(size=N)
        ctx.state((bits, N))
        p = np.asarray(ml.hermitian_param_init(key, N))
        ctx.equal(p.shape, (N * N,), 'length')
        ctx.check(np.isrealobj(p), 'real')
        ctx.close(reference(p[None], N)[1][0], np.eye(N), 'start at the identity', rtol=1e-6, atol=1e-6)
        ctx.close(ml.cholesky_from_param(jnp.array(p)), np.eye(N), 'decodes to the identity', rtol=1e-6, atol=1e-6)
        ctx.ran(2, 2)
    signs = set()
    for N in range(1, 7):
        for k in range(5):
            key = jax.random.PRNGKey(k)
            unitv = None
            for f in (0., 1e-3, 0.1, 0.25):
                ctx.where = dict(size=N, key=k, fluctuate=f)
                ctx.state((bits, N, k, f))
                for dt in (None, np.float32):
                    kw = {} if dt is None else dict(dtype=dt)
                    p = np.asarray(ml.hermitian_param_init(key, N, f, **kw))
                    if dt is not None:
                        ctx.equal(str(p.dtype), 'float32', 'dtype')
                    ctx.equal(p.shape, (N * N,), 'length')
                    ctx.check((p[N:] == 0).all(), 'diagonal')
                    dev = p[:N].astype(float) - 1
                    ctx.check((np.abs(dev) <= 8 * f + 1e-6).all(), 'deviation of the order of the fluctuation', dev=dev)
                    H = np.asarray(ml.cholesky_from_param(jnp.array(p)))
                    ctx.close(H, np.diag((1 + dev) ** 2), 'decodes to a diagonal matrix', rtol=1e-5, atol=1e-6)
                    if f:
                        signs |= set(np.sign(dev))
                        if dt is None:
                            if unitv is not None:
                                ctx.close(dev / f, unitv, 'proportional to the fluctuation', rtol=1e-2, atol=2e-3)
                            elif f >= 0.1:
                                unitv = dev / f
                            if N > 1 and f > 1e-3:
                                ctx.check(len(set(np.round(dev, 7))) == N, 'entries fluctuate independently', dev=dev)
                    ctx.outcome(dev)
                    ctx.ran(1, 1)
            a = np.asarray(ml.hermitian_param_init(key, N, 0.1))
            ctx.close(a, np.asarray(ml.hermitian_param_init(key, N, fluctuate=0.1)), 'reproducible')
    ctx.check({1., -1.} <= signs, 'fluctuates around the identity')
    ctx.sample(size=N, start=p)
