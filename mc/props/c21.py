"""C21: Donaldson steps against the section average over scripted and recorded draws."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves, Skip
from mc.props.c20 import wts
from mc.spy import recording, scripted, Script

ID = 'C21'
BOUNDS = {
    'quick': 'sampler answers: all sequences of 4 points over 5 points plus one with a non-finite weight (nan, inf, -inf), for '
             'every split into equal batches (1x4, 2x2, 4x1), on 4 families of dimension 1-2; real draws for 3 keys and 6 '
             '(batches, batch size) pairs on 6 families, full and reduced bases; matrices Hermitian, with an anti-Hermitian '
             'part, real, single precision; 240 points with weights over many orders of magnitude in 1-240 batches; volumes and matrix multiples; plain and compiled',
    'thorough': 'as quick with sequences of 6 points over 5 (1x6, 2x3, 3x2, 6x1)',
}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['script', 'real', 'uneven'])
        if part == 'script':
            c.pick('spec', ['dwork1', 'gen1', 'mix1', 'fermat1'])
            c.pick('bad', ['nan', 'inf', '-inf'])
        elif part == 'uneven':
            c.pick('spec', ['dwork1', 'gen2'])
        else:
            c.pick('spec', ['fermat1', 'dwork1', 'gen1', 'dwork2', 'quad2', 'dwork3'])
            c.pick('basis', [['full', 1], ['full', 2], ['reduced', 3]] if o.SPECS[c.values['spec']].n < 5 else [['full', 1]])
            if c.values['spec'] == 'quad2' and c.values['basis'] == ['full', 2]:
                raise Skip  # linearly dependent on the quadric, no inverse
    return leaves(scenario)


def expect(pows, H, zs, pats, w, vol):
    s = o.mono_eval(pows, o.to_hom(zs, pats))
    H = np.asarray(H, complex)
    H = (H + H.conj().T) / 2
    den = np.einsum('ia,ib,ab->i', s, s.conj(), H).real
    w = np.where(np.isfinite(w), w, 0)
    T = np.einsum('i,ia,ib->ab', w / den, s, s.conj()) / len(w) * len(pows) / vol
    return T


def compare(ctx, got, T, what, tol=1e-7):
    got = np.asarray(got)
    ctx.equal(got.shape, T.shape, f'{what}: shape')
    c = np.linalg.cond(T)
    if c > 1e7:
        return False
    want = np.linalg.inv(T).T
    sc = np.abs(want).max()
    ctx.close(got, want, what, rtol=tol, atol=tol * sc * max(1, c * 1e-6))
    ctx.close(got, got.conj().T, f'{what}: Hermitian', rtol=tol, atol=tol * sc * max(1, c * 1e-6))
    ctx.check((np.linalg.eigvalsh((got + got.conj().T) / 2) > 0).all(), f'{what}: positive')
    return True


def run(unit, ctx):
    dict(script=script, real=real, uneven=uneven)[unit['part']](unit, ctx)


def uneven(unit, ctx):
    """Many points, weights over many orders of magnitude."""
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    sec = D.MonomialBasisFull(spec.n - 1, 1)
    pows = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    par = spec.par_values[0]
    P = None if not spec.params else jnp.array(np.array(par, complex))
    poly = spec.poly(par)
    hom = o.solve_points(poly, spec.n, [0.7 - 0.4j, -0.3, 1, 0.5j, -0.8 - 0.2j], spec.n - 1, 0, mingrad=0.1)
    N = 240
    hom = hom[np.arange(N) % len(hom)]
    pats = np.argmax(np.abs(hom), 1)
    zs = o.to_affine(hom, pats)
    w0 = 1 + 0.5 * np.cos(np.arange(N))
    weights = {'even': w0, 'graded': 10. ** (np.arange(N) % 7 - 3) * w0, 'small': w0 * 1e-12, 'large': w0 * 1e12,
               'alternating': np.where(np.arange(N) % 2, w0, 0)}
    for i in (0, 7, N - 1):
        for f in (30., 1e3):
            weights[f'one {i} {f}'] = np.where(np.arange(N) == i, f, w0)
    H = o.hermitian(sec.size, 'full')
    key = jax.random.PRNGKey(2)
    for name, w in weights.items():
        sc = Script(zs, pats, w)
        am = D.AlgebraicMetric(scripted(v, sc), sec)
        step = jax.jit(am.donaldson_step, static_argnums=(4, 5))
        T = expect(pows, H, zs, pats, w, 0.8)
        for b in (1, 2, 8, 60, 240):
            ctx.where = dict(weights=name, batches=b)
            ctx.state((str(unit), name, b))
            sc.load(range(N))
            got = np.asarray(step(key, jnp.array(H), P, 0.8, b, N // b))
            ctx.check(compare(ctx, got, T, 'new matrix'), 'regular')
            ctx.ran(1, 1)
        ctx.outcome(got)
    ctx.sample(family=unit['spec'], weights=sorted(weights), points=N)


def script(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    sec = D.MonomialBasisFull(spec.n - 1, 1)
    pows = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    par = spec.par_values[0]
    P = None if not spec.params else jnp.array(np.array(par, complex))
    poly = spec.poly(par)
    hom = o.solve_points(poly, spec.n, [0.7 - 0.4j, -0.3, 1], spec.n - 1, 0, mingrad=0.2)
    hom = hom[np.linspace(0, len(hom) - 1, 6).astype(int)]
    pats = np.array([[p for p in range(spec.n) if abs(h[p]) > 0.3 * abs(h).max()][i % 2] for i, h in enumerate(hom)])
    zs = o.to_affine(hom, pats)
    w = wts(poly, zs, pats)
    w[5] = float(unit['bad'])
    sc = Script(zs, pats, w)
    am = D.AlgebraicMetric(scripted(v, sc), sec)
    step = jax.jit(am.donaldson_step, static_argnums=(4, 5))
    total = 4 if ctx.tier == 'quick' else 6
    splits = [(b, total // b) for b in range(1, total + 1) if total % b == 0]
    H = o.hermitian(sec.size, 'full')
    key = jax.random.PRNGKey(11)
    good = 0
    for seq in itertools.product(range(6), repeat=total):
        if unit['bad'] != 'nan' and 5 not in seq:
            continue
        if ctx.tier != 'quick' and sum(x == 5 for x in seq) > 1:
            continue
        i = list(seq)
        T = expect(pows, H, zs[i], pats[i], w[i], 0.8)
        if np.linalg.cond(T) > 1e7:
            continue
        good += 1
        for b, size in splits:
            ctx.where = dict(drawn=seq, batches=b, batch_size=size)
            ctx.state((unit['spec'], unit['bad'], seq, b))
            sc.load(seq)
            got = np.asarray(step(key, jnp.array(H), P, 0.8, b, size))
            ctx.check(sc.pos == total, 'draws all points', drawn=sc.pos)
            ctx.check(len(sc.keys) == b, 'fresh randomness for each batch', keys=len(sc.keys))
            compare(ctx, got, T, 'new matrix')
            ctx.ran(1, 1)
        ctx.outcome(got)
    ctx.check(good > 20, 'regular draws exist')
    # plain calls
    for b, size in splits:
        sc.load(range(total) if total <= 5 else [0, 1, 2, 3, 4, 0])
        i = sc.order
        ctx.where = dict(plain=True, batches=b)
        compare(ctx, am.donaldson_step(key, jnp.array(H), P, 0.8, b, size), expect(pows, H, zs[i], pats[i], w[i], 0.8), 'plain call')
        ctx.ran(1, 1)
    ctx.sample(family=unit['spec'], drawn=seq, splits=splits)


def real(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    kind, k = unit['basis']
    par = spec.par_values[0]
    P = None if not spec.params else jnp.array(np.array(par, complex))
    sec = D.MonomialBasisFull(spec.n - 1, k) if kind == 'full' else D.MonomialBasisReduced(v, k, None if P is None else np.array(P))
    pows = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    N = sec.size
    rec, log = recording(v)
    am, plain = D.AlgebraicMetric(rec, sec), D.AlgebraicMetric(v, sec)
    step = jax.jit(am.donaldson_step, static_argnums=(4, 5))
    pstep = jax.jit(plain.donaldson_step, static_argnums=(4, 5))
    H = o.hermitian(N, 'full')
    big = 2 * N + 3
    done = 0
    for b, size in ((1, big), (2, big // 2 + 1), (3, big // 3 + 2), (5, big // 5 + 2), (4, 7), (big, 1)):
        for kk in range(3):
            key = jax.random.PRNGKey(kk)
            ctx.where = dict(batches=b, batch_size=size, key=kk)
            ctx.state((str(unit), b, size, kk))
            log.clear()
            got = np.asarray(step(key, jnp.array(H), P, 0.8, b, size))
            jax.effects_barrier()
            ctx.equal(len(log), b, 'one draw for each batch')
            ctx.equal([len(x['zs']) for x in log], [size] * b, 'batch size')
            ctx.equal(len({x['key'].tobytes() for x in log}), b, 'fresh randomness for each batch')
            ctx.equal(len({x['zs'].tobytes() for x in log}), b, 'different points in each batch')
            zs = np.concatenate([x['zs'] for x in log])
            pt = np.concatenate([x['patch'] for x in log])
            w = wts(spec.poly(par), zs, pt)
            T = expect(pows, H, zs, pt, w, 0.8)
            if compare(ctx, got, T, 'new matrix', 1e-6):
                done += 1
            ctx.outcome(got)
            ctx.ran(1, b * size)
            if kk:
                continue
            # same call again, multiples of matrix and volume, anti-Hermitian part, dtypes
            tol = 1e-7 * max(1, np.linalg.cond(T) * 1e-4)
            sc = np.abs(got).max()
            if tol > 1e-2:
                continue
            t = dict(rtol=tol, atol=tol * sc)
            ctx.close(pstep(key, jnp.array(H), P, 0.8, b, size), got, 'reproducible', rtol=1e-12, atol=1e-12 * sc)
            ctx.close(pstep(key, jnp.array(H * 7.), P, 0.8, b, size), got * 7, 'multiple of the matrix', **t)
            ctx.close(pstep(key, jnp.array(H), P, 2.4, b, size), got * 3, 'multiple of the volume', **t)
            for s in (1e-9, 1e9):
                ctx.close(np.asarray(pstep(key, jnp.array(H * s), P, 0.8, b, size)) / s, got, 'multiple of the matrix', **t)
                ctx.close(np.asarray(pstep(key, jnp.array(H), P, 0.8 * s, b, size)) / s, got, 'multiple of the volume', **t)
            X = np.cos(np.arange(N * N)).reshape(N, N) + 1j * np.sin(np.arange(N * N) ** 2).reshape(N, N)
            ctx.close(pstep(key, jnp.array(H + X - X.conj().T), P, 0.8, b, size), got, 'Hermitian part only', **t)
            ctx.ran(8, 8 * b * size)
            if b == 2:
                ctx.close(plain.donaldson_step(key, jnp.array(H), P, 0.8, b, size), got, 'plain call', **t)
                R = o.hermitian(N, 'diag').real
                w1 = pstep(key, jnp.array(R + 0j), P, 0.8, b, size)
                ctx.close(pstep(key, jnp.array(R), P, 0.8, b, size), w1, 'real matrix', **t)
                ctx.close(pstep(key, jnp.array(H.astype(np.complex64)), P, 0.8, b, size), got, 'single precision matrix',
                          rtol=1e-3, atol=1e-3 * sc)
                ctx.ran(4, 4 * b * size)
    ctx.check(done >= 6, 'regular draws exist', done=done)
    ctx.sample(family=unit['spec'], basis=unit['basis'], batches=b, batch_size=size)
