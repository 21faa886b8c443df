"""C24: operation histories of the buffered sampler against one stream of keys."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props.c18 import tour

ID = 'C24'
BOUNDS = {
    'quick': 'operations next, next on a new iterator, loop of 2, explicit refill: every word of length 4 (without refill: 5) at every '
             'buffer phase for buffer sizes 1-4, two passes for 20 and 70; 3 seeds (integers and keys), 3 varieties, moduli counts 1-3 and 7, point counts 1-5 and 41; two '
             'interleaved samplers (all words of length 6); key sequences of 400 keys for 8 seeds',
    'thorough': 'as quick with words of length 6 and buffer sizes up to 6',
}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['words', 'contents', 'two', 'keys'])
        if part == 'words':
            b = c.pick('buffer', [1, 2, 3, 4, 20, 70] + ([5, 6] if tier != 'quick' else []))
            c.pick('refill', [0, 1] if b < 70 else [0])
        elif part == 'contents':
            c.pick('spec', ['dwork1', 'gen1', 'mix2'])
            c.pick('sizes', [[1, 1], [2, 5], [3, 4], [3, 3], [7, 41]])
    return leaves(scenario)


def moduli_sampler(count):
    """Moduli sampler of a given number of parameters; different rows differ."""
    import jax

    def sampler(key, batch):
        import jax.numpy as jnp
        r = jax.random.uniform(key, (2, batch, count), minval=-1.)
        return 0.6 * r[0] + 0.5j * r[1] + 0.1
    return sampler


def make(seed, buffer, spec='dwork1', sizes=(2, 3)):
    from cyjax import ml
    s = o.SPECS[spec]
    return ml.BatchSampler(seed, s.make(), moduli_sampler(len(s.params)), sizes[0], sizes[1], buffer)


def digest(sample):
    return tuple(np.asarray(a).tobytes() for a in sample)


def run(unit, ctx):
    dict(words=words, contents=contents, two=two, keys=keys)[unit['part']](unit, ctx)


def stream(seed, count, **kw):
    """The reference: one sampler drained with a buffer of one sample, never refilled by hand."""
    s = make(seed, 1, **kw)
    return [digest(next(s)) for _ in range(count)]


def words(unit, ctx):
    import jax
    B = unit['buffer']
    deep = ctx.tier != 'quick'
    if unit['refill']:
        ops, order = ['next', 'iter', 'loop', 'refill'], 5 if deep else 4
    else:
        ops, order = ['next', 'iter', 'loop'], 6 if deep else 5
    for seed in (0, 42, 'key'):
        sd = jax.random.PRNGKey(9) if seed == 'key' else seed
        s = make(sd, B)
        seq = [ops[i] for i in tour(len(ops), order)]
        walk = []
        size = sum(dict(loop=2, refill=0).get(op, 1) for op in seq)
        for _ in range(B if B < 10 else 2):
            walk += seq + ['next'] * ((1 - size) % B)       # moves the buffer phase on by one
        total = 2 * len(walk) + 5
        index = None
        if not unit['refill']:
            ref = stream(sd, total)
            ctx.equal(len(set(ref)), total, 'no sample twice in the reference')
            index = {d: i for i, d in enumerate(ref)}
        pos, got, hist = 0, [], []

        def take(x):
            nonlocal pos
            d = digest(x)
            if index is not None:
                ctx.check(d in index and index[d] == pos, 'next sample of the stream', expected=pos,
                          got=index.get(d), history=hist[-8:])
                pos += 1
            got.append(d)

        for t, op in enumerate(walk):
            hist.append(op)
            ctx.where = dict(seed=str(seed), buffer=B, step=t)
            ctx.state((B, seed, unit['refill'], tuple(walk[max(0, t - order + 1):t + 1]), len(got) % B))
            if op == 'next':
                take(next(s))
            elif op == 'iter':
                it = iter(s)
                take(next(it))
            elif op == 'loop':
                for x in itertools.islice(s, 2):
                    take(x)
            else:
                s.new_buffer()
            ctx.ran(1, 1)
        ctx.equal(len(set(got)), len(got), 'no sample delivered twice')
        if index is None:
            # explicit refills may skip samples, but neither repeat nor reorder them
            n, i = 0, 0
            r = make(sd, 1)
            limit = (len(walk) + 1) * (B + 1)
            while i < len(got) and n < limit:
                if digest(next(r)) == got[i]:
                    i += 1
                n += 1
            ctx.check(i == len(got), 'delivered in the order of the stream', matched=i, of=len(got))
        ctx.outcome(len(got), pos)
    ctx.sample(buffer=B, operations=walk[:12], samples=len(got))


def contents(unit, ctx):
    import jax
    spec = o.SPECS[unit['spec']]
    mp, pts = unit['sizes']
    n = spec.n
    calls = []
    base = moduli_sampler(len(spec.params))

    def recorded(key, count):
        out = base(key, count)
        jax.debug.callback(lambda k, x: calls.append((np.asarray(k), np.asarray(x))), key, out)
        ctx.equal(int(count), mp, 'number of moduli asked for')
        return out

    from cyjax import ml
    for seed in (1, 5):
        for buffer in (1, 3):
            calls.clear()
            s = ml.BatchSampler(seed, spec.make(), recorded, batch_size_params=mp, batch_size=pts, buffer_size=buffer)
            rows = []
            for t in range(4):
                ctx.where = dict(seed=seed, buffer=buffer, sample=t)
                ctx.state((str(unit), seed, buffer, t))
                par, zs, patch, w = [np.asarray(a) for a in next(s)]
                jax.effects_barrier()
                ctx.equal(par.shape, (mp, len(spec.params)), 'moduli shape')
                ctx.equal(zs.shape, (mp, pts, n - 1), 'points shape')
                ctx.equal(patch.shape, (mp, pts), 'patch shape')
                ctx.equal(w.shape, (mp, pts), 'weights shape')
                ctx.check(any(np.array_equal(par, x) for _, x in calls), 'moduli come from the moduli sampler')
                ctx.check(((patch >= 0) & (patch < n)).all(), 'valid patches')
                for i in range(mp):
                    poly = spec.poly(par[i])
                    hom = o.to_hom(zs[i], patch[i])
                    sc = sum(abs(c) for c in poly.t.values())
                    ctx.check((np.abs(poly(hom)) < 1e-6 * sc).all(), 'points solve the equation of their own modulus',
                              modulus=par[i], residual=np.abs(poly(hom)).max())
                    g = np.stack([poly.fix_one(int(p)).grad(z) for p, z in zip(patch[i], zs[i])])
                    ok = np.abs(g).max(-1) > 0.1
                    want = o.weights(poly, zs[i], patch[i], np.abs(g).argmax(-1))[0]
                    ctx.close(w[i][ok], want[ok], 'weights for the points and moduli', rtol=1e-6, atol=1e-9)
                    rows += [zs[i].tobytes()]
                    ctx.ran(1, pts)
                ctx.equal(len({p.tobytes() for p in par}), mp, 'different moduli')
                ctx.outcomes_rows(w)
            ctx.equal(len(set(rows)), len(rows), 'fresh points for each modulus and sample')
    ctx.sample(spec=unit['spec'], sizes=unit['sizes'], modulus=par[0])


def two(unit, ctx):
    import jax
    a0, b0 = stream(3, 40), stream(4, 40)
    ctx.check(not set(a0) & set(b0), 'different seeds, different samples')
    A = {(seed, buf): make(seed, buf) for seed, buf in ((3, 2), (4, 3), (3, 3))}
    pos = {k: 0 for k in A}
    ref = {3: a0, 4: b0}
    keys_ = list(A)
    # every word of length 3 over the three samplers, live
    for t, i in enumerate(tour(3, 3)):
        k = keys_[i]
        ctx.state(('two', t, k, tuple(sorted((str(q), p % q[1]) for q, p in pos.items()))))
        ctx.where = dict(step=t, sampler=str(k))
        ctx.check(digest(next(A[k])) == ref[k[0]][pos[k]], 'independent of other samplers')
        pos[k] += 1
        ctx.ran(1, 1)
    same = [digest(next(make(jax.random.PRNGKey(3), 2)))]
    ctx.check(same[0] == a0[0], 'integer seed and its key give the same stream')
    # the sample function and iteration protocol
    s = make(3, 2)
    ctx.check(iter(s) is s or next(iter(s)) is not None, 'iterable')
    ctx.outcome(len(a0), len(b0))
    ctx.sample(samplers=[str(k) for k in keys_], steps=t + 1)


def keys(unit, ctx):
    import jax
    from cyjax.util import PRNGSequence
    allk = {}
    for seed in (0, 1, 2, 42, -1 % 2 ** 31, 'key', 'split', 'numpy'):
        sd = {'key': jax.random.PRNGKey(77), 'split': jax.random.split(jax.random.PRNGKey(0))[0],
              'numpy': np.int64(12)}.get(seed, seed)
        q, r = PRNGSequence(sd), PRNGSequence(sd)
        got = []
        start = np.asarray(sd).tobytes() if seed in ('key', 'split') else None
        for t in range(400):
            k = np.asarray(next(q))
            ctx.where = dict(seed=str(seed), key=t)
            ctx.state((str(seed), t))
            ctx.equal(k.shape, (2,), 'a key')
            got.append(k.tobytes())
            ctx.ran(1, 1)
        again = [np.asarray(next(r)).tobytes() for _ in range(50)]
        ctx.equal(again, got[:50], 'reproducible')
        ctx.equal(len(set(got)), 400, 'no key twice')
        if start is not None:
            ctx.check(start not in got, 'the given key is not handed out')
        allk[str(seed)] = got
        ctx.outcome(got[-1])
    for x, y in itertools.combinations(allk, 2):
        ctx.check(not set(allk[x]) & set(allk[y]), 'different seeds, different keys', seeds=(x, y))
    ctx.sample(seed='42', first=np.frombuffer(allk['42'][0], np.uint32))
