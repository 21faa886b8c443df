"""C03: array helpers against list semantics."""
import itertools
import math

import numpy as np

from mc.core import leaves

ID = 'C03'
BOUNDS = {
    'quick': 'lengths 1-6, 11, 17, 40, all indices -n..n-1 (pop) and -(n+1)..n (insert), inserted width 0-3, '
             'trailing ranks 0-2, all axes of arrays up to rank 3 with 60 keys, binomials to n=80',
    'thorough': 'lengths 1-9, inserted width 0-4, 240 keys, binomials to n=200',
}


def units(tier):
    N = 6 if tier == 'quick' else 9

    def scenario(c):
        part = c.pick('part', ['pop', 'insert', 'col', 'shuffle', 'flatten', 'scalar'])
        if part in ('pop', 'insert', 'col'):
            c.pick('n', [*range(1, N + 1), 11, 17, 40])
        if part == 'shuffle':
            c.pick('shape', [[3], [2, 3], [3, 2], [2, 3, 2], [3, 2, 4], [2, 2, 3], [1, 4], [4, 1]])
    return leaves(scenario)


def items(n, *trail, kind='c'):
    a = np.arange(1, 1 + n * int(np.prod(trail, initial=1)), dtype=float).reshape(n, *trail)
    return a + 1j * a ** 2 if kind == 'c' else (a if kind == 'f' else a.astype(int))


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import util
    part = unit['part']
    W = 3 if ctx.tier == 'quick' else 4

    if part == 'pop':
        n = unit['n']
        for trail in [(), (2,), (2, 3)]:
            for kind in 'cfi':
                a = items(n, *trail, kind=kind)
                for i in range(-n, n):
                    for form in (int, jnp.asarray, np.int8) + ((np.uint8,) if i >= 0 else ()):
                        ctx.where = dict(call='pop', n=n, trail=trail, kind=kind, index=i)
                        arr = jnp.array(a)
                        v, rest = util.pop(arr, form(i))
                        l = list(a)
                        want = l.pop(i)
                        ctx.equal(v, want, 'popped value')
                        ctx.equal(rest, np.array(l).reshape(n - 1, *trail), 'remaining values')
                        ctx.equal(arr, a, 'input unchanged')
                        ctx.check(np.asarray(rest).dtype == np.asarray(arr).dtype, 'dtype')
                        ctx.ran(1, 1)
                        ctx.outcome(v, rest)
                    ctx.state(('pop', n, trail, kind, i))
            # all indices in one mapped call
            a = items(n, *trail)
            vs, rs = jax.vmap(util.pop, (None, 0))(jnp.array(a), jnp.arange(n))
            for i in range(n):
                ctx.equal(vs[i], a[i], 'mapped pop value')
                ctx.equal(rs[i], np.delete(a, i, 0), 'mapped pop rest')
            ctx.ran(1, n)
        ctx.sample(call='pop', n=n)

    elif part in ('insert', 'col'):
        n = unit['n']
        for n in ([n] if n > 1 else [0, 1]):
            for width in [None] + list(range(0, W + 1)):
                for i in range(-(n + 1), n + 1):
                    w = 1 if width is None else width
                    pos = i if i >= 0 else n + 1 + i
                    ctx.where = dict(call=part, n=n, width=width, index=i)
                    if part == 'insert':
                        a = items(n)
                        v = -items(max(w, 1))[:w]
                        arg = v[0] if width is None else v
                        want = list(a[:pos]) + list(v) + list(a[pos:])
                        fn = util.insert_1d
                    else:
                        a = items(n, 3).T.copy() if n else np.zeros((3, 0), complex)
                        v = -items(max(w, 1), 3).T[:, :w].copy()
                        arg = v[:, 0] if width is None else v
                        want = np.concatenate([a[:, :pos], v, a[:, pos:]], 1)
                        fn = util.insert_col
                    for form in (int, jnp.asarray, np.int8) + ((np.uint8,) if i >= 0 else ()):
                        arr, av = jnp.array(a), jnp.array(arg)
                        got = fn(arr, av, form(i))
                        ctx.equal(got, np.array(want, complex), 'inserted')
                        ctx.equal(arr, a, 'input unchanged')
                        ctx.ran(1, 1)
                    ctx.outcome(np.asarray(got))
                    ctx.state((part, n, width, i))
            if n:
                a = items(n) if part == 'insert' else items(n, 2).T.copy()
                v = np.array(7 + 7j) if part == 'insert' else np.array([7, 8j])
                fn = util.insert_1d if part == 'insert' else util.insert_col
                got = jax.vmap(fn, (None, None, 0))(jnp.array(a), jnp.array(v), jnp.arange(n + 1))
                for i in range(n + 1):
                    want = np.insert(a, i, v) if part == 'insert' else np.insert(a, i, v, axis=1)
                    ctx.equal(got[i], want, 'mapped insertion')
                ctx.ran(1, n + 1)
        ctx.sample(call=part, n=n)

    elif part == 'shuffle':
        shape = tuple(unit['shape'])
        x = np.arange(np.prod(shape)).reshape(shape) * 1.5
        keys = 60 if ctx.tier == 'quick' else 240
        for axis in range(len(shape)):
            lead = int(np.prod(shape[:axis], initial=1))
            seen = [set() for _ in range(lead)]
            together = set()
            for k in range(keys):
                ctx.where = dict(call='shuffle_axis', shape=shape, axis=axis, key=k)
                key = jax.random.PRNGKey(k)
                arr = jnp.array(x)
                y = np.asarray(util.shuffle_axis(key, arr, axis))
                ctx.equal(arr, x, 'input unchanged')
                ctx.check(y.shape == x.shape, 'shape', got=y.shape)
                xf, yf = x.reshape(lead, *shape[axis:]), y.reshape(lead, *shape[axis:])
                perms = []
                for l in range(lead):
                    rows = {r.tobytes(): i for i, r in enumerate(xf[l])}
                    perm = tuple(rows.get(np.ascontiguousarray(r).tobytes(), -1) for r in yf[l])
                    ctx.check(sorted(perm) == list(range(shape[axis])),
                              'result is a permutation along the axis', perm=perm, lead=l)
                    perms.append(perm)
                    seen[l].add(perm)
                together.add(tuple(perms))
                if k < 3:
                    ctx.equal(util.shuffle_axis(key, arr, axis), y, 'same key, same result')
                    if axis - len(shape) < 0:
                        ctx.equal(util.shuffle_axis(key, arr, axis - len(shape)), y, 'negative axis')
                ctx.state(('shuffle', shape, axis, k))
                ctx.ran(1, 1)
                ctx.outcome(y)
            full = math.factorial(shape[axis])
            if full <= 6:
                for l in range(lead):
                    ctx.check(len(seen[l]) == full, 'every permutation occurs over the keys',
                              got=len(seen[l]), want=full, lead=l)
            if lead > 1 and full > 1:
                ctx.check(any(len(set(t)) > 1 for t in together), 'leading indices shuffled independently')
        ctx.sample(call='shuffle_axis', shape=shape)

    elif part == 'flatten':
        for lead in [(), (1,), (3,), (2, 3), (1, 2, 2)]:
            for dim in (1, 2, 4):
                a = items(int(np.prod(lead, initial=1)), dim).reshape(lead + (dim,))
                flat = a.reshape(-1, dim)
                ctx.where = dict(call='flatten_coord', lead=lead, dim=dim)
                z, sh = util.flatten_coord(jnp.array(a))
                ctx.equal(z, flat, 'flattened')
                ctx.check(tuple(sh) == lead, 'old shape', got=sh)
                for c in (None, a * 2):
                    (z, zc), sh = util.flatten_coord(jnp.array(a), None if c is None else jnp.array(c), True)
                    ctx.equal(z, flat, 'flattened')
                    ctx.equal(zc, (a.conj() if c is None else c).reshape(-1, dim), 'conjugate')
                    ctx.check(tuple(sh) == lead, 'old shape', got=sh)
                for tail in [(), (2,), (2, 2)]:
                    out = items(len(flat), *tail)
                    want = out.reshape(lead + tail)
                    ctx.equal(util.unflatten_coord(jnp.array(out), lead), want, 'unflattened')
                    two = util.unflatten_coord((jnp.array(out), jnp.array(flat)), lead)
                    ctx.equal(two[0], want, 'unflattened tuple')
                    ctx.equal(two[1], a, 'unflattened tuple')
                    ctx.ran(2, 3)
                ctx.state(('flat', lead, dim))
                ctx.ran(3, 3)
        ctx.sample(call='flatten_coord', lead=(2, 3), dim=4)

    else:
        N = 80 if ctx.tier == 'quick' else 200
        for n in range(N + 1):
            for k in range(n + 1):
                got = util.binomial(n, k)
                ctx.where = dict(call='binomial', n=n, k=k)
                ctx.check(got == math.comb(n, k), 'binomial', got=got)
                ctx.state(('binom', n, k))
                ctx.ran(1, 1)
                ctx.outcome(got)
        vals = [2, -1.5, 0, 1j]
        for r in range(0, 4):
            for t in itertools.product(vals, repeat=r):
                want = complex(np.prod(np.array(t, complex))) if r else 1
                ctx.where = dict(call='prod', factors=t)
                for conv in (list, iter, np.array, lambda s: (x for x in s)):
                    got = util.prod(conv(t))
                    ctx.check(complex(got) == want, 'product', got=got)
                arrs = [np.array(x, complex) for x in t]
                ctx.check(complex(util.prod(arrs)) == want, 'product of arrays')
                ctx.check([complex(a) for a in arrs] == [complex(x) for x in t], 'factors unchanged')
                arrs = [np.array([x, 2 * x], complex) for x in t]
                ctx.equal(np.broadcast_to(util.prod(arrs), 2), [want, want * 2 ** r], 'componentwise product')
                ctx.equal(np.array(arrs).reshape(r, 2), np.array([[x, 2 * x] for x in t], complex).reshape(r, 2),
                          'factors unchanged')
                ctx.state(('prod', t))
                ctx.ran(6, 6)
        ctx.sample(call='binomial', n=N)
