"""C18: read and replace histories of the lazily evaluated geometry object against fresh objects."""
import numpy as np

from mc import oracle as o
from mc.core import leaves

ID = 'C18'
BOUNDS = {
    'quick': 'alphabet: reading each of the ~47 quantities, replacing matrix (full, full, vector), coordinates, moduli and patch, '
             'discarding cached quantities, reading everything; every pair of consecutive operations over the full alphabet and every '
             'triple over replacements and 9 central quantities on a live object, for 5 ways of building it; every quantity '
             'as the first read of a new object',
    'thorough': 'as quick with every triple of consecutive operations over the full alphabet',
}
KEY = ['s', 'psi', 'kahler', 'g_proj', 'g_loc', 'eta', 'ricci_loc', 'ricci_scalar', 'dependent']
MUST = ['kahler', 'g_loc', 'eta', 'ricci_loc', 'ricci_scalar']
INPUTS = ('h', 'zs', 'params', 'patch', 'variety', 'degree')
BUILDS = ['plain', 'dependent', 'grad', 'homogeneous', 'log']
FIRST_PARTS = 6
TRIPLE_PARTS = 16


def units(tier):
    def scenario(c):
        spec = c.pick('spec', ['dwork1', 'mix2'])
        part = c.pick('part', ['pairs', 'triples', 'first'] + (['deep'] if tier != 'quick' and spec == 'dwork1' else []))
        if part == 'first':
            c.pick('slice', list(range(FIRST_PARTS)))
        elif part == 'deep':
            c.pick('slice', list(range(TRIPLE_PARTS)))
        else:
            c.pick('build', BUILDS if spec == 'dwork1' else ['plain', 'grad'])
    return leaves(scenario)


def tour(k, order):
    """Cyclic de Bruijn sequence: every word of the given length over k symbols occurs once."""
    a, seq = [0] * k * order, []

    def db(t, p):
        if t > order:
            if order % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:order - 1]


class World:
    """Inputs, expected values per combination of inputs, and the live object."""

    def __init__(self, spec, build, ctx):
        import jax.numpy as jnp
        from cyjax import donaldson as D
        self.ctx, self.D, self.build = ctx, D, build
        self.spec = spec
        self.v = spec.make()
        self.n = n = spec.n
        self.k = 2
        self.sec = D.MonomialBasisFull(n - 1, self.k)
        N = self.sec.size
        self.pows = [tuple(int(x) for x in e) for e in np.asarray(self.sec.power_matrix)]
        z0 = np.array([0.4 + 0.3j, -0.8j, 0.9])[:n - 1]
        z1 = np.array([-0.7, 0.5 + 0.6j, 0.2 - 0.1j])[:n - 1]
        self.h = [jnp.array(o.hermitian(N, 'full')), jnp.array(o.hermitian(N, 'full').T * 1.5 + np.eye(N)),
                  jnp.array(np.linspace(1, 2, N))]
        self.z = [jnp.array(z0), jnp.array(z1)]
        self.par = [jnp.array(np.array(p, complex)) for p in spec.par_values[:2]]
        self.patch = [0, n - 1]
        self.grad = jnp.array(np.linspace(1, 2, n - 1) * (1 + 0.5j))
        if build == 'homogeneous':
            big = 1
            self.patch = [big]
        self.cur = [0, 0, 0, 0]
        self.cache = {}

    def fresh(self, c):
        h, z, par, p = self.h[c[0]], self.z[c[1]], self.par[c[2]], self.patch[c[3]]
        kw = {}
        if self.build == 'dependent':
            kw['dependent'] = 1
        if self.build == 'grad':
            kw['grad_def'] = self.grad
        if self.build == 'log':
            kw['precompute'] = False
        if self.build == 'homogeneous':
            import jax.numpy as jnp
            # the chosen patch is the one of the largest coordinate
            hom = jnp.array(o.to_hom(np.asarray(z), p) * (2 - 1j))
            return self.D.GeometricObjects(h, hom, par, self.v, self.sec, **kw)
        return self.D.GeometricObjects(h, z, par, self.v, self.sec, p, **kw)

    def want(self):
        c = tuple(self.cur)
        if c not in self.cache:
            g = self.fresh(c)
            self.cache[c] = self.values(g)
            self.validate(c, self.cache[c])
        return self.cache[c]

    @staticmethod
    def values(g):
        return {q: np.asarray(x) for q, x in g.compute_all_quantities().items() if q not in ('variety', 'degree')}

    def validate(self, c, got):
        """Fresh values against the reference geometry."""
        ctx = self.ctx
        z, p = np.asarray(self.z[c[1]]), self.patch[c[3]]
        ctx.equal(got['patch'], p, 'patch')
        if 'zs' in got:
            ctx.close(got['zs'], z, 'affine coordinates', rtol=1e-12)
        poly = self.spec.poly(np.asarray(self.par[c[2]]))
        d = int(got['dependent'])
        if self.build == 'dependent':
            ctx.equal(d, 1, 'supplied coordinate')
        w = o.geometry(poly, self.pows, np.asarray(self.h[c[0]]), z[None], p, d, self.k)
        ctx.close(got['kahler'], w['kahler'][0], 'fresh: potential', rtol=1e-9)
        if self.build == 'grad':
            ctx.equal(got['grad_def'], self.grad, 'supplied gradient')
            return
        for q, k in (('g_loc', 'metric'), ('eta', 'eta'), ('ricci_loc', 'ricci'), ('ricci_scalar', 'ricci_scalar')):
            ctx.close(got[q], w[k][0], f'fresh: {q}', rtol=1e-6, atol=1e-7)

    def alphabet(self, names):
        ops = [('read', q) for q in names]
        ops += [('h', i) for i in range(3)] + [('zs', i) for i in range(len(self.z))]
        ops += [('params', i) for i in range(2)] + [('patch', i) for i in range(len(self.patch))]
        ops += [('drop', 'g_proj'), ('drop', 's'), ('drop', 'psi'), ('all', None)]
        return ops

    def do(self, g, op):
        kind, x = op
        ctx = self.ctx
        if kind == 'read':
            got = getattr(g, x)
            w = self.want()[x]
            if self.build == 'log' or x not in INPUTS:
                sc = max(1., float(np.abs(w).max()) if w.size else 1.)
                ctx.close(got, w, f'{x} as from a fresh object', rtol=1e-9, atol=1e-10 * sc, history=self.tail)
            else:
                ctx.equal(got, w, f'{x} as from a fresh object', history=self.tail)
        elif kind == 'drop':
            try:
                delattr(g, x)
            except AttributeError:
                pass
        elif kind == 'all':
            got = self.values(g)
            w = self.want()
            ctx.equal(sorted(got), sorted(w), 'same quantities')
            for q in w:
                sc = max(1., float(np.abs(w[q]).max()) if w[q].size else 1.)
                ctx.close(got[q], w[q], f'{q} as from a fresh object', rtol=1e-9, atol=1e-10 * sc, history=self.tail)
        else:
            axis = ('h', 'zs', 'params', 'patch').index(kind)
            self.cur[axis] = x
            setattr(g, kind, (self.h, self.z, self.par, self.patch)[axis][x])


def run(unit, ctx):
    w = World(o.SPECS[unit['spec']], unit.get('build', 'plain'), ctx)
    w.tail = []
    names = sorted(w.want())
    for q in MUST:
        ctx.check(q in names, f'{q} exists')
    tag = (unit['spec'], unit.get('build'))
    if unit['part'] == 'first':
        for i, q in enumerate(names):
            if i % FIRST_PARTS != unit['slice']:
                continue
            ctx.where = dict(first=q)
            ctx.state((tag, 'first', q))
            g = w.fresh(tuple(w.cur))
            w.tail = [('new',)]
            for r in [q, q] + names[i:] + names[:i] + [q]:
                w.tail = w.tail[-8:] + [('read', r)]
                w.do(g, ('read', r))
                ctx.ran(1, 1)
        ctx.sample(spec=unit['spec'], first=names[unit['slice']])
        return
    if unit['part'] == 'pairs':
        ops = w.alphabet(names)
        seq = [ops[i] for i in tour(len(ops), 2)]
        order = 2
    elif unit['part'] == 'triples':
        ops = [a for a in w.alphabet([q for q in KEY if q in names]) if a[0] != 'drop' or a[1] == 'psi']
        seq = [ops[i] for i in tour(len(ops), 3)]
        order = 3
    else:
        ops = w.alphabet(names)
        k = len(ops)
        seq = []
        order = 3
        for a in range(k):
            if a % TRIPLE_PARTS == unit['slice']:
                for b in range(k):
                    for c in range(k):
                        seq += [ops[a], ops[b], ops[c]]
    g = w.fresh(tuple(w.cur))
    for t, op in enumerate(seq):
        w.tail = w.tail[-8:] + [op]
        if t >= order - 1:
            ctx.state((tag, tuple(seq[t - order + 1:t + 1])))
        ctx.where = dict(build=unit.get('build'), step=t)
        w.do(g, op)
        ctx.ran(1, 1)
    for c in w.cache.values():
        ctx.outcome(c['eta'], c['ricci_scalar'])
    ctx.sample(spec=unit['spec'], build=unit.get('build'), operations=len(seq), last=[str(x) for x in seq[-4:]])
