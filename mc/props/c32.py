"""C32: the same numbers given as other kinds of number, argument by argument."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props import c19

ID = 'C32'
BOUNDS = {
    'quick': '25 batched public functions on 2 families and 14 further calls (solutions, sampling, volume, accuracy, balancing, '
             'loss, matrices, network, integration, polynomials, sections); each numerical argument in 14 kinds (jax, numpy, '
             'nested lists; complex, real, integer; wide and narrow), each index in 12 kinds, pairs of kinds for pairs of '
             'arguments; single, batched and compiled',
    'thorough': 'as quick on 3 families, on all entries, all pairs of kinds for the helpers and chart changes',
}
ASSUMPTIONS = ['values are integers of modulus at most 5 so that every kind holds them exactly; the monomials computed with '
               'logarithms are not asked for negative real numbers']
OTHER = ['solve', 'sample', 'volume', 'sigma', 'balance', 'loss', 'cholesky', 'decode', 'network', 'integrate', 'batches',
         'poly', 'bases', 'objects', 'helpers', 'reduced']
# kinds which hold the value and may be refused, besides jax complex (the reference) and numpy complex
KINDS = ['jc', 'nc', 'jf', 'nf', 'ji', 'ni', 'i32', 'ni32', 'c64', 'nc64', 'f32', 'nf32', 'list', 'clist']
ACCEPTED = {'jc', 'nc', 'c64'}
# for arguments which are real numbers by meaning (weights, volumes, trainable parameters)
REAL = ['jf', 'nf', 'ji', 'ni', 'i32', 'ni32', 'f32', 'nf32', 'list']
REAL_ACCEPTED = {'jf', 'nf', 'f32'}
ROUGH = {'c64', 'nc64', 'f32', 'nf32', 'i32', 'ni32'}
INDEX = ['int', 'n8', 'n16', 'n32', 'n64', 'nu8', 'nu16', 'nu32', 'j8', 'j32', 'ju8', 'ju16']
INDEX_ACCEPTED = {'int', 'n32', 'n64', 'j32', 'j64'}
HEAVY = ['v.induced_fs', 'v.induced_metric', 'v.weights', 'v.jacobian_embed', 'v.best_dependent']
PAIRS = ['nc', 'jf', 'ni', 'c64']
IPAIRS = ['int', 'n64', 'ju8', 'nu8']


def units(tier):
    specs = ['gen1', 'mix2'] if tier == 'quick' else ['gen1', 'mix2', 'fermat1']

    def scenario(c):
        f = c.pick('function', c19.GEOM[::-1] + [x for x in c19.FUNCS if x != 'v.solve_defining'] + OTHER)
        if f in OTHER:
            if f in ('solve', 'sample', 'volume', 'sigma', 'balance', 'loss', 'objects', 'bases', 'reduced'):
                c.pick('spec', specs[:1] if tier == 'quick' and f in ('volume', 'balance', 'objects', 'loss', 'sample', 'sigma') else specs)
            return
        c.pick('axes', [[3, 2]])
        if f.startswith('v.') or f in c19.GEOM or f == 'sections':
            c.pick('spec', specs[:1] if tier == 'quick' and (f in c19.GEOM or f in HEAVY) else specs)
        if f in c19.GEOM:
            c.pick('h', [0] if tier == 'quick' and f.startswith('ricci') else [0, 2])
    return leaves(scenario)


def whole(shape, kind=0):
    """Non zero integers of modulus at most three."""
    i = np.arange(int(np.prod(shape)))
    x = (i * 5 + i * i // 3 + 1 + 2 * kind) % 6 - 3
    return np.where(x == 0, 2, x).reshape(shape).astype(complex)


def matrix(n, k=0):
    """Positive symmetric matrix of integers."""
    m = (np.arange(n)[:, None] + np.arange(n) + k) % 3 - 1
    return (m + (n + 1) * np.eye(n) + np.diag(np.arange(n) % 2)).astype(complex)


def convert(kind, x, jnp):
    r = np.real(x)
    i = np.rint(r).astype(int)
    return {
        'jc': lambda: jnp.array(x, complex), 'nc': lambda: np.array(x, complex),
        'jf': lambda: jnp.array(r), 'nf': lambda: np.array(r),
        'ji': lambda: jnp.array(i), 'ni': lambda: np.array(i),
        'i32': lambda: jnp.array(i, jnp.int32), 'ni32': lambda: i.astype(np.int32),
        'c64': lambda: jnp.array(x, jnp.complex64), 'nc64': lambda: np.array(x, np.complex64),
        'f32': lambda: jnp.array(r, jnp.float32), 'nf32': lambda: np.array(r, np.float32),
        'list': lambda: i.tolist(), 'clist': lambda: np.asarray(x, complex).tolist(),
    }[kind]()


def index(kind, x, jnp):
    if kind == 'int':
        return int(x) if np.ndim(x) == 0 else np.asarray(x, int).tolist()
    t = {'8': 'int8', '16': 'int16', '32': 'int32', '64': 'int64', 'u8': 'uint8', 'u16': 'uint16', 'u32': 'uint32'}[kind[1:]]
    if kind[0] == 'n':
        return np.dtype(t).type(x) if np.ndim(x) == 0 else np.asarray(x, t)
    return jnp.array(x, t)


class Calls:
    """Reference result of a call and the same call with some arguments of another kind."""

    def __init__(self, ctx, fn, args, ints=(), tol=1e-9, rough=2e-3, what='', reals=()):
        import jax
        import jax.numpy as jnp
        self.jax, self.jnp = jax, jnp
        self.ctx, self.fn, self.args, self.ints, self.reals = ctx, fn, args, set(ints), set(reals)
        self.tol, self.rough, self.what = tol, rough, what
        self.want = self.call({})
        ctx.check(all(np.all(np.isfinite(x)) for x in jax.tree_util.tree_leaves(self.want)), f'{what}: finite')
        ctx.outcome(*jax.tree_util.tree_leaves(self.want))
        self.refused = 0

    def values(self, kinds):
        return {k: index(kinds.get(k, 'j64'), x, self.jnp) if k in self.ints else
                convert(kinds.get(k, 'jf' if k in self.reals else 'jc'), x, self.jnp)
                for k, x in self.args.items()}

    def call(self, kinds, jit=False):
        kw = self.values(kinds)
        if jit:
            kw = {k: self.jnp.asarray(x) for k, x in kw.items()}
            return self.jax.tree_util.tree_map(np.asarray, self.jax.jit(lambda **q: self.fn(**q))(**kw))
        return self.jax.tree_util.tree_map(np.asarray, self.fn(**kw))

    def compare(self, kinds, jit=False, where=()):
        ctx = self.ctx
        ctx.where = dict(call=self.what, kinds=kinds, compiled=jit, **dict(where))
        ctx.state((self.what, str(where), tuple(sorted(kinds.items())), jit))
        single = all(np.ndim(x) == 0 for k, x in self.args.items() if k in self.ints)
        must = all(v in (INDEX_ACCEPTED if k in self.ints else REAL_ACCEPTED if k in self.reals else ACCEPTED) and (v != 'int' or single)
                   for k, v in kinds.items())
        kept = {k: np.array(x) for k, x in self.args.items()}
        try:
            got = self.call(kinds, jit)
        except Exception:
            if must:
                raise
            self.refused += 1
            ctx.ran(1, 0)
            return
        leaves_, wants = [self.jax.tree_util.tree_leaves(t) for t in (got, self.want)]
        ctx.check(len(leaves_) == len(wants), f'{self.what}: structure')
        tol = self.rough if any(v in ROUGH for v in kinds.values()) else self.tol
        for g, w in zip(leaves_, wants):
            ctx.equal(g.shape, w.shape, f'{self.what}: shape')
            if w.dtype.kind in 'iub':
                ctx.equal(np.asarray(g, int), np.asarray(w, int), f'{self.what}: values')
            else:
                sc = max(1e-6, float(np.abs(w).max()) if w.size else 1.)
                ctx.close(np.asarray(g, complex), np.asarray(w, complex), f'{self.what}: values', rtol=tol, atol=tol * sc)
        ctx.check(all(np.array_equal(kept[k], x) for k, x in self.args.items()), 'arguments unchanged')
        ctx.ran(1, 1)

    def all(self, jit=True, kinds=KINDS, where=(), pairs=True, full=False):
        names = list(self.args)
        usable = lambda k, ks: [x for x in ks if k not in self.reals or x in REAL]
        for k in names:
            for kind in (INDEX if k in self.ints else usable(k, kinds)):
                self.compare({k: kind}, where=where)
                if jit and kind[0] in 'jifc' and kind not in ('int', 'clist'):
                    self.compare({k: kind}, True, where=where)
        for a, b in itertools.combinations(names, 2) if pairs else ():
            one, two = [(INDEX if full else IPAIRS) if k in self.ints else usable(k, kinds if full else PAIRS) for k in (a, b)]
            for x, y in itertools.product(one, two):
                if x in kinds + INDEX and y in kinds + INDEX:
                    self.compare({a: x, b: y}, where=where)
        for kind in kinds:
            every = {k: kind for k in names if k not in self.ints and usable(k, [kind])}
            if every:
                self.compare(every, where=where)


def run(unit, ctx):
    f = unit['function']
    if f in OTHER:
        return other(unit, ctx)
    keep = c19.pool
    c19.pool = whole
    try:
        fn, args, static = c19.setup(unit, 'quick')
    finally:
        c19.pool = keep
    slow = f in c19.GEOM
    ints = [k for k, a in args.items() if np.asarray(a.data).dtype.kind == 'i']
    if 'zs_c' in args:
        args['zs_c'].data = args['zs'].data
    if 'h' in args:
        n = args['h'].data.shape[-1]
        args['h'].data = np.stack([[matrix(n, i + 2 * j) for j in range(2)] for i in range(3)])
    tol = 2e-2 if f.startswith('ricci') else 2e-3
    refused = 0
    quick = ctx.tier == 'quick'
    entries = [(2, 1)] if slow and quick else [(0, 0), (2, 1)] if slow or quick and unit.get('spec') == 'mix2' else [(i, j) for i in range(3) for j in range(2)]
    for leave in ([False, True] if any(None in a.options for a in args.values()) else [False]):
        use = {k: a for k, a in args.items() if not (leave and None in a.options)}
        for e in entries[:1] if slow and leave else entries:
            if unit.get('h') == 2:
                break
            q = Calls(ctx, lambda **kw: fn(**kw, **static), {k: a.data[e] for k, a in use.items()},
                      [k for k in ints if k in use], rough=tol, what=f)
            q.all(jit=e == (0, 0) and not f.startswith('ricci') or f == 'metric' and leave, where=(('entry', e), ('left_out', leave)),
                  pairs=not (slow and quick or f.startswith('ricci')) and e in ((0, 0), (2, 1)), full=not quick and 'spec' not in unit)
            refused += q.refused
        if unit.get('h', 2) == 2:
            q = Calls(ctx, lambda **kw: fn(**kw, **static), {k: a.data[0] if slow else a.data for k, a in use.items()},
                      [k for k in ints if k in use], rough=tol, what=f + ' batched')
            q.all(jit=False, where=(('entry', 'all'), ('left_out', leave)), pairs=not slow)
            refused += q.refused
    ctx.sample(function=f, refused=refused, value=q.want)


def other(unit, ctx):
    import jax
    import jax.numpy as jnp
    import cyjax
    from cyjax import donaldson as D, ml, util
    f = unit['function']
    key = jax.random.PRNGKey(3)
    spec = o.SPECS[unit['spec']] if 'spec' in unit else None
    if spec:
        v = spec.make()
        n = spec.n
        par = dict(params=np.array([2, -3, 1, 2, -1][:len(spec.params)], complex)) if spec.params else {}
        P = jnp.array(par['params']) if par else None
        with_par = lambda fn: (lambda params=None, **kw: fn(params, **kw))
        sec = D.MonomialBasisFull(n - 1, 1)
        am = D.AlgebraicMetric(v, sec)
        H = matrix(sec.size)
    total = 0

    def every(fn, args, ints=(), what=f, where=(), **kw):
        nonlocal total
        opts = {k: kw.pop(k) for k in ('jit', 'kinds', 'pairs') if k in kw}
        opts.setdefault('jit', False)
        q = Calls(ctx, fn, {k: np.asarray(x) for k, x in args.items()}, ints, what=what, **kw)
        q.all(where=where, **opts)
        total += q.refused
        return q.want

    if f == 'solve':
        for patch in [None, *range(n)]:
            m = n - 1 - (patch is not None)
            for dep in range(m + 1):
                z = whole(m, dep)
                out = every(lambda zs, params=None: order(v.solve_defining(zs, params, dep, patch)), dict(zs=z, **par),
                            where=(('patch', patch), ('dependent', dep)), rough=2e-2, pairs=False)
                for kd in ('n32', 'n64', 'nu8', 'nu16'):
                    ctx.where = dict(patch=patch, dependent=dep, kind=kd)
                    got = order(v.solve_defining(jnp.array(z), P, index(kd, dep, jnp),
                                                 None if patch is None else index(kd, patch, jnp)))
                    ctx.close(got, out, 'solutions', rtol=1e-9, atol=1e-9)
                    ctx.state((f, unit['spec'], patch, dep, kd))
                    ctx.ran(1, 1)
    elif f == 'sample':
        if not par:
            return
        for count in (1, 4):
            for aff in (True, False):
                for cnt in (int, np.int64, np.int32)[:1 if count == 1 else 3]:
                    out = every(lambda params: v.sample_intersect(key, params, cnt(count), aff, True), par, rough=5e-2,
                                where=(('count', count), ('type', cnt.__name__), ('affine', aff)), kinds=[
                                    k for k in KINDS if k not in ROUGH])
    elif f == 'volume':
        if not par:
            return
        out = every(lambda params: v.compute_vol(key, params, 2, 4, True), par, rough=5e-2)
    elif f == 'sigma':
        out = every(lambda h, params=None: am.sigma_accuracy(key, jnp.zeros(0) if params is None else params, h, 6),
                    dict(h=H, **par), rough=5e-2, kinds=[k for k in KINDS if k not in ROUGH])
    elif f == 'balance':
        out = every(lambda h, params=None: am.donaldson_step(key, h, params, 2.5, 2, 4), dict(h=H, **par), rough=5e-2,
                    kinds=[k for k in KINDS if k not in ROUGH])
        every(lambda vol: am.donaldson_step(key, jnp.array(H), P, vol, 2, 4), dict(vol=np.array(2.)), reals=['vol'],
              rough=5e-2)
    elif f == 'loss':
        (zs, pt) = v.sample_intersect(key, P, 4, affine=True)
        smp = lambda params, w, patch: (jnp.zeros(0) if params is None else params, zs, patch, w)
        out = every(lambda h, w, patch, params=None: ml.variance_eta_loss(h, smp(params, w, patch), am),
                    dict(h=H, w=np.array([1., 2, 3, 1]), patch=np.asarray(pt), **par), ints=['patch'], reals=['w'], rough=1e-2)
    elif f == 'cholesky':
        for size in range(1, 5):
            x = whole(size * size).real
            x[:size] = np.abs(x[:size])
            out = every(lambda param: ml.cholesky_from_param(param), dict(param=x), where=(('size', size),), reals=['param'])
    elif f == 'decode':
        for size in range(2, 5):
            d, u = np.abs(whole(size, 1).real), whole(size * (size - 1), 2).real
            out = every(lambda diag, off: ml.cholesky_decode(diag, off[:len(off) // 2] + 1j * off[len(off) // 2:]),
                        dict(diag=d, off=u), where=(('size', size),), reals=['diag', 'off'],
                        kinds=[k for k in REAL if k != 'list'], jit=True)
    elif f == 'network':
        for width in (1, 2):
            for shape in ((width,), (3, width)):
                for layers, feats in itertools.product(((), (4,)), ((True, True, True), (True, False, False),
                                                                    (False, True, False), (False, False, True))):
                    net = ml.HNetMLP(2, layers, feature_angle=feats[0], feature_abs=feats[1], feature_parts=feats[2])
                    m = whole(shape, 1)
                    p = net.init(key, jnp.array(m))
                    p = jax.tree_util.tree_map(lambda a: a + 0.3 * jnp.cos(jnp.arange(a.size)).reshape(a.shape), p)
                    out = every(lambda moduli: net.apply(p, moduli, deterministic=True), dict(moduli=m), rough=1e-2,
                                where=(('shape', shape), ('layers', layers), ('features', feats)))
    elif f == 'integrate':
        z, w = np.array([1., 2, 4, -3]), np.array([1., 2, 3, 2])
        for fname, fn in (('square', lambda q: q ** 2), ('affine', lambda q: 2.5 * q + 1), ('one', lambda q: 1)):
            for var in (True, False):
                for single in (True, False):
                    out = every(lambda z, w: util.mc_integrate(key, 4, fn, lambda k, c: (z, w), var), dict(z=z, w=w), reals=['w'], kinds=[
                        k for k in KINDS if k != 'list'] if single else KINDS, where=(('f', fname), ('var', var)))
    elif f == 'batches':
        z, w = np.array([1., 2, 4, -3]), np.array([1., 2, 3, 2])
        for fname, fn in (('square', lambda q: q ** 2), ('affine', lambda q: 2.5 * q + 1), ('one', lambda q: 1)):
            for var in (True, False):
                for num in (int, np.int32) if var == (fname == 'square') or ctx.tier != 'quick' else ():
                    out = every(lambda z, w: util.mc_integrate_batched(key, num(2), num(4), fn, lambda k, c: (z, w), var),
                                dict(z=z, w=w), reals=['w'], where=(('f', fname), ('var', var), ('number', num.__name__)))
    elif f == 'poly':
        for text in ('a*x0**2*x1 - 3*x1**4 + b', 'x0*x1 + a*b*x0', '2*x0**3 + x1 - 5*b', '1.5*x1**2 + 0.5*I*a*x0',
                     'x0**5 - a**2*x1'):
            p = cyjax.Poly.from_sympy(text, ['x'], ['a', 'b'])
            args = dict(x=np.array([2., -3]), params=np.array([3., -2]))
            for name, fn in (('call', p), ('compiled', p.transform_eval())):
                out = every(lambda x, params: fn(x, params), args, where=(('text', text), ('form', name)), jit=name == 'compiled')
            # partial evaluation
            out = every(lambda x: p.transform_eval()(x, jnp.array([3., -2])), dict(x=args['x']), where=(('text', text),))
    elif f == 'bases':
        for deg in (1, 2, 4):
            b = D.MonomialBasisFull(n - 1, deg)
            r = D.MonomialBasisReduced(v, deg, P)
            for name, basis in (('full', b), ('reduced', r)):
                for pre in (True, False):
                    # logarithms of real numbers need positive ones
                    pos = (lambda x: x) if pre else np.abs
                    for patch in [None, *range(n)]:
                        z = pos(whole(n if patch is None else n - 1, deg))
                        if patch is None:
                            out = every(lambda zs: basis(zs, None, precompute=pre), dict(zs=z), where=(
                                ('degree', deg), ('basis', name), ('precompute', pre)))
                        else:
                            out = every(lambda zs, patch: basis(zs, patch, precompute=pre), dict(zs=z, patch=np.array(patch)),
                                        ints=['patch'], where=(('degree', deg), ('basis', name), ('precompute', pre),
                                                               ('patch', patch)), jit=deg == 2 and name == 'full')
    elif f == 'objects':
        for form in ('full', 'diagonal'):
            h = H if form == 'full' else np.diag(H)
            for patch in range(n) if form == 'full' or ctx.tier != 'quick' else [1]:
                def quantities(h, patch, params=None):
                    g = D.GeometricObjects(h, jnp.array(whole(n - 1, 2)), params, v, sec, patch)
                    return {q: getattr(g, q) for q in ('kahler', 'g_proj', 'g_loc', 'eta', 'grad_def', 'dependent')}
                out = every(quantities, dict(h=h, patch=np.array(patch), **par), ints=['patch'], rough=1e-2,
                            where=(('form', form), ('patch', patch)), pairs=False)
    elif f == 'reduced':
        for deg in (1, 2, 3, 4):
            if not par:
                return
            out = every(lambda params: D.MonomialBasisReduced(v, deg, params).power_matrix, par, where=(('degree', deg),))
    elif f == 'helpers':
        for size in range(1, 5 if ctx.tier == 'quick' else 7):
            for i in range(size):
                a = whole(size, i)
                where = (('size', size), ('index', i))
                out = every(lambda arr, index: util.pop(arr, index), dict(arr=a, index=np.array(i)), ints=['index'],
                            kinds=[k for k in KINDS if 'list' not in k], where=where, what='pop')
                every(lambda patch, index: cyjax.projective.index_affine_to_hom(patch, index),
                      dict(patch=np.array(i), index=np.array(size - 1)), ints=['patch', 'index'], where=where, what='to hom')
                if i < size - 1:
                    every(lambda patch, index: cyjax.projective.index_hom_to_affine(patch, index),
                          dict(patch=np.array(i), index=np.array(size - 1)), ints=['patch', 'index'], where=where,
                          what='to affine')
            for i in range(size + 1):
                for width in (0, 1, 2):
                    where = (('size', size), ('index', i), ('width', width))
                    every(lambda arr, val, index: util.insert_1d(arr, val, index),
                          dict(arr=whole(size, i), val=whole(max(1, width), 5)[0 if not width else slice(None)],
                               index=np.array(i)), ints=['index'], kinds=[k for k in KINDS if 'list' not in k], where=where,
                          what='insert_1d', pairs=size < 4)
                    every(lambda arr, val, index: util.insert_col(arr, val, index),
                          dict(arr=whole((3, size), i), val=whole((3, width) if width else 3, 5),
                               index=np.array(i)), ints=['index'], kinds=[k for k in KINDS if 'list' not in k], where=where,
                          what='insert_col', pairs=size < 4)
    ctx.sample(function=f, refused=total, value=out)


def order(rows):
    rows = np.asarray(rows, complex)
    key = [tuple(np.round(np.stack([r.real, r.imag], -1).ravel(), 5)) for r in rows]
    return rows[sorted(range(len(rows)), key=lambda i: key[i])]
