"""C26: every use of every key is recorded below the public random functions while the operations run."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props.c18 import tour
from mc.props.c24 import moduli_sampler

ID = 'C26'
TECHNIQUE = 'run-time monitor of all key derivations and draws over exhaustively enumerated calls and operation histories'
BOUNDS = {
    'quick': 'generators with 6 shapes; shuffles of 1-4 slices; line sampling with 1-5 points, all output forms, single, vectorized over '
             '3 keys and over 2 moduli; integrals and volumes of 1-4 batches; balancing steps of 1-4 batches and iterations of 3 steps; '
             'accuracies; key sequences: all words of length 6 of next and use; samplers with buffers of 1-3: all words of length 4 of '
             'next and refill; network set-up and dropout of 0-3 layers; 2-3 keys each; 3 families',
    'thorough': 'as quick with up to 7 batches, words of length 8, 6 families',
}
ASSUMPTIONS = ['random bits are derived from keys through the split, fold_in and random_bits operations of JAX']


def units(tier):
    specs = ['dwork1', 'gen1', 'quad2'] + (['gen2', 'mix2', 'cub3'] if tier != 'quick' else [])

    def scenario(c):
        part = c.pick('part', ['generators', 'sampling', 'integrals', 'balance', 'sequence', 'sampler', 'network'])
        if part in ('sampling', 'balance'):
            c.pick('spec', specs)
        if part == 'integrals':
            c.pick('sampler', ['one', 'two', 'points'])
        if part == 'sampler':
            c.pick('buffer', [1, 2, 3])
    return leaves(scenario)


def before_import():
    from mc.keys import Monitor
    globals()['MON'] = Monitor()


def run(unit, ctx):
    globals()[unit['part']](unit, ctx, MON)


def judge(ctx, mon, given, what, fn, draws=None, repeat=True):
    """Run fn; no key used twice, all randomness from the given keys; returns the result."""
    import jax
    mon.take()
    out = jax.block_until_ready(fn())
    log = mon.take()
    ctx.where = dict(call=what)
    ctx.state((what, tuple(np.asarray(g).tobytes() for g in given)))
    bad = mon.reused(log)
    ctx.check(not bad, 'key used more than once', uses=bad[:2])
    far = mon.foreign(log, given)
    ctx.check(not far, 'randomness which does not come from the given key', keys=far[:2])
    if draws is not None:
        ctx.check(len(mon.draws(log)) >= draws, 'separate randomness', keys=len(mon.draws(log)), wanted=draws)
    if repeat:
        again = jax.block_until_ready(fn())
        mon.take()
        for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(again)):
            ctx.check(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.issubdtype(np.asarray(a).dtype, np.inexact)),
                      'the same key gives the same result')
    ctx.ran(1 + repeat, len(log))
    ctx.outcome(len(log), len(mon.draws(log)))
    return out


def differ(ctx, what, *outs):
    import jax
    ctx.where = dict(call=what)
    flat = [np.concatenate([np.ravel(np.asarray(x)) for x in jax.tree_util.tree_leaves(q)]) for q in outs]
    for a, b in itertools.combinations(flat, 2):
        ctx.check(not np.array_equal(a, b), 'different keys give different results')


def seeds():
    import jax
    return [jax.random.PRNGKey(0), jax.random.PRNGKey(7)]


def generators(unit, ctx, mon):
    import jax
    import jax.numpy as jnp
    from cyjax import random as r, ml
    from cyjax.util import shuffle_axis
    fns = {}
    for shape in [(), (2,), (3, 2), (2, 2, 2), (5,), (1, 4)]:
        for name in ('uniform_components', 'uniform_angle', 'uniform_angle_unit', 'real_sphere', 'complex_sphere'):
            fns[name, shape] = lambda k, f=getattr(r, name), s=shape: f(k, s)
    for count, dim in itertools.product((1, 3), (1, 2, 3)):
        fns['projective', count, dim] = lambda k, c=count, d=dim: r.uniform_projective(k, c, d)
        fns['homogeneous', count, dim] = lambda k, c=count, d=dim: r.uniform_projective(k, c, d, affine=False)
        fns['overlap', count, dim] = lambda k, c=count, d=dim: r.projective_overlap(k, c, d, 0, d, 2.)
    for shape in [(6,), (2, 5), (4, 4), (2, 2, 6)]:
        for axis in range(len(shape)):
            fns['shuffle', shape, axis] = lambda k, s=shape, a=axis: shuffle_axis(k, jnp.arange(int(np.prod(s))).reshape(s), a)
    for n in (1, 3, 4):
        fns['matrix parameters', n] = lambda k, n=n: ml.hermitian_param_init(k, n, 1e-2)
    for name, fn in fns.items():
        outs = []
        for key in seeds():
            for form, f in (('plain', fn), ('jit', jax.jit(fn))):
                out = judge(ctx, mon, [key], '%s %s' % (name, form), lambda: f(key), draws=1 if name[1] != () or
                            'sphere' not in name[0] else 0)
                ctx.check(name[0] == 'shuffle' or name[1] == () or len(
                    set(np.ravel(jax.tree_util.tree_leaves(out)[0]).tolist())) > 1 or np.size(jax.tree_util.tree_leaves(out)[0]) == 1
                    or name[0] == 'matrix parameters', 'values differ')
            outs.append(out)
        if name[1] != () or 'sphere' not in name[0]:
            if name[0] != 'shuffle' or name[1][name[2]] >= 4:
                differ(ctx, str(name), *outs) if name[0] != 'real_sphere' or name[1][-1] > 1 else None
        keys = jax.random.split(jax.random.PRNGKey(3), 3)
        judge(ctx, mon, keys, '%s vectorized' % (name,), lambda: jax.vmap(fn)(keys), repeat=False,
              draws=3 if name[1] != () or 'sphere' not in name[0] else 0)
    ctx.sample(generators=len(fns))


def sampling(unit, ctx, mon):
    import jax
    import jax.numpy as jnp
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    m = len(spec.params)
    par = jnp.asarray([0.4 + 0.2j, -0.3 + 0.1j, 0.2j][:m] or [0.4])[:m]
    for count in (1, 2, 3, 5):
        for affine, weights in itertools.product([False, True], repeat=2):
            outs = []
            for key in seeds():
                outs.append(judge(ctx, mon, [key], f'lines {count} {affine} {weights}',
                                  lambda: v.sample_intersect(key, par, count, affine=affine, weights=weights), draws=1))
            differ(ctx, 'lines', *outs)
    keys = jax.random.split(jax.random.PRNGKey(3), 3)
    zs = judge(ctx, mon, keys, 'lines vectorized', lambda: jax.vmap(lambda k: v.sample_intersect(k, par, 4))(keys), draws=3)
    differ(ctx, 'lines vectorized', *np.asarray(zs))
    if m:
        pars = jnp.stack([par, par * 1.3])
        judge(ctx, mon, keys[:1], 'lines for moduli', lambda: jax.vmap(lambda p: v.sample_intersect(keys[0], p, 4))(pars), draws=1)
        judge(ctx, mon, keys[:2], 'lines for keys and moduli',
              lambda: jax.vmap(lambda k, p: v.sample_intersect(k, p, 4))(keys[:2], pars), draws=2)
    top = 4 if ctx.tier == 'quick' else 7
    for batches, size in [(b, 3) for b in range(1, top + 1)] + [(2, 1), (3, 2), (1, 5)]:
        for var in (False, True):
            outs = []
            for key in seeds():
                outs.append(judge(ctx, mon, [key], f'volume {batches}x{size} {var}',
                                  lambda: v.compute_vol(key, par, batches, size, var), draws=batches, repeat=var))
            differ(ctx, 'volume', *outs)
    ctx.sample(spec=unit['spec'])


def integrals(unit, ctx, mon):
    import jax
    import jax.numpy as jnp
    from cyjax.util import mc_integrate, mc_integrate_batched
    from cyjax import random as r

    def one(key, n):
        return jax.random.normal(key, (n,)), jnp.ones(n)

    def two(key, n):
        k1, k2 = jax.random.split(key)
        return jax.random.normal(k1, (n, 2)), jax.random.uniform(k2, (n,)) + .5

    def pts(key, n):
        return r.uniform_projective(key, n, 2, affine=False), jnp.ones(n)

    top = 4 if ctx.tier == 'quick' else 7
    fn = lambda z: jnp.abs(z.reshape(z.shape[0], -1)).sum(-1) ** 2
    for name, smp, per in (('one', one, 1), ('two', two, 2), ('points', pts, 1)):
        if name != unit['sampler']:
            continue
        for key in seeds():
            for count in (1, 4):
                for var in (False, True):
                    judge(ctx, mon, [key], f'{name} {count}', lambda: mc_integrate(key, count, fn, smp, var), draws=per)
            for b, s in itertools.product(range(1, top + 1), (1, 2, 3)):
                for var in (False, True):
                    for form in ('plain', 'jit')[:1 + (s == 2)]:
                        f = lambda k: mc_integrate_batched(k, b, s, fn, smp, var)
                        f = jax.jit(f) if form == 'jit' else f
                        judge(ctx, mon, [key], f'{name} {b}x{s} {var} {form}', lambda: f(key), draws=b * per, repeat=form == 'plain' and s == 2)
    ctx.sample(sampler=unit['sampler'], batches=top)


def balance(unit, ctx, mon):
    import jax
    import jax.numpy as jnp
    import cyjax
    from cyjax.util import PRNGSequence
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    m = len(spec.params)
    par = jnp.asarray([0.4 + 0.2j, -0.3 + 0.1j, 0.2j][:m] or [0.4])[:m]
    mb = cyjax.donaldson.MonomialBasisFull(v.dim_projective, 1)
    am = cyjax.donaldson.AlgebraicMetric(v, mb)
    n = mb.size
    h = jnp.eye(n, dtype=complex)
    top = 4 if ctx.tier == 'quick' else 7
    for b in range(1, top + 1):
        outs = []
        for key in seeds():
            outs.append(judge(ctx, mon, [key], f'step {b}', lambda: am.donaldson_step(key, h, par, 1., b, 7), draws=b, repeat=b == 2))
        differ(ctx, 'step', *outs)
    rns = PRNGSequence(5)

    def iteration():
        q, x = PRNGSequence(5), h
        for _ in range(3):
            x = am.donaldson_step(next(q), x, par, 1., 2, 7)
        return x
    judge(ctx, mon, [jax.random.PRNGKey(5)], 'iteration', iteration, draws=6)
    for key in seeds():
        for count in (4, 6):
            judge(ctx, mon, [key], 'accuracy', lambda: am.sigma_accuracy(key, par, h, count), draws=1)
    if m:
        pars = jnp.stack([par, par * 1.2])
        keys = jax.random.split(jax.random.PRNGKey(8), 2)
        judge(ctx, mon, keys, 'accuracies of moduli',
              lambda: jax.vmap(lambda k, p: am.sigma_accuracy(k, p, h, 4))(keys, pars), draws=2)
    ctx.sample(spec=unit['spec'], sections=n)


def sequence(unit, ctx, mon):
    """Handing out keys, using them and handing out more."""
    import jax
    from cyjax.util import PRNGSequence
    order = 6 if ctx.tier == 'quick' else 8
    for seed in (0, 3, 'key'):
        sd = jax.random.PRNGKey(11) if seed == 'key' else seed
        root = sd if seed == 'key' else jax.random.PRNGKey(sd)
        for ops in itertools.product(['next', 'draw', 'split'], repeat=order):
            if ops[0] != 'next' or ops[-1] == 'next':
                continue
            mon.take()
            q = PRNGSequence(sd)
            pending = []
            for op in ops:
                if op == 'next':
                    pending.append(next(q))
                elif pending:
                    k = pending.pop(0)
                    jax.random.uniform(k, ()) if op == 'draw' else jax.random.split(k)
            log = mon.take()
            ctx.where = dict(seed=str(seed), word=ops)
            ctx.state((seed, ops))
            ctx.check(not mon.reused(log), 'key used more than once', uses=mon.reused(log)[:2])
            ctx.check(not mon.foreign(log, [root]), 'keys derived from the seed')
            ctx.ran(1, len(log))
    ctx.outcome(order)
    ctx.sample(word=ops)


def sampler(unit, ctx, mon):
    import jax
    from cyjax import ml
    from cyjax.util import PRNGSequence
    order = 4 if ctx.tier == 'quick' else 6
    spec = o.SPECS['dwork1']
    for mp, pts in ((1, 1), (2, 3), (3, 2)):
        for seed in (0, 'key'):
            sd = jax.random.PRNGKey(11) if seed == 'key' else seed
            root = sd if seed == 'key' else jax.random.PRNGKey(sd)
            mon.take()
            s = ml.BatchSampler(sd, spec.make(), moduli_sampler(1), mp, pts, unit['buffer'])
            ops = [['next', 'refill'][i] for i in tour(2, order)]
            got = []
            for op in ops:
                if op == 'next':
                    got.append(next(s))
                else:
                    s.new_buffer()
                ctx.ran(1, 0)
            jax.block_until_ready(got)
            log = mon.take()
            ctx.where = dict(sizes=(mp, pts), seed=str(seed))
            for t in range(len(ops)):
                ctx.state((unit['buffer'], mp, pts, seed, tuple(ops[max(0, t - order):t])))
            bad = mon.reused(log)
            ctx.check(not bad, 'key used more than once', uses=bad[:2])
            ctx.check(not mon.foreign(log, [root]), 'randomness derived from the seed', keys=mon.foreign(log, [root])[:2])
            ctx.check(len(mon.draws(log)) >= len(got) * (1 + mp), 'each modulus and each sample has its own randomness',
                      keys=len(mon.draws(log)), samples=len(got))
            zs = np.concatenate([np.asarray(x[1]).reshape(-1, np.shape(x[1])[-1]) for x in got])
            ctx.equal(len(np.unique(zs, axis=0)), len(zs), 'all points differ')
            ctx.ran(0, len(log))
            ctx.outcome(len(log))
    ctx.sample(buffer=unit['buffer'], operations=ops[:10])


def network(unit, ctx, mon):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    psi = jnp.array([[.3 + .2j], [1. - .4j]])
    for layers, rates in [((), None), ((4,), None), ((4, 3), (0.5, None)), ((4, 3), (0.5, 0.5)), ((4, 4, 4), (.5, .5, .5))]:
        net = ml.HNetMLP(3, layers, rates)
        for sup in (True, False):
            net = ml.HNetMLP(3, layers, rates, sig_suppress=sup)
            outs = []
            for key in seeds():
                k1, k2 = jax.random.split(key)
                p = judge(ctx, mon, [k1, k2], f'init {layers} {sup}', lambda: net.init(dict(params=k1, dropout=k2), psi), repeat=False)
                outs.append(p)
                x = judge(ctx, mon, [k1, k2], f'apply {layers} {sup}', lambda: net.apply(p, psi, rngs=dict(dropout=k2)),
                          draws=sum(q is not None for q in rates or ()))
                judge(ctx, mon, [], f'apply without randomness {layers}', lambda: net.apply(p, psi, deterministic=True), draws=0)
            differ(ctx, 'init', *outs)
    ctx.sample(layers=layers)
