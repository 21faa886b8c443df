"""C23: the moduli network over all feature, layer and suppression configurations."""
import itertools

import numpy as np

from mc.core import leaves, precision

ID = 'C23'
BOUNDS = {
    'quick': 'all 7 non-empty feature selections x suppression on/off x layers none/one/two x dropout none/partial/full, different rates per layer x 1-3 moduli '
             'x power sets (negative and fractional ones and vanishing moduli for the features); basis sizes 1-4; all moduli of a 4 value alphabet (1 and 2 moduli) or its 27 corner triples (four moduli for the features); single, '
             'batched (also more than 150 at once), permuted, neighbours replaced; perturbed weights; double precision and a single precision pass',
    'thorough': 'as quick with more power sets and basis sizes',
}
ALPHA = [0.6 + 0.8j, -1.5, 0.3j, 2 - 1j]
LAYERS = [[], [3], [4, 2]]


def units(tier):
    def scenario(c):
        c.pick('features', [list(x) for x in itertools.product([0, 1], repeat=3) if any(x)])
        c.pick('suppress', [0, 1])
        c.pick('moduli', [1, 2, 3])
    return leaves(scenario)


def documented(mods, powers, angle, absv, parts):
    """Columns of the documented input features, one row per moduli vector, in no particular order."""
    powers = sorted({0, *powers})
    f = [np.prod(mods ** np.array(pw), axis=1) for pw in itertools.product(powers, repeat=mods.shape[1]) if any(pw)]
    cols = []
    if angle:
        cols += list(np.angle(mods).T)
    if absv:
        cols += [np.abs(x) for x in f]
    if parts:
        cols += [x.real for x in f] + [x.imag for x in f]
    return np.array(cols).T


def features(unit, ctx, mods, psets, jax, jnp, ml):
    """Read the features off a network without hidden layers whose final layer copies its input."""
    switches = [bool(x) for x in unit['features']]
    for powers in psets:
        want = documented(mods, powers, *switches)
        F = want.shape[1]
        N = int(np.ceil(np.sqrt(F)))
        ctx.where = dict(powers=powers, features=F)
        ctx.rows((str(unit), 'features', powers), mods)
        net = ml.HNetMLP(basis_size=N, layer_sizes=[], powers=powers, sig_suppress=False, feature_angle=switches[0],
                         feature_abs=switches[1], feature_parts=switches[2])
        var = net.init(jax.random.PRNGKey(0), jnp.array(mods))
        flat = jax.tree_util.tree_leaves(var)
        kernel = [x for x in flat if x.ndim == 2]
        ctx.check(len(kernel) == 1 and kernel[0].shape == (F, N * N), 'number of features', shapes=[x.shape for x in flat], want=F)
        var = jax.tree_util.tree_map(lambda x: jnp.eye(F, N * N) if x.ndim == 2 else jnp.zeros_like(x), var)
        got = np.asarray(net.apply(var, jnp.array(mods)))
        ctx.check((got[:, F:] == 0).all(), 'nothing else')
        order = lambda a: a[:, np.lexsort(np.round(a, 6)[::-1] + 0.)]
        ctx.close(order(got[:, :F]), order(want), 'documented features', rtol=1e-8, atol=1e-7)
        ctx.outcomes_rows(want)
        ctx.ran(1, len(mods))


def run(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import ml
    m = unit['moduli']
    angle, absv, parts = map(bool, unit['features'])
    if m < 3:
        mods = np.array(list(itertools.product(ALPHA, repeat=m)))
    else:
        mods = np.array(list(itertools.product(ALPHA[:3], repeat=3)))
    psets = [(1, 2, 3), (2,), (0, 1)] if ctx.tier == 'quick' else [(1, 2, 3), (2,), (0, 1), (1, 0.5), (3, 1, 2), ()]
    sizes = [1, 3] if ctx.tier == 'quick' else [1, 2, 3, 4]
    features(unit, ctx, mods, psets + [(1,), (1, 3), (-1, 1), (0.5,), (-2,)], jax, jnp, ml)
    if m == 3:
        features(unit, ctx, np.array([np.roll(ALPHA, i) for i in range(4)]), [(1,), (1, 2)], jax, jnp, ml)
    features(unit, ctx, np.concatenate([0 * mods[:1], mods * (np.arange(m) > 0), mods]), [(1, 2, 3)[:4 - m]], jax, jnp, ml)
    if m == 3 and ctx.tier == 'quick' and unit['features'] not in ([1, 1, 1], [0, 1, 0]):
        return ctx.sample(unit=unit, moduli=mods[-1])
    for li, layers in enumerate(LAYERS):
        drops = [None] if not layers else [None, [0.5] + [None] * (len(layers) - 1), [0.25] * len(layers)]
        for di, drop in enumerate(drops):
            for pi, powers in enumerate(psets):
                if m == 3 and powers == (1, 2, 3) and ctx.tier == 'quick':
                    powers = (1, 2)
                for N in sizes:
                    if ctx.tier == 'quick' and (pi != (li + di) % 3 or N != (1 if di == 1 else 3)):
                        continue
                    if powers == () or (powers == (0,)):
                        continue
                    conf = dict(layers=layers, dropout=drop, powers=powers, size=N)
                    ctx.where = conf
                    net = ml.HNetMLP(basis_size=N, layer_sizes=layers, dropout_rates=drop, powers=powers,
                                     sig_suppress=bool(unit['suppress']), feature_angle=angle, feature_abs=absv,
                                     feature_parts=parts)
                    one(ctx, net, N, mods, unit, conf, jax, jnp, ml)
    for layers, drop in (([4], [0.25]), ([4, 3], [None, 0.5])):
        conf = dict(layers=layers, dropout=drop, powers=(1, 2), size=2)
        ctx.where = conf
        net = ml.HNetMLP(2, layers, drop, (1, 2), bool(unit['suppress']), feature_angle=angle, feature_abs=absv,
                         feature_parts=parts)
        if not unit['suppress'] and m < 3:
            one(ctx, net, 2, mods, unit, conf, jax, jnp, ml)
    for rates in ([0.3, 0.6], [0.75, 0.125], [None, 0.4], [0.4, None], [0.5, 0.]) if not unit['suppress'] and m < 3 else ():
        ctx.where = dict(layers=[2, 3], dropout=rates)
        net = ml.HNetMLP(2, [2, 3], rates, (1, 2), False, feature_angle=angle, feature_abs=absv, feature_parts=parts)
        layer_masks(ctx, net, mods[:6], rates, jax, jnp)
    if m == 1:
        conf = dict(layers=[5, 4, 3], dropout=[0.1, None, 0.5], powers=(1, 2, 3), size=6)
        ctx.where = conf
        net = ml.HNetMLP(6, conf['layers'], conf['dropout'], sig_suppress=bool(unit['suppress']), feature_angle=angle,
                         feature_abs=absv, feature_parts=parts)
        one(ctx, net, 6, mods, unit, conf, jax, jnp, ml)
    with precision(32):
        ctx.where = dict(bits=32)
        net = ml.HNetMLP(basis_size=2, layer_sizes=[3], sig_suppress=bool(unit['suppress']), feature_angle=angle,
                         feature_abs=absv, feature_parts=parts)
        M = jnp.array(mods.astype(np.complex64))
        var = net.init(jax.random.PRNGKey(0), M[0], deterministic=True)
        out = np.asarray(net.apply(var, M, deterministic=True))
        ctx.equal(out.shape, (len(mods), 4), 'shape, single precision')
        ctx.check(np.isrealobj(out) and np.isfinite(out).all(), 'finite and real, single precision')
        single = np.stack([np.asarray(net.apply(var, x, deterministic=True)) for x in M[:5]])
        ctx.close(out[:5], single, 'stack of the single results, single precision', rtol=1e-4, atol=1e-4)
        ctx.ran(2, len(mods))
    ctx.sample(unit=unit, moduli=mods[-1])


def one(ctx, net, N, mods, unit, conf, jax, jnp, ml):
    key = jax.random.PRNGKey(5)
    M = jnp.array(mods)
    tag = (str(unit), str(conf))
    ctx.rows(tag, mods)
    var = net.init(key, M[0], deterministic=True)
    vb = net.init(key, M[:3], deterministic=True)
    ctx.equal(str(jax.tree_util.tree_map(jnp.shape, var)), str(jax.tree_util.tree_map(jnp.shape, vb)),
              'weights do not depend on the batch')
    ap = jax.jit(lambda v, x: net.apply(v, x, deterministic=True))
    out = np.asarray(ap(var, M))
    ctx.equal(out.shape, (len(mods), N * N), 'one vector per moduli vector')
    ctx.check(np.isrealobj(out), 'real')
    ctx.check(np.isfinite(out).all(), 'finite')
    # initialization: the same near multiple of the identity for all moduli
    ctx.close(out, np.broadcast_to(out[0], out.shape), 'initially independent of the moduli', rtol=1e-12, atol=1e-12)
    H = np.asarray(ml.cholesky_from_param(jnp.array(out[0])))
    c = np.trace(H).real / N
    ctx.check(c > 0.05, 'initially positive')
    ctx.close(H, c * np.eye(N), 'initially close to a multiple of the identity', rtol=0, atol=0.05 * c)
    ctx.ran(2, len(mods))
    # generic weights, so that moduli matter
    leaves_, tree = jax.tree_util.tree_flatten(var)
    new = [np.asarray(x) + 0.35 * np.cos(1.7 * np.arange(np.size(x)) + 0.9 * i + 0.3).reshape(np.shape(x))
           for i, x in enumerate(leaves_)]
    var = jax.tree_util.tree_unflatten(tree, [jnp.array(x) for x in new])
    out = np.asarray(ap(var, M))
    single = np.stack([np.asarray(ap(var, x)) for x in M])
    ctx.equal(single.shape, out.shape, 'single shape')
    t = dict(rtol=1e-9, atol=1e-9)
    ctx.close(out, single, 'stack of the single results', **t)
    ctx.check(len({tuple(np.round(r, 6)) for r in out}) > 1, 'moduli matter')
    perm = np.argsort(np.sin(7. * np.arange(len(mods))))
    ctx.close(ap(var, M[perm]), out[perm], 'order of the batch', **t)
    for i in (0, len(mods) // 2, len(mods) - 1):
        other = jnp.array(np.roll(mods, 3, axis=0)).at[i].set(M[i])
        ctx.close(np.asarray(ap(var, other))[i], out[i], 'unaffected by the others', **t)
    ctx.close(np.asarray(ap(var, M[:1])), out[:1], 'batch of one', **t)
    many = 150 // len(mods) + 1
    ctx.close(ap(var, jnp.tile(M, (many, 1))), np.tile(out, (many, 1)), 'long batch', **t)
    ctx.close(net.apply(var, M[1], deterministic=True), out[1], 'plain call', **t)
    if mods.shape[1] == 1:
        ctx.close(ap(var, M[2, 0]), out[2], 'scalar modulus', **t)
    ctx.outcomes_rows(out)
    ctx.ran(6, 4 * len(mods))
    # dropout disabled: no key is needed; enabled: another key, another result, stopping when rates are absent
    if conf['dropout'] is None:
        ctx.close(net.apply(var, M), out, 'no dropout', **t)
    else:
        a = np.asarray(net.apply(var, M, rngs=dict(dropout=jax.random.PRNGKey(1))))
        b = np.asarray(net.apply(var, M, rngs=dict(dropout=jax.random.PRNGKey(1))))
        d = np.asarray(net.apply(var, M, rngs=dict(dropout=jax.random.PRNGKey(2))))
        ctx.close(a, b, 'reproducible dropout', rtol=1e-12)
        ctx.check(not np.allclose(a, d) or not np.allclose(a, out), 'dropout acts')
        ctx.ran(3, 3 * len(mods))
        masks(ctx, net, var, ap, mods, conf, jax, jnp)
    invariances(ctx, net, var, ap, mods, unit, conf, jnp)


def masks(ctx, net, var, ap, mods, conf, jax, jnp):
    """With dropout in the last hidden layer each unit is either dropped or enlarged by 1 / (1 - rate)."""
    rate, width = conf['dropout'][-1], conf['layers'][-1]
    if rate is None or any(r is not None for r in conf['dropout'][:-1]) or width > 5 or net.sig_suppress:
        return
    size = net.basis_size ** 2
    last = lambda x: x.ndim == 2 and x.shape == (width, size)
    if sum(last(x) for x in jax.tree_util.tree_leaves(var)) != 1:
        return
    # activation of each unit: what the output loses without it
    full = np.asarray(ap(var, jnp.array(mods)))
    parts = []
    for i in range(width):
        less = jax.tree_util.tree_map(lambda x: x.at[i].set(0) if last(x) else x, var)
        parts.append(full - np.asarray(ap(less, jnp.array(mods))))
    parts = np.array(parts)
    base = full - parts.sum(0)
    seen = set()
    for k in range(24):
        got = np.asarray(net.apply(var, jnp.array(mods), rngs=dict(dropout=jax.random.PRNGKey(k))))
        for r in range(len(mods)):
            opts = {m: base[r] + sum(parts[i, r] / (1 - rate) for i in range(width) if m[i])
                    for m in itertools.product((0, 1), repeat=width)}
            hit = [m for m, x in opts.items() if np.allclose(got[r], x, rtol=1e-8, atol=1e-8)]
            ctx.check(hit, 'units are dropped or enlarged', key=k, row=r, got=got[r])
            seen.update(hit if len(hit) == 1 else [])
        ctx.ran(1, len(mods))
    ctx.check(all({m[i] for m in seen} == {0, 1} for i in range(width)), 'each unit is dropped and kept for some key')
    ctx.state(('masks', str(conf), len(seen)))


def layer_masks(ctx, net, mods, rates, jax, jnp):
    """Each layer uses its own rate: the output is that of one choice of dropped units in all layers."""
    widths = list(net.layer_sizes)
    M = jnp.array(mods)
    leaves_, tree = jax.tree_util.tree_flatten(net.init(jax.random.PRNGKey(5), M[0], deterministic=True))
    var = jax.tree_util.tree_unflatten(tree, [
        jnp.array(np.asarray(x) + 0.35 * np.cos(1.7 * np.arange(np.size(x)) + 0.9 * i + 0.3).reshape(np.shape(x)))
        for i, x in enumerate(leaves_)])
    # the weights applied to the units of each layer
    shapes = list(zip(widths, widths[1:] + [net.basis_size ** 2]))
    if any(sum(x.shape == s for x in jax.tree_util.tree_leaves(var)) != 1 for s in shapes):
        return
    ap = jax.jit(lambda v: net.apply(v, M, deterministic=True))
    options = [list(itertools.product(*[(0, 1 / (1 - (r or 0))) if r else (1,)] * w)) for w, r in zip(widths, rates)]
    outs = {}
    for choice in itertools.product(*options):
        factor = {s: jnp.array(c)[:, None] for s, c in zip(shapes, choice)}
        outs[choice] = np.asarray(ap(jax.tree_util.tree_map(lambda x: x * factor.get(x.shape, 1), var)))
    values = np.array(list(outs.values()))
    seen = set()
    for k in range(32):
        got = np.asarray(net.apply(var, M, rngs=dict(dropout=jax.random.PRNGKey(k))))
        hit = np.isclose(values, got, rtol=1e-8, atol=1e-8).all(-1)
        ctx.check(hit.any(0).all(), 'units of each layer are dropped or enlarged by its rate', key=k)
        seen.update(np.argmax(hit, axis=0).tolist())
        ctx.ran(1, len(mods))
    ctx.check(len(seen) > 1, 'dropout acts')
    ctx.state(('layer masks', str(rates), net.feature_angle, net.feature_abs, net.feature_parts, mods.shape[1]))


def invariances(ctx, net, var, ap, mods, unit, conf, jnp):
    """Features that are switched off have no influence."""
    angle, absv, parts = map(bool, unit['features'])
    out = np.asarray(ap(var, jnp.array(mods)))
    t = dict(rtol=1e-8, atol=1e-8)
    if not absv and not parts:
        # only the angle is used: moduli may be rescaled by positive factors
        for f in (0.25, 3.):
            ctx.close(ap(var, jnp.array(mods * f)), out, 'absolute value switched off', **t)
    if not angle and not parts:
        for f in (1j, -1, np.exp(0.7j)):
            ctx.close(ap(var, jnp.array(mods * f)), out, 'angle and parts switched off', **t)
    if not angle and not parts or (angle and not absv and not parts):
        ctx.ran(3, 3 * len(mods))
    if absv or parts:
        f = mods * 1.7
        got = np.asarray(ap(var, jnp.array(f)))
        ctx.check(not np.allclose(got, out), 'absolute value matters')
    if angle or parts:
        # angles matter also where absolute values agree
        got = np.asarray(ap(var, jnp.array(mods * np.exp(0.5j))))
        ctx.check(not np.allclose(got, out), 'angle matters')
    ctx.ran(2, 2 * len(mods))
