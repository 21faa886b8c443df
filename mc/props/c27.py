"""C27: the training script is run with recorded samples, optimizer and clock; files are read at every step boundary."""
import contextlib
import io
import json
import logging
import os
import runpy
import shutil
import sys
import tempfile
import time

import numpy as np

from mc import core
from mc.core import leaves

ID = 'C27'
TECHNIQUE = 'exhaustive enumeration of stopping points, logging intervals and sizes; the real script runs to each of them with a scripted ' \
            'clock, its files are compared with a record of samples and optimizer states at every step boundary'
BOUNDS = {
    'quick': 'logging intervals 1-3 with 0-5 steps, every step boundary inspected, stop by clock and by interruption; 1 and 2 moduli, '
             '1-3 moduli per batch, with and without dropout and sigmoid suppression; evaluation grids of 2 and 3 points per axis with '
             'batch sizes 1, 4, 5 and larger than the grid; repeated seeds',
    'thorough': 'as quick with logging intervals up to 4 and up to 9 steps, all combinations of the network options',
}
TWO = 'z0**3 + z1**3 + z2**3 + a*z0*z1*z2 + b*z0**2*z1'


def units(tier):
    deep = tier != 'quick'

    def scenario(c):
        part = c.pick('part', ['shipped', 'seed', 'steps', 'interrupt', 'evaluate'])
        if part == 'steps':
            c.pick('log_every', [1, 2, 3] + ([4] if deep else []))
            c.pick('moduli', [1, 2])
            c.pick('net', ['plain', 'suppress', 'dropout'] if deep else ['plain', 'dropout'])
        elif part == 'interrupt':
            c.pick('log_every', [1, 2, 3])
            c.pick('at', list(range(9 if deep else 5)))
        elif part == 'evaluate':
            m = c.pick('moduli', [1, 2])
            c.pick('grid', [2, 3] if m == 1 or deep else [2])
            c.pick('batch', [1, 4, 5, 100] if m == 1 else [5, 8, 100])
            c.pick('steps', [0, 2] if m == 1 else [2])
        elif part == 'shipped':
            c.pick('config', ['dwork', 'quintic'])
    return leaves(scenario)


def run(unit, ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    {'steps': steps, 'interrupt': interrupt, 'evaluate': evaluate, 'seed': seed, 'shipped': shipped}[unit['part']](unit, ctx)


class Stop(KeyboardInterrupt):
    pass


def train(cfg, nsteps, stop_at=None, snapshots=True, keep_plots=False):
    """Run the script in a scratch directory; returns everything observed.

    ``keep_plots``: False for empty files, True for real ones, or a function (figure, name) called in place of saving.
    """
    import jax
    import cyjax
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from mc import trainspy
    trainspy.TRACE.clear()
    trainspy.KEYS.clear()
    d = tempfile.mkdtemp(prefix='mc-train-')
    work = os.path.join(d, 'run')
    os.mkdir(work)
    if isinstance(cfg, dict):
        os.mkdir(os.path.join(d, 'conf'))
        cfg = dict(cfg, training=dict(cfg['training'], train_minutes=(nsteps - .5) / 60))
        with open(os.path.join(d, 'conf', 'scripted.yaml'), 'w') as f:
            json.dump(cfg, f)
        args = ['--config-dir=' + os.path.join(d, 'conf'), '--config-name=scripted']
    else:
        args = cfg + ['training.train_minutes=%r' % ((nsteps - .5) / 60)]
    seen = dict(samples=[], disk=[], snaps=0)
    cls = cyjax.ml.BatchSampler
    orig = cls.__next__
    clocks = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter')}
    real = clocks['time']

    def read():
        out = {}
        for f in sorted(os.listdir(work)):
            p = os.path.join(work, f)
            if os.path.isfile(p):
                with open(p, 'rb') as h:
                    out[f] = h.read()
        return out

    def nxt(self):
        if snapshots:
            seen['disk'].append(read())
        if stop_at is not None and len(seen['samples']) == stop_at:
            raise Stop()
        s = orig(self)
        seen['samples'].append(tuple(np.asarray(a) for a in s))
        return s

    cwd, argv = os.getcwd(), sys.argv
    handlers, level = logging.root.handlers[:], logging.root.level
    script = os.path.join(core.REPO, 'scripts', 'train.py')
    buf = io.StringIO()
    show = plt.savefig, Figure.savefig
    try:
        cls.__next__ = nxt
        for n in clocks:
            setattr(time, n, lambda: 1000. + len(seen['samples']))
        if keep_plots is not True:
            # drawing is slow; the data going into the plots is in the files
            saved = keep_plots or (lambda fig, name: open(name, 'wb').close())
            plt.savefig = lambda name, *a, **k: saved(plt.gcf(), name)
            Figure.savefig = lambda self, name, *a, **k: saved(self, name)
        sys.argv = [script, *args, 'hydra.run.dir=' + work, 'hydra.job.chdir=True', 'hydra.output_subdir=null',
                    'hydra/job_logging=none', 'hydra/hydra_logging=none']
        os.chdir(work)
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                runpy.run_path(script, run_name='__main__')
            seen['end'] = 'finished'
        except Stop:
            seen['end'] = 'interrupted'
        except SystemExit as e:
            raise AssertionError('script failed: ' + buf.getvalue()[-600:]) from e
        jax.effects_barrier()
    finally:
        cls.__next__ = orig
        for n, f in clocks.items():
            setattr(time, n, f)
        plt.savefig, Figure.savefig = show
        plt.close('all')
        sys.argv = argv
        os.chdir(cwd)
        logging.root.handlers[:] = handlers
        logging.root.setLevel(level)
        seen['disk'].append(read())
        shutil.rmtree(d)
    seen['trace'] = list(trainspy.TRACE)
    seen['keys'] = list(trainspy.KEYS)
    assert abs(real() - time.time()) < 60
    return seen


def config(moduli=1, net='plain', log_every=1, grid=2, batch=4, evaluation=False, bp=2, pts=3, buffer=2, seed=3):
    variety = dict(_target_='cyjax.Dwork', dim_variety=1) if moduli == 1 else dict(
        _target_='cyjax.VarietySingle.from_sympy', poly=TWO, var_name='z', poly_degree=3, params=['a', 'b'])
    return dict(
        random_seed=seed, variety=variety,
        algebraic_metric=dict(_target_='mc.trainspy.metric', variety='${variety}', sections=dict(
            _target_='cyjax.donaldson.MonomialBasisFull', degree=1, dim_proj=None)),
        network=dict(_target_='cyjax.ml.HNetMLP', basis_size=None, layer_sizes=[] if net == 'plain' else [3], powers=[1],
                     dropout_rates=[0.4] if net == 'dropout' else None, sig_suppress=net == 'suppress', init_fluctuation=0.2),
        sampling=dict(sizes=dict(batch_size_params=bp, batch_size=pts, buffer_size=buffer), param_bounds=[2.0, 0.5][:moduli]),
        training=dict(opt=dict(_target_='mc.trainspy.optimizer', rate=0.05), log_every=log_every),
        evaluation=dict(validation_count=3, sample_size=5, run=evaluation, grid_points=grid, batch_size=batch))


def model_of(moduli, net):
    import cyjax
    return cyjax.ml.HNetMLP(3, () if net == 'plain' else (3,), None if net != 'dropout' else (0.4,), powers=(1,),
                            sig_suppress=net == 'suppress', init_fluctuation=0.2)


def variety_of(moduli):
    import cyjax
    return cyjax.Dwork(1) if moduli == 1 else cyjax.VarietySingle.from_sympy(TWO, var_name='z', poly_degree=3, params=['a', 'b'])


def matrix(model, params, psi):
    """Matrix of one modulus: parameters from the network, put together by hand."""
    x = np.asarray(model.apply(params, np.atleast_1d(psi), deterministic=True))
    n = int(round(np.sqrt(len(x))))
    m = np.diag(x[:n].astype(complex))
    k = n * (n - 1) // 2
    m[np.triu_indices(n, 1)] = x[n:n + k] + 1j * x[n + k:]
    return m @ m.conj().T


def load(blob):
    return np.load(io.BytesIO(blob))


def disk_state(ctx, files, done, log_every, losses, params, valid, model):
    """Files after ``done`` steps against the record."""
    import flax.serialization
    ctx.check('validation_params.npy' in files, 'validation moduli are saved')
    psi = load(files['validation_params.npy'])
    if done == 0:
        for f in ('losses.npy', 'validation.npy', 'final.params'):
            ctx.check(f not in files, 'nothing is logged before the first step', file=f)
        return
    last = (done - 1) // log_every * log_every        # step of the last logging point
    got = load(files['losses.npy'])
    ctx.equal(got.shape, (last + 1,), 'one loss for each step up to the last logging point')
    if losses is not None:
        ctx.close(got, losses[:last + 1], 'losses', rtol=1e-7, atol=1e-10)
    got = load(files['validation.npy'])
    ctx.equal(got.shape, (last // log_every + 1, len(psi)), 'one validation row for each logging point')
    ctx.close(got, valid[:last // log_every + 1], 'accuracy of each validation modulus', rtol=1e-5, atol=1e-7)
    p = flax.serialization.from_bytes(params[0], files['final.params'])
    want = params[last + 1]
    import jax
    for a, b in zip(jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(want)):
        ctx.close(np.asarray(a), np.asarray(b), 'parameters of the last logging point', rtol=1e-5, atol=1e-7)


def reference(ctx, seen, moduli, net, log_every, gradients=False):
    """Losses, parameters and validation rows from the record alone."""
    import jax
    import jax.numpy as jnp
    import cyjax
    model, v = model_of(moduli, net), variety_of(moduli)
    am = cyjax.donaldson.AlgebraicMetric(v, cyjax.donaldson.MonomialBasisFull(2, 1))
    n = len(seen['trace'])
    ctx.equal(n, len(seen['samples']), 'one optimizer step per sample')
    params = [p for p, _ in seen['trace']]
    if n:
        p, g = seen['trace'][-1]
        params.append(jax.tree_util.tree_map(lambda a, b: a - 0.05 * b, p, g))
    for (p, g), q in zip(seen['trace'], params[1:]):
        for a, b, c in zip(*map(jax.tree_util.tree_leaves, (p, g, q))):
            ctx.close(np.asarray(c), np.asarray(a) - 0.05 * np.asarray(b), 'each step continues from the last', rtol=1e-5, atol=1e-7)
    eta = jax.jit(lambda h, z, psi, pt: am.eta(h, z, psi, pt).real)

    def loss(eta, w):
        mean = (w * eta).mean() / w.mean()
        return (w * (eta / mean - 1) ** 2).mean() + np.log(np.where(eta < 0, eta, 0) ** 2 + 1).mean()

    losses = []
    for p, (psi, zs, patch, w) in zip(params, seen['samples']):
        losses.append(np.mean([loss(np.asarray(eta(matrix(model, p, psi[i]), zs[i], psi[i], patch[i])), w[i])
                               for i in range(len(psi))]))
    if net == 'dropout':
        got = load(seen['disk'][-1]['losses.npy']) if n else []
        ctx.check(len(got) < 3 or not np.allclose(got, losses[:len(got)], rtol=1e-6, atol=0), 'dropout is active in training')
        losses = None
    valid = []
    psi = load(seen['disk'][-1]['validation_params.npy'])
    from mc.trainspy import score
    for s in range(0, n, log_every):
        valid.append([score(x, matrix(model, params[s + 1], x), np) for x in psi])
    if gradients and net != 'dropout':
        def ref(p, sample):
            psi, zs, patch, w = sample
            tot = 0
            for i in range(len(psi)):
                h = cyjax.ml.cholesky_from_param(model.apply(p, psi[i], deterministic=True))
                e = am.eta(h, zs[i], psi[i], patch[i]).real
                m = jax.lax.stop_gradient((w[i] * e).mean() / w[i].mean())
                tot += (w[i] * (e / m - 1) ** 2).mean() + jnp.log(jnp.where(e < 0, e, 0) ** 2 + 1).mean()
            return tot / len(psi)
        fn = jax.jit(jax.grad(ref))
        for t, ((p, g), s) in enumerate(zip(seen['trace'], seen['samples'])):
            for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(fn(p, s))):
                ctx.close(np.asarray(a), np.asarray(b), 'gradient of the loss of this step', rtol=1e-4,
                          atol=1e-4 * np.abs(np.asarray(b)).max() + 1e-8, step=t)
    return model, params, losses, np.array(valid).reshape(len(valid), len(psi))


def inspect(ctx, seen, moduli, net, log_every, gradients=False):
    ref = reference(ctx, seen, moduli, net, log_every, gradients)
    model, params, losses, valid = ref
    psi = load(seen['disk'][-1]['validation_params.npy'])
    bounds = [2., .5][:moduli]
    ctx.equal(psi.shape, (3, moduli), 'validation moduli')
    ctx.check((np.abs(psi.real) <= bounds).all() and (np.abs(psi.imag) <= bounds).all(), 'validation moduli within the bounds')
    ctx.equal(len(np.unique(psi, axis=0)), 3, 'validation moduli differ')
    for t, s in enumerate(seen['samples']):
        ctx.check((np.abs(s[0].real) <= bounds).all() and (np.abs(s[0].imag) <= bounds).all(), 'training moduli within the bounds', step=t)
    for done, files in enumerate(seen['disk'][:len(seen['samples']) + 1]):
        ctx.where = dict(done=done, log_every=log_every)
        ctx.state((moduli, net, log_every, done, sorted(files), [len(files[f]) for f in sorted(files)]))
        disk_state(ctx, files, done, log_every, losses, params, valid, model)
    files = seen['disk'][-1]
    ctx.where = dict(end=seen['end'], done=len(seen['samples']))
    disk_state(ctx, files, len(seen['samples']), log_every, losses, params, valid, model)
    ctx.ran(len(seen['samples']), len(seen['disk']))
    if losses:
        ctx.outcomes_rows(np.array(losses).reshape(-1, 1))
    return ref


def steps(unit, ctx):
    m, net, L = unit['moduli'], unit['net'], unit['log_every']
    n = 5 if ctx.tier == 'quick' else 9
    seen = train(config(m, net, L, bp=L), n)
    ctx.equal(seen['end'], 'finished', 'stops by itself')
    ctx.equal(len(seen['samples']), n, 'stops when the time is up')
    for s in seen['samples']:
        ctx.equal(s[1].shape, (L, 3, 2), 'configured sizes')
    inspect(ctx, seen, m, net, L, gradients=L == 2)
    ctx.sample(steps=n, log_every=L, files=sorted(seen['disk'][-1]))


def interrupt(unit, ctx):
    L, at = unit['log_every'], unit['at']
    seen = train(config(1, 'plain', L), 50, stop_at=at)
    ctx.equal(seen['end'], 'interrupted', 'interruption reaches the caller')
    ctx.equal(len(seen['samples']), at, 'steps done')
    inspect(ctx, seen, 1, 'plain', L)
    ctx.sample(interrupted_after=at, log_every=L, files=sorted(seen['disk'][-1]))


def evaluate(unit, ctx):
    from mc.trainspy import score
    m, N, B, n = unit['moduli'], unit['grid'], unit['batch'], unit['steps']
    net = 'plain' if m == 2 else 'dropout'
    plots = m == 1 and B == 4 and n == 2
    seen = train(config(m, net, 3, grid=N, batch=B, evaluation=True), n, keep_plots=plots)
    files = seen['disk'][-1]
    for f in ('sigma_final.npz', 'final-min.pdf', 'final-max.pdf', 'final-mean.pdf'):
        ctx.check(f in files, 'evaluation results are saved', file=f)
        ctx.check(not plots or len(files[f]) > 500, 'plots are drawn', file=f)
    if n:
        model, params, *_ = inspect(ctx, seen, m, net, 3)
        final = params[-1]
    else:
        ctx.check('losses.npy' not in files, 'nothing logged without steps')
        final = None
    out = load(files['sigma_final.npz'])
    sig, grid = out['sigmas'], out['moduli_grid']
    bounds = [2., .5][:m]
    ctx.equal(sig.shape, (N,) * (2 * m), 'one accuracy per grid modulus')
    ctx.equal(grid.shape, (2 * m, *sig.shape), 'grid of moduli')
    for idx in np.ndindex(sig.shape):
        psi = np.array([complex(-bounds[q] + 2 * bounds[q] * idx[2 * q] / (N - 1), -bounds[q] + 2 * bounds[q] * idx[2 * q + 1] / (N - 1))
                        for q in range(m)])
        ctx.state((m, N, B, n, idx))
        got = grid[(slice(None), *idx)]
        ctx.close(got[0::2] + 1j * got[1::2], psi, 'grid covers the bounds', rtol=1e-9, atol=1e-9)
        if final is not None:
            ctx.close(sig[idx], score(psi, matrix(model, final, psi), np), 'accuracy of this modulus', rtol=1e-5, atol=1e-7, index=idx)
        ctx.ran(0, 1)
    total = N ** (2 * m)
    keys = [k for k, c in seen['keys']]
    ctx.check(len(set(keys[-total:])) == total, 'separate randomness for each grid modulus', keys=len(set(keys)))
    ctx.check(all(c == 5 for _, c in seen['keys']), 'configured sample size')
    ctx.outcomes_rows(sig.reshape(-1, 1))
    ctx.sample(grid=N, moduli=m, batch=B, accuracies=sig.ravel()[:3])


def seed(unit, ctx):
    runs = {}
    for name, s in (('a', 3), ('again', 3), ('other', 4), ('free', None)):
        seen = train(config(1, 'dropout', 2, evaluation=name in ('a', 'again'), seed=s), 3)
        runs[name] = seen
        ctx.state((name,))
        ctx.ran(3, 1)
    from mc.keys import Monitor
    import jax
    mon = Monitor()
    jax.clear_caches()
    seen = train(config(1, 'dropout', 2, evaluation=True, bp=3, seed=3), 3)
    log = mon.take()
    ctx.check(len(mon.draws(log)) > 10, 'randomness was observed', draws=len(mon.draws(log)))
    ctx.check(not mon.reused(log), 'no key is used twice in a run', uses=mon.reused(log)[:2])
    drop = lambda d: {k: v for k, v in d.items() if not k.endswith('.pdf')}
    for x, y in zip(runs['a']['disk'], runs['again']['disk']):
        ctx.equal(sorted(drop(x)), sorted(drop(y)), 'same files')
        for f in drop(x):
            if f.endswith('.npz'):
                a, b = load(x[f]), load(y[f])
                for k in a.files:
                    ctx.equal(a[k], b[k], 'reproducible ' + k)
            else:
                ctx.check(x[f] == y[f], 'a run with a fixed seed is reproducible', file=f)
    for f in ('losses.npy', 'validation.npy', 'final.params', 'validation_params.npy'):
        ctx.check(runs['a']['disk'][-1][f] != runs['other']['disk'][-1][f], 'seeds matter', file=f)
        ctx.check(runs['free']['disk'][-1][f] != runs['a']['disk'][-1][f], 'without seed the run is random', file=f)
    ctx.outcome(len(runs))
    ctx.sample(runs=list(runs))


def shipped(unit, ctx):
    """The configurations in the repository, scaled down."""
    small = ['random_seed=1', 'network.layer_sizes=[4]', 'algebraic_metric.sections.degree=1', 'sampling.sizes.batch_size=3',
             'sampling.sizes.batch_size_params=2', 'sampling.sizes.buffer_size=2', 'evaluation.validation_count=3',
             'evaluation.sample_size=6', 'evaluation.grid_points=2', 'evaluation.batch_size=3', 'training.log_every=2']
    if unit['config'] == 'dwork':
        small.append('variety.dim_variety=2')
    seen = train(['--config-name=' + unit['config']] + small, 4)
    ctx.equal(seen['end'], 'finished', 'runs through')
    m = 1 if unit['config'] == 'dwork' else 2
    for done, files in enumerate(seen['disk'][:5]):
        ctx.state((unit['config'], done))
        if done:
            last = (done - 1) // 2 * 2
            ctx.equal(load(files['losses.npy']).shape, (last + 1,), 'losses')
            ctx.equal(load(files['validation.npy']).shape, (last // 2 + 1, 3), 'validation')
            ctx.check(np.isfinite(load(files['losses.npy'])).all(), 'finite losses')
        ctx.ran(1, 1)
    out = load(seen['disk'][-1]['sigma_final.npz'])
    ctx.equal(out['sigmas'].shape, (2,) * (2 * m), 'accuracies on the grid')
    ctx.check(np.isfinite(out['sigmas']).all() and (out['sigmas'] >= 0).all(), 'accuracies')
    ctx.close(np.abs(out['moduli_grid']), np.full(out['moduli_grid'].shape, 10.), 'corners of the moduli range', rtol=1e-9)
    ctx.outcome(unit['config'])
    ctx.sample(config=unit['config'], losses=load(seen['disk'][-1]['losses.npy']))
