"""C20: sigma accuracy and variance loss recomputed from their definitions on enumerated draws."""
import itertools

import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.spy import recording, scripted, Script

ID = 'C20'
BOUNDS = {
    'quick': '8 hypersurface families in dimension 1-3, degrees 1-2, 4 positive and 2 indefinite matrices, sampler answers: all '
             'sequences of up to 3 points over a 5 point alphabet (patches and eliminated coordinates mixed), real sampler '
             'draws for 3 keys and 3 counts and one of 60 points, positive multiples 1e-10..1e10 of matrix and weights, multiples 1e-7 and 1e3 of the equation, batches of moduli and matrices; loss: all point sequences '
             'of length 3 with all weight sequences over 3 values, one of 200 points, and its gradient',
    'thorough': 'as quick with sequences of up to 4 points and all moduli',
}
FAMILIES = ['fermat1', 'dwork1', 'gen1', 'mix1', 'dwork2', 'gen2', 'quad2', 'dwork3']


def units(tier):
    def scenario(c):
        c.pick('spec', FAMILIES)
        c.pick('part', ['sigma', 'real', 'loss'])
        c.pick('k', [1, 2] if o.SPECS[c.values['spec']].n < 5 else [1])
    return leaves(scenario)


def setting(unit, ctx):
    import jax.numpy as jnp
    from cyjax import donaldson as D
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    sec = D.MonomialBasisFull(spec.n - 1, unit['k'])
    pows = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    pars = spec.par_values if ctx.tier != 'quick' else spec.par_values[:1]
    N = sec.size
    full = o.hermitian(N, 'full')
    sgn = np.ones(N)
    sgn[0] = -0.7
    H = {'id': np.eye(N, dtype=complex), 'diag': o.hermitian(N, 'diag'), 'full': full, 'full2': full @ full,
         'indefinite': np.diag(sgn * (1 + np.arange(N) % 2)) + 0.1 * (full - np.eye(N)), 'neg': full - 1.2 * np.eye(N)}
    return spec, v, sec, pows, pars, H


def points(spec, par, count):
    """Solved points in different patches."""
    poly = spec.poly(par)
    n = spec.n
    hom = o.solve_points(poly, n, [0.7 - 0.4j, -0.3, 1], n - 1, 0, mingrad=0.2)
    rows, pats, deps, zs = o.descriptions(poly, hom, minabs=0.3, mingrad=0.2)
    step = max(1, len(zs) // count)
    idx = np.arange(0, len(zs), step)[:count]
    return poly, zs[idx], pats[idx], deps[idx]


def etas(poly, pows, H, zs, pats, k):
    out = []
    for z, p in zip(zs, pats):
        g = np.abs(poly.fix_one(int(p)).grad(z))
        out.append(o.geometry(poly, pows, H, z[None], int(p), int(g.argmax()), k, curvature=False)['eta'][0])
    return np.array(out)


def wts(poly, zs, pats):
    g = [np.abs(poly.fix_one(int(p)).grad(z)).argmax() for z, p in zip(zs, pats)]
    return o.weights(poly, zs, pats, np.array(g))[0]


def sigma(eta, w):
    vol = w.mean()
    volk = (eta * w).mean()
    return (np.abs(1 - eta * vol / volk) * w).mean() / vol


def run(unit, ctx):
    dict(sigma=sigma_part, real=real, loss=loss)[unit['part']](unit, ctx)


def sigma_part(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    spec, v, sec, pows, pars, Hs = setting(unit, ctx)
    for par in pars:
        P = None if not spec.params else jnp.array(np.array(par, complex))
        poly, zs, pats, _ = points(spec, par, 5)
        w = wts(poly, zs, pats)
        script = Script(zs, pats, w)
        am = D.AlgebraicMetric(scripted(v, script), sec)
        f = jax.jit(am.sigma_accuracy, static_argnums=(3,))
        key = jax.random.PRNGKey(3)
        for name in ('full', 'diag', 'full2'):
            H = Hs[name]
            eta = etas(poly, pows, H, zs, pats, unit['k']).real
            top = 3 if ctx.tier == 'quick' else 4
            for L in range(1, top + 1):
                for seq in itertools.product(range(5), repeat=L):
                    if name != 'full' and len(set(seq)) < L:
                        continue
                    ctx.where = dict(par=par, matrix=name, drawn=seq)
                    ctx.state((unit['spec'], unit['k'], par, name, seq))
                    script.load(seq)
                    got = np.asarray(f(key, P, jnp.array(H), L))
                    i = list(seq)
                    want = sigma(eta[i], w[i])
                    ctx.check(got.shape == () and np.isrealobj(got), 'one real number')
                    ctx.close(got, want, 'accuracy', rtol=1e-7, atol=1e-9)
                    ctx.check(got >= 0, 'non-negative')
                    ctx.outcome(got)
                    ctx.ran(1, 1)
                    if name == 'full' and L == top and len(set(seq)) == L:
                        script.load(seq)
                        ctx.close(f(key, P, jnp.array(H * 37.5), L), want, 'accuracy of a multiple', rtol=1e-7, atol=1e-9)
                        ctx.ran(1, 1)
                        if seq[0] == 0:
                            # only relative weights matter
                            for s in (1e-9, 1e9):
                                script.load(seq)
                                script.w = w * s
                                ctx.close(f(key, P, jnp.array(H / s), L), want, 'accuracy with scaled weights', rtol=1e-7, atol=1e-9)
                                script.w = w
                                ctx.ran(1, 1)
    ctx.sample(family=unit['spec'], drawn=seq, sigma=float(got))


def real(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D
    spec, v, sec, pows, pars, Hs = setting(unit, ctx)
    rec, log = recording(v)
    am, plain = D.AlgebraicMetric(rec, sec), D.AlgebraicMetric(v, sec)
    f, p = [jax.jit(a.sigma_accuracy, static_argnums=(3,)) for a in (am, plain)]
    par = spec.par_values[-1]
    poly = spec.poly(par)
    P = None if not spec.params else jnp.array(np.array(par, complex))
    seen = set()
    for count in (1, 2, 9, 60):
        vals = {}
        for k in range(3 if count < 60 else 1):
            key = jax.random.PRNGKey(k)
            for name in ('id', 'full'):
                H = jnp.array(Hs[name])
                ctx.where = dict(count=count, key=k, matrix=name)
                ctx.state((str(unit), count, k, name))
                log.clear()
                got = np.asarray((am.sigma_accuracy if (k, name, count) == (0, 'full', 2) else f)(key, P, H, count))
                jax.effects_barrier()
                zs = np.concatenate([x['zs'] for x in log])
                pt = np.concatenate([x['patch'] for x in log]) if all('patch' in x for x in log) else None
                if pt is None:
                    pt = np.abs(zs).argmax(-1)
                    zs = o.to_affine(zs, pt)
                ctx.equal(len(zs), count, 'as many points as asked for')
                e = etas(poly, pows, np.asarray(H), zs, pt, unit['k']).real
                w = wts(poly, zs, pt)
                ctx.close(got, sigma(e, w), 'accuracy on the drawn points', rtol=1e-6, atol=1e-8)
                again = np.asarray(p(key, P, H, count))
                ctx.close(again, got, 'depends on nothing else', rtol=1e-12)
                for s in (1e-10, 1e3, 1e10):
                    ctx.close(p(key, P, H * s, count), got, 'accuracy of a multiple', rtol=1e-7, atol=1e-9)
                ctx.ran(5, 5)
                vals[k, name] = float(got)
                ctx.outcome(got)
        if count == 9:
            ctx.check(len({round(x, 9) for x in vals.values()}) == 6, 'keys and matrices matter', values=vals)
    # batches of moduli and matrices
    key = jax.random.PRNGKey(1)
    HH = jnp.stack([jnp.array(Hs[n]) for n in ('id', 'full', 'full2')])
    single = np.array([p(key, P, h, 4) for h in HH])
    ctx.where = dict(batch='matrices')
    ctx.close(plain.sigma_accuracy(key, P, HH, 4), single, 'batch of matrices', rtol=1e-9)
    ctx.ran(2, 4)
    if spec.params:
        PP = jnp.array(np.array([spec.par_values[0], spec.par_values[-1], spec.par_values[0]], complex))
        both = np.array([p(key, q, h, 4) for q, h in zip(PP, HH)])
        only = np.array([p(key, q, HH[1], 4) for q in PP])
        cross = np.array([[p(key, q, h, 4) for q, h in zip(PP, hh)] for hh in (HH, HH[::-1])])
        ctx.close(plain.sigma_accuracy(key, PP, HH, 4), both, 'batch of moduli and matrices', rtol=1e-9)
        ctx.close(plain.sigma_accuracy(key, PP, HH[1], 4), only, 'batch of moduli', rtol=1e-9)
        ctx.close(plain.sigma_accuracy(key, PP, jnp.stack([HH, HH[::-1]]), 4), cross, 'two axes of matrices', rtol=1e-9)
        ctx.close(jax.jit(lambda p, h: plain.sigma_accuracy(key, p, h, 4))(PP, HH), both, 'compiled batch', rtol=1e-9)
        ctx.ran(4, 15)
    ctx.sample(family=unit['spec'], values=vals)


def loss(unit, ctx):
    import jax
    import jax.numpy as jnp
    from cyjax import donaldson as D, ml
    spec, v, sec, pows, pars, Hs = setting(unit, ctx)
    am = D.AlgebraicMetric(v, sec)
    L, negative = 3, False
    seqs = np.array(list(itertools.product(range(5), repeat=L)))
    ws = np.array(list(itertools.product([0.5, 1., 2.25], repeat=L)))
    I, J = [x.reshape(-1) for x in np.meshgrid(np.arange(len(seqs)), np.arange(len(ws)), indexing='ij')]
    f = lambda h, params, zs, pt, w: ml.variance_eta_loss(h, (params, zs, pt, w), am)
    many = jax.jit(jax.vmap(f, (None, None, 0, 0, 0)))
    grad = jax.jit(jax.vmap(lambda h, t, params, zs, pt, w: jax.jvp(lambda x: f(x, params, zs, pt, w), (h,), (t,))[1],
                            (None, None, None, 0, 0, 0)))
    multiples = {}
    for c in (1e-7, 1e3):
        import cyjax
        amc = D.AlgebraicMetric(cyjax.VarietySingle.from_sympy(f'{c!r}*({spec.text()})', 'z', spec.n, list(spec.params)), sec)
        multiples[c] = jax.jit(jax.vmap(lambda h, params, zs, pt, w, amc=amc: ml.variance_eta_loss(h, (params, zs, pt, w), amc),
                                        (None, None, 0, 0, 0)))
    for par in pars:
        P = None if not spec.params else jnp.array(np.array(par, complex))
        poly, zs, pats, _ = points(spec, par, 5)
        for name, H in Hs.items():
            ctx.where = dict(par=par, matrix=name)
            eta = etas(poly, pows, H, zs, pats, unit['k']).real
            E, W = eta[seqs[I]], ws[J]
            mean = (W * E).mean(-1) / W.mean(-1)
            ok = np.abs(mean) > 0.05 * np.abs(E).max(-1)
            fit = (W * (E / mean[:, None] - 1) ** 2).mean(-1)
            pen = np.log(np.where(E < 0, E, 0) ** 2 + 1).mean(-1)
            want = fit + pen
            ctx.rows((unit['spec'], unit['k'], par, name), seqs[I], W)
            Z, PT = jnp.array(zs[seqs[I]]), jnp.array(pats[seqs[I]])
            got = np.asarray(many(jnp.array(H), P, Z, PT, jnp.array(W)))
            ctx.check(np.isrealobj(got), 'real')
            ctx.close(got[ok], want[ok], 'loss', rtol=1e-6, atol=1e-9)
            ctx.check(((got - fit)[ok & (E >= 0).all(-1)] <= 1e-9 * (1 + np.abs(fit[ok & (E >= 0).all(-1)]))).all(),
                      'no penalty without negative ratio')
            ctx.outcomes_rows(got)
            ctx.ran(1, len(got))
            negative |= bool((E[ok] < 0).any())
            for s in (1e-9, 1e9):
                got = np.asarray(many(jnp.array(H * s), P, Z, PT, jnp.array(W * s)))
                ctx.close(got[ok], (s * fit + pen)[ok], 'loss for multiples of matrix and weights', rtol=1e-6, atol=1e-9 * s)
                ctx.ran(1, len(got))
            for c, fc in multiples.items() if name in ('full', 'indefinite') else ():
                got = np.asarray(fc(jnp.array(H), P, Z, PT, jnp.array(W)))
                penc = np.log1p((c ** 2 * np.where(E < 0, E, 0)) ** 2).mean(-1)
                ctx.close(got[ok], (fit + penc)[ok], f'loss for the equation times {c}', rtol=1e-6, atol=1e-9)
                ctx.ran(1, len(got))
            one = ml.variance_eta_loss(jnp.array(H), (P, Z[7], PT[7], jnp.array(W[7])), am)
            if ok[7]:
                ctx.close(one, want[7], 'loss, plain call', rtol=1e-6, atol=1e-9)
            # a long sample: the points in turn with slowly varying weights
            i = np.arange(200) * 3 % 5
            wl = 1 + 0.8 * np.sin(0.37 * np.arange(200))
            el = eta[i]
            ml_ = (wl * el).mean() / wl.mean()
            if abs(ml_) > 0.05 * np.abs(el).max():
                wantl = (wl * (el / ml_ - 1) ** 2).mean() + np.log(np.where(el < 0, el, 0) ** 2 + 1).mean()
                ctx.close(many(jnp.array(H), P, jnp.array(zs[i])[None], jnp.array(pats[i])[None], jnp.array(wl)[None])[0],
                          wantl, 'loss of 200 points', rtol=1e-6, atol=1e-9)
                ctx.state((unit['spec'], unit['k'], par, name, 'long'))
                ctx.ran(1, 1)
            # directional derivative with the mean held fixed
            if name in ('full', 'indefinite'):
                T = o.hermitian(sec.size, 'full').T - 0.5 * np.eye(sec.size)
                eps = 1e-5
                ep = etas(poly, pows, H + eps * T, zs, pats, unit['k']).real
                em = etas(poly, pows, H - eps * T, zs, pats, unit['k']).real
                dE = ((ep - em) / (2 * eps))[seqs[I]]
                dl = (W * 2 * (E / mean[:, None] - 1) * dE / mean[:, None]).mean(-1)
                neg = np.where(E < 0, E, 0)
                dl = dl + (2 * neg / (neg ** 2 + 1) * dE).mean(-1)
                g = np.asarray(grad(jnp.array(H), jnp.array(T), P, Z, PT, jnp.array(W)))
                sc = max(1., np.abs(dl[ok]).max())
                ctx.close(g[ok], dl[ok], 'gradient with the mean ratio held fixed', rtol=1e-4, atol=1e-5 * sc)
                ctx.ran(1, len(g))
    ctx.check(negative, 'negative ratios occur')
    ctx.sample(family=unit['spec'], matrix=name, loss=float(got[0]))
