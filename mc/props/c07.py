"""C07: univariate coefficients for every variable entry."""
import numpy as np

from mc import polycases as pc
from mc.props.c18 import tour
from mc.props.c06 import reported, environment, evaluate

ID = 'C07'
BOUNDS = {
    'quick': f'{len(pc.CASES)} expressions, their squares, shifts and derivatives, and the homogeneous, Dwork and '
             'Fermat families: every variable entry x 3 ways to name it; coefficient expansions compared '
             'term by term, values at 3 points, compiled coefficient evaluation; polynomials of one expression with different inputs in turn',
    'thorough': 'as quick plus cubes of all expressions',
}


def units(tier):
    out = [dict(case=c) for c in pc.CASES] + [dict(family=f, n=n) for f in ('dwork', 'fermat', 'hom')
                                              for n in (2, 3, 4, 5)] + [dict(twins=t) for t in pc.TWINS]
    if tier == 'thorough':
        out += [dict(case=c, cube=True) for c in pc.CASES]
    return out


def run(unit, ctx):
    from cyjax.polynomial import HomPoly, DworkPoly, FermatPoly
    if 'twins' in unit:
        cases = pc.TWINS[unit['twins']]
        polys = [c.build('text') for c in cases]
        for t, i in enumerate(tour(len(cases), 2)):
            names, ind, par = reported(polys[i])
            for v, j in zip(names, ind):
                for sym in ([v] if j is None else [f'{v}{m}' for m in j]):
                    one(ctx, cases[i], f'step {t}', polys[i], cases[i].expansion(), sym, names, ind, par)
        return ctx.sample(text=cases[0].text, inputs=[c.names() for c in cases])
    if 'case' in unit:
        case = pc.CASES[unit['case']]
        base, ex = case.build('text'), case.expansion()
        if unit.get('cube'):
            polys = [('cube', base * base * base, ex * ex * ex)]
        else:
            polys = [('itself', base, ex), ('square', base * base, ex * ex), ('shift', base + 2j, ex + 2j),
                     ('parameter', base * _sym('kappa') + base, ex * pc.S.sym('kappa') + ex)]
            for n, i in case.entries():
                polys.append((f'd{case.symbol(n, i)}', base.diff(case.symbol(n, i)), ex.diff(case.symbol(n, i))))
    else:
        n = unit['n']
        z = [f'z{i}' for i in range(n)]
        if unit['family'] == 'dwork':
            text = ' + '.join(f'{v}**{n}' for v in z) + ' - 5*psi*' + '*'.join(z)
            case = pc.Case('d', text, [('z', list(range(n)))], ['psi'])
            base = DworkPoly(n)
        elif unit['family'] == 'fermat':
            case = pc.Case('f', ' + '.join(f'{v}**{n}' for v in z), [('z', list(range(n)))], [])
            base = FermatPoly(n)
        else:
            text = ' + '.join(f'({k + 1} - {k}*I)*{v}**{k + 1}*z0**{n - k - 1}*a' for k, v in enumerate(z)) \
                + f' + b*a*z{n - 1}**{n}'
            case = pc.Case('h', text, [('z', list(range(n)))], ['b', 'a'])
            base = HomPoly.from_sympy(text, ['z'], ['b', 'a'], [n])
        polys = [('itself', base, case.expansion())]
        if n < 5:
            polys.append(('affine 0', base.affine_poly(0) if unit['family'] == 'hom' else None, None))
    for what, p, ex in polys:
        if p is None:
            continue
        if what == 'affine 0':
            ex = {}
            for k, c in case.expansion().t.items():
                k2 = tuple(x for x in k if x[0] != 'z0')
                ex[k2] = ex.get(k2, 0) + c
            ex = pc.S(ex)
        names, ind, par = reported(p)
        for v, i in zip(names, ind):
            for sym in ([v] if i is None else [f'{v}{j}' for j in i]):
                one(ctx, case, what, p, ex, sym, names, ind, par)
    ctx.sample(text=case.text)


def _sym(s):
    import sympy
    return sympy.Symbol(s)


def one(ctx, case, what, p, ex, sym, names, ind, par):
    import sympy
    import jax.numpy as jnp
    from cyjax import Poly
    from cyjax.polynomial import univariate_coefficients
    # reference coefficients
    want = {}
    for k, c in ex.t.items():
        d = dict(k)
        e = d.pop(sym, 0)
        want.setdefault(e, {})[tuple(sorted(d.items()))] = c
    # coefficients of very different size: errors are judged by the size of the polynomial's own
    scale = max([abs(c) for c in ex.t.values()], default=1.)
    deg = max(want, default=0)
    want = [pc.S(want.get(e, {})) for e in range(deg, -1, -1)]
    rest = []
    for v, i in zip(names, ind):
        if i is None:
            if v != sym:
                rest.append((v, None))
        else:
            j = [m for m in i if f'{v}{m}' != sym]
            if j:
                rest.append((v, j))
    for form, arg in (('text', sym), ('symbol', sympy.Symbol(sym)), ('array', np.array(sympy.Symbol(sym)))):
        ctx.where = dict(poly=what, entry=sym, form=form)
        before = (repr(p), reported(p))
        co = univariate_coefficients(p, arg)
        ctx.check(len(co) == deg + 1, 'number of coefficients', got=len(co), want=deg + 1)
        ctx.state((case.name, case.text, what, sym, form))
        for e, (c, w) in enumerate(zip(co, want)):
            ctx.where['power'] = deg - e
            if isinstance(c, Poly):
                cn, ci, cpar = reported(c)
                ctx.check(list(zip(cn, ci)) == rest, 'remaining variables in order', got=str((cn, ci)), want=rest)
                ctx.check(cpar == par, 'unchanged parameters', got=cpar)
            else:
                ctx.check(np.ndim(c) == 0, 'number')
                ctx.check(all(k == () for k in w.t), 'constant coefficient', want=str(w.t))
            for k in range(3):
                env = dict(environment(case, k), kappa=0.3 - 0.4j)
                val = evaluate(c, env) if isinstance(c, Poly) else complex(np.asarray(c))
                ctx.close(val, complex(w.value(env)), 'coefficient', rtol=1e-10, atol=1e-12 * scale)
                ctx.ran(1, 1)
                ctx.outcome(val)
        if form == 'text' and what == 'itself':
            envs = [dict(environment(case, k)) for k in range(3)]
            for c, w in zip(co, want):
                if isinstance(c, Poly) and rest:
                    args = [jnp.array([[e[f'{v}{j}'] for j in i] if i is not None else e[v] for e in envs])
                            for v, i in rest]
                    par_ = jnp.array([[e[q] for q in par] for e in envs]) if par else None
                    ctx.close(c.transform_eval()(*args, params=par_), [complex(w.value(e)) for e in envs],
                              'compiled coefficient', rtol=1e-10, atol=1e-12 * scale)
                    ctx.ran(1, 3)
        # reconstruction
        for k in range(2):
            env = dict(environment(case, k), kappa=0.3 - 0.4j)
            tot = sum((evaluate(c, env) if isinstance(c, Poly) else complex(np.asarray(c)))
                      * env[sym] ** (deg - e) for e, c in enumerate(co))
            ctx.close(tot, evaluate(p, env), 'power sum', rtol=1e-9, atol=1e-11 * scale)
            ctx.ran(1, 1)
        ctx.check((repr(p), reported(p)) == before, 'polynomial unchanged')
