"""C04: polynomial evaluation for every construction route and call form."""
import itertools

import numpy as np

from mc import polycases as pc
from mc import oracle as o
from mc.core import leaves
from mc.props.c18 import tour

ID = 'C04'
BOUNDS = {
    'quick': f'{len(pc.CASES)} expressions x 7 construction routes x compiled (batched, leading rank 0-2), '
             'positional, keyword, list, numpy, symbolic and mixed calls; complete value products up to 700 rows '
             'per compiled form and 32 rows per single call form; monomial evaluation in all modes; polynomials of one expression with different inputs used in turn (all ordered pairs)',
    'thorough': 'as quick with up to 4000 rows compiled and 200 rows per single call form',
}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['poly', 'mono', 'twins'])
        if part == 'poly':
            c.pick('case', pc.CASES)
            c.pick('route', pc.ROUTES)
        elif part == 'twins':
            c.pick('case', pc.TWINS)
            c.pick('route', ['text', 'expr', 'coeffs'])
        else:
            c.pick('dims', [[1], [2], [3], [2, 2], [2, None], [None, 3], [4]])
            c.pick('log', [True, False])
            c.pick('opt', [True, False])
    return [u for u in leaves(scenario)
            # the expansion of the zero polynomial has no terms to list
            if not (u.get('case') == 'zero' and u.get('route') == 'coeffs')]


TOL = dict(rtol=1e-11, atol=1e-11)


def run(unit, ctx):
    if unit['part'] == 'mono':
        return mono(unit, ctx)
    if unit['part'] == 'twins':
        return twins(unit, ctx)
    import jax
    import jax.numpy as jnp
    import sympy
    case = pc.CASES[unit['case']]
    quick = ctx.tier == 'quick'
    p = case.build(unit['route'])
    names = [n for n, _ in case.variables]
    npar = len(case.params)

    # ---- the inputs are the specified ones, in the specified order
    ctx.where = dict(check='metadata')
    ctx.check(list(p.variable_names) == names, 'variable names', got=list(p.variable_names))
    ctx.check([None if i is None else list(i) for i in p.variable_indices]
              == [i for _, i in case.variables], 'variable indices', got=str(p.variable_indices))
    ctx.check([str(s) for s in p.parameters] == case.params, 'parameters', got=str(p.parameters))
    before = (repr(p), p.sympy_poly)

    # ---- compiled, batched
    rows = pc.rows_for(case, 700 if quick else 4000)
    want = case.value(rows)
    ctx.rows((unit['case'], unit['route']), rows)
    ctx.outcomes_rows(want)
    fn = p.transform_eval()
    v, par = case.split(rows)
    v = [jnp.array(a) for a in v]
    par = jnp.array(par) if npar else None
    ctx.where = dict(form='compiled positional')
    ctx.close(fn(*v, params=par), want, 'compiled value', **TOL)
    if npar:
        ctx.close(fn(*v, par), want, 'compiled value, positional parameters', **TOL)
    ctx.where = dict(form='compiled keyword')
    ctx.close(fn(**dict(zip(names, v)), params=par), want, 'compiled value, keywords', **TOL)
    ctx.ran(3, 3 * len(rows))
    if len(rows) >= 4:
        k = len(rows) // 2
        r2 = rows[:2 * k].reshape(2, k, -1)
        a, b = case.split(r2)
        ctx.where = dict(form='two leading axes')
        ctx.close(fn(*[jnp.array(x) for x in a], params=jnp.array(b) if npar else None),
                  want[:2 * k].reshape(2, k), 'two leading axes', **TOL)
    # parameters shared by all rows
    if npar:
        a, b = case.split(rows)
        fixed = b[len(b) // 2]
        r = np.concatenate([rows[:, :rows.shape[1] - npar], np.broadcast_to(fixed, (len(rows), npar))], 1)
        ctx.where = dict(form='shared parameters')
        ctx.close(fn(*v, params=jnp.array(fixed)), case.value(r), 'shared parameters', **TOL)
        ctx.ran(1, len(rows))
        # fixed at transformation time
        f2 = p.transform_eval(params=jnp.array(fixed))
        ctx.close(f2(*v), case.value(r), 'parameters fixed in advance', **TOL)
    ctx.where = dict(form='compiled single')
    a, b = case.split(rows[-1])
    ctx.close(fn(*[jnp.array(x) for x in a], params=jnp.array(b) if npar else None), want[-1],
              'compiled single value', **TOL)

    # ---- single calls in all forms
    few = pc.rows_for(case, 32 if quick else 200)
    if len(few) > 64:
        few = few[-(64 if quick else 128):]
    w = case.value(few)
    for r, val in zip(few, w):
        a, b = case.split(r)
        arrs = [np.array(x) for x in a]
        for form in ('numpy', 'jax', 'list', 'kw', 'mixkw', 'parpos'):
            ctx.where = dict(form=form, row=r)
            b_ = b if npar else None
            if form == 'numpy':
                keep = [x.copy() for x in arrs]
                bk = np.array(b)
                got = p(*arrs, params=b_)
                ctx.check(all(np.array_equal(x, y) for x, y in zip(arrs, keep))
                          and np.array_equal(b, bk), 'inputs unchanged')
            elif form == 'jax':
                got = p(*[jnp.array(x) for x in arrs], params=None if b_ is None else jnp.array(b_))
            elif form == 'list':
                got = p(*[x.tolist() for x in arrs], params=None if b_ is None else list(b_))
            elif form == 'kw':
                got = p(**dict(zip(names, arrs)), params=b_)
            elif form == 'mixkw':
                got = p(arrs[0], **dict(zip(names[1:], arrs[1:])), params=b_)
            else:
                got = p(*arrs, b_) if npar else p(*arrs)
            ctx.check(np.ndim(got) == 0, 'scalar result', got=np.shape(got))
            ctx.close(complex(np.asarray(got)), val, 'single value', **TOL)
            ctx.ran(1, 1)
    # every split into positional and keyword inputs, keywords in every order
    for r, val in zip(few[-2:], w[-2:]):
        a, b = case.split(r)
        inputs = dict(zip(names, [np.array(x) for x in a]))
        for k in range(len(names) + 1):
            rest = names[k:] + (['params'] if npar else [])
            for order in itertools.permutations(rest):
                kw = {n: b if n == 'params' else inputs[n] for n in order}
                if k == 0 and not kw:
                    continue
                ctx.where = dict(form='keyword order', positional=k, order=order, row=r)
                ctx.state((unit['case'], unit['route'], k, order))
                got = p(*[inputs[n] for n in names[:k]], **kw)
                ctx.close(complex(np.asarray(got)), val, 'single value', **TOL)
                syms = {n: np.array([sympy.Symbol(f'{n}s{i}') for i in range(np.size(x))]).reshape(np.shape(x))
                        for n, x in [*inputs.items(), ('params', b)]}
                e = p(*[syms[n] for n in names[:k]], **{n: syms[n] for n in order})
                env = {q: complex(x) for n in syms for q, x in
                       zip(syms[n].flatten(), np.ravel(b if n == 'params' else inputs[n]))}
                ctx.close(complex(sympy.sympify(e).subs(env)), val, 'symbolic value', **TOL)
                ctx.ran(2, 2)
    ctx.sample(expression=case.text, route=unit['route'], input=few[-1], value=w[-1])

    # ---- symbolic
    syms = p.all_symbols()
    ctx.check([str(s) for s in p.all_symbols(False)] == case.names(), 'symbols in input order',
              got=str(p.all_symbols(False)))
    ctx.check([str(s) for s in p.all_symbols(False, False)] == case.names()[:case.count() - npar],
              'variable symbols in input order')
    exprs = {'same symbols': (p(*syms), None), 'no arguments': (p(), None)}
    fresh = [sympy.Symbol(f'u{k}') for k in range(case.count())]
    sv, sp = case.split(np.array(fresh))
    exprs['fresh symbols'] = (p(*sv, params=sp if npar else None), 'u')
    # the polynomial's own symbols in reversed order
    own = [sympy.Symbol(s) for s in case.names()]
    sv, sp = case.split(np.array(own[::-1]))
    exprs['permuted symbols'] = (p(*sv, params=sp if npar else None), 'rev')
    # cyclic sums of its own symbols
    cyc = [own[k] + 2 * own[(k + 1) % len(own)] for k in range(len(own))]
    sv, sp = case.split(np.array(cyc))
    exprs['combined symbols'] = (p(*sv, params=sp if npar else None), 'cyc')
    # numeric variables with symbolic parameters and the other way round
    for form, (e, kind) in exprs.items():
        for r in few[-4:]:
            ctx.where = dict(form=form, row=r)
            env = {sympy.Symbol(n): complex(x) for n, x in zip(case.names(), r)}
            inp = r
            if kind == 'u':
                env = {sympy.Symbol(f'u{k}'): complex(x) for k, x in enumerate(r)}
            elif kind == 'rev':
                inp = r[::-1]
            elif kind == 'cyc':
                inp = r + 2 * np.roll(r, -1)
            got = complex(sympy.sympify(e).subs(env, simultaneous=True))
            ctx.close(got, case.value(inp), 'symbolic value', **TOL)
            ctx.ran(1, 1)
    if npar:
        r = few[-1]
        a, b = case.split(r)
        sp = np.array([sympy.Symbol(f'u{k}') for k in range(npar)])
        e = p(*[np.array(x) for x in a], params=sp)
        got = complex(sympy.sympify(e).subs({s: complex(x) for s, x in zip(sp, b)}))
        ctx.where = dict(form='symbolic parameters only', row=r)
        ctx.close(got, case.value(r), 'mixed value', **TOL)
        sv, _ = case.split(np.array(fresh))
        e = p(*sv, params=np.array(b))
        got = complex(sympy.sympify(e).subs({s: complex(x) for s, x in zip(fresh, r)}))
        ctx.where = dict(form='symbolic variables only', row=r)
        ctx.close(got, case.value(r), 'mixed value', **TOL)
        ctx.ran(2, 2)

    ctx.where = dict(check='unchanged')
    ctx.check(repr(p) == before[0] and p.sympy_poly == before[1], 'polynomial unchanged by evaluation')
    ctx.check([str(s) for s in p.parameters] == case.params and list(p.variable_names) == names,
              'inputs of polynomial unchanged')


def twins(unit, ctx):
    """Polynomials of the same expression with different inputs, used in turn."""
    import jax.numpy as jnp
    import sympy
    cases = pc.TWINS[unit['case']]
    polys = [c.build(unit['route']) for c in cases]
    fns = [p.transform_eval() for p in polys]
    order = tour(len(cases), 2)
    for t, i in enumerate(order):
        case, p = cases[i], polys[i]
        row = np.array([0.4 + 0.3 * k - 0.7j * ((3 * k + t) % 4) for k in range(case.count())])
        a, b = case.split(row)
        par = b if len(b) else None
        want = case.value(row)
        ctx.where = dict(inputs=case.names(), before=cases[order[t - 1]].names() if t else None)
        ctx.state((str(unit), i, order[t - 1]))
        ctx.close(complex(np.asarray(p(*a, params=par))), want, 'value', **TOL)
        J = [jnp.array(x) for x in a]
        ctx.close(fns[i](*J, params=None if par is None else jnp.array(par)), want, 'compiled value', **TOL)
        ctx.close(p.transform_eval()(*J, params=None if par is None else jnp.array(par)), want, 'compiled anew', **TOL)
        new = case.build(unit['route'])
        ctx.close(complex(np.asarray(new(*a, params=par))), want, 'value of a new polynomial', **TOL)
        own = {sympy.Symbol(n): complex(x) for n, x in zip(case.names(), row)}
        fresh = [sympy.Symbol(f'u{k}') for k in range(case.count())]
        sv, sp = case.split(np.array(fresh))
        e = p(*sv, params=sp if par is not None else None)
        ctx.close(complex(sympy.sympify(e).subs(dict(zip(fresh, map(complex, row))))), want, 'symbolic value', **TOL)
        ctx.close(complex(sympy.sympify(p()).subs(own)), want, 'expression', **TOL)
        ctx.outcome(want)
        ctx.ran(6, 6)
    ctx.sample(expression=cases[0].text, inputs=[c.names() for c in cases])


def mono(unit, ctx):
    """Monomial values for all modes, every value product and a table of powers."""
    import jax.numpy as jnp
    from cyjax.polynomial import compute_monomials
    dims = unit['dims']
    tot = sum(1 if d is None else d for d in dims)
    maxp = 3 if tot <= 3 else 2
    pows = np.array(list(itertools.product(range(maxp + 1), repeat=tot)))
    if len(pows) > 300:
        pows = pows[pows.sum(1) <= 4]
    coeffs = np.array([1.5 - 0.5j * k + 0.25 * k for k in range(len(pows))])
    vals = [0, 1 - 2j, -1, 0.5j, 2][:5 if tot <= 2 else 3]
    rows = o.grid(vals, tot)
    split, k = [], 0
    for d in dims:
        w = 1 if d is None else d
        split.append((k, k + w))
        k += w
    P = [pows[:, a:b] for a, b in split]
    ctx.rows(('mono', str(unit)), rows)
    kw = dict(log=unit['log'], opt=unit['opt'])
    for r in rows:
        v = [jnp.array(r[a]) if d is None else jnp.array(r[a:b]) for d, (a, b) in zip(dims, split)]
        ctx.where = dict(row=r, **kw)
        want = coeffs * o.mono_eval(pows, r)
        got = compute_monomials(v, jnp.array(coeffs), P, **kw)
        ctx.close(got, want, 'monomials', rtol=1e-10, atol=1e-12)
        ctx.ran(1, len(pows))
    # skipped variable
    got = compute_monomials(v + [None], jnp.array(coeffs), P + [None], **kw)
    ctx.close(got, want, 'monomials with absent variable', rtol=1e-10, atol=1e-12)
    got = compute_monomials([jnp.array([3. + 1j])] + v, jnp.array(coeffs), [None] + P, **kw)
    ctx.close(got, want, 'monomials with unused variable', rtol=1e-10, atol=1e-12)
    if not unit['log']:
        # real values, negative ones included
        for r in o.grid([-2., 0., 1.5], tot).real[:81]:
            v = [jnp.array(r[a]) if d is None else jnp.array(r[a:b]) for d, (a, b) in zip(dims, split)]
            ctx.where = dict(row=r, real=True, **kw)
            ctx.close(compute_monomials(v, jnp.array(coeffs.real), P, **kw),
                      coeffs.real * o.mono_eval(pows, r).real, 'real monomials', rtol=1e-10, atol=1e-12)
            ctx.ran(1, len(pows))
    import sympy
    sym = [np.array([sympy.Symbol(f's{i}') for i in range(a, b)]) for a, b in split]
    got = compute_monomials(sym, np.array(coeffs), P, symbolic=True)
    r = rows[-1]
    env = {sympy.Symbol(f's{i}'): complex(x) for i, x in enumerate(r)}
    ctx.close(np.array([complex(sympy.sympify(e).subs(env)) for e in got]), coeffs * o.mono_eval(pows, r),
              'symbolic monomials', rtol=1e-10, atol=1e-12)
    ctx.sample(powers=pows[-1], row=rows[-1])
