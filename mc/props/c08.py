"""C08: histories of affine restrictions on one homogeneous polynomial object, and compiled patch dispatch."""
import itertools

import numpy as np

from mc import oracle as o
from mc import polycases as pc
from mc.core import leaves
from mc.props.c18 import tour

ID = 'C08'
TECHNIQUE = 'exhaustive event histories on one live object, plus complete patch/coordinate products, ' \
            'against direct evaluation at the homogeneous point'
BOUNDS = {
    'quick': '17 homogeneous polynomials (shifted, gapped and unsorted labels, one to three vector variables, 0-2 '
             'parameters, Dwork and Fermat n=2..7 with all factor forms): every history of length 3 over calls in '
             'each patch (three patch spellings), affine polynomials, homogeneous calls and symbolic calls; compiled '
             'evaluation for all patches x complete value products, batch layouts of coordinates/patch/parameters; polynomials of one expression with different inputs in turn',
    'thorough': 'as quick with histories of length 4 for up to three patches and larger value products',
}
_r = lambda n: list(range(n))
# text, variables (lists of index lists), params, construction
CASES = {
    'q3': ('z0**2 + 2*z1*z2 - I*z1**2', [('z', _r(3))], []),
    'dwork3e': ('z0**3 + 2*z1**3 - z2**3 - 5*psi*z0*z1*z2', [('z', _r(3))], ['psi']),
    'gen4': ('z0**4 - 3*z1**4*a + b*z0*z1*z2*z3 + (1+I)*z3**3*z2 + b**2*z2**4', [('z', _r(4))], ['b', 'a']),
    'lin2': ('2*z0 - 3*z1', [('z', _r(2))], []),
    'power': ('3*z1**2', [('z', _r(3))], []),
    'shift': ('z1**2*z3 + 4*z2**3 - psi*z1*z2*z3', [('z', [1, 2, 3])], ['psi']),
    'gap': ('z1**2 + 3*z4*z7 - 2*z7**2', [('z', [1, 4, 7])], []),
    'unsorted': ('z0**2*z2 - 2*z1**3 + 5*z0*z1*z2', [('z', [2, 0, 1])], []),
    'high': ('y10*y2 - 3*y9**2', [('y', [2, 9, 10])], []),
    'bi': ('x0**2*y1 + 2*a*x1*x0*y0 - x1**2*y1', [('x', _r(2)), ('y', _r(2))], ['a']),
    'bi23': ('x0*y1**2 - 2*x1*y0*y2 + I*x1*y2**2', [('x', _r(2)), ('y', _r(3))], []),
    'bi32': ('x0*y1*3 - 2*x1*y0 + x2*y1 - x2*y0*c', [('x', _r(3)), ('y', _r(2))], ['c']),
    'bishift': ('x1*y0**2 + 7*x2*y3**2', [('x', [1, 2]), ('y', [0, 3])], []),
    'tri': ('u0*x1*y0 - 2*u1*x0*y1 + 3*u1*x1*y0', [('u', _r(2)), ('x', _r(2)), ('y', _r(2))], []),
}
FAMILY = [('fermat', n, None) for n in (2, 3, 4, 5, 6, 7)] + \
    [('dwork', n, f) for n in (2, 3, 4, 5) for f in (True, False, '2-1j', -3)] + \
    [('dwork', n, f) for n in (6, 7) for f in (True, False)]


def units(tier):
    def scenario(c):
        part = c.pick('part', ['history', 'compiled', 'family', 'twins'])
        if part == 'history':
            c.pick('case', list(CASES) + ['dwork:3', 'fermat:3'])
            c.pick('first', ['hom', 'sym', 'affine', 'int', 'tuple', 'jnp'])
        elif part == 'compiled':
            c.pick('case', CASES)
        elif part == 'twins':
            c.pick('case', pc.HOM_TWINS)
        else:
            c.pick('family', [list(f) for f in FAMILY])
    return leaves(scenario)


def factor_of(f):
    return -5 if f is True else 1 if f is False else complex(f) if isinstance(f, str) else f


def family_case(fam, n, fac):
    z = [f'z{i}' for i in range(n)]
    text = ' + '.join(f'{v}**{n}' for v in z)
    if fam == 'fermat':
        return pc.Case('f', text, [('z', _r(n))], [])
    fc = complex(factor_of(fac))
    return pc.Case('d', text + f' + ({fc.real} + ({fc.imag})*I)*psi*' + '*'.join(z), [('z', _r(n))], ['psi'])


def make(unit_case):
    from cyjax.polynomial import HomPoly, DworkPoly, FermatPoly
    if ':' in unit_case:
        k, n = unit_case.split(':')
        n = int(n)
        return (DworkPoly(n), family_case('dwork', n, True)) if k == 'dwork' else \
            (FermatPoly(n), family_case('fermat', n, None))
    text, v, par = CASES[unit_case]
    return (HomPoly.from_sympy(text, [n for n, _ in v], par, variable_indices=[i for _, i in v]),
            pc.Case(unit_case, text, v, par))


def patches_of(case):
    return list(itertools.product(*[range(len(i)) for _, i in case.variables]))


def insert(case, patch, aff, par):
    """Full input row of the homogeneous point with ones inserted."""
    out = [np.insert(a, p, 1, axis=-1) for a, p in zip(aff, patch)]
    return np.concatenate(out + [par], -1)


def run(unit, ctx):
    {'history': history, 'compiled': compiled, 'family': family, 'twins': twins}[unit['part']](unit, ctx)


def _data(case, k):
    aff = [np.array([np.round((0.5 + 0.3 * m) * np.exp(1j * (1 + m + 2 * j + k)), 6) for m in range(len(i) - 1)])
           for j, (_, i) in enumerate(case.variables)]
    par = np.array([0.3 + 0.2j * m - 0.5 * k for m in range(len(case.params))], complex)
    return aff, par


def history(unit, ctx):
    import sympy
    import jax.numpy as jnp
    _, case = make(unit['case'])
    pts = patches_of(case)
    single = len(case.variables) == 1
    kinds = [('hom',), ('sym',)] + [('affine', p) for p in pts] + [('tuple', p) for p in pts] + \
        ([('int', p) for p in pts] + [('jnp', p) for p in pts] if single else [])
    if not single and unit['first'] in ('int', 'jnp'):
        ctx.state(('none', str(unit)))
        ctx.sample(note='single patch spelling needs a single variable')
        return
    depth = 3 if (ctx.tier == 'quick' or len(pts) > 3) else 4
    if len(pts) > 4 or len(kinds) > 14:
        # the spelling of the patch is only varied at the first event
        rest = [e for e in kinds if e[0] in ('hom', 'affine', 'tuple')]
    else:
        rest = kinds
    seen = set()
    for h in itertools.product([e for e in kinds if e[0] == unit['first']], *[rest] * (depth - 1)):
        p, _ = make(unit['case'])
        for t, ev in enumerate(h):
            ctx.where = dict(history=h[:t + 1])
            aff, par = _data(case, t)
            npar = par if len(par) else None
            if ev[0] == 'hom':
                row = insert(case, pts[t % len(pts)], aff, par) * 1.0
                a, b = case.split(row)
                got = p(*a, params=npar)
                want = case.value(row)
            elif ev[0] == 'sym':
                got = p(*p.all_symbols(), patch=None)
                row = insert(case, pts[-1], aff, par)
                got = complex(sympy.sympify(got).subs({sympy.Symbol(n): complex(x) for n, x in zip(case.names(), row)}))
                want = case.value(row)
            else:
                pt = ev[1]
                want = case.value(insert(case, pt, aff, par))
                if ev[0] == 'affine':
                    q = p.affine_poly(pt)
                    got = q(*aff, params=npar)
                    names = [(n, [j for k, j in enumerate(i) if k != m]) for (n, i), m in zip(case.variables, pt)]
                    ctx.check([(n, list(i)) for n, i in zip(q.variable_names, q.variable_indices)] == names,
                              'inputs of affine polynomial', got=str(q.variable_indices))
                    ctx.check([str(s) for s in q.parameters] == case.params, 'parameters of affine polynomial')
                elif ev[0] == 'tuple':
                    got = p(*aff, params=npar, patch=pt)
                elif ev[0] == 'int':
                    got = p(*aff, params=npar, patch=int(pt[0]))
                else:
                    got = p(*aff, params=npar, patch=jnp.array(pt[0]))
            key = h[:t + 1]
            if key not in seen:
                seen.add(key)
                ctx.state((unit['case'], key))
            ctx.close(complex(np.asarray(got)), want, 'value', rtol=1e-11, atol=1e-11)
            ctx.ran(1, 1)
    ctx.outcome(want)
    ctx.sample(polynomial=case.text, histories=len(kinds), example=h)


VALS = [1 - 2j, 0, 0.5j, -1, 2]


def compiled(unit, ctx):
    import jax
    import jax.numpy as jnp
    p, case = make(unit['case'])
    pts = patches_of(case)
    fn = p.transform_eval()
    nv = [len(i) - 1 for _, i in case.variables]
    k = sum(nv) + len(case.params)
    m = max(2, max([j for j in range(2, 6) if j ** k <= (300 if ctx.tier == 'quick' else 3000)], default=2))
    rows = o.grid(VALS[:m], k)
    aff, c = [], 0
    for n in nv:
        aff.append(rows[:, c:c + n])
        c += n
    par = rows[:, c:]
    npar = bool(len(case.params))
    tol = dict(rtol=1e-11, atol=1e-11)
    # ---- every row in every patch, patch batched along
    A = [np.concatenate([a] * len(pts)) for a in aff]
    PP = np.concatenate([par] * len(pts))
    PT = np.repeat(np.array(pts), len(rows), 0)
    want = np.concatenate([case.value(insert(case, pt, aff, par)) for pt in pts])
    ctx.rows((unit['case'], 'compiled'), PT, *A, PP)
    ctx.outcomes_rows(want)

    def patch_arg(arr):
        arr = jnp.asarray(arr)
        return arr[..., 0] if len(nv) == 1 else tuple(arr[..., j] for j in range(len(nv)))

    J = lambda x: [jnp.array(a) for a in x]
    ctx.where = dict(form='patch per row')
    ctx.close(fn(*J(A), params=jnp.array(PP) if npar else None, patch=patch_arg(PT)), want, 'patch per row', **tol)
    names = [n for n, _ in case.variables]
    ctx.close(fn(**dict(zip(names, J(A))), params=jnp.array(PP) if npar else None, patch=patch_arg(PT)), want,
              'patch per row, keywords', **tol)
    ctx.ran(2, 2 * len(PT))
    # reversed row order: patches interleave differently
    ctx.close(fn(*[a[::-1] for a in J(A)], params=jnp.array(PP[::-1]) if npar else None,
                 patch=patch_arg(PT[::-1])), want[::-1], 'patch per row, reversed', **tol)
    for pt in pts:
        w = case.value(insert(case, pt, aff, par))
        ctx.where = dict(form='one patch', patch=pt)
        one = patch_arg(np.array(pt))
        ctx.close(fn(*J(aff), params=jnp.array(par) if npar else None, patch=one), w, 'one patch for all rows', **tol)
        ctx.close(fn(*[a[-1] for a in J(aff)], params=jnp.array(par[-1]) if npar else None, patch=one), w[-1],
                  'single point', **tol)
        if len(nv) == 1:
            ctx.close(p.transform_eval(patch=pt[0])(*J(aff), params=jnp.array(par) if npar else None), w,
                      'patch fixed in advance', **tol)
        ap = p.affine_poly(pt).transform_eval()
        ctx.close(ap(*J(aff), params=jnp.array(par) if npar else None), w, 'compiled affine polynomial', **tol)
        if npar:
            w = case.value(insert(case, pt, aff, np.broadcast_to(par[0], par.shape)))
            ctx.close(fn(*J(aff), params=jnp.array(par[0]), patch=one), w, 'shared parameters', **tol)
            w = case.value(insert(case, pt, [np.broadcast_to(a[-1], a.shape) for a in aff], par))
            ctx.close(fn(*[a[-1] for a in J(aff)], params=jnp.array(par), patch=one), w, 'shared coordinates', **tol)
        ctx.ran(5, 4 * len(rows) + 1)
        ctx.state((unit['case'], pt))
    # one point, all patches
    w = np.array([case.value(insert(case, pt, [a[-1] for a in aff], par[-1])) for pt in pts])
    ctx.where = dict(form='all patches of one row of values')
    ctx.close(fn(*[a[-1] for a in J(aff)], params=jnp.array(par[-1]) if npar else None,
                 patch=patch_arg(np.array(pts))), w, 'patch batch only', **tol)
    # two leading axes
    h = len(PT) // 2
    cut = lambda x: jnp.array(x[:2 * h]).reshape(2, h, *x.shape[1:])
    ctx.close(fn(*[cut(a) for a in A], params=cut(PP) if npar else None, patch=patch_arg(cut(PT))),
              want[:2 * h].reshape(2, h), 'two leading axes', **tol)
    # homogeneous input
    full = np.concatenate([insert(case, pt, aff, par)[:50] for pt in pts])
    full[:, :full.shape[1] - par.shape[1]] *= 1 + 0.5j
    a, b = case.split(full)
    ctx.where = dict(form='homogeneous')
    ctx.close(fn(*J(a), params=jnp.array(b) if npar else None), case.value(full), 'homogeneous input', **tol)
    ctx.close(fn(*J(a), params=jnp.array(b) if npar else None, patch=None), case.value(full),
              'homogeneous input, no patch', **tol)
    ctx.ran(4, 3 * len(full) + len(pts))
    # derivative of the compiled function
    g = jax.vmap(jax.grad(lambda x, rest, q, pt: fn(x, *rest, params=q, patch=pt), holomorphic=True))
    pt = pts[-1]
    got = g(jnp.array(aff[0]), J(aff[1:]), jnp.array(par) if npar else None,
            jax.tree_util.tree_map(lambda t: jnp.full(len(rows), t), patch_arg(np.array(pt))))
    ex = case.expansion()
    n0, i0 = case.variables[0]
    keep = [j for q, j in enumerate(i0) if q != pt[0]]
    fr = insert(case, pt, aff, par)
    env = {s: fr[:, q] for q, s in enumerate(case.names())}
    w = np.stack([np.broadcast_to(ex.diff(f'{n0}{j}').value(env), len(rows)) for j in keep], -1)
    ctx.close(got, w, 'gradient in patch', **tol)
    ctx.sample(polynomial=case.text, patches=pts, rows=len(PT))


def twins(unit, ctx):
    """Homogeneous polynomials of the same expression with different inputs, used in turn."""
    import jax.numpy as jnp
    from cyjax.polynomial import HomPoly
    cases = pc.HOM_TWINS[unit['case']]
    build = lambda c: HomPoly.from_sympy(c.text, [n for n, _ in c.variables], c.params,
                                         variable_indices=[list(i) for _, i in c.variables])
    polys = [build(c) for c in cases]
    fns = [p.transform_eval() for p in polys]
    order = tour(len(cases), 2)
    for t, i in enumerate(order):
        case = cases[i]
        for pt in patches_of(case):
            aff, par = _data(case, t)
            want = case.value(insert(case, pt, aff, par))
            ctx.where = dict(inputs=case.names(), patch=pt, before=cases[order[t - 1]].names() if t else None)
            ctx.state((str(unit), i, order[t - 1], pt))
            for what, p in (('value', polys[i]), ('value of a new polynomial', build(case))):
                ctx.close(complex(np.asarray(p(*aff, params=par, patch=pt))), want, what, rtol=1e-11, atol=1e-11)
                ctx.close(complex(np.asarray(p.affine_poly(pt)(*aff, params=par))), want, what, rtol=1e-11, atol=1e-11)
            one = jnp.array(pt[0]) if len(pt) == 1 else tuple(jnp.array(q) for q in pt)
            got = fns[i](*[jnp.array(a) for a in aff], params=jnp.array(par), patch=one)
            ctx.close(got, want, 'compiled value', rtol=1e-11, atol=1e-11)
            ctx.outcome(want)
            ctx.ran(5, 5)
    ctx.sample(expression=cases[0].text, inputs=[c.names() for c in cases])


def family(unit, ctx):
    """Dwork and Fermat polynomials equal the explicitly written ones."""
    import sympy
    import jax.numpy as jnp
    from cyjax.polynomial import HomPoly, DworkPoly, FermatPoly
    fam, n, fac = unit['family']
    case = family_case(fam, n, fac)
    p = FermatPoly(n) if fam == 'fermat' else DworkPoly(n, complex(fac) if isinstance(fac, str) else fac)
    if fac is True:
        p = DworkPoly(n)
    npar = len(case.params)
    q = HomPoly.from_sympy(case.text, ['z'], case.params, [n])
    ctx.check(list(p.variable_names) == ['z'] and [list(i) for i in p.variable_indices] == [_r(n)]
              and [str(s) for s in p.parameters] == case.params, 'inputs')
    ctx.check(p.degree == n, 'degree')
    m = max(2, max([j for j in range(2, 6) if j ** (n + npar) <= (400 if ctx.tier == 'quick' else 4000)]))
    rows = o.grid(VALS[:m], n + npar)
    ctx.rows(str(unit), rows)
    want = case.value(rows)
    ctx.outcomes_rows(want)
    tol = dict(rtol=1e-11, atol=1e-11)
    P = jnp.array(rows[:, n:]) if npar else None
    for name, f in (('family', p), ('explicit', q), ('reconstructed', HomPoly(p.sympy_poly, p.variable_names,
                                                                              p.parameters, p.variable_indices))):
        ctx.where = dict(object=name)
        fn = f.transform_eval()
        ctx.close(fn(jnp.array(rows[:, :n]), params=P), want, 'homogeneous', **tol)
        aff = rows[:, 1:n]
        for pt in range(n):
            ctx.where = dict(object=name, patch=pt)
            w = case.value(np.concatenate([np.insert(aff, pt, 1, axis=1), rows[:, n:]], 1))
            ctx.close(fn(jnp.array(aff), params=P, patch=jnp.full(len(aff), pt)), w, 'affine', **tol)
            ctx.close(fn(jnp.array(aff), params=P, patch=pt), w, 'affine', **tol)
            r = rows[-1]
            ctx.close(complex(np.asarray(f(jnp.array(aff[-1]), params=P[-1] if npar else None, patch=pt))), w[-1],
                      'affine single', **tol)
            ctx.close(complex(np.asarray(f(aff[-1], params=r[n:] if npar else None, patch=(pt,)))), w[-1],
                      'affine single', **tol)
            # symbolically
            syms = [s for k, s in enumerate(sympy.symbols(f'z0:{n}')) if k != pt]
            e = f(np.array(syms), params=np.array(p.parameters) if npar else None, patch=pt)
            got = complex(sympy.sympify(e).subs({**{s: complex(x) for s, x in zip(syms, aff[-1])},
                                                 **{sympy.Symbol(s): complex(x) for s, x in zip(case.params, r[n:])}}))
            ctx.close(got, w[-1], 'affine symbolic', **tol)
            ap = f.affine_poly(pt)
            ctx.close(complex(np.asarray(ap(aff[-1], params=r[n:] if npar else None))), w[-1], 'affine polynomial', **tol)
            ctx.ran(6, 2 * len(rows) + 4)
            ctx.state((str(unit), name, pt))
        ctx.where = dict(object=name)
        e = f(np.array(sympy.symbols(f'z0:{n}')), params=np.array([sympy.Symbol(s) for s in case.params]) if npar else None)
        ctx.check(sympy.expand(sympy.sympify(e) - pc._expr(case)).evalf(8, chop=True).subs({}) == 0
                  or all(abs(complex(c)) < 1e-9 for c in sympy.Poly(
                      sympy.expand(sympy.sympify(e) - pc._expr(case)),
                      *sympy.symbols(f'z0:{n}'), *[sympy.Symbol(s) for s in case.params]).coeffs()), 'symbolic value')
        sq = f * f
        ctx.close(complex(np.asarray(sq(rows[-1, :n], params=rows[-1, n:] if npar else None))), want[-1] ** 2,
                  'square', **tol)
        d = f.diff('z1')
        env = {s: rows[-1, k] for k, s in enumerate(case.names())}
        ctx.close(complex(np.asarray(d(rows[-1, :n], params=rows[-1, n:] if npar else None))),
                  complex(case.expansion().diff('z1').value(env)), 'derivative', **tol)
    ctx.sample(family=unit['family'], text=case.text)
