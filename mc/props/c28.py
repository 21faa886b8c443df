"""C28: self-description of polynomials and varieties against their values."""
import inspect
import re

import numpy as np

from mc import oracle as o
from mc import polycases as pc
from mc.core import leaves

ID = 'C28'
BOUNDS = {
    'quick': f'{len(pc.CASES)} expressions x 7 construction routes, each as built, differentiated by every input, combined '
             'with a symbol, a number and another polynomial; every affine restriction of 12 homogeneous families; '
             'varieties of dimension 1-3 and the Dwork and Fermat classes up to dimension 4',
    'thorough': 'as quick with second derivatives and products of all pairs of expressions',
}
TOL = dict(rtol=1e-9, atol=1e-9)
HOM = ['fermat1', 'fermat2', 'dwork1', 'dwork2', 'gen1', 'gen2', 'quad2', 'quint1', 'cub3', 'mix1', 'mix2', 'dwork3']


def units(tier):
    def scenario(c):
        part = c.pick('part', ['poly', 'affine', 'variety', 'family'])
        if part == 'poly':
            c.pick('case', pc.CASES)
            c.pick('route', pc.ROUTES)
        elif part in ('affine', 'variety'):
            c.pick('spec', HOM)
        else:
            c.pick('dim', [1, 2, 3, 4])
    return [u for u in leaves(scenario)
            if not (u.get('case') == 'zero' and u.get('route') == 'coeffs')]


def _split_list(text):
    """Split at commas which are not inside brackets."""
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
            continue
        depth += ch in '[('
        depth -= ch in '])'
        cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def read(text):
    """Read a printed polynomial: type, variables, parameters, value function."""
    m = re.match(r'^(\w+)\(', text)
    depth, k = 0, m.end() - 1
    for k in range(m.end() - 1, len(text)):
        depth += text[k] in '(['
        depth -= text[k] in ')]'
        if depth == 0:
            break
    inputs, rest = text[m.end():k], text[k + 1:]
    assert re.match(r'^\s*=\s*', rest), text
    body = re.sub(r'^\s*=\s*', '', rest)
    params, variables = [], []
    for item in _split_list(inputs):
        if item.startswith('params='):
            params = _split_list(item[len('params='):].strip('[]'))
        elif item.startswith('['):
            variables.append([e.replace('_', '') for e in _split_list(item[1:-1])])
        else:
            variables.append(item)
    return m.group(1), variables, params, body


def read_formula(tex, names):
    """Python text of the right hand side of a LaTeX formula; None if it uses an unknown construct."""
    body = tex.strip('$').rsplit(' = ', 1)[-1]
    body = body.replace(r'\left', '').replace(r'\right', '').replace(r'\cdot', ' ')
    for _ in range(5):
        body = re.sub(r'\\frac\{([^{}]*)\}\{([^{}]*)\}', r'((\1)/(\2))', body)
        body = re.sub(r'\\sqrt\{([^{}]*)\}', r'(\1)**0.5', body)
    body = re.sub(r'10\^\{(-?\d+)\}', r'1e\1', body)
    known = {}
    for n in names:
        m = re.match(r'^([A-Za-z]+?)_?(\d*|_[a-z]+)$', n)
        known[m.group(1), m.group(2).strip('_')] = n
    token = re.compile(r'\s*(?:(?P<num>\d+(?:\.\d+)?(?:e-?\d+)?)|(?P<sym>\\?[A-Za-z]+)(?:_\{(?P<sub>\w+)\}|_(?P<one>\w))?|'
                       r'\^\{(?P<pow>\d+)\}|\^(?P<pow1>\d)|(?P<exp>\*\*0\.5)|(?P<op>[-+/])|(?P<open>[(\[])|(?P<close>[)\]]))')
    out, k, value = '', 0, False
    while k < len(body.rstrip()):
        m = token.match(body, k)
        if not m:
            return None
        k = m.end()
        g = m.groupdict()
        if g['num'] or g['sym'] or g['open']:
            out += '*' if value else ''
        if g['num']:
            out, value = out + g['num'], True
        elif g['sym']:
            key = (g['sym'].lstrip('\\'), g['sub'] or g['one'] or '')
            if key not in known and key != ('i', ''):
                return None
            out, value = out + known.get(key, '1j'), True
        elif g['open']:
            out, value = out + '(', False
        elif g['close']:
            out, value = out + ')', True
        elif g['op']:
            out, value = out + g['op'], False
        else:
            out += '**' + (g['pow'] or g['pow1']) if not g['exp'] else g['exp']
    return out


def describe(ctx, p, kind, variables, params, value, rows):
    """All self-descriptions of one polynomial.

    variables: [(name, indices or None)]; value: rows -> reference values.
    """
    import sympy
    names = [n for n, _ in variables]
    flat = []
    for n, ind in variables:
        flat += [n] if ind is None else [f'{n}{i}' for i in ind]
    flat_all = flat + list(params)
    text = repr(p)
    ctx.check(str(p) == text, 'same text from str and repr')
    typ, pv, pp, body = read(text)
    ctx.where = dict(ctx.where or {}, text=text)
    ctx.equal(typ, kind, 'printed type')
    ctx.equal(str(pv), str([n if ind is None else [f'{n}{i}' for i in ind] for n, ind in variables]), 'printed variables')
    ctx.equal(str(pp), str(list(params)), 'printed parameters')
    want = value(rows)
    env = {n: rows[:, k] for k, n in enumerate(flat_all)}
    got = eval(body, {'__builtins__': {}}, dict(env, I=1j, sqrt=np.sqrt, pi=np.pi))
    ctx.close(np.broadcast_to(got, len(rows)), want, 'printed expression', **TOL)
    ctx.check(not re.search(r'\d\.0+(?![\d])(?!e)', body), 'integer valued coefficients are shown as integers')
    # expression without arguments
    e = p() if kind == 'Poly' or kind == 'HomPoly' else None
    if e is not None:
        e = sympy.sympify(e)
        ctx.check({str(s) for s in e.free_symbols} <= set(flat_all), 'only listed symbols appear', got=str(e.free_symbols))
        r = rows[-3:]
        ctx.close([complex(e.subs({sympy.Symbol(n): complex(x) for n, x in zip(flat_all, row)})) for row in r],
                  value(r), 'expression', **TOL)
    # symbols, positions, signature
    ctx.equal(str([str(s) for s in p.all_symbols(False)]), str(flat_all), 'flat symbols')
    ctx.equal(str([str(s) for s in p.all_symbols(False, False)]), str(flat), 'flat variable symbols')
    arrs = p.all_symbols()
    ctx.equal(len(arrs), len(names) + 1, 'one array per variable and one for the parameters')
    for a, (n, ind) in zip(arrs, variables):
        ctx.equal(np.shape(a), () if ind is None else (len(ind),), 'shape of symbol array')
        ctx.equal(str([str(s) for s in np.ravel(a)]), str([n] if ind is None else [f'{n}{i}' for i in ind]), 'symbol array')
    ctx.equal(str([str(s) for s in np.ravel(arrs[-1])]), str(list(params)), 'parameter symbols')
    ctx.equal(len(p.all_symbols(True, False)), len(names), 'variable arrays only')
    if hasattr(p, 'parameter_position'):
        ctx.check({str(k): v for k, v in p.parameter_position.items()} == {n: k for k, n in enumerate(params)},
                  'parameter positions')
    if hasattr(p, 'variable_position'):
        ctx.check(dict(p.variable_position) == {n: k for k, n in enumerate(names)}, 'variable positions')
    if hasattr(p, 'variable_index_dict'):
        ctx.check({k: None if d is None else dict(d) for k, d in p.variable_index_dict.items()}
                  == {n: None if ind is None else {i: k for k, i in enumerate(ind)} for n, ind in variables},
                  'positions of variable entries')
    sig = list(inspect.signature(p).parameters)
    ctx.equal(str(sig[:len(names) + 1]), str(names + ['params']), 'call signature')
    ctx.equal('patch' in sig, kind != 'Poly', 'patch argument only for homogeneous polynomials')
    dom = p.domain
    ctx.equal(str([str(s) for s in getattr(dom, 'symbols', ())]), str(list(params)), 'parameters of the coefficient domain')
    # symbolic polynomial
    sp = p.sympy_poly
    r = rows[-2:]
    ctx.close([complex(sp.as_expr().subs({sympy.Symbol(n): complex(x) for n, x in zip(flat_all, row)})) for row in r],
              value(r), 'symbolic polynomial', **TOL)
    tex = p._repr_latex_()
    ctx.check(not re.search(r'\d\.0+(?![\d])(?! *.cdot)', tex), 'integer valued coefficients in the formula', got=tex)
    ctx.check(isinstance(tex, str) and tex.startswith('$') and tex.endswith('$') and kind in tex, 'formula', got=tex)
    head = re.search(r'\((.*)\) = ', tex)
    if head:
        order = [a + (b or c) for a, b, c in re.findall(r'\\?([A-Za-z]+)(?:_\{(\w+)\}|_(\w))?', head.group(1))]
        order = [x for x in order if x not in ('text', 'params', 'left', 'right')]
        ctx.equal(str(order), str([n.replace('_', '') for n in flat_all]), 'inputs listed in the formula')
    read_back = read_formula(tex, flat_all)
    if read_back is not None:
        got = eval(read_back, {'__builtins__': {}}, env)
        ctx.close(np.broadcast_to(got, len(rows)), want, 'formula', **TOL)
    # nothing above changes the polynomial
    ctx.equal(repr(p), text, 'text unchanged')
    ctx.state((kind, text))
    ctx.outcome(text)
    ctx.ran(12, len(rows))
    return text


def run(unit, ctx):
    import jax.numpy as jnp
    import sympy
    import cyjax
    part = unit['part']
    if part == 'poly':
        case = pc.CASES[unit['case']]
        p = case.build(unit['route'])
        rows = pc.rows_for(case, 80 if ctx.tier == 'quick' else 700)[-200:]
        ctx.rows((unit['case'], unit['route']), rows)
        vs, pars = case.variables, case.params
        ex = case.expansion()
        env = lambda r, names: {n: r[:, k] for k, n in enumerate(names)}
        val = lambda s, names: lambda r: np.broadcast_to(np.asarray(s.value(env(r, names)), complex), len(r))
        ctx.where = dict(form='as built')
        text = describe(ctx, p, 'Poly', vs, pars, val(ex, case.names()), rows)
        ctx.sample(case=unit['case'], route=unit['route'], text=text)
        for n in case.names()[:case.count() - len(pars)]:
            ctx.where = dict(form='derivative', by=n)
            describe(ctx, p.diff(sympy.Symbol(n)), 'Poly', vs, pars, val(ex.diff(n), case.names()), rows)
            if ctx.tier != 'quick':
                for m in case.names()[:case.count() - len(pars)]:
                    ctx.where = dict(form='derivative', by=(n, m))
                    describe(ctx, p.diff(sympy.Symbol(n)).diff(sympy.Symbol(m)), 'Poly', vs, pars,
                             val(ex.diff(n).diff(m), case.names()), rows)
        # new parameter, number, scalar variable
        new = pars + ['kappa']
        wide = np.concatenate([rows, np.resize([2., -1j, 0.5 + 1j], len(rows))[:, None]], 1)
        names = case.names() + ['kappa']
        k = pc.S.sym('kappa')
        ctx.where = dict(form='plus new symbol')
        describe(ctx, p + sympy.Symbol('kappa'), 'Poly', vs, new, val(ex + k, names), wide)
        ctx.where = dict(form='times new symbol')
        describe(ctx, p * sympy.Symbol('kappa'), 'Poly', vs, new, val(ex * k, names), wide)
        for c in (2, -0.5, 3.0, 1.5 - 2j):
            ctx.where = dict(form='numbers', number=c)
            describe(ctx, p * c, 'Poly', vs, pars, val(ex * c, case.names()), rows)
            describe(ctx, p - c, 'Poly', vs, pars, val(ex - c, case.names()), rows)
        q = cyjax.Poly.from_sympy('nu*u0 - 2*u3', ['u'])
        names = [n for n in case.names()[:case.count() - len(pars)]] + ['u0', 'u3'] + pars + ['nu']
        s = pc.S.sym('nu') * pc.S.sym('u0') - pc.S.sym('u3') * 2
        col = lambda *v: np.resize(v, len(rows))[:, None]
        nv = case.count() - len(pars)
        wide = np.concatenate([rows[:, :nv], col(1j, 2), col(-1, 0.5j, 3), rows[:, nv:], col(2, 1, -1j, 0)], 1)
        ctx.where = dict(form='times polynomial')
        describe(ctx, p * q, 'Poly', vs + [('u', [0, 3])], pars + ['nu'], val(ex * s, names), wide)
        ctx.where = dict(form='as before')
        ctx.equal(repr(p), text, 'operand unchanged')
        return

    if part in ('affine', 'variety'):
        spec = o.SPECS[unit['spec']]
        n = spec.n
        vals = [0.5 - 1j, -1, 2, 0.3j]
        npar = len(spec.params)
        rows = o.grid(vals[:3 if n + npar <= 4 else 2], n + npar)

        def value(r):
            return np.array([spec.poly(x[n:])(x[None, :n])[0] for x in r])
        v = spec.make()
        p = v.defining_poly
        kind = type(p).__name__
        if part == 'affine':
            for patch in range(n):
                ctx.where = dict(patch=patch)
                if kind == 'HomPoly':
                    a = p.affine_poly(patch)
                    keep = [i for i in range(n) if i != patch]
                    cols = keep + list(range(n, n + npar))
                    fill = lambda r: value(np.insert(r, patch, 1, axis=1))
                    describe(ctx, a, 'Poly', [('z', keep)], list(spec.params), fill, rows[:, cols])
            ctx.where = dict(patch=None)
            text = describe(ctx, p, kind, [('z', list(range(n)))], list(spec.params), value, rows)
            ctx.rows(unit['spec'], rows)
            ctx.sample(spec=unit['spec'], text=text)
            return
        variety(ctx, v, spec.n, list(spec.params), value, rows)
        ctx.sample(spec=unit['spec'], text=repr(v))
        return

    dim = unit['dim']
    n = dim + 2
    rows = o.grid([0.5 - 1j, -1], n + 1)
    fermat = lambda r: (r[:, :n] ** n).sum(1)
    variety(ctx, cyjax.Fermat(dim), n, [], fermat, rows[:2 ** n, -n:])
    for factor in (True, False, 2.5, -1):
        f = {True: -5, False: 1}[factor] if isinstance(factor, bool) else factor
        ctx.where = dict(factor=factor)
        variety(ctx, cyjax.Dwork(dim, factor), n, ['psi'],
                lambda r: fermat(r) + f * r[:, n] * r[:, :n].prod(1), rows)
    ctx.sample(dim=dim, text=repr(cyjax.Dwork(dim)))


def variety(ctx, v, n, params, value, rows):
    import jax.numpy as jnp
    p = v.defining_poly
    where = dict(ctx.where or {})
    ctx.equal(v.dim_complex, n, 'number of homogeneous coordinates')
    ctx.equal(v.dim_projective, n - 1, 'dimension of the projective space')
    ctx.equal(v.dim_variety, n - 2, 'dimension of the variety')
    ctx.equal(v.dim, n - 2, 'dimension')
    ctx.equal(v.num_defining, 1, 'number of equations')
    ctx.equal(v.par_count, len(params), 'number of parameters')
    ctx.equal(str([str(s) for s in v.parameters]), str(params), 'parameters')
    kind = type(p).__name__
    text = describe(ctx, p, kind, [('z', list(range(n)))], params, value, rows)
    vt = repr(v)
    ctx.where = dict(where, variety=vt)
    ctx.check(vt.startswith(type(v).__name__) and vt.endswith(text), 'text names class and equation', got=vt)
    ctx.check(f'dim={n - 2})' in vt and f'CP^{n - 1}' in vt, 'text names dimensions', got=vt)
    tex = v._repr_latex_()
    ctx.check(tex.startswith('$') and tex.endswith('$') and tex.count('$') == 2, 'formula', got=tex)
    read_back = read_formula(tex, [f'z{i}' for i in range(n)] + params)
    if read_back is not None:
        env = dict(zip([f'z{i}' for i in range(n)] + params, rows.T))
        ctx.close(eval(read_back, {'__builtins__': {}}, env), value(rows), 'formula', **TOL)
    par = jnp.array(rows[:, n:]) if params else None
    ctx.close(v.defining(jnp.array(rows[:, :n]), par), value(rows), 'defining equation', **TOL)
    ctx.rows('variety', rows)
    ctx.ran(10, len(rows))
