"""C06: every way of specifying inputs, coefficient conversion, detection across interpreter runs."""
import json
import os
import subprocess
import sys

import numpy as np

from mc import polycases as pc
from mc.core import leaves, REPO, VERIF

ID = 'C06'
BOUNDS = {
    'quick': f'{len(pc.CASES)} expressions x 3 spellings x 12 ways to specify inputs; {{to,from}} coefficients and '
             'powers on all of them and on products/derivatives; 22 contradictory specifications; detection repeated '
             'in 6 interpreters with different hash seeds',
    'thorough': 'as quick with 24 interpreters',
}
SPELL = ['plain', 'underscore', 'mixed']
MODES = ['all', 'names', 'params', 'nothing', 'dims', 'names+indices', 'names+params', 'arrays', 'arrays+params',
         'symparams', 'polygens', 'tuples']


def text_of(case, spell):
    if spell == 'plain':
        return case.text
    t = pc._underscore(case)
    if spell == 'mixed':     # both spellings of the same entries within one expression
        return f'({t} + {case.text})/2'
    return t


def units(tier):
    def scenario(c):
        part = c.pick('part', ['spec', 'coeffs', 'reject', 'hash'])
        if part == 'spec':
            c.pick('case', pc.CASES)
            c.pick('spell', SPELL)
        elif part == 'coeffs':
            c.pick('case', pc.CASES)
        elif part == 'hash':
            c.pick('seed', range(6 if tier == 'quick' else 24))
        else:
            c.pick('k', range(len(REJECT)))
    return leaves(scenario)


def kwargs_for(case, mode):
    """(positional polynomial converter, keyword arguments, expectation) or None if not applicable."""
    import sympy
    names = [n for n, _ in case.variables]
    ind = [i for _, i in case.variables]
    used = {s for k in case.expansion().t for s, _ in k}
    used_ind = [None if i is None else sorted(j for j in i if f'{n}{j}' in used) for n, i in case.variables]
    syntactic = _free(case)
    syn_ind = [None if i is None else sorted(j for j in i if f'{n}{j}' in syntactic) for n, i in case.variables]
    full = syn_ind == ind and all(i is None or len(i) for i in syn_ind) and \
        all(n in syntactic for n, i in case.variables if i is None)
    exp = dict(names=names, indices=ind, params=case.params)
    if case.name == 'textsub' and mode in ('names', 'names+indices', 'arrays', 'polygens'):
        return None     # subscripts which are no integers are only supported for listed parameters
    if mode == 'all':
        return dict(variable_names=names, parameters=case.params, variable_indices=ind), exp
    if mode == 'tuples':
        return dict(variable_names=tuple(names), parameters=tuple(case.params),
                    variable_indices=tuple(None if i is None else tuple(i) for i in ind)), exp
    if mode == 'symparams':
        return dict(variable_names=names, parameters=[sympy.Symbol(p) for p in case.params],
                    variable_indices=ind), exp
    if mode == 'names+indices':
        return dict(variable_names=names, variable_indices=ind), \
            dict(exp, params={p for p in case.params if p in syntactic})
    if mode == 'dims':
        if any(i is None for i in ind):
            return None
        dims = [max(i) + 1 for i in ind]
        return dict(variable_names=names, parameters=case.params, variable_dim=dims), \
            dict(exp, indices=[list(range(d)) for d in dims])
    arr = [np.array(sympy.Symbol(n)) if i is None else np.array([sympy.Symbol(f'{n}_{j}') for j in i])
           for n, i in case.variables]
    if mode == 'arrays':
        return dict(variable_names=arr), dict(exp, params={p for p in case.params if p in syntactic})
    if mode == 'arrays+params':
        return dict(variable_names=arr, parameters=case.params), exp
    if not full:
        # leaving indices open is only unambiguous if every entry appears
        return None
    auto = dict(exp, indices=[None if i is None else sorted(i) for i in ind])
    if mode == 'names':
        return dict(variable_names=names), dict(auto, params={p for p in case.params if p in syntactic})
    if mode == 'names+params':
        return dict(variable_names=names, parameters=case.params), auto
    if mode == 'params':
        return dict(parameters=case.params), dict(auto, names=set(names))
    if mode == 'nothing':
        if case.params:
            return None
        return {}, dict(auto, names=set(names))
    if mode == 'polygens':
        return dict(_gens=[case.symbol(n, i) for n, i in case.entries()]), \
            dict(auto, params={p for p in case.params if p in used})
    raise KeyError(mode)


def _free(case):
    """Symbols occurring in the text."""
    import re
    return set(re.findall(r'[A-Za-z_][A-Za-z_0-9]*', case.text)) - {'I', 'sqrt'} - \
        ({'z0'} if case.name == 'zero' else set())


def reported(p):
    return ([str(n) for n in p.variable_names],
            [None if i is None else [int(j) for j in i] for i in p.variable_indices],
            [str(s) for s in p.parameters])


def evaluate(p, env):
    n, ind, par = reported(p)
    args = [np.array(env[v]) if i is None else np.array([env[f'{v}{j}'] for j in i]) for v, i in zip(n, ind)]
    return complex(np.asarray(p(*args, params=np.array([env[q] for q in par]) if par else None)))


def environment(case, k):
    env = {}
    for n, i in case.variables:
        for s in ([n] if i is None else [f'{n}{j}' for j in range(max(i) + 1)]):
            env[s] = None
    for p in case.params:
        env[p] = None
    for m, s in enumerate(env):
        env[s] = complex(np.round((0.7 + 0.3 * k) * np.exp(1j * (1 + m * (k + 1))) + 0.3 * m, 6))
    return env


def check_poly(ctx, p, case, exp, what):
    names, ind, par = reported(p)
    if isinstance(exp['names'], set):
        ctx.check(set(names) == exp['names'] and len(names) == len(exp['names']), what + ': variables', got=names)
        ctx.check(dict(zip(names, ind)) == dict(zip([n for n, _ in case.variables], exp['indices'])),
                  what + ': indices', got=ind, names=names)
    else:
        ctx.check(names == exp['names'], what + ': variables', got=names)
        ctx.check(ind == exp['indices'], what + ': indices', got=ind, want=exp['indices'])
    if isinstance(exp['params'], set):
        ctx.check(set(par) == exp['params'] and len(par) == len(exp['params']), what + ': parameters', got=par)
    else:
        ctx.check(par == list(exp['params']), what + ': parameters', got=par)
    for k in range(3):
        env = environment(case, k)
        want = pc._eval(case.text, env)
        ctx.close(evaluate(p, env), want, what + ': value', rtol=1e-11, atol=1e-11)
        ctx.ran(1, 1)
        ctx.outcome(want)


def run(unit, ctx):
    part = unit['part']
    if part == 'spec':
        spec(unit, ctx)
    elif part == 'coeffs':
        coeffs(unit, ctx)
    elif part == 'reject':
        reject(unit, ctx)
    else:
        hashseed(unit, ctx)


def spec(unit, ctx):
    import sympy
    from cyjax import Poly
    from cyjax.polynomial import HomPoly
    case = pc.CASES[unit['case']]
    text = text_of(case, unit['spell'])
    expr = sympy.parse_expr(text)
    for mode in MODES:
        kw = kwargs_for(case, mode)
        if kw is None:
            continue
        kw, exp = kw
        gens = kw.pop('_gens', None)
        for form in ('text', 'expr', 'poly'):
            if (form == 'poly') != (mode == 'polygens'):
                continue
            if form == 'poly':
                if unit['spell'] != 'plain':
                    continue
                obj = sympy.Poly(expr, *map(sympy.Symbol, gens))
            else:
                obj = text if form == 'text' else expr
            for cls in (Poly, HomPoly):
                if cls is HomPoly and (any(i is None for i in exp['indices']) or mode != 'all'):
                    continue
                ctx.where = dict(mode=mode, form=form, cls=cls.__name__, text=text)
                keep = repr({k: (list(v) if v is not None else None) for k, v in kw.items()})
                p = cls.from_sympy(obj, **kw)
                ctx.check(type(p) is cls, 'class')
                ctx.check(repr({k: (list(v) if v is not None else None) for k, v in kw.items()}) == keep,
                          'specification unchanged')
                check_poly(ctx, p, case, exp, mode)
                q = cls.from_sympy(obj, **kw)
                ctx.check(reported(q) == reported(p), 'same result when repeated')
                ctx.state((unit['case'], unit['spell'], mode, form, cls.__name__))
    ctx.sample(text=text, modes=MODES)


def denoted(co, cp, pw, p):
    """Expansion denoted by coefficient, parameter and power lists."""
    out = {}
    names, ind, _ = reported(p)
    for t in range(len(co)):
        d = {}
        for s in cp[t]:
            d[str(s)] = d.get(str(s), 0) + 1
        for v, i, P in zip(names, ind, pw):
            if P is None:
                continue
            syms = [v] if i is None else [f'{v}{j}' for j in i]
            assert len(P[t]) == len(syms), 'one power per entry'
            for s, e in zip(syms, P[t]):
                if e:
                    d[s] = d.get(s, 0) + int(e)
        k = tuple(sorted(d.items()))
        out[k] = out.get(k, 0) + complex(co[t])
    return pc.S(out)


def same(ctx, a, b, what):
    keys = set(a.t) | set(b.t)
    for k in keys:
        ctx.close(complex(a.t.get(k, 0)), complex(b.t.get(k, 0)), what, rtol=1e-12, atol=1e-12, term=str(k))


def coeffs(unit, ctx):
    import sympy
    from cyjax import Poly
    case = pc.CASES[unit['case']]
    base = case.build('text')
    ex = case.expansion()
    polys = [('itself', base, ex), ('square', base * base, ex * ex), ('shift', base + (1 - 2j), ex + (1 - 2j)),
             ('by new parameter', base * sympy.Symbol('kappa'), ex * pc.S.sym('kappa'))]
    for n, i in case.entries():
        s = case.symbol(n, i)
        polys.append((f'derivative {s}', base.diff(s), ex.diff(s)))
    for what, p, want in polys:
        ctx.where = dict(poly=what)
        co, cp, pw = p.to_coeffs_and_powers()
        ctx.check(len(co) == len(cp) and all(P is None or len(P) == len(co) for P in pw)
                  and len(pw) == len(p.variable_names), 'equal lengths')
        same(ctx, denoted(co, cp, pw, p), want, 'denoted polynomial')
        names, ind, par = reported(p)
        q = Poly.from_coeffs_and_powers(co, pw, cp, p.variable_names, p.variable_indices, p.parameters)
        ctx.check(reported(q) == reported(p), 'inputs after round trip', got=str(reported(q)))
        same(ctx, denoted(*q.to_coeffs_and_powers(), q), want, 'round trip')
        for k in range(2):
            env = dict(environment(case, k), kappa=0.3 - 0.4j)
            ctx.close(evaluate(q, env), complex(want.value(env)), 'value after round trip', rtol=1e-10, atol=1e-10)
            ctx.ran(1, 1)
        # parameters in another order, and parameters left open
        if len(par) > 1:
            q = Poly.from_coeffs_and_powers(co, pw, cp, p.variable_names, p.variable_indices, par[::-1])
            ctx.check(reported(q)[2] == par[::-1], 'requested parameter order')
            ctx.close(evaluate(q, env), complex(want.value(env)), 'value, parameters reversed', rtol=1e-10, atol=1e-10)
        q = Poly.from_coeffs_and_powers(co, pw, cp, p.variable_names, p.variable_indices)
        have = {s for key in want.t for s, _ in key} & set(par)
        ctx.check(have <= set(reported(q)[2]) <= set(par), 'detected parameters', got=reported(q)[2])
        ctx.close(evaluate(q, env), complex(want.value(env)), 'value, parameters detected', rtol=1e-10, atol=1e-10)
        # names and indices left open: variables a, b, c, ... with consecutive indices
        if all(P is not None for P in pw) and all(i is not None for i in ind) and not (
                {chr(97 + k) for k in range(len(pw))} & ({s.rstrip('0123456789') for s in par} | set(par))):
            q = Poly.from_coeffs_and_powers(np.array(co), [np.array(P) for P in pw], cp, parameters=par)
            ctx.check(reported(q) == ([chr(97 + k) for k in range(len(pw))],
                                      [list(range(len(i))) for i in ind], par), 'default names', got=str(reported(q)))
            e2 = dict(env)
            for k, (v, i) in enumerate(zip(names, ind)):
                for m, j in enumerate(i):
                    e2[f'{chr(97 + k)}{m}'] = env[f'{v}{j}']
            ctx.close(evaluate(q, e2), complex(want.value(env)), 'value, default names', rtol=1e-10, atol=1e-10)
        ctx.state((unit['case'], what))
        ctx.ran(4, 4)
    ctx.sample(text=case.text, coefficients=str(base.to_coeffs_and_powers())[:300])


REJECT = [
    ('z0*z1 + psi', dict(variable_names=['z'], parameters=[])),
    ('z0*z1 + psi', dict(variable_names=['z'], parameters=['phi'])),
    ('z0*x + psi', dict(variable_names=['z'], parameters=['psi'])),
    ('z0*x1 + psi', dict(variable_names=['z'], parameters=['psi'])),
    ('z0 + z3', dict(variable_names=['z'], variable_dim=[3])),
    ('z0 + z3', dict(variable_names=['z'], parameters=[], variable_dim=[3])),
    ('z0 + z3', dict(variable_names=['z'], variable_indices=[[0, 2]])),
    ('z_0 + z_3', dict(variable_names=['z'], variable_indices=[[0, 2]])),
    ('z0 + y1', dict(variable_names=['y', 'z'], variable_indices=[[0], [0]])),
    ('z0 + z', dict(variable_names=['z'])),
    ('z0 + z', dict(parameters=[])),
    ('z + z_1', dict()),
    ('z0 + z1 + z', dict()),
    ('z + 1', dict(variable_names=['z'], variable_dim=[2])),
    ('z0 + 1', dict(variable_indices=[[0]])),
    ('z0 + 1', dict(variable_dim=[1])),
    ('z0 + z1', dict(variable_names='mixed')),
    ('z0 + z2', dict(variable_names='symbols')),
    ('z0 + z1', dict(coeffs=[1], cp=[['a']], powers=[[[1, 0]]], parameters=['b'])),
    ('z0 + z1', dict(coeffs=[1], cp=[['a']], powers=[[[1, 0, 0]]], parameters=['a'], indices=[[0, 1]])),
    ('sin(z0)', dict(variable_names=['z'])),
    ('z0**x', dict(variable_names=['z', 'x'])),
]


def reject(unit, ctx):
    import sympy
    from cyjax import Poly
    text, kw = REJECT[unit['k']]
    kw = dict(kw)
    ctx.where = dict(text=text, spec=str(kw))
    z = np.array([sympy.Symbol('z_0'), sympy.Symbol('z_1')])
    if kw.get('variable_names') == 'mixed':
        kw['variable_names'] = [z, 'y']
    if kw.get('variable_names') == 'symbols':
        kw['variable_names'] = [z]
    for form in ('text', 'expr'):
        try:
            if 'coeffs' in kw:
                p = Poly.from_coeffs_and_powers(kw['coeffs'], kw['powers'], kw['cp'], ['z'],
                                                kw.get('indices'), kw['parameters'])
            else:
                p = Poly.from_sympy(text if form == 'text' else sympy.parse_expr(text), **kw)
        except Exception as e:
            ctx.state((text, str(kw), form))
            ctx.outcome(type(e).__name__)
            ctx.ran(1, 1)
            ctx.comparisons += 1
            continue
        ctx.fail('contradictory specification accepted', got=repr(p))
    ctx.sample(rejected=text, specification=str(kw))


def detect():
    """Everything that is detected automatically, as text (run in a fresh interpreter)."""
    import sympy
    from cyjax import Poly
    out = []
    for name, case in pc.CASES.items():
        for mode in ('names', 'params', 'nothing', 'names+indices', 'arrays'):
            for spell in SPELL:
                kw = kwargs_for(case, mode)
                if kw is None:
                    continue
                p = Poly.from_sympy(text_of(case, spell), **kw[0])
                out.append([name, mode, spell, reported(p)])
        p = case.build('text')
        co, cp, pw = p.to_coeffs_and_powers()
        q = Poly.from_coeffs_and_powers(co, pw, cp, p.variable_names, p.variable_indices)
        out.append([name, 'coeffs', '', reported(q), [str(c) for c in co], [[str(s) for s in c] for c in cp]])
    # many symbols at once: an unordered collection would show
    big = ' + '.join(f'{c}{k}*{d}' for k, c in enumerate('qwert') for d in ('aa', 'bb', 'cc', 'dd'))
    for kw in (dict(), dict(variable_names=['q', 'w', 'e', 'r', 't']), dict(parameters=['dd', 'aa', 'cc', 'bb'])):
        out.append(['big', str(sorted(kw)), '', reported(Poly.from_sympy(big, **kw))])
    p = Poly.from_sympy(big, variable_names=['q', 'w', 'e', 'r', 't'])
    q = p * p
    out.append(['bigsq', '', '', reported(q)])
    for s in 'uvxy':
        q = q + sympy.Symbol(s)
    out.append(['bigsym', '', '', reported(q)])
    c = p.to_coeffs_and_powers()
    out.append(['bigco', '', '', reported(Poly.from_coeffs_and_powers(c[0], c[2], c[1], p.variable_names,
                                                                      p.variable_indices))])
    return out


def hashseed(unit, ctx):
    mine = json.loads(json.dumps(detect()))
    env = dict(os.environ, PYTHONHASHSEED=str(unit['seed'] + 1), JAX_PLATFORMS='cpu', JAX_ENABLE_X64='1',
               PYTHONPATH=os.pathsep.join([REPO, VERIF]), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c',
         'import json; from mc.props.c06 import detect; print("RES" + json.dumps(detect()))'],
        env=env, capture_output=True, text=True, timeout=600)
    lines = [l for l in r.stdout.splitlines() if l.startswith('RES')]
    ctx.check(r.returncode == 0 and lines, 'fresh interpreter', err=r.stderr[-800:])
    other = json.loads(lines[0][3:])
    ctx.check(len(mine) == len(other), 'same detections')
    for a, b in zip(mine, other):
        ctx.where = dict(case=a[:3], hash_seed=unit['seed'] + 1)
        ctx.check(a == b, 'detected inputs differ between interpreter runs', here=a, there=b)
        ctx.state(('hash', unit['seed'], str(a)))
        ctx.ran(1, 1)
    ctx.sample(hash_seed=unit['seed'] + 1, detections=len(mine))
