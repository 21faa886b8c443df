"""C05: histories of polynomial arithmetic against a sparse-dictionary algebra."""
import numpy as np

from mc.polycases import S

ID = 'C05'
TECHNIQUE = 'explicit-state search over arithmetic histories on real polynomial objects'
BOUNDS = {
    'quick': '6 start polynomials (4 classes); every history of length 2 over {+,-,*} x 17 operands (polynomials, '
             'itself, symbols, 8 kinds of numbers) and all derivatives, and of length 3 over a 7 operand subset',
    'thorough': 'as quick with every history of length 3 over the full operand set (states merged)',
}

_r = lambda n: list(range(n))
# name -> (text, variables, parameters, class)
POLYS = {
    'A': ('z0**2*z1 - 2*psi*z1 + 3', [('z', _r(2))], ['psi'], 'Poly'),
    'B': ('z1*z3 - I*z3**2 + phi*psi', [('z', [1, 3])], ['phi', 'psi'], 'Poly'),
    'C': ('x**2 - y0*y2 + 1', [('y', [0, 2]), ('x', None)], [], 'Poly'),
    'D': ('a*x - 2*z0', [('x', None), ('z', [0])], ['a'], 'Poly'),
    'K': ('2 - 3*I', [('z', _r(2))], [], 'Poly'),
    'H': ('z0**2 + (1+2*I)*z1*z2*c', [('z', _r(3))], ['c'], 'Hom'),
    'W': ('z0**3 + z1**3 + z2**3 - 5*psi*z0*z1*z2', [('z', _r(3))], ['psi'], 'Dwork'),
    'F': ('z0**3 + z1**3 + z2**3', [('z', _r(3))], [], 'Fermat'),
}
STARTS = ['A', 'B', 'C', 'H', 'W', 'F']
SYMBOLS = ['z1', 'z7', 'x', 'u', 'psi']
# not held exactly by single precision numbers
NUMBERS = {'int': 2, 'neg': -1.3, 'cplx': 1.1 + 2.3j, 'zero': 0, 'npf': np.float64(0.1), 'npa': np.array(2.9 - 1.1j),
           'one': np.array([2.3]), 'jnp': -0.6j}
OPERANDS = [('poly', k) for k in ('A', 'B', 'D', 'K')] + [('self', '')] + \
    [('sym', s) for s in SYMBOLS] + [('num', k) for k in NUMBERS]
FEW = [('poly', 'B'), ('poly', 'D'), ('self', ''), ('sym', 'z7'), ('sym', 'u'), ('num', 'cplx'), ('num', 'jnp')]
OPS = ['+', '-', '*']


class Ref:
    """Reference polynomial with its input description."""

    def __init__(self, s, variables, params):
        self.s, self.v, self.p = s, [(n, None if i is None else list(i)) for n, i in variables], list(params)

    def union(self, v, p):
        out = list(self.v)
        for n, ind in v:
            k = [i for i, (m, _) in enumerate(out) if m == n]
            if not k:
                out.append((n, ind))
            elif ind is not None:
                out[k[0]] = (n, sorted(set(out[k[0]][1]) | set(ind)))
        return out, self.p + [q for q in p if q not in self.p]

    def key(self):
        return (tuple(sorted(((k, complex(np.round(c, 9))) for k, c in self.s.t.items()), key=str)),
                str(self.v), str(self.p))

    def symbols(self):
        return [n if i is None else f'{n}{i}' for n, ind in self.v for i in ([None] if ind is None else ind)]


def start(name):
    text, v, p, _ = POLYS[name]
    names = [n if i is None else f'{n}{i}' for n, ind in v for i in ([None] if ind is None else ind)] + p
    s = eval(text, {'__builtins__': {}}, dict({n: S.sym(n) for n in names}, I=1j))
    return Ref(s if isinstance(s, S) else S.const(s), v, p)


def _split(sym):
    head = sym.rstrip('0123456789')
    return head, (int(sym[len(head):]) if len(head) < len(sym) else None)


def sym_legal(ref, sym):
    """A symbol must not give a variable both with and without subscript."""
    n, i = _split(sym)
    for m, ind in ref.v:
        if m == n and (ind is None) != (i is None):
            return False
    # stays with its earlier classification
    return not (i is not None and n not in [m for m, _ in ref.v])


def conflict(ref, other):
    """Joining two polynomials where a variable of one is a parameter of the other."""
    a = {n for n, _ in ref.v} | set(ref.symbols())
    b = {n for n, _ in other.v} | set(other.symbols())
    return bool(a & set(other.p)) or bool(b & set(ref.p))


def apply_ref(ref, ev):
    kind, name = ev[1]
    if ev[0] == 'd':
        return Ref(ref.s.diff(name), ref.v, ref.p)
    if kind == 'poly' or kind == 'self':
        o = ref if kind == 'self' else start(name)
        v, p = ref.union(o.v, o.p)
        s = o.s
    elif kind == 'sym':
        n, i = _split(name)
        v, p, s = ref.v, ref.p, S.sym(name)
        if name not in ref.p:
            if n in [m for m, _ in ref.v]:
                if i is not None:
                    v, p = ref.union([(n, [i])], [])
            else:
                p = ref.p + [name]
    else:
        v, p = ref.v, ref.p
        s = S.const(complex(np.asarray(NUMBERS[name]).reshape(())))
    r = ref.s + s if ev[0] == '+' else ref.s - s if ev[0] == '-' else ref.s * s
    return Ref(r, v, p)


def enabled_for(operands):
    def enabled(ref):
        out = [(op, x) for op in OPS for x in operands
               if not (x[0] == 'sym' and not sym_legal(ref, x[1]))
               and not (x[0] == 'poly' and conflict(ref, start(x[1])))
               # 'self' doubles the degree: bound it
               and not (x[0] == 'self' and op == '*' and degree(ref) > 4)]
        return out + [('d', ('sym', s)) for s in ref.symbols()]
    return enabled


def degree(ref):
    return max([sum(p for _, p in k) for k in ref.s.t] or [0])


def make(name):
    from cyjax import Poly
    from cyjax.polynomial import HomPoly, DworkPoly, FermatPoly
    text, v, p, cls = POLYS[name]
    if cls == 'Dwork':
        return DworkPoly(3)
    if cls == 'Fermat':
        return FermatPoly(3)
    return (HomPoly if cls == 'Hom' else Poly).from_sympy(
        text, [n for n, _ in v], p, variable_indices=[i for _, i in v])


def number(name):
    import jax.numpy as jnp
    return jnp.array(NUMBERS[name]) if name == 'jnp' else NUMBERS[name]


def units(tier):
    out = []
    for s in STARTS:
        r = start(s)
        for ev in enabled_for(OPERANDS)(r):
            out.append(dict(start=s, first=[ev[0], list(ev[1])]))
    return out


def value(p, ref, pt):
    """Evaluate a real polynomial at symbol values of a point (single call)."""
    args = [np.array(pt[n]) if ind is None else np.array([pt[f'{n}{i}'] for i in ind]) for n, ind in ref.v]
    par = np.array([pt[q] for q in ref.p]) if ref.p else None
    return complex(np.asarray(p(*args, params=par)))


ALL = sorted({s for k in POLYS for s in start(k).symbols() + start(k).p} | set(SYMBOLS))
POINTS = [{s: (0.5 + 0.25j) * np.exp(1j * (1 + k * (j + 1))) + 0.2 * k - 0.4 * j for k, s in enumerate(ALL)}
          for j in range(3)]


def run(unit, ctx):
    import sympy
    first = (unit['first'][0], tuple(unit['first'][1]))
    name = unit['start']
    pool = {k: (make(k), start(k)) for k in ('A', 'B', 'D', 'K')}

    def step(p, ref, ev, depth):
        """Apply one event to a live object."""
        kind, x = ev[1]
        o = None
        if ev[0] == 'd':
            q = p.diff(sympy.Symbol(x) if depth % 2 else x)
        else:
            o = p if kind == 'self' else pool[x][0] if kind == 'poly' else \
                sympy.Symbol(x) if kind == 'sym' else number(x)
            q = p + o if ev[0] == '+' else p - o if ev[0] == '-' else p * o
        return q, apply_ref(ref, ev)

    def compare(p, ref, what, points):
        ctx.check([(n, None if i is None else list(i)) for n, i in zip(p.variable_names, p.variable_indices)]
                  == ref.v, what + ': variables', got=[str(p.variable_names), str(p.variable_indices)], want=ref.v)
        ctx.check([str(s) for s in p.parameters] == ref.p, what + ': parameters', got=str(p.parameters), want=ref.p)
        for pt in points:
            want = complex(ref.s.value(pt))
            got = value(p, ref, pt)
            ctx.check(abs(got - want) <= 1e-9 * (1 + abs(want)), what + ': value', got=got, want=want)

    p0, r0 = make(name), start(name)
    seen = {(type(p0).__name__, r0.key())}
    front = [((), p0, r0)]
    limit = len(POINTS) - 1
    depth = 0
    while front and depth < 3:
        nxt = []
        for hist, p, ref in front:
            few = depth == 2 and ctx.tier == 'quick'
            evs = [first] if depth == 0 else enabled_for(FEW if few else OPERANDS)(ref)
            for ev in evs:
                ctx.where = dict(start=name, history=hist + (ev,))
                q, qref = step(p, ref, ev, depth)
                ctx.ran(1, 1)
                compare(q, qref, 'result', POINTS[:limit])
                compare(p, ref, 'left operand after the operation', POINTS[:1])
                if ev[1][0] == 'poly' and ev[0] != 'd':
                    compare(*pool[ev[1][1]], 'right operand after the operation', POINTS[:1])
                key = (type(q).__name__, qref.key())
                if key not in seen:
                    seen.add(key)
                    ctx.outcome(qref.s.value(POINTS[0]))
                    if depth < 1:
                        # printed expression, evaluated by sympy
                        e = sympy.sympify(q())
                        pt = POINTS[-1]
                        ctx.close(complex(e.subs({sympy.Symbol(k): v for k, v in pt.items()})),
                                  complex(qref.s.value(pt)), 'expression', rtol=1e-9, atol=1e-9)
                    deep = depth < 1 or ctx.tier != 'quick' or first[1] in FEW or first[0] == 'd'
                    if deep and len(qref.s.t) <= 40:
                        nxt.append((hist + (ev,), q, qref))
        front = nxt
        depth += 1
        for k, (q, r) in pool.items():
            compare(q, r, f'operand {k} at the end', POINTS)
        compare(p0, r0, 'start at the end', POINTS)
    for k in seen:
        ctx.state(k)
    ctx.sample(start=POLYS[name][0], first=first, states=len(seen), edges=ctx.transitions, depth=depth)
