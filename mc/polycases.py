"""A family of polynomial expressions with an independent evaluation.

The mathematical value of a case is obtained by letting Python evaluate the written
text on numpy arrays; its expansion by letting Python evaluate it on sparse
polynomials.  sympy and cyjax are not involved.
"""
import itertools

import numpy as np


class S:
    """Sparse polynomial over named symbols: {((name, power), ...): coeff}."""

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v != 0}

    @staticmethod
    def sym(name):
        return S({((name, 1),): 1})

    @staticmethod
    def const(c):
        return S({(): complex(c)})

    def _w(self, o):
        return o if isinstance(o, S) else S.const(o)

    def __add__(self, o):
        t = dict(self.t)
        for k, v in self._w(o).t.items():
            t[k] = t.get(k, 0) + v
        return S(t)

    __radd__ = __add__

    def __neg__(self):
        return S({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-self._w(o))

    def __rsub__(self, o):
        return self._w(o) - self

    def __mul__(self, o):
        t = {}
        for a, x in self.t.items():
            for b, y in self._w(o).t.items():
                d = dict(a)
                for n, p in b:
                    d[n] = d.get(n, 0) + p
                k = tuple(sorted(d.items()))
                t[k] = t.get(k, 0) + x * y
        return S(t)

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / c)

    def __pow__(self, n):
        out = S.const(1)
        for _ in range(n):
            out = out * self
        return out

    def diff(self, name):
        t = {}
        for k, v in self.t.items():
            d = dict(k)
            p = d.get(name, 0)
            if p:
                if p == 1:
                    d.pop(name)
                else:
                    d[name] = p - 1
                kk = tuple(sorted(d.items()))
                t[kk] = t.get(kk, 0) + v * p
        return S(t)

    def value(self, env):
        out = 0
        for k, v in self.t.items():
            m = v
            for n, p in k:
                m = m * env[n] ** p
            out = out + m
        return out


class Case:
    def __init__(self, name, text, variables, params, text_names=None):
        self.name, self.text = name, text
        self.variables = variables          # [(name, list of indices or None)]
        self.params = params
        self.rename = text_names or {}

    # ---- structure
    def entries(self):
        """All scalar inputs: [(variable name, index or None)] then parameters."""
        out = []
        for n, ind in self.variables:
            out += [(n, None)] if ind is None else [(n, i) for i in ind]
        return out

    def symbol(self, n, i):
        return n if i is None else f'{n}{i}'

    def names(self):
        return [self.symbol(n, i) for n, i in self.entries()] + list(self.params)

    def count(self):
        return len(self.names())

    # ---- reference value
    def value(self, rows):
        """rows: (..., number of inputs)."""
        rows = np.asarray(rows, complex)
        env = {n: rows[..., k] for k, n in enumerate(self.names())}
        return np.broadcast_to(np.asarray(_eval(self.text, env), complex), rows.shape[:-1])

    def expansion(self):
        v = _eval(self.text, {n: S.sym(n) for n in self.names()})
        return v if isinstance(v, S) else S.const(v)

    def split(self, row):
        """Split a row of inputs into the list of variable arrays and parameters."""
        row = np.asarray(row)
        out, k = [], 0
        for n, ind in self.variables:
            if ind is None:
                out.append(row[..., k])
                k += 1
            else:
                out.append(row[..., k:k + len(ind)])
                k += len(ind)
        return out, row[..., k:]

    # ---- construction routes
    def kwargs(self):
        return dict(variable_names=[n for n, _ in self.variables],
                    parameters=list(self.params),
                    variable_indices=[None if i is None else list(i) for _, i in self.variables])

    def build(self, route):
        import sympy
        from cyjax import Poly
        kw = self.kwargs()
        if route == 'text':
            return Poly.from_sympy(self.text, **kw)
        if route == 'underscore':
            return Poly.from_sympy(_underscore(self), **kw)
        if route == 'expr':
            return Poly.from_sympy(_expr(self), **kw)
        if route == 'poly':
            gens = [sympy.Symbol(self.symbol(n, i)) for n, i in self.entries()]
            return Poly.from_sympy(sympy.Poly(_expr(self), *gens), **kw)
        if route == 'arrays':
            arr = [np.array(sympy.Symbol(n)) if ind is None
                   else np.array([sympy.Symbol(f'{n}_{i}') for i in ind])
                   for n, ind in self.variables]
            return Poly.from_sympy(_expr(self), arr, [sympy.Symbol(p) for p in self.params])
        if route == 'coeffs':
            coeffs, cpar, powers = self.arrays()
            return Poly.from_coeffs_and_powers(
                coeffs, powers, cpar, kw['variable_names'], kw['variable_indices'], kw['parameters'])
        if route == 'roundtrip':
            p = self.build('text')
            coeffs, cpar, powers = p.to_coeffs_and_powers()
            return Poly.from_coeffs_and_powers(
                coeffs, powers, cpar, kw['variable_names'], kw['variable_indices'], kw['parameters'])
        raise KeyError(route)

    def arrays(self):
        ex = self.expansion()
        coeffs, cpar, powers = [], [], [[] for _ in self.variables]
        for k, c in ex.t.items():
            d = dict(k)
            coeffs.append(complex(c) if complex(c).imag else complex(c).real)
            cpar.append([p for p in self.params for _ in range(d.get(p, 0))])
            for j, (n, ind) in enumerate(self.variables):
                powers[j].append([d.get(self.symbol(n, i), 0) for i in ([None] if ind is None else ind)])
        return coeffs, cpar, powers


def _eval(text, env):
    return eval(text, {'__builtins__': {}}, dict(env, I=1j, sqrt=np.sqrt))


def _expr(case):
    import sympy
    env = {n: sympy.Symbol(n) for n in case.names()}
    return sympy.parse_expr(case.text, local_dict=env)


def _underscore(case):
    import re
    text = case.text
    for n, ind in case.variables:
        if ind is not None:
            for i in sorted(ind, reverse=True):
                text = re.sub(rf'(?<![A-Za-z0-9_]){n}{i}(?![0-9])', f'{n}_{i}', text)
    return text


ROUTES = ['text', 'underscore', 'expr', 'poly', 'arrays', 'coeffs', 'roundtrip']
_r = lambda n: list(range(n))
CASES = {c.name: c for c in [
    Case('dwork', 'z0**3 + z1**3 + z2**3 - 3*psi*z0*z1*z2', [('z', _r(3))], ['psi']),
    Case('complex', '(2+3*I)*z0**2*z1 - I*z1**3 + z0', [('z', _r(2))], []),
    Case('parpow', 'a**2*z0*z1 + 2*a*b*z1**2 - b**3*z0**2 + a', [('z', _r(2))], ['b', 'a']),
    Case('scalars', 'x**2*y - 3*x + 2', [('x', None), ('y', None)], []),
    Case('scalarpar', 'y*(x - mu)**2 + 2*I*mu*x', [('y', None), ('x', None)], ['mu']),
    Case('mixed', 'x*z1**2 + t*z3*x**3 + 1/3*z1', [('x', None), ('z', [1, 3])], ['t']),
    Case('gapped', 'z0*z5 + z2**2*q1 - 2*z5**3', [('z', [0, 2, 5])], ['q1']),
    Case('shifted', 'z1*z2 + z3**2 - 2.5*z1*psi', [('z', [1, 2, 3])], ['psi']),
    Case('unused', 'z0**2 - 4*z3', [('z', _r(4))], []),
    Case('unusedvar', 'x0**2 - 2*x1', [('w', _r(2)), ('x', _r(2)), ('y', None)], []),
    Case('two', 'x0*y1 + x1*y0*phi + x0**2*y0**2*y1', [('x', _r(2)), ('y', _r(2))], ['phi']),
    Case('twoswap', 'x0*y1 - 2*x1*y0 + 3*x0', [('y', _r(2)), ('x', _r(2))], []),
    Case('const', '3 + 2*I', [('z', _r(2))], []),
    Case('constpar', '3*c', [('z', _r(2))], ['c']),
    Case('zero', '0*z0', [('z', _r(2))], []),
    Case('highpow', 'z0**7 - z1**6*z0 + z1', [('z', _r(2))], []),
    Case('factored', '(z0 + 2*z1)**2*(z0 - I*psi) - (psi + 1)*(psi - z1)', [('z', _r(2))], ['psi']),
    Case('extrapar', 'z0*phi + z1', [('z', _r(2))], ['psi', 'phi', 'zz']),
    Case('greek', 'alpha1*zeta0**2 + alpha2*zeta1*alpha1', [('zeta', _r(2))], ['alpha2', 'alpha1']),
    Case('float', '-0.125*z0 + 1.5e0*z1**2 - 1e-3', [('z', _r(2))], []),
    Case('tiny', '1.5e-9*z0**2*z1 + 2.5e-9*psi*z1 - 7.5e-10*z0**3 + 1.25e-9', [('z', _r(2))], ['psi']),
    Case('huge', '4.5e9*z0**2 - 2.5e12*I*z1*z0 + 1.25e10*z1**3', [('z', _r(2))], []),
    Case('textsub', 'psi_c*z0 + z1*psi_c**2', [('z', _r(2))], ['psi_c']),
    Case('sqrt', 'sqrt(2)*z0 - sqrt(3)*z1**2/2', [('z', _r(2))], []),
    Case('order', 'z10*z2 - 2*z10 + 3*z2**2', [('z', [2, 10])], []),
    Case('par_order', 'p10*z0 + p2*z1 + p1', [('z', _r(2))], ['p10', 'p2', 'p1']),
    Case('single', 'z0**3 - psi*z0', [('z', [0])], ['psi']),
    # index order chosen by the caller is not the sorted one
    Case('unsorted', 'z1 + 2*z0**2 - 3*z1*z4', [('z', [4, 0, 1])], []),
    Case('threevar', 'a0*b*c1 + c0**2 - b**2*s', [('a', [0]), ('b', None), ('c', _r(2))], ['s']),
]}
VALUES = [0, 1 - 2j, -1, 0.5j, 2]


def _twins(text, *inputs):
    return [Case(f'twin{k}', text, v, p) for k, (v, p) in enumerate(inputs)]


# the same expression with different inputs: nothing may leak from one polynomial to another
TWINS = {
    'indices': _twins('z0**2*z1 - 3*psi*z1**3 + phi*z0*z1**2', ([('z', [0, 1])], ['psi', 'phi']), ([('z', [1, 0])], ['psi', 'phi']),
                      ([('z', [0, 1])], ['phi', 'psi']), ([('z', [0, 1, 2])], ['psi', 'phi']),
                      ([('z', [2, 1, 0])], ['phi', 'chi', 'psi'])),
    'kinds': _twins('psi*x0*y1 - 2*y0*x1*psi**2', ([('x', [0, 1]), ('y', [0, 1])], ['psi']),
                    ([('y', [0, 1]), ('x', [0, 1])], ['psi']), ([('x', [1, 0]), ('y', [0, 1])], ['psi']),
                    ([('psi', None), ('x', [0, 1]), ('y', [0, 1])], []),
                    ([('x', [0, 1])], ['y0', 'psi', 'y1'])),
}
# homogeneous, for the affine restrictions
HOM_TWINS = {
    'one': _twins('z0**2*z1 - 3*psi*z1**3 + phi*z0*z1**2', *[(c.variables, c.params) for c in TWINS['indices']]),
    'two': _twins('a*x0*y1**2 - 2*b*y0**2*x1', ([('x', [0, 1]), ('y', [0, 1])], ['a', 'b']), ([('y', [0, 1]), ('x', [0, 1])], ['a', 'b']),
                  ([('x', [1, 0]), ('y', [0, 1])], ['b', 'a']), ([('x', [0, 1]), ('y', [0, 2, 1])], ['a', 'b'])),
}


def rows_for(case, cap):
    """Complete product of the largest value prefix with at most ``cap`` rows."""
    k = case.count()
    m = max(2, max([j for j in range(2, len(VALUES) + 1) if j ** k <= cap], default=2))
    return np.array(list(itertools.product(VALUES[:m], repeat=k)), complex)
