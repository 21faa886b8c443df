"""C14: monomial bases, complete over dimension and degree; reduced bases by exact quotient rank."""
import itertools
import math

import numpy as np

from mc import oracle as o
from mc.core import leaves
from mc.props.c18 import tour

ID = 'C14'
TECHNIQUE = 'exhaustive enumeration of dimensions, degrees and defining polynomials on the real constructors; ' \
            'quotient ranks decided in exact Gaussian rational arithmetic'
BOUNDS = {
    'quick': 'full bases for projective dimension 0-6 and degree 0-5 (dimension below 4: up to 7-12); reduced bases for all families and moduli of the '
             'alphabet in degree 0..degree+1 (dimension 3: degree), all two- and three-term defining polynomials with '
             'a pure power in two and three coordinates up to degree 3, cones with missing coordinates; bases of equations of equal shape taken in turn',
    'thorough': 'full bases to degree 7 (dimension below 4: 10-19); reduced ones two degrees higher, four coordinates included',
}


def units(tier):
    def scenario(c):
        part = c.pick('part', ['full', 'family', 'pattern', 'cone', 'turns'])
        if part == 'full':
            c.pick('dim', list(range(7)))
        elif part == 'family':
            c.pick('spec', o.SPECS)
        elif part == 'pattern':
            c.pick('nd', [[2, 2], [2, 3], [3, 1], [3, 2], [3, 3]] if tier == 'quick' else
                   [[2, 2], [2, 3], [2, 4], [3, 1], [3, 2], [3, 3], [4, 1], [4, 2]])
            c.pick('first', list(range(c.values['nd'][0])))
    return leaves(scenario)


def run(unit, ctx):
    {'full': full, 'family': family, 'pattern': pattern, 'cone': cone, 'turns': turns}[unit['part']](unit, ctx)


def full(unit, ctx):
    from cyjax import donaldson as D
    m = unit['dim']
    for k in range({0: 12, 1: 13, 2: 10, 3: 8}.get(m, 6) if ctx.tier == 'quick' else {0: 20, 1: 20, 2: 14, 3: 11}.get(m, 8)):
        ctx.where = dict(dim=m, degree=k)
        ctx.state((m, k))
        want = o.monomials(m + 1, k)
        pm = np.asarray(D.monomial_basis(m, k))
        ctx.check(pm.shape == (len(want), m + 1), 'shape of power matrix', got=pm.shape, want=(len(want), m + 1))
        got = [tuple(int(x) for x in r) for r in pm]
        ctx.check(sorted(got) == sorted(want), 'every monomial exactly once', got=got[:20])
        ctx.rows((m, k), pm)
        idx = np.asarray(D.monomial_basis_indices(m, k))
        ctx.check(idx.shape == (len(want), k), 'shape of index matrix', got=idx.shape)
        cnt = [tuple(int((r == i).sum()) for i in range(m + 1)) for r in idx]
        ctx.check(cnt == got, 'index and power descriptions agree', got=cnt[:10], want=got[:10])
        ctx.check(int(D.monomial_basis_size(m, k)) == len(want) == math.comb(m + k, k), 'reported size')
        d = m + 1
        red = len(want) - (math.comb(m + k - d, k - d) if k >= d else 0)
        ctx.check(int(D.monomial_basis_size(m, k, True)) == red, 'reported reduced size',
                  got=D.monomial_basis_size(m, k, True), want=red)
        ctx.check(int(D.monomial_basis_size(m, k, reduced=False)) == len(want), 'reported size')
        b = D.MonomialBasisFull(m, k)
        ctx.check(b.size == len(want) and b.degree == k, 'size and degree of the basis object', got=[b.size, b.degree])
        ctx.check(sorted(tuple(int(x) for x in r) for r in np.asarray(b.power_matrix)) == sorted(want), 'basis object')
        ctx.ran(6, len(want))
        ctx.outcome(pm)
    ctx.sample(dim=m, degree=k, monomials=len(want))


def judge(ctx, pm, poly, n, k, deg):
    """pm: power matrix; poly: reference polynomial (exact coefficients)."""
    allm = o.monomials(n, k)
    pos = {e: i for i, e in enumerate(allm)}
    size = len(allm) - (math.comb(n - 1 + k - deg, n - 1) if k >= deg else 0)
    pm = np.asarray(pm)
    ctx.check(pm.shape == (size, n), 'size of the reduced basis', got=pm.shape, want=(size, n))
    got = [tuple(int(x) for x in r) for r in pm]
    ctx.check(len(set(got)) == size, 'no duplicates')
    ctx.check(set(got) <= set(allm), 'monomials of the right degree')
    if k >= deg:
        rows = []
        for r in o.monomials(n, k - deg):
            row = {}
            for e, c in poly.t.items():
                j = pos[tuple(a + b for a, b in zip(e, r))]
                row[j] = row.get(j, 0) + c
            rows.append(row)
        rows += [{pos[e]: 1} for e in got]
        rank = o.rank_exact(rows)
        ctx.check(rank == len(allm), 'independent and complete modulo the polynomial', rank=rank, want=len(allm))
    else:
        ctx.check(set(got) == set(allm), 'nothing removed below the degree of the polynomial')
    ctx.outcome(np.array(sorted(got)))


def family(unit, ctx):
    from cyjax import donaldson as D
    spec = o.SPECS[unit['spec']]
    v = spec.make()
    n, d = spec.n, spec.degree
    top = d + (2 if n == 3 else 1 if n == 4 else 0) + (0 if ctx.tier == 'quick' else 1)
    for par in spec.par_values:
        forms = [None, (), np.zeros(0)] if not spec.params else \
            [tuple(complex(x) for x in par), np.array(par, complex)]
        for k in range(top + 1):
            for f in forms if k == d else forms[:1]:
                ctx.where = dict(par=par, degree=k, form=str(type(f)))
                ctx.state((unit['spec'], par, k, str(type(f))))
                b = D.MonomialBasisReduced(v, k, f)
                judge(ctx, b.power_matrix, spec.poly(par), n, k, d)
                ctx.check(b.size == len(b.power_matrix) and b.degree == k, 'size and degree of the basis object')
                if d == n:
                    ctx.check(int(D.monomial_basis_size(n - 1, k, True)) == b.size, 'predicted size')
                ctx.ran(1, b.size)
    ctx.sample(family=unit['spec'], degree=k, size=b.size)


def pattern(unit, ctx):
    """Every support of two or three terms that starts with a vertex (pure power)."""
    from cyjax import donaldson as D
    n, d = unit['nd']
    mons = o.monomials(n, d)
    pures = [tuple(d if i == j else 0 for i in range(n)) for j in range(n)]
    up = d + (2 if n == 2 else 1)
    for first in [pures[unit['first']]]:
        rest = [e for e in mons if e != first]
        for size in (0, 1, 2):
            combos = list(itertools.combinations(rest, size))
            for tail in combos:
                sup = [first, *tail]
                poly = o.P([(e, c) for e, c in zip(sup, (2, -3, 1 + 1j))], n)
                for k in range(max(0, d - 1), up + 1):
                    ctx.where = dict(support=sup, degree=k)
                    ctx.state((tuple(sup), k))
                    judge(ctx, D.reduced_monomial_basis(k, np.array(sup)), poly, n, k, d)
                    ctx.ran(1, 1)
    ctx.sample(support=sup, degree=k)


def cone(unit, ctx):
    """Polynomials in which some coordinates do not appear (for these moduli)."""
    import cyjax
    from cyjax import donaldson as D
    cases = [('z1**2*z0 + z1**3', 3, [], (), 3), ('z2**2', 3, [], (), 2), ('z1', 3, [], (), 1),
             ('z0**3 + z1**3 + a*z2**3', 3, ['a'], (0,), 3), ('z3*z1 - 2*z1**2', 4, [], (), 2),
             ('a*z0*z1*z2 + b*z1**3', 3, ['b', 'a'], (1.5, 0), 3),
             ('a*z0*z1*z2 + b*z1**3', 3, ['b', 'a'], (0, 2j), 3)]
    import sympy
    for text, n, names, par, d in cases:
        v = cyjax.VarietySingle.from_sympy(text, 'z', n, names)
        zs = sympy.symbols(f'z0:{n}')
        e = sympy.expand(sympy.sympify(text).subs({sympy.Symbol(q): sympy.nsimplify(x) if not isinstance(x, complex)
                                                   else sympy.nsimplify(x.real) + sympy.I * sympy.nsimplify(x.imag)
                                                   for q, x in zip(names, par)}))
        poly = o.P([(t, complex(c)) for t, c in sympy.Poly(e, *zs).terms()], n)
        for k in range(d + 2):
            ctx.where = dict(text=text, par=par, degree=k)
            ctx.state((text, par, k))
            b = D.MonomialBasisReduced(v, k, np.array(par, complex))
            judge(ctx, b.power_matrix, poly, n, k, d)
            ctx.ran(1, 1)
    ctx.sample(text=text, par=par)


def turns(unit, ctx):
    """Equations with the same numbers of coordinates, parameters and terms: nothing may leak from one basis to the next."""
    import cyjax
    from cyjax import donaldson as D
    par = (1.5, -2j)
    cases = []
    for sup in ([(3, 0, 0), (0, 3, 0), (0, 0, 3)], [(0, 3, 0), (1, 0, 2), (0, 1, 2)], [(0, 0, 3), (2, 1, 0), (1, 1, 1)],
                [(1, 2, 0), (0, 3, 0), (2, 0, 1)]):
        text = ' + '.join(f + '*'.join(f'z{i}**{q}' for i, q in enumerate(e)) for f, e in zip(('2*', 'a*', 'b*'), sup))
        v = cyjax.VarietySingle(cyjax.HomPoly.from_sympy(text, ['z'], ['a', 'b'], [3]))
        cases += [(text, p, v, o.P(list(zip(sup, (2, *p))), 3)) for p in (par, (0, par[1]))]
    for t, i in enumerate(tour(len(cases), 2)):
        text, p, v, poly = cases[i]
        for k in (3, 4):
            ctx.where = dict(text=text, par=p, degree=k, step=t)
            ctx.state((text, p, k, t))
            b = D.MonomialBasisReduced(v, k, np.array(p, complex))
            judge(ctx, b.power_matrix, poly, 3, k, 3)
            ctx.ran(1, 1)
    ctx.sample(texts=[c[0] for c in cases[::2]], par=par)
