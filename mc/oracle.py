"""Reference models: plain numpy, written from the mathematical definitions."""
from __future__ import annotations

import itertools
import math

import numpy as np


def grid(values, k, dtype=complex):
    """All k-tuples over the values, as an array of shape (len(values)**k, k)."""
    if k == 0:
        return np.zeros((1, 0), dtype)
    return np.array(list(itertools.product(values, repeat=k)), dtype=dtype)


# ---------------------------------------------------------------- polynomials

class P:
    """Sparse polynomial: {exponent tuple: complex coefficient}."""

    def __init__(self, terms, n):
        self.n = n
        self.t = {}
        for e, c in (terms.items() if isinstance(terms, dict) else terms):
            e = tuple(e)
            assert len(e) == n
            self.t[e] = self.t.get(e, 0) + c
        self.t = {e: c for e, c in self.t.items() if c != 0}

    def __call__(self, z):
        z = np.asarray(z)
        out = np.zeros(z.shape[:-1], complex)
        for e, c in self.t.items():
            m = np.ones(z.shape[:-1], complex)
            for i, p in enumerate(e):
                if p:
                    m = m * z[..., i] ** p
            out = out + c * m
        return out

    def __add__(self, o):
        return P(list(self.t.items()) + list(o.t.items()), self.n)

    def __mul__(self, o):
        if not isinstance(o, P):
            return P([(e, c * o) for e, c in self.t.items()], self.n)
        return P([(tuple(a + b for a, b in zip(e, f)), c * d)
                  for e, c in self.t.items() for f, d in o.t.items()], self.n)

    def __sub__(self, o):
        return self + o * (-1)

    def diff(self, i):
        return P([(e[:i] + (e[i] - 1,) + e[i + 1:], c * e[i])
                  for e, c in self.t.items() if e[i] > 0], self.n)

    def fix_one(self, i):
        """Set variable i to one and drop it."""
        return P([(e[:i] + e[i + 1:], c) for e, c in self.t.items()], self.n - 1)

    def grad(self, z):
        return np.stack([self.diff(i)(z) for i in range(self.n)], -1)

    def hess(self, z):
        return np.stack([np.stack([self.diff(i).diff(j)(z) for j in range(self.n)], -1)
                         for i in range(self.n)], -2)

    def collect(self, i):
        """Coefficients in variable i, highest first; each a P with variable i unused."""
        deg = max(e[i] for e in self.t)
        out = []
        for k in range(deg, -1, -1):
            out.append(P([(e[:i] + (0,) + e[i + 1:], c)
                          for e, c in self.t.items() if e[i] == k], self.n))
        return out


# ------------------------------------------------------------------ varieties

class Spec:
    """A hypersurface family: terms (coeff, parameter exponents, exponents)."""

    def __init__(self, name, n, params, terms, kind=None, par_values=None):
        self.name, self.n, self.params, self.terms = name, n, params, terms
        self.kind = kind
        self.degree = sum(terms[0][2])
        assert all(sum(t[2]) == self.degree for t in terms), name
        self.par_values = par_values or [()]

    @property
    def dim(self):
        return self.n - 2

    def poly(self, par=()):
        par = np.asarray(par, complex).reshape(-1)
        assert len(par) == len(self.params)
        return P([(e, c * np.prod([p ** k for p, k in zip(par, pe)] or [1]))
                  for c, pe, e in self.terms], self.n)

    def text(self, name='z', under=False, start=0):
        out = []
        for c, pe, e in self.terms:
            c = complex(c)
            num = [f'({c.real!r} + ({c.imag!r})*I)' if c.imag else f'({c.real!r})']
            num += [f'{p}**{k}' for p, k in zip(self.params, pe) if k]
            sep = '_' if under else ''
            num += [f'{name}{sep}{i + start}**{k}' for i, k in enumerate(e) if k]
            out.append('*'.join(num))
        return ' + '.join(out)

    def make(self):
        import cyjax
        if self.kind == 'fermat':
            return cyjax.Fermat(self.dim)
        if self.kind == 'dwork':
            return cyjax.Dwork(self.dim)
        return cyjax.VarietySingle.from_sympy(
            self.text(), 'z', self.n, list(self.params))

    def par_array(self, par):
        """Numeric parameters in the form the API expects."""
        return np.asarray(par, complex) if len(self.params) else None


def _e(n, *pairs):
    out = [0] * n
    for i, k in pairs:
        out[i] += k
    return tuple(out)


def _fermat(n, deg):
    return [(1, (), _e(n, (i, deg))) for i in range(n)]


def _dwork(n, fac=-5):
    return [(1, (0,), _e(n, (i, n))) for i in range(n)] + [(fac, (1,), (1,) * n)]


PSI = [(0.4 + 0.3j,), (0,), (-1.5j,)]
SPECS = {s.name: s for s in [
    Spec('fermat1', 3, (), _fermat(3, 3), 'fermat'),
    Spec('fermat2', 4, (), _fermat(4, 4), 'fermat'),
    Spec('fermat3', 5, (), _fermat(5, 5), 'fermat'),
    Spec('dwork1', 3, ('psi',), _dwork(3), 'dwork', PSI),
    Spec('dwork2', 4, ('psi',), _dwork(4), 'dwork', PSI),
    Spec('dwork3', 5, ('psi',), _dwork(5), 'dwork', PSI),
    # no symmetry between coordinates, two parameters (listed in non-sorted order)
    Spec('gen1', 3, ('b', 'a'), [
        (1, (0, 0), (3, 0, 0)), (2, (0, 0), (0, 3, 0)), (-1, (0, 0), (0, 0, 3)),
        (1, (0, 1), (1, 1, 1)), (1, (1, 0), (2, 1, 0)), (0.5j, (0, 0), (0, 1, 2))],
        par_values=[(0.5, 1j), (0.7 - 0.2j, -0.4)]),
    Spec('gen2', 4, ('b', 'a'), [
        (1, (0, 0), (4, 0, 0, 0)), (2, (0, 0), (0, 4, 0, 0)), (-1, (0, 0), (0, 0, 4, 0)),
        (1.5j, (0, 0), (0, 0, 0, 4)), (1, (0, 1), (1, 1, 1, 1)), (1, (1, 0), (3, 1, 0, 0)),
        (0.5, (0, 0), (0, 1, 2, 1))],
        par_values=[(0.5, 1j), (0.7 - 0.2j, -0.4)]),
    Spec('gen3', 5, ('b', 'a'), [
        (1, (0, 0), (5, 0, 0, 0, 0)), (2, (0, 0), (0, 5, 0, 0, 0)), (-1, (0, 0), (0, 0, 5, 0, 0)),
        (1.5j, (0, 0), (0, 0, 0, 5, 0)), (0.75, (0, 0), (0, 0, 0, 0, 5)),
        (1, (0, 1), (1, 1, 1, 1, 1)), (1, (1, 0), (3, 1, 0, 1, 0)), (0.5, (0, 0), (0, 1, 2, 1, 1))],
        par_values=[(0.5, 1j), (0.7 - 0.2j, -0.4)]),
    # degree different from the number of coordinates
    Spec('quad2', 4, ('c',), [
        (1, (0,), (2, 0, 0, 0)), (1, (0,), (0, 1, 1, 0)), (1, (1,), (0, 0, 0, 2)),
        (0.5, (0,), (0, 2, 0, 0)), (1j, (0,), (0, 0, 2, 0))],
        par_values=[(0.8 + 0.1j,), (-1,)]),
    Spec('quint1', 3, (), [
        (1, (), (5, 0, 0)), (1, (), (0, 5, 0)), (2, (), (0, 0, 5)), (0.5j, (), (3, 1, 1))]),
    Spec('cub3', 5, ('c',), [
        (1, (0,), (3, 0, 0, 0, 0)), (1, (0,), (0, 3, 0, 0, 0)), (-1, (0,), (0, 0, 3, 0, 0)),
        (2, (0,), (0, 0, 0, 3, 0)), (1, (0,), (0, 0, 0, 0, 3)), (1, (1,), (1, 0, 1, 0, 1))],
        par_values=[(0.5j,), (1.5,)]),
    # different degrees in different coordinates, parameter squared
    Spec('mix1', 3, ('m',), [
        (1, (0,), (3, 0, 0)), (1, (2,), (0, 2, 1)), (-2, (1,), (1, 0, 2)), (1, (0,), (0, 0, 3)),
        (0.5, (0,), (1, 1, 1))],
        par_values=[(1.2,), (0.5 + 0.5j,)]),
    Spec('mix2', 4, ('m',), [
        (1, (0,), (4, 0, 0, 0)), (1, (2,), (0, 2, 1, 1)), (-2, (1,), (1, 0, 3, 0)),
        (1, (0,), (0, 0, 1, 3)), (0.5, (0,), (1, 3, 0, 0))],
        par_values=[(1.2,), (0.5 + 0.5j,)]),
]}


class Twin(Spec):
    """The equation of another family with the inputs in another order (coordinate j is z_{order[j]})."""

    def __init__(self, base, pars, order):
        perm = [base.params.index(p) for p in pars]
        super().__init__(f'{base.name}:{",".join(pars)}:{order}', base.n, tuple(pars), [
            (c, tuple(pe[i] for i in perm), tuple(e[i] for i in order)) for c, pe, e in base.terms],
            par_values=base.par_values)
        self.base, self.order = base, list(order)

    def text(self, *a, **kw):
        return self.base.text(*a, **kw)

    def make(self):
        import cyjax
        return cyjax.VarietySingle(cyjax.HomPoly.from_sympy(
            self.text(), ['z'], list(self.params), variable_indices=[self.order]))


def twins():
    """Hypersurfaces of one equation with different inputs: nothing may leak from one to another."""
    g = SPECS['gen1']
    return [g, Twin(g, ['a', 'b'], [0, 1, 2]), Twin(g, ['b', 'a'], [2, 0, 1]), Twin(g, ['a', 'b'], [1, 0, 2])]


def solve_points(poly, n, values, dep, patch, maxabs=3.0, mingrad=0.15):
    """All points with hom[patch]=1, the other free coordinates from ``values``.

    Coordinate ``dep`` (homogeneous index != patch) is computed.  Points with a
    small gradient (singular or nearly so) or large coordinates are dropped.
    """
    free = [i for i in range(n) if i not in (dep, patch)]
    out = []
    cs = poly.collect(dep)
    for vals in itertools.product(values, repeat=len(free)):
        z = np.zeros(n, complex)
        z[patch] = 1
        z[free] = vals
        co = np.array([c(z) for c in cs])
        nz = np.nonzero(np.abs(co) > 1e-12)[0]
        if len(nz) == 0 or nz[0] == len(co) - 1:
            continue
        for r in np.roots(co[nz[0]:]):
            x = z.copy()
            x[dep] = r
            d = poly.diff(dep)
            for _ in range(4):
                g = d(x)
                if abs(g) < 1e-6:
                    break
                x[dep] -= poly(x) / g
            if np.abs(x).max() > maxabs:
                continue
            g = poly.grad(x)
            g = np.delete(g, patch)
            if np.abs(g).max() < mingrad or abs(poly(x)) > 1e-11:
                continue
            out.append(x)
    out = np.array(out).reshape(-1, n)
    if len(out):
        key = np.round(out, 7) + 0.0
        _, idx = np.unique(key.view(float).reshape(len(out), -1), axis=0, return_index=True)
        out = out[np.sort(idx)]
    return out


def descriptions(poly, hom, minabs=0.2, mingrad=0.05):
    """All admissible (patch, dependent affine index) per homogeneous point.

    Returns index arrays (row, patch, dependent) and affine coordinates.
    """
    n = poly.n
    rows, pats, deps, zs = [], [], [], []
    for p in range(n):
        ok = np.abs(hom[:, p]) >= minabs * np.abs(hom).max(-1)
        aff = to_affine(hom, np.full(len(hom), p), safe=True)
        f = poly.fix_one(p)
        with np.errstate(all='ignore'):
            g = np.abs(f.grad(aff))
        for d in range(n - 1):
            m = ok & (g[:, d] >= mingrad) & (g[:, d] >= 0.15 * g.max(-1))
            idx = np.nonzero(m)[0]
            rows += list(idx)
            pats += [p] * len(idx)
            deps += [d] * len(idx)
            zs += list(aff[idx])
    return (np.array(rows, int), np.array(pats, int), np.array(deps, int),
            np.array(zs, complex).reshape(-1, n - 1))


# ----------------------------------------------------------------- projective

def to_affine(hom, patch, safe=False):
    hom = np.asarray(hom)
    patch = np.broadcast_to(patch, hom.shape[:-1])
    flat = hom.reshape(-1, hom.shape[-1])
    pf = patch.reshape(-1)
    with np.errstate(all='ignore'):
        out = [np.delete(h, p) / h[p] for h, p in zip(flat, pf)]
    return np.array(out).reshape(*hom.shape[:-1], hom.shape[-1] - 1)


def to_hom(aff, patch):
    aff = np.asarray(aff, complex)
    patch = np.broadcast_to(patch, aff.shape[:-1])
    flat = aff.reshape(-1, aff.shape[-1])
    out = [np.insert(a, p, 1) for a, p in zip(flat, patch.reshape(-1))]
    return np.array(out).reshape(*aff.shape[:-1], aff.shape[-1] + 1)


def fs_metric(z, zc=None):
    z = np.asarray(z, complex)
    zc = z.conj() if zc is None else np.asarray(zc)
    n = 1 + (z * zc).sum(-1)[..., None, None]
    # d_i dbar_j log(1+z zc) = delta_ij/n - zc_i z_j / n^2
    return np.eye(z.shape[-1]) / n - zc[..., :, None] * z[..., None, :] / n ** 2


def jac_embed(grad, dep):
    """Rows: local coordinates; d z_j / d x_i for z_dep eliminated."""
    grad = np.asarray(grad)
    m = grad.shape[-1]
    dep = np.broadcast_to(dep, grad.shape[:-1])
    g = grad.reshape(-1, m)
    out = []
    for gi, d in zip(g, dep.reshape(-1)):
        j = np.zeros((m - 1, m), complex)
        for r, i in enumerate([i for i in range(m) if i != d]):
            j[r, i] = 1
            j[r, d] = -gi[i] / gi[d]
        out.append(j)
    return np.array(out).reshape(*grad.shape[:-1], m - 1, m)


def weights(poly, aff, patch, dep, normalized=True):
    """dVol_CY / dVol_FS at affine points (batched over rows); also the parts."""
    aff = np.asarray(aff)
    m = aff.shape[-1]
    dim = m - 1
    grad = np.stack([poly.fix_one(int(p)).grad(a) for a, p in
                     zip(aff, np.broadcast_to(patch, len(aff)))])
    dep = np.broadcast_to(dep, len(aff))
    J = jac_embed(grad, dep)
    g = J @ fs_metric(aff) @ J.conj().swapaxes(-1, -2)
    det = np.linalg.det(g).real if dim else np.ones(len(aff))
    gd = np.abs(grad[np.arange(len(aff)), dep]) ** 2
    dvol = 1 / gd
    if normalized:
        det = det * math.factorial(dim) / np.pi ** dim
    return dvol / det, dvol, det


# ------------------------------------------------------------------ monomials

def monomials(n, k):
    """All exponent tuples of n variables with total degree k."""
    if n == 0:
        return [()] if k == 0 else []
    return [(i,) + r for i in range(k, -1, -1) for r in monomials(n - 1, k - i)]


def mono_eval(pows, z):
    z = np.asarray(z)
    return np.stack([np.prod([z[..., i] ** int(p) if p else np.ones(z.shape[:-1])
                              for i, p in enumerate(e)], axis=0) for e in pows], -1)


def rank_exact(rows):
    """Rank over the rationals (or Gaussian rationals) by fraction-free elimination."""
    from fractions import Fraction

    class G:
        __slots__ = ('a', 'b')

        def __init__(self, a, b=0):
            self.a, self.b = Fraction(a), Fraction(b)

        def __sub__(self, o):
            return G(self.a - o.a, self.b - o.b)

        def __mul__(self, o):
            return G(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a)

        def inv(self):
            d = self.a ** 2 + self.b ** 2
            return G(self.a / d, -self.b / d)

        def nz(self):
            return self.a != 0 or self.b != 0

    M = [{j: G(Fraction(complex(v).real), Fraction(complex(v).imag))
          for j, v in r.items() if v != 0} for r in rows]
    rank = 0
    piv = {}
    for r in M:
        for j in list(piv):
            if j in r and r[j].nz():
                f = r[j]
                for k, v in piv[j].items():
                    nv = r.get(k, G(0)) - f * v
                    if nv.nz():
                        r[k] = nv
                    else:
                        r.pop(k, None)
        r = {k: v for k, v in r.items() if v.nz()}
        if r:
            j = next(iter(r))
            iv = r[j].inv()
            r = {k: v * iv for k, v in r.items()}
            for q in piv:
                if j in piv[q]:
                    f = piv[q][j]
                    for k, v in r.items():
                        nv = piv[q].get(k, G(0)) - f * v
                        if nv.nz():
                            piv[q][k] = nv
                        else:
                            piv[q].pop(k, None)
            piv[j] = r
            rank += 1
    return rank


# ------------------------------------------------------------------- geometry

def _partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for part in _partitions(rest):
        for i in range(len(part)):
            yield part[:i] + [[first] + part[i]] + part[i + 1:]
        yield [[first]] + part


def geometry(poly, pows, H, aff, patch, dep, degree, curvature=True):
    """Local geometry of K = log(s H s^*) / (pi degree) on {poly = 0}.

    Arguments are single (patch, dep) but batched over the rows of ``aff``.
    Everything is computed from total derivatives with respect to the local
    coordinates x (affine coordinates without ``dep``), using the implicit
    function z_dep(x) to second order and the partition formula for the
    derivatives of a logarithm.
    """
    f = poly.fix_one(int(patch))
    m = aff.shape[-1]
    D = int(dep)
    loc = [i for i in range(m) if i != D]
    d = len(loc)
    pows = [tuple(int(x) for x in np.delete(np.asarray(e), patch)) for e in pows]
    G = f.grad(aff)
    w = -G[:, loc] / G[:, [D]]
    s = mono_eval(pows, aff)
    polys = [P({e: 1.0}, m) for e in pows]
    ds = np.stack([p.grad(aff) for p in polys], 1)            # rows, N, m
    S1 = ds[:, :, loc] + ds[:, :, [D]] * w[:, None, :]
    H = np.asarray(H)
    if H.ndim == 1:
        H = np.diag(H)
    S = {0: s[:, :, None], 1: S1}
    res = {}

    if curvature:
        F2 = f.hess(aff)
        Fij = F2[:, loc][:, :, loc]
        FiD = F2[:, loc, D]
        FDD = F2[:, D, D]
        w2 = -(Fij + FiD[:, :, None] * w[:, None, :] + w[:, :, None] * FiD[:, None, :]
               + FDD[:, None, None] * w[:, :, None] * w[:, None, :]) / G[:, D][:, None, None]
        dds = np.stack([p.hess(aff) for p in polys], 1)       # rows, N, m, m
        sij = dds[:, :, loc][:, :, :, loc]
        siD = dds[:, :, loc, D]
        sDD = dds[:, :, D, D]
        S2 = (sij + siD[:, :, :, None] * w[:, None, None, :]
              + w[:, None, :, None] * siD[:, :, None, :]
              + sDD[:, :, None, None] * (w[:, :, None] * w[:, None, :])[:, None]
              + ds[:, :, D][:, :, None, None] * w2[:, None])
        S[2] = S2

    def psi(hol, anti):
        """psi derivative with `hol` holomorphic and `anti` antiholomorphic indices."""
        A = S[hol] if hol else s
        B = (S[anti] if anti else s).conj()
        return np.einsum('rn' + 'ab'[:hol] + ',nm,rm' + 'cd'[:anti] + '->r'
                         + 'ab'[:hol] + 'cd'[:anti], A, H, B)

    cache = {}

    def P_(hol, anti):
        if (hol, anti) not in cache:
            cache[hol, anti] = psi(hol, anti)
        return cache[hol, anti]

    p0 = P_(0, 0)

    def dlog(idx):
        """idx: string of index letters, upper case = antiholomorphic."""
        out = 0
        for part in _partitions(idx):
            c = (-1) ** (len(part) - 1) * math.factorial(len(part) - 1)
            ops, sub = [], []
            for b in part:
                h = [x for x in b if x.islower()]
                a = [x for x in b if x.isupper()]
                ops.append(P_(len(h), len(a)) / p0.reshape((-1,) + (1,) * len(b)))
                sub.append('r' + ''.join(h + a))
            out = out + c * np.einsum(','.join(sub) + '->r' + ''.join(idx), *ops)
        return out

    norm = np.pi * degree
    res['kahler'] = np.log(p0) / norm
    res['psi'] = p0
    g = dlog('iJ') / norm
    res['metric'] = g
    det = np.linalg.det(g)
    res['eta'] = det * np.abs(G[:, D]) ** 2
    if curvature:
        gi = np.linalg.inv(g)
        ga = dlog('aiJ') / norm
        gb = dlog('BiJ') / norm
        gab = dlog('aBiJ') / norm
        R = (np.einsum('rji,raik,rkl,rBlj->raB', gi, ga, gi, gb)
             - np.einsum('rji,raBij->raB', gi, gab))
        res['ricci'] = R
        res['ricci_scalar'] = np.einsum('rij,rji->r', R, gi)
    return res


def hermitian(n, kind):
    """A few deterministic positive definite Hermitian matrices."""
    if kind == 'id':
        return np.eye(n, dtype=complex)
    if kind == 'diag':
        return np.diag(1 + 0.3 * np.arange(n) / max(1, n - 1)).astype(complex)
    if kind == 'full':
        i = np.arange(n)
        A = (np.cos(1.0 + 3 * i[:, None] + 5 * i[None, :] * (i[:, None] + 1))
             + 1j * np.sin(2.0 + i[:, None] * 7 - 4 * i[None, :] ** 2))
        return np.eye(n) + 0.25 * (A @ A.conj().T) / n
    raise KeyError(kind)
