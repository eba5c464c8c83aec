# EDGEpre: bases, matrices, sub-grids, projection operators, driver and conversion to C++
import os, sys, importlib, subprocess, itertools, math, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'tools', 'edge_pre'))
import numpy as np
import sympy
from fractions import Fraction as Fr
import pypbt
from pypbt import check
import logging
logging.disable(logging.CRITICAL)

NAME = {'line': 'Line', 'quad4r': 'Quad', 'tria3': 'Tria', 'hex8r': 'Hex', 'tet4': 'Tet'}
TYPES = list(NAME)
DIM = {'line': 1, 'quad4r': 2, 'tria3': 2, 'hex8r': 3, 'tet4': 3}
FACE = {'line': 'point', 'quad4r': 'line', 'tria3': 'line', 'hex8r': 'quad4r', 'tet4': 'tria3'}
NFA = {'line': 2, 'quad4r': 4, 'tria3': 3, 'hex8r': 6, 'tet4': 4}
VOL = {'point': 1., 'line': 1., 'quad4r': 1., 'tria3': .5, 'hex8r': 1., 'tet4': 1. / 6}
VES = {'line': [[0], [1]], 'quad4r': [[0, 0], [1, 0], [1, 1], [0, 1]], 'tria3': [[0, 0], [1, 0], [0, 1]],
       'hex8r': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]],
       'tet4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]}
# vertices of the faces
FAVE = {'line': [[0], [1]], 'quad4r': [[0, 1], [1, 2], [2, 3], [3, 0]], 'tria3': [[0, 1], [1, 2], [2, 0]],
        'hex8r': [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [3, 7, 6, 2], [0, 4, 7, 3], [4, 5, 6, 7]],
        'tet4': [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]]}


HEX = [0, 1, 3, 2, 4, 5, 7, 6]


def mod(p):
    return importlib.import_module('edge_pre.' + p)


# ---------------------------------------------------------------- independent numerics
def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def quad(t, n):
    x, w = gauss(n)
    P, W = [], []
    if t == 'point':
        return np.zeros((1, 1)), np.ones(1)
    for a in range(n):
        if t == 'line':
            P.append([x[a]]); W.append(w[a]); continue
        for b in range(n):
            if t == 'quad4r':
                P.append([x[a], x[b]]); W.append(w[a] * w[b]); continue
            if t == 'tria3':
                P.append([x[a] * (1 - x[b]), x[b]]); W.append(w[a] * w[b] * (1 - x[b])); continue
            for c in range(n):
                if t == 'hex8r':
                    P.append([x[a], x[b], x[c]]); W.append(w[a] * w[b] * w[c])
                else:
                    u = x[b] * (1 - x[c])
                    P.append([x[a] * (1 - u - x[c]), u, x[c]]); W.append(w[a] * w[b] * w[c] * (1 - u - x[c]) * (1 - x[c]))
    return np.array(P), np.array(W)


def jac(n, a, x, t):  # t^n P_n^(a,0)(x/t)
    p0 = np.ones_like(x)
    if n == 0:
        return p0
    p1 = (a + 2) / 2. * x + a / 2. * t
    for k in range(1, n):
        c = 2. * k + a
        a1, a2, a3, a4 = 2. * (k + 1) * (k + a + 1) * c, (c + 1) * a * a, c * (c + 1) * (c + 2), 2. * (k + a) * k * (c + 2)
        p0, p1 = p1, (a2 / a1 * t + a3 / a1 * x) * p1 - a4 / a1 * t * t * p0
    return p1


def nmodes(t, d):
    o = d + 1
    return {'point': 1, 'line': o, 'quad4r': o * o, 'tria3': o * (o + 1) // 2, 'hex8r': o**3, 'tet4': o * (o + 1) * (o + 2) // 6}[t]


def phi(t, d, b, X):
    X = np.asarray(X, dtype=float)
    o, one = d + 1, np.ones(len(X))
    leg = lambda n, y: jac(n, 0, 2 * y - 1, one)
    if t == 'point':
        return one
    if t == 'line':
        return leg(b, X[:, 0])
    if t == 'quad4r':
        return leg(b % o, X[:, 0]) * leg(b // o, X[:, 1])
    if t == 'hex8r':
        return leg(b % o, X[:, 0]) * leg((b // o) % o, X[:, 1]) * leg(b // (o * o), X[:, 2])
    i = 0
    for de in itertools.count():
        for p in range(de + 1):
            if t == 'tria3':
                if i == b:
                    return jac(p, 0, 2 * X[:, 0] + X[:, 1] - 1, 1 - X[:, 1]) * jac(de - p, 2 * p + 1, 2 * X[:, 1] - 1, one)
                i += 1
            else:
                for q in range(de - p + 1):
                    if i == b:
                        return jac(p, 0, 2 * X[:, 0] + X[:, 1] + X[:, 2] - 1, 1 - X[:, 1] - X[:, 2]) * jac(q, 2 * p + 1, 2 * X[:, 1] + X[:, 2] - 1, 1 - X[:, 2]) * jac(de - p - q, 2 * (p + q) + 2, 2 * X[:, 2] - 1, one)
                    i += 1


def Phi(t, d, X):
    return np.array([phi(t, d, b, X) for b in range(nmodes(t, d))])


def fa2el(t, f, C):
    """face coordinates to element: first vertex of the face plus chi along its edges"""
    v = [np.array(VES[t][k], dtype=float) for k in FAVE[t][f]]
    if t == 'line':
        return np.array([v[0]] * len(C))
    C = np.asarray(C, dtype=float)
    r = v[0] + np.outer(C[:, 0], v[1] - v[0])
    if DIM[t] == 3:
        r = r + np.outer(C[:, 1], v[-1] - v[0])
    return r


def fa2fa(t, ve, C):
    """face coordinates in the adjacent element, whose vertex ve is the first vertex of the own face, the orientation is mirrored"""
    C = np.asarray(C, dtype=float)
    if t == 'line':
        return C
    if DIM[t] == 2:
        return 1 - C
    V = [np.array(x, dtype=float) for x in VES[FACE[t]]]
    n = len(V)
    o, e0, e1 = V[ve], V[(ve - 1) % n], V[(ve + 1) % n]
    return o + np.outer(C[:, 0], e0 - o) + np.outer(C[:, 1], e1 - o)


NORI = {'line': 1, 'quad4r': 1, 'tria3': 1, 'hex8r': 1, 'tet4': 3}


def lam(syms, e):
    f = sympy.lambdify(syms, e, 'numpy')
    return lambda X: np.broadcast_to(np.asarray(f(*[X[:, k] for k in range(len(syms))]), dtype=float), (len(X),))


def nint(syms, ints, f, n=14):
    """nested Gauss quadrature; the least dependent interval comes last"""
    x, w = gauss(n)

    def rec(k, env):
        if k < 0:
            return float(f(env))
        s, lo, hi = ints[k]
        lo, hi = [float(sympy.sympify(q).subs(env)) for q in (lo, hi)]
        return sum((hi - lo) * w[q] * rec(k - 1, dict(env, **{str(s): 0}) if False else {**env, s: lo + (hi - lo) * x[q]}) for q in range(n))
    return rec(len(ints) - 1, {})


def rpoly(s, syms, deg, nt=3):
    e = sympy.Integer(0)
    for _ in range(s.i(1, nt)):
        m = sympy.Rational(s.i(-6, 6), s.i(1, 4))
        left = deg
        for y in syms:
            p = s.i(0, left)
            left -= p
            m = m * y**p
        e = e + m
    return e


_C = {}


def cached(k, f):
    if k not in _C:
        _C[k] = f()
    return _C[k]


def gen(t, d):
    return cached(('gen', t, d), lambda: mod('dg.basis.' + NAME[t]).gen(d))


def typ(t, d):
    return getattr(mod('types.' + NAME[t]), NAME[t])(d)


def grid(t, d):
    G = mod('sc.grid.' + NAME[t])
    # the vertices of hexahedral sub-cells are ordered by dimension
    o = (lambda l: [[v[k] for k in HEX] for v in l]) if t == 'hex8r' else (lambda l: l)
    return cached(('grid', t, d), lambda: dict(svs=G.svs(d), sv=[o(l) if k < 2 else l for k, l in enumerate(G.scSv(d))], adj=G.scSfSc(d), ty=G.scTySf(d)))


def intel(t, d, syms):
    return typ(t, d).intEl(syms[0] if t == 'line' else syms)


def inside(s, t, n):
    """random points of the reference element, sometimes at its boundary"""
    P = []
    for _ in range(n):
        x = [s.r(0, 1) if s.b(0.85) else float(s.draw(2)) for _ in range(DIM[t])]
        if t == 'tria3':
            x[0] *= 1 - x[1]
        if t == 'tet4':
            x[1] *= 1 - x[2]
            x[0] *= 1 - x[1] - x[2]
        P.append(x)
    return np.array(P)


# ---------------------------------------------------------------- P01
@check(150, 3000, 'random element type and degree, random points and polynomials; non-trivial: degree one or higher')
def basis(s, c):
    t = s.pick(TYPES)
    d = s.i(0, {'line': 8, 'quad4r': 5, 'tria3': 5, 'hex8r': 3, 'tet4': 3}[t])
    syms, ba = gen(t, d)
    syms, ba = list(syms), list(ba)
    T = typ(t, d)
    n = nmodes(t, d)
    c.require(len(ba) == n and T.n_basis == n and len(syms) == DIM[t], 'number of basis functions')
    X = inside(s, t, 6)
    V = np.array([lam(syms, b)(X) for b in ba])
    c.closeM(V, Phi(t, d, X), 1E-9, '%s degree %d: basis functions at random points' % (t, d))
    # orthogonality and reproduction of polynomials
    P, W = quad(t, d + 2)
    B = np.array([lam(syms, b)(P) for b in ba])
    M = (B * W) @ B.T
    c.closeM(M - np.diag(np.diag(M)), np.zeros_like(M), 1E-11, 'basis is not orthogonal')
    if t in ('quad4r', 'hex8r'):
        e = sympy.Integer(1)
        for y in syms:
            e = e * rpoly(s, [y], d)
    else:
        e = rpoly(s, syms, d)
    f = lam(syms, e)
    co = (B * W) @ f(P) / np.diag(M)
    c.closeM(co @ V, f(X), 1E-8, 'polynomials of the degree are not reproduced')
    # renamed symbols
    sy2 = [sympy.symbols(x) for x in s.pick([['xi_1'], ['xi_2', 'xi_1'], ['chi'], ['xi_1', 'xi_1_unique'], ['xi_3', 'a', 'xi_1'], []])]
    us, ub = mod('dg.basis.Mod').unify(sy2, [rpoly(s, sy2, 2)] if sy2 else [], syms, [sympy.sympify(b) for b in ba[:8]])
    c.require(len(set(us)) == len(us) == len(syms) and not set(us) & set(sy2), 'unified symbols are not unique')
    c.closeM([lam(us, b)(X) for b in ub], V[:8], 1E-9, 'unified basis')
    for b in ub:
        c.require(sympy.sympify(b).free_symbols <= set(us), 'unified basis depends on other symbols')
    # reference elements
    c.require([list(v) for v in T.ves] == VES[t] and T.n_fas == NFA[t] and T.n_ves == len(VES[t]), 'reference element')
    ns = 2 * d + 1
    c.require(T.n_sfs == ns**(DIM[t] - 1) and T.n_scs == ns**DIM[t], 'numbers of sub-faces and sub-cells')
    if d > 0:
        c.nontrivial()
    c.sample('%s degree %d, polynomial %s' % (t, d, e))


@check(240, 6000, 'random polynomials (or collapsed rational functions), intervals and substitutions; non-trivial: result is not zero')
def integrals(s, c):
    M, S = mod('int.Matrices'), mod('int.Scalar')
    nd = s.i(1, 3)
    sy = [sympy.symbols('x%d' % k) for k in range(nd)]
    # intervals: the bounds of the first ones depend on the last ones

    def ints():
        r = []
        for k in range(nd):
            lo = sympy.Rational(s.i(-3, 3), s.i(1, 3))
            hi = lo + sympy.Rational(s.i(1, 5), s.i(1, 3))
            for j in range(k + 1, nd):
                if s.b(0.3):
                    hi = hi - sy[j] * sympy.Rational(s.i(-2, 2), 3)
                if s.b(0.15):
                    lo = lo + sy[j] / 4
            r.append((sy[k], lo, hi))
        return r
    I = [ints() for _ in range(s.i(1, 2))]
    F = [rpoly(s, sy, s.i(0, 3), 2) for _ in range(s.i(1, 3))]
    num = lambda e, i: nint(sy, i, lambda env, g=sympy.lambdify(sy, e): g(*[env[y] for y in sy]), 5)
    op = s.draw(6)
    name = ''
    if op == 0:
        name = 'Scalar.int'
        for f in F:
            for lim in (10**9, 0):
                v, ex = S.int(f, I[0], lim)
                c.require(bool(ex) == (lim > 0), 'exactness flag')
                c.close(v, num(f, I[0]), 1E-7, 'integral of %s over %s (exact: %s)' % (f, I[0], lim > 0))
        v, ex = S.int(F[0], I[0])
        c.require(ex, 'short functions are integrated exactly')
        if num(F[0], I[0]):
            c.nontrivial()
    elif op == 1:
        name = 'intL'
        R = M.intL(I, F)
        E = [[num(f, i) for f in F] for i in I]
        c.closeM(np.array(R.tolist(), dtype=float), E, 1E-8, 'intL of %s over %s' % (F, I))
        c.nontrivial(np.any(np.array(E)))
    elif op == 2:
        name = 'mass'
        R = M.mass(I[0], F)
        E = [[num(f * g, I[0]) for g in F] for f in F]
        c.closeM(np.array(R.tolist(), dtype=float), E, 1E-8, 'mass of %s over %s' % (F, I[0]))
        c.nontrivial(np.any(np.array(E)))
    elif op == 3:
        name = 'stiff'
        R = M.stiff(sy, F, I[0])
        E = [[[num(f * sympy.diff(g, y), I[0]) for g in F] for f in F] for y in sy]
        c.require(len(R) == nd, 'number of stiffness matrices')
        c.closeM([np.array(r.tolist(), dtype=float) for r in R], E, 1E-8, 'stiffness of %s over %s' % (F, I[0]))
        c.nontrivial(np.any(np.array(E)))
    elif op == 4:
        name = 'subs'
        sb = [(s.pick(sy), sympy.Rational(s.i(-4, 4), s.i(1, 3))) for _ in range(s.i(1, 4))]
        R = M.subs(sb, F)
        c.require(R.shape == (len(sb), len(F)), 'shape')
        X = np.array([[s.sr(2) for _ in sy] for _ in range(4)])
        for i, (y, v) in enumerate(sb):
            Y = X.copy()
            Y[:, sy.index(y)] = float(v)
            for j, f in enumerate(F):
                c.closeM(lam(sy, R[i, j])(X), lam(sy, f)(Y), 1E-9, 'subs')
        c.nontrivial()
    else:
        name = 'subsAll'
        ch = [sympy.symbols('chi_%d' % k) for k in range(max(1, nd - 1))]
        sb = [(y, rpoly(s, ch, 1, 2)) for y in sy]
        R = M.subsAll(sb, F)
        c.require(len(R) == len(F), 'length')
        X = np.array([[s.sr(2) for _ in ch] for _ in range(4)])
        Y = np.array([lam(ch, e)(X) for _, e in sb]).T
        for r, f in zip(R, F):
            c.closeM(lam(ch, r)(X), lam(sy, f)(Y), 1E-9, 'subsAll')
        c.nontrivial()
    c.sample('%s of %s over %s' % (name, F, I))


@check(120, 2500, 'random element and face functions of every type; non-trivial: a face function of degree one or higher')
def flux(s, c):
    M = mod('int.Matrices')
    t = s.pick(TYPES)
    if t == 'line':
        x = sympy.symbols('xi_1')
        F = [rpoly(s, [x], 4) for _ in range(s.i(1, 4))]
        T = typ(t, 2)
        pr, ma, ori = M.flux(None, F, None, [x], None, T.faToFa(None), T.faToEl(None))
        c.require(len(pr) == 2 and len(ori) == 1, 'number of matrices')
        for k in range(2):
            c.closeM(np.array(pr[k].tolist(), dtype=float).ravel(), [float(f.subs(x, k)) for f in F], 1E-10, 'trace')
        c.require(ma == sympy.eye(1) and ori[0] == sympy.eye(1), 'pseudo face matrices')
        c.nontrivial()
        c.sample('line %s' % F)
        return
    el = [sympy.symbols('xi_%d' % (k + 1)) for k in range(DIM[t])]
    fs = [sympy.symbols(('chi_%d' if s.b(0.5) else 'eta_%d') % (k + 1)) for k in range(DIM[t] - 1)]
    F = [rpoly(s, el, 2, 2) for _ in range(s.i(1, 2))]
    # orthogonal face basis as the driver has it (degree 0 or 1), scaled
    fd = s.i(0, 1)
    fsy, fb = gen(FACE[t], fd)
    sc = [sympy.Rational(s.i(1, 4), s.i(1, 3)) for _ in fb]
    fb = [sympy.sympify(b).subs(dict(zip(fsy, fs)), simultaneous=True) * k for b, k in zip(fb, sc)]
    T = typ(t, 1)
    ft = FACE[t]
    iF = intel(ft, 1, fs)
    pr, ma, ori = M.flux(fb, F, fs, el, iF, T.faToFa(fs), T.faToEl(fs))
    nf = NFA[t]
    c.require(len(pr) == nf and len(ori) == NORI[t], 'number of matrices')
    P, W = quad(ft, 6)
    B = np.array([lam(fs, b)(P) for b in fb])
    m = (B * W) @ B.T
    c.closeM(np.array(ma.tolist(), dtype=float), m, 1E-9, 'face mass matrix')
    for f in range(nf):
        V = np.array([lam(el, g)(fa2el(t, f, P)) for g in F])
        c.closeM(np.array(pr[f].tolist(), dtype=float), (V * W) @ B.T @ np.linalg.inv(m), 1E-8, '%s: projection of %s to face %d' % (t, F, f))
    for v in range(NORI[t]):
        Bn = np.array([lam(fs, b)(fa2fa(t, v, P)) for b in fb])
        c.closeM(np.array(ori[v].tolist(), dtype=float), (Bn * W) @ B.T, 1E-8, '%s: orientation %d' % (t, v))
    c.nontrivial(fd > 0)
    c.sample('%s %s face degree %d' % (t, F, fd))


# ---------------------------------------------------------------- P02
def vol(t, V):
    V = np.array(V, dtype=float)
    if t == 'line':
        return abs(V[1, 0] - V[0, 0])
    if t in ('tria3', 'tet4'):
        return abs(np.linalg.det(V[1:] - V[0])) / math.factorial(DIM[t])
    a = [1, 3] if t == 'quad4r' else [1, 3, 4]
    return abs(np.linalg.det(np.array([V[k] - V[0] for k in a])))


def affine(t, V):
    """origin and axes of the affine map of a sub-cell (right-handed or not)"""
    V = np.array(V, dtype=float)
    a = {'line': [1], 'tria3': [1, 2], 'tet4': [1, 2, 3], 'quad4r': [1, 3], 'hex8r': [1, 3, 4]}[t]
    return V[0], np.array([V[k] - V[0] for k in a])


def coords(t, V, x):
    o, A = affine(t, V)
    return np.linalg.solve(A.T, np.asarray(x) - o)


def within(t, l, e):
    if (l < -e).any():
        return False
    if t in ('tria3', 'tet4'):
        return l.sum() <= 1 + e
    return (l <= 1 + e).all()


def faces(t, V):
    return [[V[k] for k in f] for f in FAVE[t]]


FANO = {'line': [[-1], [1]], 'quad4r': [[0, -1], [1, 0], [0, 1], [-1, 0]], 'tria3': [[0, -1], [1, 1], [-1, 0]],
        'hex8r': [[0, 0, -1], [0, -1, 0], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, 0, 1]],
        'tet4': [[0, 0, -1], [0, -1, 0], [-1, 0, 0], [1, 1, 1], [1, 1, 0], [1, 0, 1]]}


@check(400, 6000, 'random element type, degree, sub-cells, faces, orientations and points of the sub-grid; non-trivial: degree one or higher')
def subgrid(s, c):
    t = s.pick(TYPES)
    d = s.i(0, {'line': 8, 'quad4r': 5, 'tria3': 5, 'hex8r': 2, 'tet4': 3}[t])
    g = grid(t, d)
    D, ns = DIM[t], 2 * d + 1
    nsf, nsc, nf, nv = ns**(D - 1), ns**D, NFA[t], len(VES[t])
    w = '%s degree %d: ' % (t, d)
    X = np.array(g['svs'], dtype=float)
    I, S, R = g['sv']
    aI, aS, aR = g['adj']
    tI, tS = g['ty']
    c.require(len(I) + len(S) == nsc and len(R) == nf * nsf and len(aI) == len(I) and len(aS) == len(S) and len(aR) == len(R)
              and len(tI) == len(I) and len(tS) == len(S), w + 'numbers of sub-cells')
    k = s.i(0, nsc - 1)
    cells = [list(x) for x in I] + [list(x) for x in S]
    adj = [list(x) for x in aI] + [list(x) for x in aS]
    ty = [list(x) for x in tI] + [list(x) for x in tS]
    c.require(len(set(tuple(x) for x in X)) == len(X), w + 'duplicated sub-vertices')
    # partition: equal volumes, a point is in exactly one sub-cell (or at the common boundary)
    v = [X[a] for a in cells[k]]
    c.require(len(v) == nv, w + 'vertices of sub-cell')
    c.close(vol(t, v), VOL[t] / nsc, 1E-9, w + 'volume of sub-cell %d' % k)
    for x in inside(s, t, 3):
        strict = [j for j in range(nsc) if within(t, coords(t, X[cells[j]], x), -1E-9)]
        loose = [j for j in range(nsc) if within(t, coords(t, X[cells[j]], x), 1E-9)]
        c.require(len(strict) <= 1 and len(loose) >= 1 and (strict or len(loose) > 1 or True), w + 'point %s in sub-cells %s' % (x, loose))
    # send sub-cells are those with a DG face
    bnd = [f for f in range(nf) for fv in [None] if any(all(abs(np.dot(FANO[t][f], p) - max(np.dot(FANO[t][f], q) for q in VES[t])) < 1E-9 for p in fc) for fc in faces(t, v))]
    c.require((k >= len(I)) == bool(bnd), w + 'sub-cell %d: inner or send' % k)
    # faces: neighbors, types
    fa = faces(t, v)
    c.require(len(adj[k]) == nf and len(ty[k]) == nf, w + 'faces of the sub-cell')
    TY = 6 if t == 'tet4' else nf
    for f in range(nf):
        fs = {tuple(p) for p in fa[f]}
        nb = adj[k][f]
        # outward normal (covector of the hyperplane)
        no = np.linalg.svd(np.array([p - fa[f][0] for p in fa[f][1:]]))[2][-1] if D > 1 else np.array([1.])
        if np.dot(no, np.mean(v, axis=0) - fa[f][0]) > 0:
            no = -no
        dg = [q for q in range(nf) if all(abs(np.dot(FANO[t][q], p) - max(np.dot(FANO[t][q], z) for z in VES[t])) < 1E-9 for p in fa[f])]
        c.require(len(dg) <= 1, 'reference')
        ref = [(q, sg) for q in range(len(FANO[t])) for sg in (1, -1) if np.allclose(no, sg * np.array(FANO[t][q]) / np.linalg.norm(FANO[t][q]), atol=1E-9)]
        ids = set()
        for q, sg in ref:
            if t in ('line', 'quad4r', 'hex8r') and sg < 0:
                continue
            ids.add(q if (dg and sg > 0) else (2 * nf + q) if sg > 0 else (2 * nf + TY + q))
        if d == 0:
            ids = {f}
        c.require(ty[k][f] in ids, w + 'type %d of face %d of sub-cell %d is not in %s' % (ty[k][f], f, k, ids))
        if dg:
            c.require(nsc + dg[0] * nsf <= nb < nsc + (dg[0] + 1) * nsf, w + 'DG face of sub-cell %d has neighbor %d' % (k, nb))
            rc = [tuple(X[a]) for a in R[nb - nsc] if a >= 0]
            c.require(set(rc) == fs, w + 'receive sub-cell does not share the face')
            c.require(list(aR[nb - nsc])[0] == k, w + 'receive sub-cell does not know the send sub-cell')
        else:
            c.require(0 <= nb < nsc and nb != k, w + 'neighbor')
            c.require(fs <= {tuple(X[a]) for a in cells[nb]}, w + 'neighbor does not share the face')
            c.require(adj[nb].count(k) == 1, w + 'adjacency is not symmetric')
            g2 = adj[nb].index(k)
            c.require({tuple(p) for p in faces(t, X[cells[nb]])[g2]} == fs, w + 'the face of the neighbor does not match')
    # receive sub-cells
    r = s.i(0, nf * nsf - 1)
    f, q = r // nsf, r % nsf
    c.require(len(aR[r]) == nf and list(aR[r])[1:] == [-1] * (nf - 1), w + 'receive sub-cell has one neighbor')
    rv = [a for a in R[r] if a >= 0]
    c.require(len(R[r]) == nv and len(rv) == len(FAVE[t][0]), w + 'vertices of receive sub-cell')
    if t != 'line' or d > 0:
        c.require(list(R[r])[:len(rv)] == rv or t == 'line', w + 'vertices of receive sub-cells come first')
    P = np.array([X[a] for a in rv])
    # the sub-face of the parameter space
    if t != 'line':
        G = mod('sc.grid.' + NAME[t])
        fs = [sympy.symbols('c%d' % j) for j in range(D - 1)]
        vs = [sympy.symbols('v%d' % j) for j in range(D)]
        sub, its = cached(('intSf', t, d), lambda: G.intSfDg(d, fs, vs))
        it = its[f][q]
        c.require(len(its[f]) == nsf, w + 'number of sub-faces')
        # random point of the interval
        u = [s.r(0.01, 0.99) for _ in range(D - 1)]
        env = {}
        for j in reversed(range(D - 1)):
            y, lo, hi = it[j]
            lo, hi = [float(sympy.sympify(e).subs(env)) for e in (lo, hi)]
            env[y] = lo + (hi - lo) * u[j]
        x = np.array([float(sympy.sympify(dict(sub[f])[y]).subs(env)) for y in vs])
        o = P[0]
        A = np.array([P[1] - o] + ([P[2] - o] if D == 3 else [])).T
        l, res = np.linalg.lstsq(A, x - o, rcond=None)[:2]
        c.require(np.allclose(A @ l + o, x, atol=1E-9) and within(FACE[t], l, 1E-9), w + 'sub-face %d of face %d: the point %s of its integration interval is outside of the receive sub-cell %s' % (q, f, x, P.tolist()))
        # area of the interval
        a = nint(fs, it, lambda e: 1., 2)
        c.close(abs(a), VOL[FACE[t]] / nsf, 1E-9, w + 'size of the sub-face')
        # neighboring element
        if hasattr(G, 'scDgAd'):
            ad = cached(('ad', t, d), lambda: G.scDgAd(d))
            c.require(len(ad) == (1 if D == 2 else len(VES[FACE[t]])), w + 'orientations')
            v2 = s.i(0, len(ad) - 1)
            f2 = s.i(0, nf - 1)
            c.require(sorted(ad[v2]) == list(range(nsf)), w + 'reordering %d is not a permutation' % v2)
            # own parameter coordinates of the point
            W = VES[t]
            fv = [np.array(W[a], dtype=float) for a in FAVE[t][f]]
            A2 = np.array([fv[1] - fv[0]] + ([fv[-1] - fv[0]] if D == 3 else [])).T
            ch = np.linalg.lstsq(A2, x - fv[0], rcond=None)[0]
            x2 = fa2el(t, f2, fa2fa(t, v2, np.array([ch])))[0]
            P2 = np.array([X[a] for a in R[f2 * nsf + ad[v2][q]] if a >= 0])
            B = np.array([P2[1] - P2[0]] + ([P2[2] - P2[0]] if D == 3 else [])).T
            l2 = np.linalg.lstsq(B, x2 - P2[0], rcond=None)[0]
            c.require(np.allclose(B @ l2 + P2[0], x2, atol=1E-8) and within(FACE[t], l2, 1E-8), w + 'orientation %d: sub-face %d of the face does not lie on sub-face %d of face %d of the adjacent element' % (v2, q, ad[v2][q], f2))
    if d > 0:
        c.nontrivial()
    c.sample(w + 'sub-cell %d, receive sub-cell %d' % (k, r))


def partition(s, t):
    """random partition of the reference element in few sub-cells: list of affine maps [A, o] (x = A xi + o)"""
    D = DIM[t]
    if t in ('line', 'quad4r', 'hex8r'):
        cuts = []
        for _ in range(D):
            n = s.i(1, 4 if D == 1 else 3 if D == 2 else 2)
            z = sorted({Fr(s.i(1, 11), 12) for _ in range(n - 1)})
            cuts.append([Fr(0)] + z + [Fr(1)])
        r = []
        for ix in itertools.product(*[range(len(q) - 1) for q in cuts]):
            A = [[Fr(0)] * D for _ in range(D)]
            o = []
            for k in range(D):
                A[k][k] = cuts[k][ix[k] + 1] - cuts[k][ix[k]]
                o.append(cuts[k][ix[k]])
            r.append((A, o))
        return r
    simp = [[[Fr(x) for x in p] for p in VES[t]]]
    for _ in range(s.i(s.draw(3), 6 if D == 2 else 4)):
        k = s.draw(len(simp))
        a, b = s.perm(D + 1)[:2]
        z = Fr(s.i(1, 4), 5)
        p = [(1 - z) * x + z * y for x, y in zip(simp[k][a], simp[k][b])]
        u, v = list(simp[k]), list(simp[k])
        u[a], v[b] = p, p
        simp[k:k + 1] = [u, v]
    r = []
    for V in simp:
        V = [V[j] for j in s.perm(D + 1)]
        r.append(([[V[j + 1][i] - V[0][i] for j in range(D)] for i in range(D)], V[0]))
    return r


@check(120, 2500, 'random partitions of the reference element and random bases; non-trivial: more sub-cells than basis functions, which are not constant')
def project(s, c):
    P = mod('sc.ops.Project')
    t = s.pick(TYPES)
    D = DIM[t]
    sy = [sympy.symbols('xi_%d' % (k + 1)) for k in range(D)]
    it = intel(t, 1, sy)
    pa = partition(s, t)
    q = lambda x: sympy.Rational(x.numerator, x.denominator)
    maps = [[sum((q(A[i][j]) * sy[j] for j in range(D)), q(o[i])) for i in range(D)] for A, o in pa]
    dets = [sympy.Abs(sympy.Matrix([[q(x) for x in r] for r in A]).det()) for A, _ in pa]
    X, W = quad(t, 4)
    cav = lambda f: [float((lam(sy, f)((np.array(A, dtype=float) @ X.T).T + np.array(o, dtype=float)) * W).sum() / W.sum()) for A, o in pa]
    F = [sympy.Integer(1)]
    av = np.array([cav(F[0])])
    keep = s.b(0.9)
    for _ in range(s.i(0, 4 if D < 3 else 2)):
        f = rpoly(s, sy, 2, 2)
        a = np.vstack([av, cav(f)])
        if len(F) < 3 and (not keep or (np.linalg.matrix_rank(a, tol=1E-3) == len(a) < len(pa))):
            F, av = F + [f], a
    S = np.array(P.scatter(sy, F, it, maps, dets).tolist(), dtype=float)
    c.closeM(S, av, 1E-9, '%s: cell averages of %s' % (t, F))
    if np.linalg.matrix_rank(av, tol=1E-8) < len(F):
        c.sample('%s %d cells, scatter only' % (t, len(pa)))
        return
    G = np.array(P.gather(sy, F, it, maps, dets).tolist(), dtype=float)
    c.require(G.shape == (len(pa), len(F)), 'shape of the gather matrix')
    c.closeM(av @ G, np.eye(len(F)), 1E-7, '%s: gather does not invert scatter' % t)
    # random sub-cell values: conservation and optimality
    vo = np.array([float(x) for x in dets]) * VOL[t]
    u = np.array([s.sr(3) for _ in pa])
    co = u @ G
    me = (av * vo).sum(axis=1)
    c.close(co @ me, (u * vo).sum(), 1E-7, '%s: gather does not conserve the mean of the sub-cells' % t)
    # stationarity in all directions of the constraint
    gr = 2 * av @ (co @ av - u)
    for k in range(len(F)):
        for j in range(k):
            e = np.zeros(len(F))
            e[k], e[j] = me[j], -me[k]
            c.require(abs(e @ gr) < 1E-6, '%s: gather is not the constrained least squares solution (%g)' % (t, e @ gr))
    c.nontrivial(len(F) > 1 and len(pa) > len(F))
    c.sample('%s %d cells, basis %s, values %s' % (t, len(pa), F, np.round(u, 3).tolist()))


@check(150, 3000, 'random element types, degrees, sub-cells and functions; non-trivial: degree one or higher')
def maps(s, c):
    t = s.pick(TYPES)
    d = s.i(0, {'line': 6, 'quad4r': 2, 'tria3': 2, 'hex8r': 1, 'tet4': 1}[t])
    D, ns = DIM[t], 2 * d + 1
    nsf, nsc = ns**(D - 1), ns**D
    G = mod('sc.grid.' + NAME[t])
    sy = [sympy.symbols('xi_%d' % (k + 1)) for k in range(D)]
    mp, dt = cached(('intSc', t, d), lambda: G.intSc(d, sy))
    g = grid(t, d)
    X = np.array(G.svs(d), dtype=float)
    cells = [list(x) for x in g['sv'][0]] + [list(x) for x in g['sv'][1]]
    m, a = list(mp[0]) + list(mp[1]), list(dt[0]) + list(dt[1])
    w = '%s degree %d: ' % (t, d)
    c.require(len(m) == nsc == len(a) and len(mp[2]) == NFA[t] == len(dt[2]), w + 'number of maps')
    k = s.i(0, nsc - 1)
    U = inside(s, t, 3)

    def cmp(mm, aa, cell, what):
        V = X[cells[cell]]
        o, A = affine(t, V)
        c.closeM(np.array([lam(sy, e)(U) for e in mm]).T, U @ A + o, 1E-9, w + what)
        c.close(lam(sy, aa)(U)[0], 1. / nsc, 1E-9, w + 'determinant, ' + what)
    cmp(m[k], a[k], k, 'map of sub-cell %d' % k)
    f, q = s.i(0, NFA[t] - 1), s.i(0, nsf - 1)
    c.require(len(mp[2][f]) == nsf == len(dt[2][f]), w + 'number of surface maps')
    cmp(mp[2][f][q], dt[2][f][q], g['adj'][2][f * nsf + q][0], 'map of sub-face %d of face %d' % (q, f))
    # integral over a sub-face
    if t != 'line':
        fs = [sympy.symbols('c%d' % j) for j in range(D - 1)]
        e = rpoly(s, sy, 3, 2)
        sub, its = G.intSfDg(d, fs, sy)
        M = mod('int.Matrices')
        v = M.intL([its[f][q]], M.subsAll(sub[f], [e]))[0, 0]
        P = np.array([X[z] for z in g['sv'][2][f * nsf + q] if z >= 0])
        Y, W = quad(FACE[t], 4)
        pts = P[0] + np.outer(Y[:, 0], P[1] - P[0]) + (np.outer(Y[:, 1], P[2] - P[0]) if D == 3 else 0)
        c.close(v, float((lam(sy, e)(pts) * W).sum()) / nsf, 1E-8, w + 'integral of %s over sub-face %d of face %d' % (e, q, f))
    c.nontrivial(d > 0)
    c.sample(w + 'sub-cell %d face %d sub-face %d' % (k, f, q))


# ---------------------------------------------------------------- P03
def parse(txt, n):
    """csv to nested lists, n dimensions"""
    if n == 2:
        return [[x for x in l.split(',') if x != ''] for l in txt.split('\n') if l != '']
    return [parse(b, 2) for b in txt.split('\n\n') if b.strip('\n') != '']


@check(30, 400, 'random arrays, string replacements and name spaces, compiled as C++; non-trivial: at least one array of two rows and columns')
def convert(s, c):
    A = mod('io.ArrStr')
    dr = os.path.join(c.tmp, 'cpp_%d' % os.getpid())
    shutil.rmtree(dr, ignore_errors=True)
    os.makedirs(dr)
    try:
        n = s.i(1, 5)
        src, mains, exp, any2 = [], [], [], False
        for k in range(n):
            isf, nd = s.b(), s.pick([2, 3])
            sh = [s.i(1, 4) for _ in range(nd)]
            any2 = any2 or (sh[-1] > 1 and sh[-2] > 1)
            if isf:
                a = np.array([s.pick([0., 1., s.sr(3), s.sr(1E-9), s.sr(1E12), 1. / (1 + s.draw(9))]) for _ in range(int(np.prod(sh)))]).reshape(sh)
                v = [sympy.Rational(str(x)) for x in a.ravel()] if s.b(0.3) else None
                arg = a.tolist() if v is None else np.array(v, dtype=object).reshape(sh).tolist()
                txt = (A.float2d if nd == 2 else A.float3d)(arg)
            else:
                a = np.array([s.pick([-1, 0, s.i(0, 20), s.i(0, 10**6), -s.i(2, 9)]) for _ in range(int(np.prod(sh)))]).reshape(sh)
                txt = (A.int2d if nd == 2 else A.int3d)(a.tolist())
            got = np.array([[float(x) for x in r] for r in parse(txt, 2)] if nd == 2 else [[[float(x) for x in r] for r in b] for b in parse(txt, 3)])
            c.require(got.shape == tuple(sh) and (got == a).all(), 'CSV of %s is %r' % (a.tolist(), txt))
            fn, out = os.path.join(dr, '%d.csv' % k), os.path.join(dr, '%d.cpp' % k)
            open(fn, 'w').write(txt)
            ns, ob = s.pick(['dg', 'sc', 'subcell']), 'mat_%d' % k
            ct = 'double' if isf else s.pick(['int', 'long'])
            args = [os.path.join(REPO, 'tools/edge_pre/cpp.py'), '-i', fn, '-s', ns, '-n', ob, '-t', ct, '-o', out]
            if not isf and s.b(0.5):  # replacements apply one after the other
                reps = [(-1, 'max'), (-2, -3), (-3, -4), (-4, 7)][:s.i(1, 4)]
                a = a.astype(object)
                args += ['-r']
                for x, y in reps:
                    a[a == x] = (2**31 - 1 if ct == 'int' else 2**63 - 1) if y == 'max' else y
                    args += [str(x), 'std::numeric_limits< %s >::max()' % ct if y == 'max' else str(y)]
            r = subprocess.run([sys.executable] + args, capture_output=True, text=True)
            c.require(r.returncode == 0, 'cpp.py: %s' % r.stderr[-300:])
            src.append(out)
            dims = ''.join('[%d]' % x for x in sh)
            mains.append(('namespace edge { namespace pre { namespace %s { extern %s const g_%s%s; extern %s const * g_%sRaw; extern std::size_t const g_%sSize; } } }' % (ns, ct, ob, dims, ct, ob, ob),
                          '{ auto r = edge::pre::%s::g_%sRaw; std::size_t n = edge::pre::%s::g_%sSize; static_assert( sizeof( edge::pre::%s::g_%s ) == %d*sizeof( %s ), "size" ); std::printf( "%%zu %%d", n, int( (void const*) r == (void const*) edge::pre::%s::g_%s ) ); for( std::size_t i = 0; i < n; i++ ) std::printf( " %%.17g", double( r[i] ) ); std::printf( "\\n" ); }' % (ns, ob, ns, ob, ns, ob, int(np.prod(sh)), ct, ns, ob)))
            exp.append((int(np.prod(sh)), a.ravel()))
        open(os.path.join(dr, 'main.cpp'), 'w').write('#include <cstdio>\n#include <cstddef>\n' + '\n'.join(m[0] for m in mains) + '\nint main() {\n' + '\n'.join(m[1] for m in mains) + '\n}\n')
        r = subprocess.run(['g++', '-std=c++11', '-O0', '-o', os.path.join(dr, 'a.out'), os.path.join(dr, 'main.cpp')] + src, capture_output=True, text=True)
        c.require(r.returncode == 0, 'generated C++ does not compile: ' + r.stderr[-600:])
        o = subprocess.run([os.path.join(dr, 'a.out')], capture_output=True, text=True).stdout.strip().split('\n')
        for l, (m, v) in zip(o, exp):
            w = l.split()
            c.require(int(w[0]) == m and w[1] == '1', 'size or raw pointer')
            c.require(np.array_equal(np.array([float(x) for x in w[2:]]), np.array(v, dtype=float)), 'values of the C++ array: %s instead of %s' % (w[2:], list(v)))
        c.nontrivial(any2)
        c.sample('%d arrays' % n)
    finally:
        shutil.rmtree(dr, ignore_errors=True)


CONF = [('line', 0), ('line', 1), ('line', 2), ('line', 3), ('quad4r', 0), ('quad4r', 1), ('tria3', 0), ('tria3', 1), ('hex8r', 0), ('tet4', 0), ('tet4', 1)]


def refMats(t, d):
    D, nf = DIM[t], NFA[t]
    P, W = quad(t, d + 3)
    B = Phi(t, d, P)
    n = len(B)
    m = (B * W) @ B.T
    h = 1E-4
    dB = []
    for k in range(D):  # exact for the degrees in use up to rounding: central differences of high order
        e = np.zeros(D)
        e[k] = h
        f = lambda z: Phi(t, d, P + z * e)
        dB.append((8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h))
    K = [(B * W) @ q.T for q in dB]
    mi = np.linalg.inv(m)
    r = {'mass': m, 'stiffV': [k @ mi for k in K], 'stiffT': [k.T @ mi for k in K]}
    ft = FACE[t]
    C, V = quad(ft, d + 3)
    b = Phi(ft, d, C)
    mf = (b * V) @ b.T
    pr = [(Phi(t, d, fa2el(t, f, C)) * V) @ b.T @ np.linalg.inv(mf) for f in range(nf)]
    ori = [(Phi(ft, d, fa2fa(t, v, C)) * V) @ b.T for v in range(NORI[t])] if t != 'line' else [np.eye(1)]
    r['fluxL'] = [p @ mf for p in pr]
    r['fluxN'] = [p @ o for o in ori for p in pr]
    r['fluxT'] = [p.T @ mi for p in pr]
    return r, mi


@check(8, 200, 'runs of the driver for random lists of element types and degrees (small degrees); non-trivial: a degree of one or higher')
def driver(s, c):
    ty = [TYPES[k] for k in s.perm(5)[:s.i(1, 2)]]
    cap = {'line': 2, 'quad4r': 1, 'tria3': 1, 'hex8r': 0, 'tet4': 1}
    if os.environ.get('VERIF_TIER') == 'thorough':
        cap = {'line': 2, 'quad4r': 2, 'tria3': 2, 'hex8r': 1, 'tet4': 1}
    if s.b(0.8):
        ty = [t for t in ty if cap[t] > 0] or ['line', 'tria3']
    de = s.perm(1 + min(cap[t] for t in ty))[:s.i(1, 2)]
    dr = os.path.join(c.tmp, 'drv_%d' % os.getpid())
    shutil.rmtree(dr, ignore_errors=True)
    os.makedirs(dr)
    try:
        xm = os.path.join(dr, 'c.xml')
        open(xm, 'w').write('<edge_pre><types>%s</types><degs>%s</degs><out_dirs><dg>%s/o1</dg><subcell>%s/o2</subcell><plots>%s/o3</plots></out_dirs></edge_pre>' % (
            ''.join('<type>%s</type>' % t for t in ty), ''.join('<deg>%d</deg>' % d for d in de), dr, dr, dr))
        # sympy 1.4's plots need older versions of matplotlib and numpy: leave the pictures of the basis functions out
        pre = 'import sys, runpy, sympy.plotting.plot; p = sys.modules["sympy.plotting.plot"]; import matplotlib.pyplot as q; p.MatplotlibBackend.__init__ = lambda *a: None if q.figure() else None; p.MatplotlibBackend.process_series = p.MatplotlibBackend.show = p.MatplotlibBackend.save = p.MatplotlibBackend.close = lambda *a: None; sys.argv = sys.argv[1:]; runpy.run_path( sys.argv[0], run_name="__main__" )'
        r = subprocess.run([sys.executable, '-c', pre, os.path.join(REPO, 'tools/edge_pre/edge_pre.py'), '-x', xm], capture_output=True, text=True, cwd=dr,
                           env=dict(os.environ, PYTHONPATH=os.path.join(REPO, 'tools', 'edge_pre') + ':' + os.environ.get('PYTHONPATH', '')))
        c.require(r.returncode == 0, 'driver: %s' % r.stderr[-500:])
        for t in ty:
            for d in de:
                one(c, dr, t, d)
        c.nontrivial(max(de) > 0)
        c.sample('%s degrees %s' % (ty, de))
    finally:
        shutil.rmtree(dr, ignore_errors=True)


def one(c, dr, t, d):
    w = '%s degree %d: ' % (t, d)
    rd = lambda k, x, n, f=float: [[f(z) for z in r] for r in parse(open('%s/%s/%s/%d/%s_%d_%s.csv' % (dr, k, t, d, t, d, x)).read(), 2)] if n == 2 else [[[f(z) for z in r] for r in b] for b in parse(open('%s/%s/%s/%d/%s_%d_%s.csv' % (dr, k, t, d, t, d, x)).read(), 3)]
    ref, mi = refMats(t, d)
    for k in ref:
        c.closeM(rd('o1', k, 2 if k == 'mass' else 3), ref[k], 1E-7, w + k)
    D, ns = DIM[t], 2 * d + 1
    nsf, nsc, nf = ns**(D - 1), ns**D, NFA[t]
    X = np.array(rd('o2', 'svcrds', 2))
    sv = rd('o2', 'scsv', 2, int)
    if t == 'hex8r':
        sv = [[v[k] for k in HEX] for v in sv[:nsc]] + sv[nsc:]
    ad = rd('o2', 'scsfsc', 2, int)
    ty = rd('o2', 'sctysf', 2, int)
    da = rd('o2', 'scdgad', 2, int)
    c.require(len(sv) == nsc + nf * nsf == len(ad) and len(ty) == nsc, w + 'sizes of the sub-grid')
    g = grid(t, d)
    c.closeM(X, np.array(g['svs'], dtype=float), 1E-12, w + 'sub-vertices')
    c.require(sv == [list(x) for k in range(3) for x in g['sv'][k]], w + 'scSv')
    c.require(ad == [list(x) for k in range(3) for x in g['adj'][k]], w + 'scSfSc')
    c.require(ty == [list(x) for k in range(2) for x in g['ty'][k]], w + 'scTySf')
    P, W = quad(t, d + 2)
    avg = lambda q: (Phi(t, d, P @ affine(t, X[sv[q]])[1] + affine(t, X[sv[q]])[0]) * W).sum(axis=1) / W.sum()
    sc = np.array([avg(q) for q in range(nsc)]).T
    c.closeM(rd('o2', 'scatter', 2), sc, 1E-8, w + 'scatter')
    ga = np.array(rd('o2', 'gather', 2))
    c.require(ga.shape == (nsc, sc.shape[0]), w + 'gather shape')
    c.closeM(sc @ ga, np.eye(len(sc)), 1E-7, w + 'gather does not invert scatter')
    # equal sub-cell volumes: mean conserved, residual orthogonal
    e0 = np.full(nsc, 1. / nsc)
    c.closeM(ga @ (sc @ e0), e0, 1E-7, w + 'gather does not conserve the mean')
    c.closeM((ga @ sc - np.eye(nsc)) @ sc.T, np.zeros((nsc, len(sc))), 1E-6, w + 'gather is no least squares solution')
    ss = np.array(rd('o2', 'scattersurf', 3))
    no = len(da)
    c.require(len(ss) == nf * (1 + no) and no == {1: 1, 2: 1, 3: len(VES[FACE[t]]) if D == 3 else 0}[D], w + 'number of surface scatter matrices')
    for f in range(nf):
        loc = np.array([avg(ad[nsc + f * nsf + q][0]) for q in range(nsf)]).T
        c.closeM(ss[f], loc, 1E-8, w + 'surface scatter, face %d' % f)
        for v in range(no):
            c.closeM(ss[nf + v * nf + f], loc[:, da[v]], 1E-8, w + 'surface scatter of neighbors, face %d orientation %d' % (f, v))
    if t == 'line':
        E = [np.array([Phi(t, d, np.array([[float(f)]]))[:, 0]]) @ mi for f in range(2)]
    else:
        Y, V = quad(FACE[t], d + 2)
        E = []
        for f in range(nf):
            r = []
            for q in range(nsf):
                p = np.array([X[z] for z in sv[nsc + f * nsf + q] if z >= 0])
                pts = p[0] + np.outer(Y[:, 0], p[1] - p[0]) + (np.outer(Y[:, 1], p[2] - p[0]) if D == 3 else 0)
                r.append((Phi(t, d, pts) * V).sum(axis=1) / nsf)
            E.append(np.array(r) @ mi)
    c.closeM(rd('o2', 'sfint', 3), E, 1E-7, w + 'sub-face integration')


if __name__ == '__main__':
    sys.exit(pypbt.main())
