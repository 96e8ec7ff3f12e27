"""Contracts for LAPACK-backed functions.

If every entry of the argument is a number the real LAPACK routine is called.  Otherwise
the result is fresh symbolic variables constrained by the routine's documented contract.
Each constraint carries trigger monomials: the solver front end instantiates
cofactor * constraint lemmas when a trigger divides a monomial it has to reason about.
"""
import math
import numpy as np
import scipy.linalg as sla
import scipy.sparse.linalg as ssl
import scipy.optimize as sopt
from . import poly
from .poly import Sym, Unsupported, isnum, fresh, add_constraint, mono_mul, mono_conj, terms, poly_bound
from .arr import (SymArray, lift, const, wrap, o_, real, imag, conj, matmul, scalarize, cxof, _real_empty, rewrap)

H = {}
REAL = {}

def note(name):
    poly.ST.stubs[name] = poly.ST.stubs.get(name, 0) + 1

def gid(s):
    (m,), = [list(s.t.keys())]
    return m

def matvar(name, m, n, cx, bound=1.0, pos=False):
    R = _real_empty((m, n), object)
    for i in range(m):
        for j in range(n):
            R[i, j] = fresh('%s[%d,%d]' % (name, i, j), 'c' if cx else 'r', bound, pos)
    return R

def nz(s):
    for m in s.t: poly.ST.gens[m[0]].meta = 'nz'
    return s

def key_of(name, M, *extra):
    return (name,) + extra + (M.shape,) + tuple(e.key() if isinstance(e, Sym) else complex(e) for e in o_(M).reshape(-1))

def frob_bound(M):
    return math.sqrt(sum(poly_bound(e) ** 2 for e in o_(M).reshape(-1))) or 1.0

def mon(*xs):
    """product monomial of single-generator symbols"""
    r = ()
    for x in xs:
        if isnum(x): continue
        (m,) = x.t.keys()
        r = mono_mul(r, m)
    return r

def cj(x): return x.conjugate()

def isometry(label, Q, cols=True, both=False):
    """Q^dag Q = I (cols) or Q Q^dag = I"""
    m, n = Q.shape
    if cols:
        for a in range(n):
            for b in range(a, n):
                p = -1.0 if a == b else 0.0
                trig = []
                for i in range(m):
                    p = cj(Q[i, a]) * Q[i, b] + p
                    trig.append(mon(cj(Q[i, a]), Q[i, b]))
                add_constraint(label, p, trig)
    else:
        for a in range(m):
            for b in range(a, m):
                p = -1.0 if a == b else 0.0
                trig = []
                for i in range(n):
                    p = Q[a, i] * cj(Q[b, i]) + p
                    trig.append(mon(Q[a, i], cj(Q[b, i])))
                add_constraint(label, p, trig)

def flip_if_wide(f):
    return f

# ------------------------------------------------------------------ SVD
def svd_stub(M, full_matrices=True):
    M = lift(M)
    k = key_of('svd', M, bool(full_matrices))
    if k in poly.ST.stub_cache:
        U, s, V = poly.ST.stub_cache[k]
        return U.copy(), s.copy(), V.copy()
    note('svd')
    cx = bool(M._cx)
    m, n = M.shape
    r = min(m, n)
    nu, nv = (m, n) if full_matrices else (r, r)
    t = len(poly.ST.stub_cache)
    U = matvar('U%d' % t, m, nu, cx)
    V = matvar('V%d' % t, nv, n, cx)
    fb = frob_bound(M)
    s = _real_empty((r,), object)
    for a in range(r):
        s[a] = nz(fresh('s%d[%d]' % (t, a), 'r', fb, True))
    A = o_(M)
    for i in range(m):
        for j in range(n):
            p = -A[i, j] if isinstance(A[i, j], Sym) else -A[i, j]
            trig = []
            for a in range(r):
                p = U[i, a] * s[a] * V[a, j] + p
                trig.append(mon(U[i, a], s[a], V[a, j]))
            add_constraint('svd:USV=M', p, trig)
    # consequences, used for rewriting only ('@')
    for i in range(m):
        for a in range(r):
            p = U[i, a] * s[a]
            for j in range(n): p = p - A[i, j] * cj(V[a, j])
            add_constraint('@svd:US=MV+', p, [mon(U[i, a], s[a])])
    for a in range(r):
        for j in range(n):
            p = s[a] * V[a, j]
            for i in range(m): p = p - cj(U[i, a]) * A[i, j]
            add_constraint('@svd:SV=U+M', p, [mon(s[a], V[a, j])])
    isometry('svd:U+U=1', U, True)
    if nu == m: isometry('svd:UU+=1', U, False)
    isometry('svd:VV+=1', V, False)
    if nv == n: isometry('svd:V+V=1', V, True)
    poly.ST.assumed.append('matrices given to svd have nonzero singular values (sorted, nonnegative)')
    poly.ST.sorted_s = getattr(poly.ST, 'sorted_s', []) + [[x for x in s]]
    if m == 1: poly.ST.factors.append(U[0, 0] * s[0])
    if n == 1: poly.ST.factors.append(s[0] * V[0, 0])
    res = (wrap(U, cx), wrap(s, False), wrap(V, cx))
    poly.ST.stub_cache[k] = res
    return res[0].copy(), res[1].copy(), res[2].copy()

# ------------------------------------------------------------------ QR / RQ
def qr_stub(M, full=False):
    M = lift(M)
    k = key_of('qr', M, bool(full))
    if k in poly.ST.stub_cache:
        return tuple(x.copy() for x in poly.ST.stub_cache[k])
    note('qr')
    cx = bool(M._cx)
    m, n = M.shape
    r = m if full else min(m, n)
    t = len(poly.ST.stub_cache)
    Q = matvar('Q%d' % t, m, r, cx)
    R = matvar('R%d' % t, r, n, cx, frob_bound(M))
    for i in range(r):
        for j in range(n):
            if i > j: R[i, j] = 0.0
    A = o_(M)
    for i in range(m):
        for j in range(n):
            p = 0.0 - A[i, j]
            trig = []
            for a in range(r):
                if isinstance(R[a, j], Sym):
                    p = Q[i, a] * R[a, j] + p
                    trig.append(mon(Q[i, a], R[a, j]))
            add_constraint('qr:QR=M', p, trig)
    isometry('qr:Q+Q=1', Q, True)
    for a in range(r):          # implied: Q+ M = R
        for j in range(n):
            p = -R[a, j]
            trig = []
            for i in range(m):
                p = cj(Q[i, a]) * A[i, j] + p
                trig += [mono_mul(mon(cj(Q[i, a])), q) for q in terms(A[i, j])]
            if isinstance(p, Sym): add_constraint('qr:Q+M=R', p, trig)
    if r == m: isometry('qr:QQ+=1', Q, False)
    if n == 1: poly.ST.factors.append(R[0, 0])
    res = (wrap(Q, cx), wrap(R, cx))
    poly.ST.stub_cache[k] = res
    return tuple(x.copy() for x in res)

def rq_stub(M, full=False):
    M = lift(M)
    k = key_of('rq', M, bool(full))
    if k in poly.ST.stub_cache:
        return tuple(x.copy() for x in poly.ST.stub_cache[k])
    note('rq')
    cx = bool(M._cx)
    m, n = M.shape
    r = n if full else min(m, n)
    t = len(poly.ST.stub_cache)
    R = matvar('R%d' % t, m, r, cx, frob_bound(M))
    Q = matvar('Q%d' % t, r, n, cx)
    for i in range(m):
        for j in range(r):
            if i - (m - r) > j: R[i, j] = 0.0
    A = o_(M)
    for i in range(m):
        for j in range(n):
            p = 0.0 - A[i, j]
            trig = []
            for a in range(r):
                if isinstance(R[i, a], Sym):
                    p = R[i, a] * Q[a, j] + p
                    trig.append(mon(R[i, a], Q[a, j]))
            add_constraint('rq:RQ=M', p, trig)
    isometry('rq:QQ+=1', Q, False)
    for i in range(m):          # implied: M Q+ = R
        for a in range(r):
            p = -R[i, a]
            trig = []
            for j in range(n):
                p = A[i, j] * cj(Q[a, j]) + p
                trig += [mono_mul(mon(cj(Q[a, j])), q) for q in terms(A[i, j])]
            if isinstance(p, Sym): add_constraint('rq:MQ+=R', p, trig)
    if r == n: isometry('rq:Q+Q=1', Q, True)
    if m == 1: poly.ST.factors.append(R[0, 0])
    res = (wrap(R, cx), wrap(Q, cx))
    poly.ST.stub_cache[k] = res
    return tuple(x.copy() for x in res)

# ------------------------------------------------------------------ eigen
def conj_sandwich(label, V, M, lam, unitary=True):
    """V^dag M V = diag(lam) with triggers on V~ * monomials(M) * V, and V lam V^dag = M"""
    n = M.shape[0]
    A = o_(M)
    for a in range(n):
        for b in range(n):
            p = 0.0
            trig = []
            for i in range(n):
                for j in range(n):
                    if isnum(A[i, j]) and A[i, j] == 0: continue
                    p = cj(V[i, a]) * A[i, j] * V[j, b] + p
                    for m_ in terms(A[i, j]):
                        trig.append(mono_mul(mon(cj(V[i, a]), V[j, b]), m_))
            if a == b: p = p - lam[a]
            if isinstance(p, Sym): add_constraint(label + ':V+MV=D', p, trig)

def eigh_stub(M):
    M = lift(M)
    k = key_of('eigh', M)
    if k in poly.ST.stub_cache:
        return tuple(x.copy() for x in poly.ST.stub_cache[k])
    note('eigh')
    cx = bool(M._cx)
    n = M.shape[0]
    if n == 1:      # LAPACK returns the eigenvector 1
        V = _real_empty((1, 1), object)
        V[0, 0] = 1.0
        lam = _real_empty((1,), object)
        x = o_(M)[0, 0]
        if isinstance(x, Sym):
            poly.ST.nzpoly.add(frozenset(x.t.items())); poly.ST.assumed.append('eigenvalues nonzero')
            x = (x + x.conjugate()) * 0.5
        lam[0] = x
        return wrap(lam, False), wrap(V, cx)
    # LAPACK only reads one triangle: contract stated for Hermitian input
    A = o_(M)
    for i in range(n):
        for j in range(i, n):
            d = A[i, j] - A[j, i].conjugate()
            if isinstance(d, Sym):
                poly.ST.assumed.append('eigh argument Hermitian (given the other constraints)')
    t = len(poly.ST.stub_cache)
    V = matvar('W%d' % t, n, n, cx)
    lam = _real_empty((n,), object)
    fb = frob_bound(M)
    for a in range(n):
        lam[a] = nz(fresh('lam%d[%d]' % (t, a), 'r', fb, True))
    poly.ST.assumed.append('eigenvalues of the Hermitian matrices diagonalised are nonzero, positive')
    isometry('eigh:V+V=1', V, True)
    isometry('eigh:VV+=1', V, False)
    for i in range(n):
        for j in range(n):
            p = 0.0 - A[i, j]
            trig = []
            for a in range(n):
                p = V[i, a] * lam[a] * cj(V[j, a]) + p
                trig.append(mon(V[i, a], lam[a], cj(V[j, a])))
            add_constraint('eigh:VDV+=M', p, trig)
    conj_sandwich('eigh', V, M, lam)
    res = (wrap(lam, False), wrap(V, cx))
    poly.ST.stub_cache[k] = res
    return tuple(x.copy() for x in res)

def is_hermitian(A):
    n = A.shape[0]
    for i in range(n):
        for j in range(i, n):
            x, y = A[i, j], A[j, i]
            d = x - (y.conjugate() if hasattr(y, 'conjugate') else y)
            if isinstance(d, Sym):
                if d.t and max(abs(v) for v in d.t.values()) > 1e-12: return False
            elif abs(d) > 1e-12: return False
    return True

def eig_stub(M):
    """general eigenproblem: only M V = V D"""
    M = lift(M)
    k = key_of('eig', M)
    if k in poly.ST.stub_cache:
        return tuple(x.copy() for x in poly.ST.stub_cache[k])
    note('eig')
    n = M.shape[0]
    A = o_(M)
    t = len(poly.ST.stub_cache)
    if n == 1:
        V = _real_empty((1, 1), object)
        V[0, 0] = 1.0
        if isinstance(A[0, 0], Sym):
            poly.ST.nzpoly.add(frozenset(A[0, 0].t.items())); poly.ST.assumed.append('eigenvalues nonzero')
        return wrap(o_(M).reshape(1).copy(), M._cx), wrap(V, M._cx)
    if is_hermitian(A):
        # distinct eigenvalues: the normalised eigenvectors are orthonormal, the eigenvalues real
        poly.ST.assumed.append('Hermitian matrices given to eig have distinct nonzero eigenvalues')
        poly.ST.stub_cache[k] = None
        lam, V = eigh_stub(M)
        res = (wrap(o_(lam), True), wrap(o_(V), True))
        poly.ST.stub_cache[k] = res
        return tuple(x.copy() for x in res)
    V = matvar('W%d' % t, n, n, True)
    lam = _real_empty((n,), object)
    fb = frob_bound(M)
    for a in range(n):
        lam[a] = fresh('lam%d[%d]' % (t, a), 'c', fb)
    for i in range(n):
        for a in range(n):
            p = V[i, a] * lam[a]
            trig = [mon(V[i, a], lam[a])]
            for j in range(n):
                p = p - A[i, j] * V[j, a]
            add_constraint('eig:MV=VD', p, trig)
    for a in range(n):
        p = -1.0
        for i in range(n): p = V[i, a] * cj(V[i, a]) + p
        add_constraint('eig:|v|=1', p, [mon(V[i, a], cj(V[i, a])) for i in range(n)])
    poly.ST.assumed.append('eigenvalues nonzero')
    res = (wrap(lam, True), wrap(V, True))
    poly.ST.stub_cache[k] = res
    return tuple(x.copy() for x in res)

# ------------------------------------------------------------------ inverse, Cholesky, ...
def is_diag(M):
    A = o_(M)
    return all(i == j or (isnum(A[i, j]) and A[i, j] == 0) for i in range(A.shape[0]) for j in range(A.shape[1]))

def inv_stub(M):
    M = lift(M)
    n = M.shape[0]
    if M.ndim != 2 or M.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    A = o_(M)
    if is_diag(M):
        R = _real_empty((n, n), object); R[...] = 0.0
        for i in range(n):
            R[i, i] = poly.inverse(A[i, i]) if isinstance(A[i, i], Sym) else 1 / A[i, i]
        return wrap(R, M._cx)
    tri = triangular(A)
    if tri: return wrap(tri_inverse(A, tri), M._cx)
    k = key_of('inv', M)
    if k in poly.ST.stub_cache: return poly.ST.stub_cache[k].copy()
    note('inv')
    t = len(poly.ST.stub_cache)
    W = matvar('inv%d' % t, n, n, bool(M._cx), 1e3)
    for i in range(n):
        for j in range(n):
            p = q = -1.0 if i == j else 0.0
            tp, tq = [], []
            for a in range(n):
                p = W[i, a] * A[a, j] + p
                q = A[i, a] * W[a, j] + q
                tp += [mono_mul(mon(W[i, a]), m) for m in terms(A[a, j])]
                tq += [mono_mul(mon(W[a, j]), m) for m in terms(A[i, a])]
            add_constraint('inv:WM=1', p, tp)
            add_constraint('inv:MW=1', q, tq)
    poly.ST.assumed.append('matrix given to inv is invertible')
    res = wrap(W, M._cx)
    poly.ST.stub_cache[k] = res
    return res.copy()

def iszero(x): return isnum(x) and x == 0

def triangular(A):
    """'l' / 'u' for a triangular matrix whose diagonal entries are single monomials (inverses are then exact)"""
    n = A.shape[0]
    if any(iszero(A[i, i]) or (not isnum(A[i, i]) and len(A[i, i].t) != 1) for i in range(n)): return None
    if all(iszero(A[i, j]) for i in range(n) for j in range(i + 1, n)): return 'l'
    if all(iszero(A[j, i]) for i in range(n) for j in range(i + 1, n)): return 'u'

def tri_inverse(A, kind):
    n = A.shape[0]
    if kind == 'u': return tri_inverse(A.T, 'l').T
    R = _real_empty((n, n), object); R[...] = 0.0
    one = lambda x: poly.inverse(x) if isinstance(x, Sym) else 1 / x
    for j in range(n):
        R[j, j] = one(A[j, j])
        for i in range(j + 1, n):
            p = 0.0
            for k in range(j, i): p = p - A[i, k] * R[k, j]
            R[i, j] = p * one(A[i, i]) if not iszero(p) else 0.0
    return R

def known_cholesky(L):
    """L L^dag for a lower triangular L with positive diagonal, remembered as having the factor L"""
    L = lift(L)
    M = matmul(L, conj(L).T)
    poly.ST.stub_cache[key_of('chol', M)] = L.copy()
    if triangular(o_(L)) == 'l':
        W = wrap(tri_inverse(o_(L), 'l'), L._cx)
        poly.ST.stub_cache[key_of('inv', M)] = matmul(conj(W).T, W)
    return M

def cholesky_stub(M):
    M = lift(M)
    n = M.shape[0]
    A = o_(M)
    if is_diag(M):
        R = _real_empty((n, n), object); R[...] = 0.0
        for i in range(n):
            x = A[i, i]
            R[i, i] = poly.sqrt(x.real if isinstance(x, (Sym, complex)) else x)
        return wrap(R, M._cx)
    k = key_of('chol', M)
    if k in poly.ST.stub_cache: return poly.ST.stub_cache[k].copy()
    note('cholesky')
    t = len(poly.ST.stub_cache)
    fb = math.sqrt(frob_bound(M))
    L = _real_empty((n, n), object)
    for i in range(n):
        for j in range(n):
            L[i, j] = 0.0 if j > i else fresh('L%d[%d,%d]' % (t, i, j), 'r' if (i == j or not M._cx) else 'c', fb, i == j)
    for i in range(n):
        for j in range(i + 1):
            p = 0.0 - A[i, j]; trig = []
            for a in range(j + 1):
                p = L[i, a] * cj(L[j, a]) + p
                trig.append(mon(L[i, a], cj(L[j, a])))
            add_constraint('chol:LL+=M', p, trig)
    poly.ST.assumed.append('matrix given to cholesky is positive definite')
    res = wrap(L, M._cx)
    poly.ST.stub_cache[k] = res
    return res.copy()

def det_exact(M):
    A = o_(lift(M))
    n = A.shape[0]
    if n == 1: return A[0, 0]
    r = 0.0
    for j in range(n):
        if isnum(A[0, j]) and A[0, j] == 0: continue
        sub = np.delete(np.delete(A, 0, 0), j, 1)
        r = r + (-1) ** j * (A[0, j] * det_exact(wrap(sub, True)))
    return r

def norm_(x, ord=None, axis=None, keepdims=False, check_finite=True):
    x = lift(x)
    if ord not in (None, 'fro', 2) or (ord == 2 and x.ndim == 2):
        raise Unsupported('norm ord')
    def nrm(v):
        p = 0.0
        for e in v.reshape(-1):
            p = p + (e * e.conjugate()).real if isinstance(e, Sym) else p + abs(e) ** 2
        if isinstance(p, Sym): p = Sym(p.t, False)
        return poly.sqrt(p)
    A = o_(x)
    if axis is None:
        return rewrap(nrm(A), False)
    if isinstance(axis, (tuple, list)): raise Unsupported('norm axis')
    B = np.moveaxis(A, axis, -1)
    R = _real_empty(B.shape[:-1], object)
    for ix in np.ndindex(*B.shape[:-1]): R[ix] = nrm(B[ix])
    if keepdims: R = np.expand_dims(R, axis)
    return scalarize(wrap(R, False))

def polar_stub(M, side='right'):
    M = lift(M)
    n, m = M.shape
    if n != m or side != 'right': raise Unsupported('polar')
    k = key_of('polar', M)
    if k in poly.ST.stub_cache: return tuple(x.copy() for x in poly.ST.stub_cache[k])
    note('polar')
    t = len(poly.ST.stub_cache)
    cx = bool(M._cx)
    U = matvar('PU%d' % t, n, n, cx)
    P = matvar('PP%d' % t, n, n, cx, frob_bound(M))
    A = o_(M)
    for i in range(n):
        P[i, i] = fresh('PP%d[%d,%d]r' % (t, i, i), 'r', frob_bound(M), True)
        for j in range(i): P[i, j] = P[j, i].conjugate()
    for i in range(n):
        for j in range(n):
            p = 0.0 - A[i, j]; trig = []
            for a in range(n):
                p = U[i, a] * P[a, j] + p; trig.append(mon(U[i, a], P[a, j]))
            add_constraint('polar:UP=M', p, trig)
            p = 0.0 - P[i, j]; trig = []
            for a in range(n):
                if iszero(A[a, j]): continue
                p = U[a, i].conjugate() * A[a, j] + p
                trig += [mono_mul(mon(U[a, i].conjugate()), m) for m in poly.terms(A[a, j])]
            add_constraint('polar:U+M=P', p, trig)
    isometry('polar', U, True); isometry('polar', U, False)
    res = (wrap(U, cx), wrap(P, cx))
    poly.ST.stub_cache[k] = res
    return tuple(x.copy() for x in res)

def primitive_rows(M):
    """rows without the generators common to every term of the row (nonzero factors do not change the kernel)"""
    B = o_(M).copy()
    for i in range(B.shape[0]):
        ms = [q for e in B[i] if isinstance(e, Sym) for q in e.t]
        if any(isnum(e) and e != 0 for e in B[i]) or not ms: continue
        common = set(ms[0])
        for q in ms: common &= set(q)
        common = {g for g in common if not (poly.ST.gens[g].role == 'input')}
        for g in common:
            for j in range(B.shape[1]):
                e = B[i, j]
                if isinstance(e, Sym):
                    t = {}
                    for q, v in e.t.items():
                        l = list(q); l.remove(g); t[tuple(l)] = v
                    B[i, j] = Sym(t, e.cx)
    return wrap(B, M._cx)

def orthogonal_rows(B):
    """k if B B+ = k 1 with a number k > 0 follows from the constraints"""
    from . import solve
    m, n = B.shape
    k = None
    for i in range(m):
        for j in range(i, m):
            p = 0.0
            for x in range(n): p = p + B[i, x] * cj(B[j, x])
            p = solve.normal_form(p)
            if not isnum(p): return None
            p = complex(p)
            if i != j:
                if abs(p) > 1e-9: return None
            elif k is None: k = p.real
            elif abs(p - k) > 1e-9: return None
    return k

def null_stub(A, rcond=None):
    """columns spanning the kernel; assumes full row rank"""
    M = primitive_rows(lift(A))
    m, n = M.shape
    k = key_of('null', M)
    if k in poly.ST.stub_cache: return poly.ST.stub_cache[k].copy()
    note('null_space')
    r = max(n - m, 0)
    t = len(poly.ST.stub_cache)
    cx = bool(M._cx)
    N = matvar('N%d' % t, n, r, cx)
    B = o_(M)
    for i in range(m):
        for a in range(r):
            p = 0.0; trig = []
            for j in range(n):
                p = B[i, j] * N[j, a] + p
                trig += [mono_mul(mon(N[j, a]), q) for q in terms(B[i, j])]
            add_constraint('null:AN=0', p, trig)
    isometry('null:N+N=1', N, True)
    k2 = orthogonal_rows(B) if m < n else None
    if m == 1 and k2 is None:      # N N+ is the projector on the complement of the row
        nn = 0.0
        for j in range(n): nn = B[0, j] * cj(B[0, j]) + nn
        for i in range(n):
            for j in range(i, n):
                p = cj(B[0, i]) * B[0, j]
                if i == j: p = p - nn
                trig = []
                for a in range(r):
                    p = nn * N[i, a] * cj(N[j, a]) + p
                    trig += [mono_mul(mon(N[i, a], cj(N[j, a])), q) for q in terms(nn)]
                add_constraint('null:NN+=P', p, trig)
    if m < n:
        if k2 is not None:      # rows are orthogonal with equal norms: N N+ = 1 - B+B / k2
            for i in range(n):
                for j in range(i, n):
                    p = -1.0 if i == j else 0.0
                    trig = []
                    for a in range(r):
                        p = N[i, a] * cj(N[j, a]) + p
                        trig.append(mon(N[i, a], cj(N[j, a])))
                    for a in range(m): p = p + cj(B[a, i]) * B[a, j] * (1 / k2)
                    add_constraint('null:NN+=1-B+B', p, trig)
    poly.ST.assumed.append('matrix given to null_space has full row rank')
    res = wrap(N, cx)
    poly.ST.stub_cache[k] = res
    return res.copy()

# ------------------------------------------------------------------ numpy.linalg entry points
def viaconst(real_fn, stub):
    def f(a, *args, **kw):
        c = const(lift(a)) if not isinstance(a, (list, tuple)) or True else None
        if c is not None:
            return real_fn(c, *args, **kw)
        if stub is None:
            raise Unsupported('%s of a symbolic matrix' % real_fn.__name__)
        return stub(a, *args, **kw)
    f.__name__ = real_fn.__name__
    f.__doc__ = real_fn.__doc__
    return f

def np_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    if lift(a).ndim != 2: raise Unsupported('stacked svd')
    U, s, V = svd_stub(a, full_matrices)
    return (U, s, V) if compute_uv else s
def sp_svd(a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver='gesdd'):
    if lapack_driver not in ('gesdd', 'gesvd'): raise ValueError('lapack_driver must be one of gesdd, gesvd')
    if lift(a).ndim != 2: raise ValueError('expected matrix')
    U, s, V = svd_stub(a, full_matrices)
    return (U, s, V) if compute_uv else s
def np_qr(a, mode='reduced'):
    if mode in ('reduced', 'complete'):
        return qr_stub(a, mode == 'complete')
    if mode == 'r': return qr_stub(a, False)[1]
    raise Unsupported('qr mode')
def sp_qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    if pivoting: raise Unsupported('pivoted qr')
    if mode == 'r': return (qr_stub(a, True)[1],)
    return qr_stub(a, mode == 'full')
def sp_rq(a, overwrite_a=False, lwork=None, mode='full', check_finite=True):
    if mode == 'r': return rq_stub(a, True)[0]
    return rq_stub(a, mode == 'full')
def np_eigh(a, UPLO='L'): return eigh_stub(a)
def sp_eigh(a, b=None, **k):
    if b is not None or k.get('eigvals_only'): raise Unsupported('eigh options')
    return eigh_stub(a)
def np_eig(a): return eig_stub(a)
def sp_eig(a, b=None, left=False, right=True, **k):
    if b is not None or left or not right: raise Unsupported('eig options')
    return eig_stub(a)
def sp_inv(a, overwrite_a=False, check_finite=True): return inv_stub(a)
def sp_chol(a, lower=False, **k):
    L = cholesky_stub(a)
    return L if lower else conj(L).T
def np_det(a): return rewrap(det_exact(a), lift(a)._cx)
def sp_norm(a, ord=None, axis=None, keepdims=False, check_finite=True): return norm_(a, ord, axis, keepdims)

def sp_block_diag(*arrs):
    arrs = [lift(a) for a in arrs]
    arrs = [a.reshape(1, -1) if a.ndim < 2 else a for a in arrs]
    m = sum(a.shape[0] for a in arrs); n = sum(a.shape[1] for a in arrs)
    R = _real_empty((m, n), object); R[...] = 0.0
    i = j = 0
    for a in arrs:
        R[i:i + a.shape[0], j:j + a.shape[1]] = o_(a); i += a.shape[0]; j += a.shape[1]
    return wrap(R, cxof(*arrs))

import scipy.linalg as _sl
_EXPM = _sl.expm

def components_of(A):
    """index sets of the blocks of a matrix that is block diagonal up to a permutation"""
    n = A.shape[0]
    left, out = set(range(n)), []
    while left:
        todo, comp = [min(left)], set()
        while todo:
            i = todo.pop()
            if i in comp: continue
            comp.add(i)
            todo += [j for j in left - comp if not (isnum(A[i, j]) and A[i, j] == 0) or not (isnum(A[j, i]) and A[j, i] == 0)]
        left -= comp
        out.append(sorted(comp))
    return out

def sp_expm(a):
    M = lift(a)
    if M.ndim != 2 or M.shape[0] != M.shape[1]: raise ValueError('expected a square matrix')
    A = o_(M)
    n = M.shape[0]
    R = _real_empty((n, n), object); R[...] = 0.0
    for c in components_of(A):
        B = A[np.ix_(c, c)]
        if len(c) == 1: E = [[poly.unary('exp', B[0, 0])]]
        else: E = o_(expm_block(wrap(B, M._cx)))
        for x, i in enumerate(c):
            for y, j in enumerate(c): R[i, j] = E[x][y]
    return wrap(R, M._cx)

def expm_block(M):
    """exp of a skew-Hermitian block: a unitary that commutes with its generator; exp(-M) = exp(M)+"""
    c = const(M)
    if c is not None: return lift(_EXPM(c))
    A = o_(M)
    n = A.shape[0]
    k, kn = key_of('expm', M), key_of('expm', -M)
    if k in poly.ST.stub_cache: return poly.ST.stub_cache[k].copy()
    if kn in poly.ST.stub_cache: return np.conj(poly.ST.stub_cache[kn]).T.copy()
    for i in range(n):
        for j in range(n):
            s = A[i, j] + A[j, i].conjugate()
            if isinstance(s, Sym) and s.t and max(abs(v) for v in s.t.values()) > 1e-12 or isnum(s) and abs(s) > 1e-12:
                raise Unsupported('expm of a symbolic matrix that is not skew-Hermitian')
    note('expm')
    t = len(poly.ST.stub_cache)
    U = matvar('X%d' % t, n, n, bool(M._cx))
    isometry('expm:U+U=1', U, True)
    isometry('expm:UU+=1', U, False)
    for i in range(n):
        for j in range(n):
            p, trig = 0.0, []
            for a in range(n):
                p = U[i, a] * A[a, j] - A[i, a] * U[a, j] + p
                for m_ in terms(A[a, j]): trig.append(mono_mul(mon(U[i, a]), m_))
            if isinstance(p, Sym): add_constraint('expm:UM=MU', p, trig)
            p, trig = 0.0 - A[i, j], []
            for a in range(n):
                for b in range(n):
                    p = cj(U[a, i]) * A[a, b] * U[b, j] + p
                    for m_ in terms(A[a, b]): trig.append(mono_mul(mon(cj(U[a, i]), U[b, j]), m_))
            if isinstance(p, Sym): add_constraint('expm:U+MU=M', p, trig)
    poly.ST.stub_cache[k] = wrap(U, M._cx)
    return poly.ST.stub_cache[k].copy()

NP = {'svd': np_svd, 'qr': np_qr, 'eigh': np_eigh, 'eig': np_eig, 'inv': lambda a: inv_stub(a), 'cholesky': lambda a: cholesky_stub(a),
      'det': np_det, 'eigvals': None, 'eigvalsh': None, 'solve': None, 'pinv': None, 'matrix_rank': None, 'lstsq': None}
for n, st in NP.items():
    fn = getattr(np.linalg, n)
    if n in ('solve', 'lstsq'):
        def solve(a, b, *r, _f=fn, **k):
            ca, cb = const(lift(a)), const(lift(b))
            if ca is not None and cb is not None: return _f(ca, cb, *r, **k)
            if ca is not None and _f.__name__ == 'solve':
                return matmul(np.linalg.inv(ca), b)
            raise Unsupported('solve')
        H[fn] = solve
    else:
        H[fn] = viaconst(fn, st)
def np_norm(x, ord=None, axis=None, keepdims=False):
    c = const(lift(x))
    if c is not None: return np.linalg.norm(c, ord, axis, keepdims)
    return norm_(x, ord, axis, keepdims)
H[np.linalg.norm] = np_norm

SP = {'svd': sp_svd, 'qr': sp_qr, 'rq': sp_rq, 'eigh': sp_eigh, 'eig': sp_eig, 'inv': sp_inv, 'cholesky': sp_chol,
      'norm': sp_norm, 'polar': polar_stub, 'null_space': null_stub, 'expm': sp_expm, 'det': lambda a, **k: np_det(a),
      'orth': None, 'sqrtm': None, 'logm': None, 'eigvals': None, 'eigvalsh': None, 'svdvals': None, 'pinv': None, 'lu': None,
      'schur': None}

def has_sym_arg(args):
    for a in args:
        if isinstance(a, (SymArray, Sym)): return True
        if isinstance(a, (list, tuple)) and has_sym_arg(a): return True
    return False

def sp_wrapper(name, real_fn, stub):
    def f(*args, **kw):
        if not has_sym_arg(args) and not has_sym_arg(kw.values()):
            return real_fn(*args, **kw)
        if name in FAULTS and FAULTS[name]:
            if FAULTS[name].pop(0): raise np.linalg.LinAlgError('SVD did not converge')
        if name == 'block_diag':
            return sp_block_diag(*args)
        a = args[0] if args else kw.pop('a', kw.pop('A', None))
        c = const(lift(a))
        rest = [const(lift(x)) if isinstance(x, (SymArray, Sym)) else x for x in args[1:]]
        if c is not None and all(x is not None or args[1 + i] is None for i, x in enumerate(rest)):
            return real_fn(c, *rest, **kw)
        if stub is None:
            raise Unsupported('scipy.linalg.%s of a symbolic matrix' % name)
        return stub(a, *args[1:], **kw)
    f.__name__ = name
    f.__wrapped__ = real_fn
    return f

FAULTS = {}

def patch_scipy():
    for n, st in list(SP.items()) + [('block_diag', sp_block_diag)]:
        fn = getattr(sla, n)
        REAL['sla.' + n] = fn
        setattr(sla, n, sp_wrapper(n, fn, st))
    import scipy
    REAL['ssl.expm'] = ssl.expm
    ssl.expm = sp_wrapper('expm', ssl.expm, sp_expm)
    # scipy.sparse.linalg: numeric arguments only
    em = ssl.expm_multiply
    REAL['ssl.expm_multiply'] = em
    def expm_multiply(A, B, *a, **k):
        if not has_sym_arg((A, B)): return em(A, B, *a, **k)
        if a or k: raise Unsupported('expm_multiply options')
        return matmul(sp_expm(A) if has_sym_arg((A,)) and const(lift(A)) is None else lift(_EXPM(const(lift(A)))), B)
    ssl.expm_multiply = expm_multiply
    for n in ('eigs', 'eigsh', 'gmres', 'bicgstab', 'svds'):
        fn = getattr(ssl, n)
        REAL['ssl.' + n] = fn
        def g(A, *args, _f=fn, _n=n, **kw):
            if isinstance(A, SymArray):
                A2 = const(A)
                if A2 is None: raise Unsupported('scipy.sparse.linalg.%s of a symbolic matrix' % _n)
                A = A2
            args = [const(lift(x)) if isinstance(x, SymArray) else x for x in args]
            return _f(A, *args, **kw)
        g.__name__ = n
        setattr(ssl, n, g)
