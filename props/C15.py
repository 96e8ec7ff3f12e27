"""Uniform states: dominant eigenmatrices, canonical forms, expectation values, null-space projectors."""
import contextlib
import numpy as np
import scipy.linalg
import xmps.iMPS
from xmps.iMPS import iMPS, ivMPS, TransferMatrix, Map
from xmps.tensor import rotate_to_hermitian
from . import ref
from .C13 import replaced
from symx import poly, stubs, solve
from symx.arr import wrap, o_, lift

BOUNDS = ('one-tensor cells, D=2 (canonical forms, values, projectors) and D<=3 (maps), d<=3, every tensor entry and operator entry free; the dominant eigenpair is taken by its contract: '
          'one positive eigenvalue, positive definite left and right eigenmatrices (so the state is injective); the iteration that finds it is not executed')

# ------------------------------------------------------------------ contract of the dominant eigenpair
def pos_gen(name, D):
    """a positive matrix, given by its Cholesky factor"""
    L = np.empty((D, D), object); L[...] = 0.0
    for i in range(D):
        for j in range(i + 1):
            L[i, j] = poly.fresh('chol_%s[%d,%d]' % (name, i, j), 'r' if i == j else 'c', 2.0, i == j)
            if i == j: stubs.nz(L[i, j])
    return stubs.known_cholesky(wrap(L, True))

def fix(a, b, x, eta, label):
    """constraint: sum_s a[s] x b[s]^dag = eta x"""
    d, D, E = a.shape
    for i in range(D):
        for j in range(D):
            p = 0.0 - eta * x[i, j]; tp = []
            for s in range(d):
                for k in range(E):
                    for l in range(E):
                        p = p + a[s, i, k] * x[k, l] * b[s, j, l].conjugate()
                        for m0 in poly.terms(a[s, i, k]):
                            for m1 in poly.terms(b[s, j, l].conjugate()):
                                tp += [stubs.mono_mul(stubs.mono_mul(m0, m1), m) for m in poly.terms(x[k, l])]
            poly.add_constraint(label, p, tp)

def positive_point(a):
    """(eigenvalue, matrix) if a positive eigenmatrix of x -> sum a x a^dag is evident: the identity"""
    d, D, _ = a.shape
    e = None
    for i in range(D):
        for j in range(i, D):
            p = 0.0
            for s in range(d):
                for k in range(D): p = p + a[s, i, k] * a[s, j, k].conjugate()
            p = solve.normal_form(p)
            if i != j:
                if not (poly.isnum(p) and abs(p) < 1e-9): return None
            elif e is None: e = p
            elif not poly.isnum(p - e) or abs(p - e) > 1e-9: return None
    return e

def fixed_points(A):
    """eta > 0, positive l, r with sum A r A+ = eta r, sum A^T l A* = eta l, tr(l r) = 1"""
    d, D, _ = A.shape
    a = o_(lift(A))
    at = np.transpose(a, [0, 2, 1])
    e = positive_point(at)
    if e is not None and positive_point(a) is not None:      # both: the state being injective, these are the only ones
        x = np.empty((D, D), object); x[...] = 0.0
        for i in range(D): x[i, i] = D ** -0.5
        return wrap(np.array(e, object).reshape(()), False), wrap(x, True), wrap(x.copy(), True)
    if e is not None:           # left isometry: l = c 1 and the eigenvalue is known
        r = o_(pos_gen('r', D))
        tr = 0.0
        for i in range(D): tr = tr + r[i, i]
        c = poly.inverse(tr)
        l = np.empty((D, D), object); l[...] = 0.0
        for i in range(D): l[i, i] = c
        fix(a, a, r, e, 'fixed point:ArA+=r')
        return wrap(np.array(e, object).reshape(()), False), wrap(l, True), wrap(r, True)
    e = positive_point(a)
    if e is not None:
        l = o_(pos_gen('l', D))
        tr = 0.0
        for i in range(D): tr = tr + l[i, i]
        c = poly.inverse(tr)
        r = np.empty((D, D), object); r[...] = 0.0
        for i in range(D): r[i, i] = c
        fix(at, at, l, e, 'fixed point:A+lA=l')
        return wrap(np.array(e, object).reshape(()), False), wrap(l, True), wrap(r, True)
    eta = stubs.nz(poly.fresh('eta', 'r', 8.0, True))
    l = o_(pos_gen('l', D)); r = o_(pos_gen('r', D))
    fix(a, a, r, eta, 'fixed point:ArA+=r')
    fix(at, at, l, eta, 'fixed point:A+lA=l')
    p = -1.0
    for i in range(D):
        for j in range(D): p = p + l[i, j] * r[j, i]
    poly.add_constraint('fixed point:tr(lr)=1', p, [m for m in p.t if m])
    return wrap(np.array(eta, object).reshape(()), False), wrap(l, True), wrap(r, True)

@contextlib.contextmanager
def dominant(env):
    """TransferMatrix.eigs replaced by its contract in symbolic runs"""
    if not env.sym:
        yield; return
    memo = {}
    def eigs(self, l0=None, r0=None):
        k = stubs.key_of('eigs', lift(self.A))
        if k not in memo:
            stubs.note('eigs'); memo[k] = fixed_points(self.A)
        return tuple(x.copy() for x in memo[k])
    with replaced(TransferMatrix, eigs=eigs): yield

def word(B, w):
    X = B[w[0]]
    for s in w[1:]: X = X @ B[s]
    return np.trace(X)

def same_state(env, A, eta, B, words):
    """equal traces of words, up to the eigenvalue: tr(B_w) conj(tr(B_v)) eta^n = tr(A_w) conj(tr(A_v)), |w| = |v| = n"""
    for w, v in words:
        n = len(w)
        a = word(A, w) * np.conj(word(A, v)); b = word(B, w) * np.conj(word(B, v))
        for _ in range(n): b = b * eta
        env.eq('trace of words %s %s' % (w, v), b, a)

# ------------------------------------------------------------------ cases
def earlier(env, A, first):
    """a uniform state holding A now, canonicalised before while it held another tensor"""
    if first is None: return iMPS([A.copy()])
    M = iMPS([env.num('old', A.shape)]).canonicalise(first)
    M[0] = A.copy()
    return M

def canon(env, d, D, hand, what, first=None):
    A = env.c('A', (d, D, D))
    M = earlier(env, A, first)
    with dominant(env):
        eta, l, r = eigenpair(A)
        R = M.canonicalise(hand) if what != 'hand' else (M.right_canonicalise() if hand == 'r' else M.left_canonicalise())
    env.true('returns itself', R is M)
    env.true('records the gauge', M.canonical == hand)
    B, L = M.data[0], M.L
    I = np.eye(D)
    if what in ('gauge', 'hand'):
        if hand == 'r': env.eq('right isometry', sum(b @ b.conj().T for b in B), I)
        if hand == 'l': env.eq('left isometry', sum(b.conj().T @ b for b in B), I)
        if hand == 'm': env.eq('right Schmidt values', sum(b @ L @ b.conj().T for b in B), L)
        env.eq('environments', np.stack([M.l, M.r]), np.stack([l, r]))
    if what == 'dual':
        if hand == 'r': env.eq('left Schmidt values', sum(b.T @ L @ L @ b.conj() for b in B), L @ L)
        if hand == 'l': env.eq('right Schmidt values', sum(b @ L @ L @ b.conj().T for b in B), L @ L)
        if hand == 'm': env.eq('left Schmidt values', sum(b.T @ L @ b.conj() for b in B), L)
    if what == 'schmidt':
        env.eq('normalised', np.trace(L @ L), 1.0)
        env.eq('diagonal', L - np.diag(np.diag(L)), np.zeros((D, D)))
    if what == 'state':
        same_state(env, A, eta, B, [((0,), (0,)), ((0,), (d - 1,))])
    if what == 'state2':
        same_state(env, A, eta, B, [((0, 1), (0, 1))])

def vidal(env, d, D, what):
    A = env.c('A', (d, D, D))
    with dominant(env):
        eta, l, r = eigenpair(A)
        V = iMPS([A.copy()]).canonicalise(to_vidal=True)
    env.true('a Vidal form', type(V) is ivMPS and len(V.data) == 1)
    G, L = V.data[0]
    I = np.eye(D)
    if what == 'right': env.eq('GL right isometry', sum((g @ L) @ (g @ L).conj().T for g in G), I)
    if what == 'left': env.eq('LG left isometry', sum((L @ g).conj().T @ (L @ g) for g in G), I)
    if what == 'state':
        M = V.to_iMPS()
        env.true('uniform state', type(M) is iMPS)
        same_state(env, A, eta, M.data[0], [((0,), (0,)), ((0,), (d - 1,))])

def eigenpair(A):
    eta, l, r = TransferMatrix(A).eigs()
    return eta.reshape(-1)[0], l, r

def value(env, d, D, hand, plural):
    """the value read off a canonical tensor and its Schmidt values (free here: no relation between them is needed)"""
    A = env.c('A', (d, D, D))
    L = np.diag(env.pos('s', (D,)))
    ops = env.cs('op', [(d, d)] * (2 if plural else 1))
    M = iMPS([A.copy()])
    if hand is not None:
        M.L = L.copy()
        got = M.Es(ops, hand) if plural else [M.E(ops[0], hand)]
        l, r = {'l': (np.eye(D), L @ L), 'r': (L @ L, np.eye(D)), 'm': (L, L)}[hand]
    else:
        asked = []
        def canon(self, *a, to_vidal=False, **k):
            asked.append((self, to_vidal))
            return ivMPS([(A.copy(), L.copy())])
        with replaced(iMPS, canonicalise=canon):
            got = M.Es(ops) if plural else [M.E(ops[0])]
        env.true('the canonical form of the state', len(asked) == 1 and asked[0][0] is M and asked[0][1])
        l = r = L @ L
        env.eq('Vidal value', ivMPS([(A.copy(), L.copy())]).E(ops[0]), expected(A, l, r, ops[0]))
    env.true('one value per operator', len(got) == len(ops))
    for op, e in zip(ops, got):
        env.eq('value', e, expected(A, l, r, op))
    env.eq('unchanged', M.data[0], A)

def expected(A, l, r, op):
    """sum l[a,b] A[s][a,a'] A*[t][b,b'] r[a',b'] op[t,s]"""
    d = A.shape[0]
    num = 0.0
    for s in range(d):
        for t in range(d):
            num = num + op[t, s] * np.trace(l.T @ A[s] @ r @ A[t].conj().T)
    return num

def maps(env, d, D, D2, what):
    A = env.c('A', (d, D, D)); B = env.c('B', (d, D, D))
    x = env.c('x', (D, D)); y = env.c('y', (D, D))
    M = Map(A, B) if what == 'pair' else TransferMatrix(A)
    if what != 'pair': B = A
    want = sum(A[s] @ x @ B[s].conj().T for s in range(d))
    env.eq('applied', M.mv(x.reshape(-1)), want.reshape(-1))
    back = sum(A[s].conj().T @ y @ B[s] for s in range(d))
    env.eq('adjoint applied', M.mvr(y.reshape(-1)), back.reshape(-1))
    env.eq('adjoint pairing', ref.inner(y, want), ref.inner(back, x))
    env.eq('as a matrix', M.asmatrix() @ x.reshape(-1), want.reshape(-1)) if what != 'pair' else None
    lo = M.aslinearoperator()
    env.true('operator shape', lo.shape == (D * D, D * D))
    lam = env.c('lam', (1,))[0]

def eigs(env, d, D, ph, pl):
    """TransferMatrix.eigs from the contract of the eigensolver: unit eigenvectors up to a phase"""
    A = env.c('A', (d, D, D))
    T = TransferMatrix(A)
    if env.sym:
        a = o_(lift(A)); at = np.transpose(a, [0, 2, 1])
        eta = stubs.nz(poly.fresh('eta', 'r', 8.0, True))
        r, l = pos_gen('r', D), pos_gen('l', D)
        fix(a, a, o_(r), eta, 'eigenvector')
        ac = np.vectorize(lambda z: z.conjugate(), otypes=[object])(at)
        fix(ac, ac, o_(l), eta, 'eigenvector of the adjoint')
        calls = []
        def arnoldi(op, k=6, v0=None, **kw):
            calls.append(op)
            v, p = ((r, ph), (l, pl))[len(calls) - 1]
            return wrap(np.array([eta], object), True), (p * v).reshape(D * D, 1)
        old = xmps.iMPS.arnoldi
        xmps.iMPS.arnoldi = arnoldi
        try: e, L, R = T.eigs()
        finally: xmps.iMPS.arnoldi = old
        env.true('two eigenproblems of the map', len(calls) == 2)
    else:
        e, L, R = T.eigs()
    env.eq('right eigenmatrix', sum(A[s] @ R @ A[s].conj().T for s in range(d)), e * R)
    env.eq('left eigenmatrix', sum(A[s].T @ L @ A[s].conj() for s in range(d)), e * L)
    env.eq('Hermitian', np.stack([R, L]), np.stack([R.conj().T, L.conj().T]))
    env.eq('normalised', np.trace(L @ R), 1.0)

def leftnull(env, d, D):
    M = env.c('M', (d * D, D))
    A = scipy.linalg.qr(M, mode='economic')[0].reshape(d, D, D)
    S = iMPS([A])
    with dominant(env):
        pr, v = S.left_null_projector(True)
        eta, l, r = S.eigs()
    env.true('stored', S.vL is v)
    n = d * D
    a = A.reshape(n, D)
    want = np.eye(n) - a @ a.conj().T
    env.eq('projector off the state', pr.reshape(n, n).T.T * l[0, 0], want)
    env.eq('gauge', a.conj().T @ v.reshape(n, -1), np.zeros((D, v.shape[-1])))
    env.eq('orthonormal', v.reshape(n, -1).conj().T @ v.reshape(n, -1), np.eye(n - D))

def rightnull(env, d, D):
    M = env.c('M', (d * D, D))
    A = np.transpose(scipy.linalg.qr(M, mode='economic')[0].conj().T.reshape(D, d, D), [1, 0, 2])
    S = iMPS([A])
    with dominant(env):
        pr, v = S.right_null_projector(True)
        eta, l, r = S.eigs()
    env.true('stored', S.vR is v)
    n = d * D
    a = np.transpose(A, [1, 0, 2]).reshape(D, n)
    P = np.transpose(pr, [0, 1, 2, 3]).reshape(n, n)
    want = np.eye(n) - a.T @ a.conj()
    env.eq('projector off the state', pr.reshape(n, n) * r[0, 0], want)

def items(env, d, D, cells):
    A, B = env.cs('A', [(d, D, D)] * cells), env.cs('B', [(d, D, D)] * cells)
    k = env.c('k', (1,))[0]; k = k if env.sym else complex(k)
    S, T = iMPS([a.copy() for a in A]), iMPS([b.copy() for b in B])
    for n in range(cells):
        env.eq('sum %d' % n, (S + T).data[n], A[n] + B[n])
        env.eq('difference %d' % n, (S - T).data[n], A[n] - B[n])
        env.eq('multiple %d' % n, (S * k).data[n], k * A[n])
        env.eq('multiple from the left %d' % n, S.__rmul__(k).data[n], k * A[n])
        env.eq('quotient %d' % n, (S / 2.0).data[n], A[n] / 2.0)
        env.eq('item %d' % n, S[n], A[n])
        env.eq('unchanged %d' % n, np.stack([S.data[n], T.data[n]]), np.stack([A[n], B[n]]))
    env.true('length', len(S) == cells and S.shape == (d, D, D) and len(S.data) == S.period)
    C = S.copy()
    C[0] = B[0]
    env.eq('copy detached', S.data[0], A[0])
    env.eq('copy written', C.data[0], B[0])

def cases(tier):
    out = []
    q = tier == 'quick'
    for h in 'lrm':
        for what in ('gauge', 'dual', 'schmidt', 'state'):
            out.append(dict(name='canonical %s %s' % (h, what), fn=canon, params=dict(d=2, D=2, hand=h, what=what), cost=20))
    for h in 'lr':
        out.append(dict(name='by name %s' % h, fn=canon, params=dict(d=2, D=2, hand=h, what='hand'), cost=10))
    for what in ('left', 'right', 'state'):
        out.append(dict(name='vidal %s' % what, fn=vidal, params=dict(d=2, D=2, what=what), cost=10))
    for h in ('l', 'r', 'm', None):
        out.append(dict(name='value %s' % h, fn=value, params=dict(d=2, D=2, hand=h, plural=False)))
        out.append(dict(name='values %s' % h, fn=value, params=dict(d=3, D=2, hand=h, plural=True)))
    for d, D in [(2, 2), (3, 2), (2, 3)]:
        for what in ('pair', 'own'):
            out.append(dict(name='map %s d%d D%d' % (what, d, D), fn=maps, params=dict(d=d, D=D, D2=D, what=what)))
    for n, (p, s) in enumerate([(1, 1), (-1, 1), (np.exp(0.7j), np.exp(2.5j)), (np.exp(-2.0j), np.exp(-0.3j)), (1, -1)]):
        out.append(dict(name='eigenpair, phases %d' % n, fn=eigs, params=dict(d=2, D=2, ph=p, pl=s)))
    for d, D in [(2, 2)] + ([] if q else [(3, 2)]):
        out.append(dict(name='left null d%d D%d' % (d, D), fn=leftnull, params=dict(d=d, D=D)))
        out.append(dict(name='right null d%d D%d' % (d, D), fn=rightnull, params=dict(d=d, D=D)))
    for cells in (1, 2):
        out.append(dict(name='item arithmetic %d' % cells, fn=items, params=dict(d=2, D=2, cells=cells)))
    for first, h in [('l', 'r'), ('r', 'r'), ('m', 'l'), ('l', 'l'), ('r', 'm')]:
        for what in ('gauge', 'dual', 'state'):
            if q and what != 'dual' and first != h: continue
            out.append(dict(name='canonical %s, tensor replaced, %s %s' % (first, h, what), fn=canon, params=dict(d=2, D=2, hand=h, what=what, first=first), cost=20))
    if not q:
        for h in 'lrm':
            out.append(dict(name='canonical %s state2' % h, fn=canon, params=dict(d=2, D=2, hand=h, what='state2'), cost=50))
            for what in ('gauge', 'dual', 'state'):
                out.append(dict(name='canonical %s %s d3' % (h, what), fn=canon, params=dict(d=3, D=2, hand=h, what=what), cost=50))
    return out
