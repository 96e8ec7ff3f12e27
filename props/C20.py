"""Uniform states: energy density, environments of the Hamiltonian, and the TDVP velocity."""
import contextlib
import numpy as np
import scipy.linalg
import xmps.iMPS
from xmps.iMPS import iMPS, TransferMatrix
from .C13 import replaced
from .C15 import dominant, eigenpair
from symx import poly, solve, stubs
from symx.arr import wrap, o_, lift, _real_empty

BOUNDS = ('one-tensor cells with D=2, d=2 (thorough: d=3); every isometric tensor and every Hermitian two-site term (entries bounded by 2) free; besides, one generic state in each canonical form '
          'with (d, D) = (2,2), (2,3), (3,2) (thorough: (3,3), (2,4)) and every Hermitian term; dominant eigenmatrices and the linear solver '
          'are taken by their contracts (positive definite eigenmatrices; a root of the function handed over), the iterations that find them are not executed')

class Root:
    def __init__(self, x): self.x = x

@contextlib.contextmanager
def solver(env, free=False):
    """scipy's root finder: in symbolic runs some point where the function handed over vanishes (free: any point)"""
    if not env.sym:
        yield; return
    def root(f, x0, args=(), method='hybr', tol=None, **k):
        stubs.note('root')
        n = len(x0)
        X = _real_empty((n,), object)
        ids = set()
        for i in range(n):
            X[i] = poly.fresh('root%d[%d]' % (len(poly.ST.constraints), i), 'r', 50.0)
            ids |= set(next(iter(X[i].t)))
        x = wrap(X, False)
        if free: return Root(x)
        for e in o_(lift(f(x.copy(), *args))).reshape(-1):
            e = solve.normal_form(e)
            if poly.isnum(e): continue
            poly.add_constraint('root', e, [m for m in e.t if ids & set(m)])
        return Root(x)
    old = xmps.iMPS.root
    xmps.iMPS.root = root
    try: yield
    finally: xmps.iMPS.root = old

def left_isometry(env, d, D):
    return scipy.linalg.qr(env.c('M', (d * D, D)), mode='economic')[0].reshape(d, D, D)
def right_isometry(env, d, D):
    Q = scipy.linalg.qr(env.c('M', (d * D, D)), mode='economic')[0]
    return np.transpose(np.transpose(Q).reshape(D, d, D), [1, 0, 2])

def pair(A, h):
    """[t1, t2, a, b] = sum h[t1 t2, s1 s2] (A[s1] A[s2])[a, b]"""
    d = A.shape[0]
    AA = np.stack([np.stack([A[s] @ A[t] for t in range(d)]) for s in range(d)])
    return np.tensordot(h.reshape(d, d, d, d), AA, [[2, 3], [0, 1]])

def left_of(A, C, l):
    """[bra, ket]: two sites under the Hamiltonian, closed on the left by l[ket, bra]"""
    d = A.shape[0]
    out = 0.0
    for s in range(d):
        for t in range(d):
            bb = A[s].conj() @ A[t].conj()
            out = out + bb.T @ l.T @ C[s, t]
    return out

def right_of(A, C, r):
    """[bra, ket]: closed on the right by r[ket, bra]"""
    d = A.shape[0]
    out = 0.0
    for s in range(d):
        for t in range(d):
            bb = A[s].conj() @ A[t].conj()
            out = out + bb @ r.T @ C[s, t].T
    return out

def energy(env, d, D, side, before=''):
    A = left_isometry(env, d, D) if side == 'l' else right_isometry(env, d, D)
    h = env.herm('h', d * d)
    S = iMPS([A.copy()])
    with dominant(env):
        eta, l, r = eigenpair(A)
        if before: S.energy([env.herm('h2', d * d)])
        e = S.energy([h])
    C = pair(A, h)
    want = np.sum(left_of(A, C, l) * r.T)
    env.eq('energy density', e, (want + np.conj(want)) / 2)
    env.eq('normalisation', np.sum(l * r), 1.0)
    env.eq('unchanged', S.data[0], A)

def environment(env, d, D, side, before=''):
    A = left_isometry(env, d, D) if side == 'l' else right_isometry(env, d, D)
    h = env.herm('h', d * d)
    S = iMPS([A.copy()])
    if before:
        with dominant(env), solver(env, True):
            h2 = env.herm('h2', d * d)
            if before == 'both': S.Rh([h2]) if side == 'l' else S.Lh([h2])
            S.Lh([h2]) if side == 'l' else S.Rh([h2])
    with dominant(env), solver(env):
        eta, l, r = eigenpair(A)
        K = S.Lh([h]) if side == 'l' else S.Rh([h])
    C = pair(A, h)
    if side == 'l':
        Q = left_of(A, C, l)
        e = np.sum(Q * r.T)
        env.eq('left environment', K - sum(a.conj().T @ K @ a for a in A) + l.T * np.sum(K * r.T), Q - l.T * e, tol=1e-6)
    else:
        Q = right_of(A, C, r)
        e = np.sum(Q * l.T)
        env.eq('right environment', K - sum(a.conj() @ K @ a.T for a in A) + r.T * np.sum(K * l.T), Q - r.T * e, tol=1e-6)

def velocity(env, d, D, what, before=''):
    A = left_isometry(env, d, D)
    h = env.herm('h', d * d)
    S = iMPS([A.copy()])
    if before:
        with dominant(env), solver(env, True): S.dA_dt([env.herm('h2', d * d)])
    got = []
    Lh = iMPS.Lh
    def keep(self, *a, **k):
        got.append(Lh(self, *a, **k))
        return got[-1]
    null = iMPS.left_null_projector
    def project(self, *a, **k):
        """the projector of the code, shown to be the projector off the state, continued with its formula"""
        pr = null(self, *a, **k)
        n = d * D
        a = A.reshape(n, D)
        P = np.eye(n) - a @ a.conj().T
        env.eq('projector', pr.reshape(n, n) * l[0, 0], P)
        if not env.sym: return pr
        if what == 'gauge':      # all that is used of the projector: it annihilates the state
            X = _real_empty((n, n), object)
            for i in np.ndindex(n, n): X[i] = poly.fresh('pr[%d,%d]' % i, 'c', 4.0)
            env.eq('annihilates', a.conj().T @ P, np.zeros((D, n)))
            for i, e in np.ndenumerate(o_(lift(a.conj().T @ wrap(X, True)))):
                poly.add_constraint('annihilates', e, list(e.t))
            return wrap(X, True).reshape(d, D, d, D)
        return (P / l[0, 0]).reshape(d, D, d, D)
    with dominant(env), solver(env, True), replaced(iMPS, Lh=keep, left_null_projector=project):
        eta, l, r = eigenpair(A)
        V = S.dA_dt([h])
    env.true('an uniform state', type(V) is iMPS and len(V.data) == 1 and len(got) == 1)
    B, K = V.data[0], got[0]
    if what == 'gauge':
        env.eq('gauge', sum(A[s].conj().T @ B[s] for s in range(d)), np.zeros((D, D)))
        env.eq('environments kept', np.stack([V.l, V.r]), np.stack([l, r]))
        env.eq('unchanged', S.data[0], A)
        C = pair(A, h)
        want = np.sum(left_of(A, C, l) * r.T)
        env.eq('energy kept', S.e, want)
        return
    c = l[0, 0]
    C = pair(A, h)
    G = []
    for s in range(d):
        g = K @ A[s]
        g = g @ r
        for t in range(d):
            g = g + c * (C[s, t] @ r @ A[t].conj().T)
            g = g + c * (A[t].conj().T @ C[t, s] @ r)
        G.append(g)
    # off the state: G - A (sum A+ G)
    G = np.stack(G)
    AG = sum(A[s].conj().T @ G[s] for s in range(d))
    want = np.stack([-1j * (G[s] - A[s] @ AG) for s in range(d)])
    env.eq('projected Schroedinger equation', np.stack([c * (B[s] @ r) for s in range(d)]), want, tol=1e-6)

def canonical(M, form):
    """plain numbers: the left (right) canonical form with a diagonal right (left) matrix, in another gauge first"""
    d, D, _ = M.shape
    if form == 'r': return np.transpose(canonical(np.transpose(M, [0, 2, 1]), 'l')[0], [0, 2, 1]), None
    def fix(A):
        w, v = np.linalg.eig(sum(np.kron(a, a.conj()) for a in A))
        k = np.argmax(abs(w))
        x = v[:, k].reshape(D, D)
        return w[k].real, x * np.trace(x).conj() / abs(np.trace(x))**2
    w, l = fix(np.transpose(M, [0, 2, 1]))          # l: sum A^T l A^* = w l
    g = np.linalg.cholesky(l.conj()).conj().T       # A+ (g+ g) A = w g+ g
    A = np.stack([g @ a @ np.linalg.inv(g) for a in M]) / np.sqrt(w)
    r = fix(A)[1]
    U = np.linalg.eigh((r + r.conj().T) / 2)[1]
    return np.stack([U.conj().T @ a @ U for a in A]), None

def fixed(env, d, D, form, what):
    """one generic state in either canonical form and larger bonds, every Hermitian term"""
    A = canonical(np.array(env.num('M', (d, D, D)), complex), form)[0]
    h = env.herm('h', d * d)
    S = iMPS([A.copy()])
    l, r = np.eye(D), np.eye(D)
    for _ in range(400):
        l = sum(a.conj().T @ l @ a for a in A); r = sum(a @ r @ a.conj().T for a in A)
    # [bra, ket] and [ket, bra]; both diagonal here
    l, r = np.diag(np.diag(l).real), np.diag(np.diag(r).real)
    l, r = l / np.trace(l @ r), r
    C = pair(A, h)
    Q, R = left_of(A, C, l), right_of(A, C, r)
    e = np.sum(Q * r.T)
    got = []
    Lh = iMPS.Lh
    def keep(self, *a, **k):
        got.append(Lh(self, *a, **k))
        return got[-1]
    # the iteration that finds these two matrices is not executed symbolically
    known = replaced(iMPS, eigs=lambda self, *a, **k: (np.array([1.0]), l + 0j, r + 0j)) if env.sym else contextlib.nullcontext()
    with known, solver(env, what == 'velocity'), replaced(iMPS, Lh=keep):
        if what == 'energy': env.eq('energy density', S.energy([h]), e)
        eta, l1, r1 = S.eigs()
        s_ = (l1[0, 0] / l[0, 0])       # the scale the code chose
        if what == 'left':
            K = S.Lh([h])
            env.eq('left environment', K - sum(a.conj().T @ K @ a for a in A) + l * s_ * np.sum(K * r.T) / s_, (Q - l * e) * s_, tol=1e-6)
        if what == 'right':
            K = S.Rh([h])
            env.eq('right environment', K - sum(a.conj() @ K @ a.T for a in A) + r / s_ * np.sum(K * l.T) * s_, (R - r * e) / s_, tol=1e-6)
        if what == 'velocity':
            V = S.dA_dt([h])
            B, K = V.data[0], got[0]
            env.eq('gauge', sum(A[s].conj().T @ l @ B[s] for s in range(d)), np.zeros((D, D)), tol=1e-6)
            env.eq('energy kept', S.e, e)
            G = []
            for s in range(d):
                g = K @ A[s] @ r / s_
                for t in range(d):
                    g = g + l @ C[s, t] @ r @ A[t].conj().T + A[t].conj().T @ l @ C[t, s] @ r
                G.append(g)
            h_ = np.sqrt(l)
            v = np.concatenate([h_ @ a for a in A])
            P = np.eye(d * D) - v @ np.linalg.inv(v.conj().T @ v) @ v.conj().T
            want = P @ np.concatenate([np.linalg.inv(h_) @ g for g in G])
            env.eq('projected Schroedinger equation', np.concatenate([h_ @ b @ r for b in B]), -1j * want, tol=1e-6)
    env.eq('unchanged', S.data[0], A)

def cases(tier):
    out = []
    for d in (2,) if tier == 'quick' else (2, 3):
        for side in 'lr':
            out.append(dict(name='energy %s d%d' % (side, d), fn=energy, params=dict(d=d, D=2, side=side), cost=5))
            out.append(dict(name='environment %s d%d' % (side, d), fn=environment, params=dict(d=d, D=2, side=side), cost=10))
        for what in ('gauge', 'flow'):
            out.append(dict(name='velocity %s d%d' % (what, d), fn=velocity, params=dict(d=d, D=2, what=what), cost=20, plain=what == 'gauge'))
    for d, D in ((2, 2), (2, 3), (3, 2)) + (((3, 3), (2, 4)) if tier == 'thorough' else ()):
        for form in 'lr':
            for what in ('energy', 'velocity') + (('left', 'right') if d * D == 4 else ()):
                out.append(dict(name='generic state d%d D%d form %s: %s' % (d, D, form, what), fn=fixed, params=dict(d=d, D=D, form=form, what=what), cost=10))
    for side in 'lr':
        out.append(dict(name='energy %s after another term' % side, fn=energy, params=dict(d=2, D=2, side=side, before='energy'), cost=5))
        for before in ('one', 'both'):
            out.append(dict(name='environment %s after another term (%s)' % (side, before), fn=environment, params=dict(d=2, D=2, side=side, before=before), cost=10))
    out.append(dict(name='velocity flow after another term', fn=velocity, params=dict(d=2, D=2, what='flow', before='velocity'), cost=20))
    return out
