"""Projected (variational) dynamics of a finite state: dA_dt is the orthogonal projection of -iH|psi> on the tangent space."""
import numpy as np
from xmps.fMPS import fMPS, fTFD
from . import ref

BOUNDS = ('Hermitian Hamiltonians with every entry free (|Re|,|Im|<=2): a sum of neighbour terms or one full matrix; chains of 2-5 sites, d=2,3; fixed generic '
          'canonical states with truncated and untruncated bonds (listed), both canonical sides, and states in other gauges (orthogonal only, mixed, as given, edited, one step off canonical); product states of 2-3 qubits with every amplitude free and fixed H')

def project(psi, As, v):
    """component of the dense vector(s) v in the tangent space at As orthogonal to the state"""
    cols = []
    for n, a in enumerate(As):
        for ix in np.ndindex(*a.shape):
            e = np.zeros(a.shape) + 0j
            e[ix] = 1
            cols.append(ref.vec(As[:n] + [e] + As[n + 1:]))
    M = np.stack(cols, 1)
    M = M / np.linalg.norm(M)
    U, s, _ = np.linalg.svd(M, full_matrices=False)
    Q = U[:, s > 1e-10]
    p = psi.reshape(-1)
    p = p / np.linalg.norm(p)
    return Q @ (np.conj(Q).T @ v) - p * (np.conj(p) @ v)

def tangent(As, Bs):
    """sum of the states in which one tensor is replaced"""
    t = 0
    for n in range(len(As)):
        t = t + ref.vec([Bs[m] if m == n else As[m] for m in range(len(As))])
    return t

def Hpsi(psi, hs, d):
    t = 0
    for n, h in enumerate(hs): t = t + ref.apply_op(psi, h, [n, n + 1])
    return t.reshape(-1)

def state(env, b, side, d, name='A'):
    A = fMPS(env.nums(name, ref.custom(d, b)), d)
    if side == 'raw': return A
    if side == 'left orthogonal': return A.left_orthogonalise()
    if side == 'right orthogonal': return A.right_orthogonalise()
    if side.startswith('mixed orthogonal'): return A.mixed_orthogonalise(int(side.split()[-1]))
    if side.startswith('mixed'): return A.mixed_canonicalise(int(side.split()[-1]))
    if side == 'no sweep back': return A.left_canonicalise(sweep_back=False)
    if side == 'from dense': return fMPS().left_from_state(ref.dense(A.data))
    if side == 'edited':        # a tensor of a canonical state replaced
        A = A.left_canonicalise()
        A[1] = env.num(name + '1', A[1].shape)
        return A
    if side == 'stage':         # where an integrator evaluates the velocity: a step off a canonical state
        A = A.left_canonicalise()
        g = [env.num('g%d' % n, (d * d, d * d)) for n in range(A.L - 1)]
        return A + A.dA_dt([0.3 * (x + np.conj(x).T) for x in g]) * 0.25
    return A.left_canonicalise() if side == 'left' else A.right_canonicalise() if side == 'right' else A.left_canonicalise(int(side))

def compare(env, A, B, psi, v):
    As = [np.array(x) for x in A.data]
    env.true('one tensor per site', len(B.data) == A.L)
    for n in range(A.L): env.true('shape %d' % n, B[n].shape == A[n].shape)
    env.eq('tangent vector', tangent(As, [B[n] for n in range(A.L)]), project(psi, As, -1j * v))

def nearest(env, b, side, d):
    A = state(env, b, side, d)
    hs = [env.herm('h%d' % n, d * d) for n in range(A.L - 1)]
    psi = ref.dense([x.copy() for x in A.data])
    B = A.dA_dt(hs)
    env.eq('the state stays', ref.dense(A.data), psi)
    compare(env, A, B, psi, Hpsi(psi, hs, d))

def full(env, b, side, d):
    A = state(env, b, side, d)
    Hm = env.herm('H', d ** A.L)
    psi = ref.dense([x.copy() for x in A.data])
    B = A.dA_dt(Hm, fullH=True)
    compare(env, A, B, psi, Hm @ psi.reshape(-1))

def agree(env, b, side, d):
    """a sum of neighbour terms given term by term or as one matrix: same tensors"""
    A = state(env, b, side, d)
    hs = [env.herm('h%d' % n, d * d) for n in range(A.L - 1)]
    Hm = sum(ref.embed_op(h, [n, n + 1], A.L, d) for n, h in enumerate(hs))
    B, C = A.dA_dt(hs), A.dA_dt(Hm, fullH=True)
    for n in range(A.L): env.eq('site %d' % n, B[n], C[n])

def conserved(env, b, side, d):
    """norm and energy do not change to first order, and the tangent vector is in the left gauge"""
    A = state(env, b, side, d)
    hs = [env.herm('h%d' % n, d * d) for n in range(A.L - 1)]
    psi = ref.dense([x.copy() for x in A.data])
    B = A.dA_dt(hs)
    t = tangent(A.data, B.data)
    env.eq('<psi|dpsi> = 0', ref.inner(psi, t), 0.0)
    l = np.eye(1)
    for n in range(A.L):
        env.eq('gauge %d' % n, sum(np.conj(A[n][s]).T @ l @ B[n][s] for s in range(d)), np.zeros((A[n].shape[2], A[n].shape[2])))
        l = sum(np.conj(A[n][s]).T @ l @ A[n][s] for s in range(d))

def twice(env, b, d):
    """nothing is remembered between two calls: another Hamiltonian, then another state in the same object"""
    A = state(env, b, 'left', d)
    hs = [env.herm('h%d' % n, d * d) for n in range(A.L - 1)]
    gs = [env.num('g%d' % n, (d * d, d * d)) for n in range(A.L - 1)]
    gs = [g + np.conj(g).T for g in gs]
    psi = ref.dense([x.copy() for x in A.data])
    A.dA_dt(gs)
    compare(env, A, A.dA_dt(hs), psi, Hpsi(psi, hs, d))
    C = state(env, b, 'left', d, 'C')
    A.data = [x.copy() for x in C.data]
    psi = ref.dense(A.data)
    compare(env, A, A.dA_dt(hs), psi, Hpsi(psi, hs, d))
    A.right_canonicalise()
    psi = ref.dense(A.data)
    compare(env, A, A.dA_dt(hs), psi, Hpsi(psi, hs, d))

def combine(env, b, d):
    """dA_dt is linear in the Hamiltonian and adding a constant does nothing"""
    A = state(env, b, 'right', d)
    hs = [env.herm('h%d' % n, d * d) for n in range(A.L - 1)]
    x = env.r('x', (A.L - 1,))
    B = A.dA_dt(hs)
    C = A.dA_dt([2.5 * h + x[n] * np.eye(d * d) for n, h in enumerate(hs)])
    for n in range(A.L): env.eq('site %d' % n, C[n], 2.5 * B[n])

def product(env, L, d=2):
    """product states with every amplitude free"""
    As = env.cs('A', [(d, 1, 1)] * L)
    A = fMPS(As, d)
    hs = [env.num('h%d' % n, (d * d, d * d)) for n in range(L - 1)]
    hs = [h + np.conj(h).T for h in hs]
    B = A.dA_dt(hs)
    v = [a[:, 0, 0] for a in As]
    nn = [np.real(np.sum(np.conj(x) * x)) for x in v]
    for n in range(L):
        # the bra of site n is projected on the orthogonal complement; neighbours contract their own amplitudes
        t = 0
        for m in range(L - 1):
            if n not in (m, m + 1): continue
            h = hs[m].reshape(d, d, d, d)
            if n == m:
                w = np.einsum('abcd,b,c,d->a', h, np.conj(v[m + 1]), v[m], v[m + 1])
            else:
                w = np.einsum('abcd,a,c,d->b', h, np.conj(v[m]), v[m], v[m + 1])
            others = [nn[q] for q in range(L) if q not in (n, m, m + 1)]
            t = t + (w * nn[n] - v[n] * np.sum(np.conj(v[n]) * w)) * (np.prod(others) if others else 1.0)
        got = B[n][:, 0, 0]
        rest = np.prod([nn[q] for q in range(L) if q != n])
        # got * <A_n|A_n> * prod_{q != n} <A_q|A_q> = -i (w <A_n|A_n> - A_n <A_n|w>) * prod_{q not in bond}
        env.eq('site %d' % n, got * nn[n] * rest, -1j * t)

def tfd(env, b, d, fullH=False):
    """both copies of a thermofield double evolve under the Hamiltonian"""
    a = fMPS(env.nums('A', ref.custom(d, b)), d).left_canonicalise()
    T = fTFD().from_fMPS(a)
    T = T.left_canonicalise()
    hs = [env.herm('h%d' % n, d * d) for n in range(T.L - 1)]
    psi = ref.dense([x.copy() for x in T.data])
    L = T.L
    sp = psi.reshape([d] * (2 * L))
    w = 0
    for n, h in enumerate(hs):
        for k in (0, 1): w = w + ref.apply_op(sp, h, [2 * n + k, 2 * n + 2 + k])
    w = w.reshape(-1)
    B = T.dA_dt(sum(ref.embed_op(h, [n, n + 1], L, d) for n, h in enumerate(hs)), fullH=True) if fullH else T.dA_dt(hs)
    compare(env, T, B, psi, w)

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    t = tier == 'thorough'
    out = []
    S = [([1, 2, 1], 2), ([1, 1, 1], 2), ([1, 2, 2, 1], 2), ([1, 1, 1, 1], 2), ([1, 2, 2, 2, 1], 2), ([1, 2, 4, 2, 1], 2), ([1, 2, 3, 2, 1], 2), ([1, 2, 3, 3, 2, 1], 2), ([1, 2, 2, 2, 2, 1], 2), ([1, 3, 1], 3), ([1, 2, 2, 1], 3), ([1, 3, 3, 1], 3)]
    if t: S += [([1, 2, 4, 4, 2, 1], 2), ([1, 2, 2, 2, 2, 2, 1], 2), ([1, 2, 3, 4, 3, 2, 1], 2), ([1, 2, 4, 2, 1], 3), ([1, 3, 5, 3, 1], 3), ([1, 2, 1], 4)]
    for b, d in S:
        for side in ('left', 'right'):
            n = 'd%d %s %s' % (d, b, side)
            out.append(dict(name='terms ' + n, fn=nearest, params=dict(b=b, side=side, d=d)))
            if d ** (len(b) - 1) <= (32 if t else 27):
                if d ** (len(b) - 1) <= 16 or t: out.append(dict(name='full ' + n, fn=full, params=dict(b=b, side=side, d=d), cost=3))
                out.append(dict(name='terms and full agree ' + n, fn=agree, params=dict(b=b, side=side, d=d)))
            out.append(dict(name='gauge ' + n, fn=conserved, params=dict(b=b, side=side, d=d)))
    gauges = ['raw', 'left orthogonal', 'right orthogonal', 'mixed 1', 'mixed orthogonal 1', 'no sweep back', 'from dense', 'edited', 'stage']
    for b, d in [([1, 2, 2, 1], 2), ([1, 2, 3, 2, 1], 2)] + [([1, 2, 2, 2, 2, 1], 2), ([1, 3, 3, 1], 3)] * t:
        for side in gauges:
            n = 'd%d %s %s' % (d, b, side)
            out.append(dict(name='terms ' + n, fn=nearest, params=dict(b=b, side=side, d=d)))
            if d ** (len(b) - 1) <= 16: out.append(dict(name='full ' + n, fn=full, params=dict(b=b, side=side, d=d), cost=3))
            if side in ('raw', 'stage', 'right orthogonal') or t: out.append(dict(name='gauge ' + n, fn=conserved, params=dict(b=b, side=side, d=d)))
    out.append(dict(name='terms truncated to 2', fn=nearest, params=dict(b=[1, 2, 4, 2, 1], side='2', d=2)))
    for b, d in [([1, 2, 2, 1], 2), ([1, 2, 3, 2, 1], 2)]:
        out.append(dict(name='twice %s' % b, fn=twice, params=dict(b=b, d=d)))
        out.append(dict(name='linear, constants %s' % b, fn=combine, params=dict(b=b, d=d)))
    for b in ([1, 1, 1], [1, 2, 1], [1, 1, 1, 1]) + (([1, 2, 2, 1],) if t else ()):
        out.append(dict(name='thermofield %s' % (b,), fn=tfd, params=dict(b=list(b), d=2)))
        out.append(dict(name='thermofield full %s' % (b,), fn=tfd, params=dict(b=list(b), d=2, fullH=True)))
    for L in (2, 3):
        out.append(dict(name='product states L%d' % L, fn=product, params=dict(L=L)))
    return out
