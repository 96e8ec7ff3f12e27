"""Tangent space of a finite state: coordinates, metric, and the linearised dynamics (F1, F2, christoffel, jac)."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref
from .C11 import state, project, tangent, Hpsi

BOUNDS = ('tangent vectors with every component free; neighbour-term Hamiltonians with every entry free (Hermitian, |Re|,|Im|<=2); fixed generic canonical states '
          'of 2-5 sites (12 in the cache case), d=2,3, both canonical sides, truncated and untruncated bonds')

def total(A):
    return sum(int(np.prod(s)) for s in A.tangent_space_dims() if int(np.prod(s)) > 0)

def basis(A):
    """per site the dense tangent vectors d|psi>/dx_i (columns), built from the null spaces the state reports"""
    As = [np.array(x) for x in A.data]
    l, r = A.get_envs()
    vLs = [A.left_null_projector(n, l, get_vL=True)[1] for n in range(A.L)]
    Bs = []
    for n in range(A.L):
        X = np.linalg.inv(np.conj(np.linalg.cholesky(l(n - 1)).T)) @ vLs[n]      # s, a, p
        R = np.linalg.inv(np.linalg.cholesky(r(n)))
        p, q = X.shape[2], R.shape[0]
        cols = []
        for a in range(p):
            for b in range(q):
                cols.append(X[:, :, a][:, :, None] * R[b][None, None, :])
        Bs.append(cols)
    return As, Bs

def dense_basis(A):
    As, Bs = basis(A)
    return As, Bs, [[ref.vec(As[:n] + [B] + As[n + 1:]) for B in Bs[n]] for n in range(A.L)]

def opened(A, n, g, axis, conj=False):
    """coordinates on one axis of g -> the physical legs (s, a, q) they stand for: what is left does not depend on the basis of the null space"""
    l, r = A.get_envs()
    vL = A.left_null_projector(n, l, get_vL=True)[1]
    vL = np.conj(vL) if conj else vL
    g = np.moveaxis(g, axis, 0)
    rest = g.shape[1:]
    g = g.reshape(vL.shape[2], -1, *rest)
    return np.moveaxis(np.tensordot(vL, g, [2, 0]).reshape(-1, *rest), 0, axis)

def both(A, i, j, g, conj):
    """matrix in the coordinates of sites i and j, without the basis"""
    return opened(A, j, opened(A, i, g, 0), 1, conj)

def roundtrip(env, b, side, d):
    A = state(env, b, side, d)
    psi = ref.dense([x.copy() for x in A.data])
    v = env.c('v', (total(A),))
    dA = A.import_tangent_vector(v)
    for n in range(A.L): env.true('shape %d' % n, dA[n].shape == A[n].shape)
    env.eq('extract(import(v)) = v', A.extract_tangent_vector(dA), v)
    env.eq('the state stays', ref.dense(A.data), psi)
    env.eq('orthogonal to the state', ref.inner(psi, tangent(A.data, dA.data)), 0.0)

def metric(env, b, side, d):
    """coordinates are orthonormal: <T(w)|T(v)> = w^dag v"""
    A = state(env, b, side, d)
    N = total(A)
    v = env.c('v', (N,))
    t = tangent(A.data, A.import_tangent_vector(v).data)
    env.eq('norm', ref.inner(t, t), np.sum(np.conj(v) * v))
    w = env.num('w', (N,))
    env.eq('inner product', ref.inner(tangent(A.data, A.import_tangent_vector(w).data), t), np.sum(np.conj(w) * v))
    u = env.c('u', psi_size(A))
    # the map covers the whole tangent space orthogonal to the state
    env.eq('completeness', spanned(A, N, u), project(ref.dense(A.data), A.data, u))

def psi_size(A): return (A.d ** A.L,)

def spanned(A, N, u):
    out = 0
    for k in range(N):
        e = np.zeros(N) + 0j
        e[k] = 1
        t = tangent(A.data, A.import_tangent_vector(e).data)
        out = out + t * (np.conj(t) @ u)
    return out

def velocity(env, b, side, d):
    """coordinates of the dynamics: extracting dA_dt gives the overlaps of the tangent basis with -iH|psi>"""
    A = state(env, b, side, d)
    hs = [env.herm('h%d' % n, d * d) for n in range(A.L - 1)]
    As, Bs, D = dense_basis(A)
    psi = ref.dense(As)
    f = -1j * Hpsi(psi, hs, d)
    x = A.extract_tangent_vector(A.dA_dt(hs))
    k = 0
    for n in range(A.L):
        if not len(D[n]): continue
        want = np.array([np.sum(np.conj(t) * f) for t in D[n]])
        env.eq('coordinates %d' % n, opened(A, n, x[k:k + len(want)], 0), opened(A, n, want, 0))
        k += len(want)
    env.true('no more coordinates', k == x.shape[0])

def terms(env, L, d, conc, term):
    """neighbour terms, all free, all fixed, or only one of them free (everything computed here is linear in each)"""
    hs = []
    for n in range(L - 1):
        if conc and n != term:
            h = env.num('h%d' % n, (d * d, d * d)); hs.append(h + np.conj(h).T)
        else: hs.append(env.herm('h%d' % n, d * d))
    return hs

def first(env, b, side, d, testing=False, conc=False, term=None):
    """F1(i,j) = <d_i psi|H|d_j psi> in every pair of coordinates"""
    A = state(env, b, side, d)
    hs = terms(env, A.L, d, conc, term)
    As, Bs, D = dense_basis(A)
    HD = [[Hpsi(t.reshape([d] * A.L), hs, d) for t in ts] for ts in D]
    for i in range(A.L):
        for j in range(A.L):
            if not (len(D[i]) and len(D[j])): continue
            g = A.F1(i, j, hs, testing=testing)
            want = np.array([[np.sum(np.conj(s) * t) for t in HD[j]] for s in D[i]])
            if not testing:
                env.eq('%d,%d' % (i, j), both(A, i, j, g.reshape(len(D[i]), len(D[j])), True), both(A, i, j, want, True))
            else:   # full tensors: closed with the coordinate tensors they give the same numbers
                l, r = A.get_envs()
                low = lambda n, B: l(n - 1) @ B @ r(n)
                got = np.array([[np.einsum('abcdef,abc,def->', g, np.conj(low(i, X)), low(j, Y)) for Y in Bs[j]] for X in Bs[i]])
                env.eq('full %d,%d' % (i, j), got, want)

def second(env, b, side, d, testing=False, conc=False, term=None):
    """F2(i,j) = <d_i d_j psi|H|psi>"""
    A = state(env, b, side, d)
    hs = terms(env, A.L, d, conc, term)
    As, Bs, D = dense_basis(A)
    f = Hpsi(ref.dense(As), hs, d)
    for i in range(A.L):
        for j in range(A.L):
            if not (len(D[i]) and len(D[j])): continue
            g = A.F2(i, j, hs, testing=testing)
            want = pairs(As, Bs, i, j, f)
            if not testing:
                env.eq('%d,%d' % (i, j), both(A, i, j, g.reshape(len(D[i]), len(D[j])), False), both(A, i, j, want, False))
            else:
                l, r = A.get_envs()
                low = lambda n, B: l(n - 1) @ B @ r(n)
                got = np.array([[np.einsum('abcdef,abc,def->', g, np.conj(low(i, X)), np.conj(low(j, Y))) for Y in Bs[j]] for X in Bs[i]])
                env.eq('full %d,%d' % (i, j), got, want)

def pairs(As, Bs, i, j, f):
    if i == j: return np.zeros((len(Bs[i]), len(Bs[j])))
    out = []
    for X in Bs[i]:
        row = []
        for Y in Bs[j]:
            t = ref.vec([X if n == i else Y if n == j else a for n, a in enumerate(As)])
            row.append(np.sum(np.conj(t) * f))
        out.append(row)
    return np.array(out)

def connection(env, b, side, d):
    """christoffel closed with a tangent vector: -<d_i d_j psi|T(x)> for x at the smaller site"""
    A = state(env, b, side, d)
    As, Bs, D = dense_basis(A)
    u = env.c('u', psi_size(A))
    v = np.concatenate([np.array([np.sum(np.conj(t) * u) for t in ts]) for ts in D if len(ts)])
    dA = A.import_tangent_vector(v)
    l, r = A.get_envs()
    t = tangent(As, [dA[n] for n in range(A.L)])
    for i in range(A.L):
        for j in range(A.L):
            if i == j or not (len(D[i]) and len(D[j])): continue
            k = min(i, j)
            g = A.christoffel(i, j, k, closed=(None, None, l(k - 1) @ dA[k] @ r(k)))
            env.eq('%d,%d' % (i, j), both(A, i, j, g.reshape(len(D[i]), len(D[j])), False), both(A, i, j, -pairs(As, Bs, i, j, t), False))

def jacobian(env, b, side, d, conc=False, term=None):
    """jac: matrices of the linearised equation, complex and real form"""
    A = state(env, b, side, d)
    hs = terms(env, A.L, d, conc, term)
    As, Bs, D = dense_basis(A)
    psi = ref.dense(As)
    f = Hpsi(psi, hs, d)
    sites = [n for n in range(A.L) if len(D[n])]
    HD = {n: [Hpsi(t.reshape([d] * A.L), hs, d) for t in D[n]] for n in sites}
    v = project(psi, As, -1j * f)
    J1 = {(i, j): np.array([[-1j * np.sum(np.conj(s) * t) for t in HD[j]] for s in D[i]]) for j in sites for i in sites}
    J2 = {(i, j): -1j * pairs(As, Bs, i, j, f) - pairs(As, Bs, i, j, v) for j in sites for i in sites}
    cut = np.cumsum([0] + [len(D[n]) for n in sites])
    part = {n: slice(cut[k], cut[k + 1]) for k, n in enumerate(sites)}
    a, b_, c_ = A.jac(hs, True, False)
    for i in sites:
        for j in sites:
            env.eq('linear part %d,%d' % (i, j), both(A, i, j, a[part[i], part[j]], True), both(A, i, j, J1[i, j], True))
            env.eq('antilinear part %d,%d' % (i, j), both(A, i, j, (b_ + c_)[part[i], part[j]], False), both(A, i, j, J2[i, j], False))
    # a fixed direction, as coordinates
    u = env.num('u', psi_size(A))
    z = np.concatenate([np.array([np.sum(np.conj(t) * u) for t in D[n]]) for n in sites])
    w = {i: sum(J1[i, j] @ z[part[j]] + J2[i, j] @ np.conj(z[part[j]]) for j in sites) for i in sites}
    N = total(A)
    J = A.jac(hs) @ np.concatenate([np.real(z), np.imag(z)])
    J = J[:N] + 1j * J[N:]
    dd = A.ddA_dt(z, hs)
    for i in sites:
        env.eq('real form %d' % i, opened(A, i, J[part[i]], 0), opened(A, i, w[i], 0))
        env.eq('applied to a vector %d' % i, opened(A, i, dd[part[i]], 0), opened(A, i, w[i], 0))

def constant(env, b, side, d):
    """a constant Hamiltonian only turns the phase"""
    A = state(env, b, side, d)
    v = env.c('v', (total(A),))
    E = env.num('E', (A.L - 1,), cx=False)
    env.eq('ddA_dt', A.ddA_dt(v, [e * np.eye(d * d) for e in E]), -1j * np.sum(E) * v)

def nulls(env, b, side, d):
    """null projectors annihilate the site tensor"""
    A = state(env, b, side, d)
    l, r = A.get_envs()
    e = np.eye(1)
    for n in range(A.L):
        env.eq('left environment %d' % n, l(n - 1), e)
        e = sum(np.conj(x).T @ e @ x for x in A[n])
    e = np.eye(1)
    for n in reversed(range(A.L)):
        env.eq('right environment %d' % n, r(n), e)
        e = sum(x @ e @ np.conj(x).T for x in A[n])
    for n in range(A.L):
        pr, vL = A.left_null_projector(n, get_vL=True)
        x = env.c('x%d' % n, A[n].shape)
        px = np.einsum('abcd,cde->abe', pr, np.einsum('ij,sjb->sib', l(n - 1), x))
        env.eq('left gauge %d' % n, np.einsum('sab,ac,scd->bd', np.conj(A[n]), l(n - 1), px), np.zeros((A[n].shape[2],) * 2))
        env.eq('left projector %d' % n, np.einsum('abcd,cde->abe', pr, np.einsum('ij,sjb->sib', l(n - 1), px)), px)
        # what is removed is a multiple of the site tensor
        env.eq('left complement %d' % n, x - px, np.einsum('sab,bc->sac', A[n], np.linalg.inv(l(n)) @ np.einsum('sab,ac,scd->bd', np.conj(A[n]), l(n - 1), x)))
        if side == 'right':     # right environments are the identity
            pr, vR = A.right_null_projector(n, get_vR=True)
            y = env.c('y%d' % n, A[n].shape)
            py = np.einsum('abcd,ced->aeb', pr, y)
            env.eq('right gauge %d' % n, np.einsum('sab,scb->ac', np.conj(A[n]), py), np.zeros((A[n].shape[1], A[n].shape[1])))
            # what is removed is a multiple of the site tensor
            env.eq('right complement %d' % n, y - py, np.einsum('sdb,ad->sab', A[n], np.einsum('sab,sdb->ad', y, np.conj(A[n]))))

def caches(env, L, b):
    """answers from a shared cache are the answers from scratch, also for long chains"""
    A = state(env, b, 'left', 2)
    hs = [env.num('h%d' % n, (4, 4)) for n in range(L - 1)]
    hs = [h + np.conj(h).T for h in hs]
    x = env.r('x', (L - 1,))
    hs = [h * x[n] for n, h in enumerate(hs)]
    fresh = state(env, b, 'left', 2)
    ps = [(1, L - 1), (0, L - 1), (1, 1), (1, L - 2), (L - 1, 1), (L - 2, 1), (L - 1, 0), (1, 0), (0, 1)]
    if L > 11: ps += [(11, 0), (1, 10), (11, 1), (10, 1)]
    for i, j in ps:
        env.eq('F1 %d,%d' % (i, j), A.F1(i, j, hs, id='one'), fresh.F1(i, j, hs))
        env.eq('F2 %d,%d' % (i, j), A.F2(i, j, hs, id='one'), fresh.F2(i, j, hs))

def directions(env, b, d):
    A = state(env, b, 'left', d)
    N = total(A)
    B = A.tangent_space_basis()
    u = env.c('u', (N,))
    env.eq('complete basis of the coordinates', B.T @ (np.conj(B) @ u), u)

def cases(tier):
    t = tier == 'thorough'
    out = []
    small = [([1, 2, 1], 2), ([1, 1, 1], 2), ([1, 2, 2, 1], 2), ([1, 1, 1, 1], 2), ([1, 2, 2, 2, 1], 2), ([1, 2, 4, 2, 1], 2), ([1, 2, 3, 2, 1], 2), ([1, 2, 1, 2, 1], 2), ([1, 3, 1], 3), ([1, 2, 2, 1], 3)]
    big = small + [([1, 2, 3, 3, 2, 1], 2), ([1, 2, 2, 2, 2, 1], 2)]
    if t: big += [([1, 2, 4, 4, 2, 1], 2), ([1, 3, 5, 3, 1], 3)]
    for b, d in big:
        for side in ('left', 'right'):
            n = ' d%d %s %s' % (d, b, side)
            p = dict(b=b, side=side, d=d)
            out.append(dict(name='round trip' + n, fn=roundtrip, params=p))
            out.append(dict(name='metric' + n, fn=metric, params=p))
            out.append(dict(name='velocity' + n, fn=velocity, params=p))
            out.append(dict(name='null spaces' + n, fn=nulls, params=p))
            out.append(dict(name='constant' + n, fn=constant, params=p))
            if (b, d) in small or t:
                out.append(dict(name='F1' + n, fn=first, params=p, cost=4))
                out.append(dict(name='F2' + n, fn=second, params=p, cost=3))
                if len(b) > 3 or d * b[0] > b[1]: out.append(dict(name='connection' + n, fn=connection, params=p))
                out.append(dict(name='jacobian' + n, fn=jacobian, params=p, cost=5))
    for b, d in [([1, 2, 2, 1], 2), ([1, 2, 3, 2, 1], 2)] + [([1, 3, 3, 1], 3)] * t:
        for side in ('raw', 'left orthogonal', 'right orthogonal', 'mixed 1', 'stage', 'edited'):
            n = ' d%d %s %s' % (d, b, side)
            p = dict(b=b, side=side, d=d)
            for name, fn in (('round trip', roundtrip), ('metric', metric), ('velocity', velocity), ('null spaces', nulls)):
                out.append(dict(name=name + n, fn=fn, params=p))
    for b, side in (([1, 2, 2, 1], 'left'), ([1, 2, 2, 2, 1], 'right'), ([1, 1, 1, 1], 'left'), ([1, 2, 2, 2, 2, 1], 'left')):
        out.append(dict(name='F1 full tensors %s %s' % (b, side), fn=first, params=dict(b=b, side=side, d=2, testing=True, conc=True)))
        for m in range(len(b) - 2): out.append(dict(name='F2 full tensors %s %s term %d' % (b, side, m), fn=second, params=dict(b=b, side=side, d=2, testing=True, conc=True, term=m)))
    for b in ([1, 2, 2, 2, 2, 1], [1, 2, 2, 2, 2, 2, 1]):
        for m in range(len(b) - 2):
            out.append(dict(name='F1 long %s term %d' % (b, m), fn=first, params=dict(b=b, side='left', d=2, conc=True, term=m), cost=4))
            out.append(dict(name='F2 long %s term %d' % (b, m), fn=second, params=dict(b=b, side='right', d=2, conc=True, term=m), cost=4))
            if len(b) == 6 or t: out.append(dict(name='jacobian long %s term %d' % (b, m), fn=jacobian, params=dict(b=b, side='left', d=2, conc=True, term=m), cost=5))
        out.append(dict(name='connection long %s' % b, fn=connection, params=dict(b=b, side='left', d=2), cost=5))
    for L, b in ((12, [1] * 13), (4, [1, 2, 2, 2, 1])) + (((13, [1] + [2] * 12 + [1]),) if t else ()):
        out.append(dict(name='caches L%d' % L, fn=caches, params=dict(L=L, b=b)))
    for b, d in small[:6]: out.append(dict(name='directions d%d %s' % (d, b), fn=directions, params=dict(b=b, d=d)))
    return out
