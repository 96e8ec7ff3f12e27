"""Tensor tools: grouping legs, extending isometries, null spaces, block sums, local operator splitting, truncation, padding."""
import itertools
import numpy as np
import scipy.linalg
from xmps import tensor, peps_tools
from xmps.fMPS import fMPS
from . import ref
from .C26 import swapped

BOUNDS = ('tensors with up to five legs of dimension 1 to 3 (listed groupings), matrices up to 5 x 5, every entry free; isometries are Q factors of free matrices')

# ------------------------------------------------------------------ grouping of legs
GROUPS = [((2, 3), [[0], [1]]), ((2, 3), [[1, 0]]), ((2, 3, 2), [[2, 0], [1]]), ((2, 3, 2), [[1], [0, 2]]), ((1, 2, 3, 2), [[3, 0], [2, 1]]),
          ((2, 1, 3, 2), [[2], [0, 3, 1]]), ((2, 2, 3, 1, 2), [[4, 1], [0], [3, 2]]), ((2, 3, 2, 2), [[1, 3, 0, 2]]), ((3, 2, 2, 1), [[3], [2], [1], [0]]),
          ((2, 2, 2, 3, 2), [[0, 3], [1, 4], [2]]), ((2, 3, 2), [[2], [0], [1]])]

def grouped(env, shape, legs):
    T = env.c('T', shape)
    G, pipe = peps_tools.group_legs(T, legs)
    perm = [l for g in legs for l in g]
    env.true('one leg per group', G.shape == tuple(int(np.prod([shape[l] for l in g])) for g in legs))
    want = np.empty(G.shape, object if env.sym else complex)
    if env.sym: want = env.zeros(G.shape)
    for ix in itertools.product(*[range(n) for n in shape]):
        jx = []
        for g in legs:
            k = 0
            for l in g: k = k * shape[l] + ix[l]
            jx.append(k)
        want[tuple(jx)] = T[ix]
    env.eq('entries', G, want)
    env.eq('ungrouped again', peps_tools.ungroup_legs(G, pipe), T)
    # the pipe also restores a tensor computed from the grouped one
    env.eq('ungrouped function', peps_tools.ungroup_legs(2 * G, pipe), 2 * T)
    inv = peps_tools.inverse_transpose(perm)
    env.true('inverse permutation', [perm[i] for i in inv] == list(range(len(perm))) and [inv[i] for i in perm] == list(range(len(perm))))
    env.raises('wrong number of legs', ValueError, lambda: peps_tools.ungroup_legs(G.reshape(G.shape + (1,)), pipe))

# ------------------------------------------------------------------ isometries
def iso(env, m, n):
    return scipy.linalg.qr(env.c('M', (m, n)), mode='economic')[0]

def extension(env, m, n, D, wide):
    Q = iso(env, m, n)
    if wide: Q = Q.conj().T
    U = tensor.unitary_extension(Q) if D is None else tensor.unitary_extension(Q, D)
    N = m if D is None else max(m, D)
    env.true('square', U.shape == (N, N))
    env.eq('columns orthonormal', U.conj().T @ U, np.eye(N))
    env.eq('contains the isometry', U[:Q.shape[0], :Q.shape[1]] if not wide else U[:Q.shape[0], :Q.shape[1]], Q)
    if N > m:
        env.eq('identity on the rest', U[m:, m:], np.eye(N - m))
        env.eq('block diagonal', np.concatenate([U[:m, m:].reshape(-1), U[m:, :m].reshape(-1)]), np.zeros(2 * m * (N - m)))

def embedded(env, k):
    v = env.c('v', (k, k))
    U = tensor.embed(v)
    n = np.sqrt(np.sum(np.real(v * v.conj())))
    env.true('square', U.shape == (k * k, k * k))
    env.eq('columns orthonormal', U.conj().T @ U, np.eye(k * k))
    env.eq('first column', U[:, 0] * n, v.reshape(-1))
    if k == 2: env.eq('read back', tensor.deembed(U) * n, v)

def nullspace(env, k, m):
    A = env.c('A', (k, m))
    N = tensor.get_null_space(A)
    env.true('complement', N.shape == (m, m - k))
    env.eq('annihilated', A @ N, np.zeros((k, m - k)))
    env.eq('orthonormal', N.conj().T @ N, np.eye(m - k))

def blocks(env, s, t):
    A, B = env.c('A', s), env.c('B', t)
    S = tensor.direct_sum(A, B)
    env.true('shape', S.shape == (s[0] + t[0], s[1] + t[1]))
    x, y = env.c('x', (s[1],)), env.c('y', (t[1],))
    env.eq('acts on the blocks', S @ np.concatenate([x, y]), np.concatenate([A @ x, B @ y]))

# ------------------------------------------------------------------ operators on two sites
def splitting(env, d):
    H = env.c('H', (d * d, d * d))
    h = tensor.split_up(H, d)
    a, b, x, y = env.c('a', (d,)), env.c('b', (d,)), env.c('x', (d,)), env.c('y', (d,))
    env.true('four legs', h.shape == (d, d, d, d))
    if True:
        got = np.tensordot(np.tensordot(np.tensordot(np.tensordot(h, a, [[0], [0]]), b, [[0], [0]]), x, [[0], [0]]), y, [[0], [0]])
        # legs (u, v, s, t) as documented: <u, v| H |s, t> with the second factor first
        env.eq('matrix element', got, np.kron(b, a) @ H @ np.kron(y, x))
    P, Q = env.c('P', (d, d)), env.c('Q', (d, d))
    K = np.kron(P, Q)
    for ij in itertools.product(range(d), repeat=2):
        for kl in itertools.product(range(d), repeat=2):
            env.eq('location %s %s' % (ij, kl), K[tensor.loc(ij, kl, d)], P[ij] * Q[kl])
            env.eq('location, short name %s %s' % (ij, kl), K[tensor.p(ij, kl, d)], P[ij] * Q[kl])

def located(env, dp, dq):
    """a (dp x dp) (x) (p x q) product"""
    P, Q = env.c('P', (2, 3)), env.c('Q', (dp, dq))
    K = np.kron(P, Q)
    for ij in itertools.product(range(2), range(3)):
        for kl in itertools.product(range(dp), range(dq)):
            env.eq('location %s %s' % (ij, kl), K[tensor.loc(ij, kl, None, dp, dq)], P[ij] * Q[kl])
    env.raises('no dimensions', Exception, lambda: tensor.loc((0, 0), (0, 0)))

# ------------------------------------------------------------------ truncation, multiplication on the bonds
def truncation(env, m, n, D, which):
    S = np.diag(env.pos('s', (3,)))
    l, r = 2, 2
    if which == 'A':
        A, V = env.c('A', (2, l, 3)), env.c('V', (3, n))
        a, s, v = tensor.truncate_A(A, S, V, D)
        k = 3 if D is None else min(D, 3)
        env.true('shapes', a.shape == (2, l, k) and s.shape == (k, k) and v.shape == (k, n))
        env.eq('kept product', a @ s @ v, sum(S[i, i] * np.tensordot(A[:, :, i], V[i], 0) for i in range(k)))
        full = tensor.truncate_A(A, S, V, None, False)
    else:
        U, B = env.c('U', (m, 3)), env.c('B', (2, 3, r))
        u, s, b = tensor.truncate_B(U, S, B, D)
        k = 3 if D is None else min(D, 3)
        env.true('shapes', u.shape == (m, k) and s.shape == (k, k) and b.shape == (2, k, r))
        env.eq('kept product', u @ s @ b, sum(S[i, i] * np.transpose(np.tensordot(U[:, i], B[:, i, :], 0), [1, 0, 2]) for i in range(k)))
        full = tensor.truncate_B(U, S, B, None, False)
    env.true('nothing removed when not asked', full[1].shape == (3, 3))

def zeros_removed(env, z):
    """zero singular values are ditched"""
    s = env.pos('s', (3,))
    S = np.diag(s).copy()
    for i in range(3 - z, 3): S[i, i] = 0.0
    A, V = env.c('A', (2, 2, 3)), env.c('V', (3, 2))
    a, t, v = tensor.truncate_A(A, S, V, None)
    env.true('rank', tensor.rank(S) == 3 - z and t.shape == (3 - z, 3 - z))
    env.eq('same product', a @ t @ v, A @ S @ V)
    U, B = env.c('U', (2, 3)), env.c('B', (2, 3, 2))
    u, t, b = tensor.truncate_B(U, S, B, None)
    env.eq('same product from the right', u @ t @ b, U @ S @ B)

def dots(env, d, l, m, r):
    X, A, Y = env.c('X', (l, m)), env.c('A', (d, m, m)), env.c('Y', (m, r))
    L, R = tensor.ldot(X, A), tensor.rdot(A, Y)
    for s in range(d):
        env.eq('from the left %d' % s, L[s], X @ A[s])
        env.eq('from the right %d' % s, R[s], A[s] @ Y)
    env.eq('hermitian conjugate', tensor.H(A), np.stack([a.conj().T for a in A]))
    env.eq('transpose', tensor.T(A), np.stack([a.T for a in A]))
    env.eq('conjugate', tensor.C(A), np.stack([a.conj() for a in A]))

def padded(env, s1, s2):
    A, B = env.cs('A', s1), env.cs('B', s2)
    P, Q = fMPS([a.copy() for a in A]), fMPS([b.copy() for b in B])
    p, q = tensor.mps_pad(P, Q)
    env.true('same shapes', [x.shape for x in p.data] == [x.shape for x in q.data])
    env.true('largest of the two', all(x.shape == tuple(max(i, j) for i, j in zip(a, b)) for x, a, b in zip(p.data, s1, s2)))
    env.eq('first amplitudes', ref.vec(p.data), ref.vec(A))
    env.eq('second amplitudes', ref.vec(q.data), ref.vec(B))

def spectrum(env, n):
    M = env.herm('M', n)
    V, S = tensor.diagonalise(M)
    env.eq('decomposition', V @ S @ V.conj().T, M)
    env.eq('eigenvectors orthonormal', V.conj().T @ V, np.eye(n))

def renyi(env, d1, d2, l, r, free):
    """tr(U E2) is the purity of the left half of U psi for unitary U; for any U three of the four copies see U+U"""
    psi = env.c('psi', (d1, d2, l, r))
    n = d1 * d2
    U = env.c('U', (n, n)) if free else np.linalg.qr(env.num('U', (n, n)))[0]
    E = peps_tools.E2(U.reshape(d1, d2, d1, d2), psi)
    half = lambda t: np.transpose(t, [0, 2, 1, 3]).reshape(d1 * l, d2 * r)
    act = lambda M: half((M @ psi.reshape(n, l * r)).reshape(d1, d2, l, r))
    X, Y = act(U), act(U @ U.conj().T @ U)
    R = X @ X.conj().T
    env.eq('purity', np.trace(U.reshape(n, n) @ E.reshape(n, n)), np.trace(Y @ X.conj().T @ R))
    if not free:
        env.eq('purity of a unitary', np.trace(U.reshape(n, n) @ E.reshape(n, n)), np.trace(R @ R))
        class NP:
            def __getattr__(self, k): return getattr(np, k)
            def log(self, x): return 3 * x  # the logarithm stands for itself: a mark on its argument
        with swapped(peps_tools, np=NP()): S = peps_tools.renyi(U.reshape(d1, d2, d1, d2), psi)
        env.eq('entropy is minus the logarithm of the purity', S, -3 * np.trace(R @ R))

def haar(env, n):
    """a unitary for every draw: the Q factor of a complex draw with independent parts"""
    got = []
    def randn(*sh):
        got.append(env.r('R%d' % len(got), sh)); return got[-1]
    with swapped(tensor, randn=randn): U = tensor.haar_unitary(n)
    env.true('square', tuple(U.shape) == (n, n))
    env.eq('unitary', U @ np.conj(U).T, np.eye(n)); env.eq('unitary, other side', np.conj(U).T @ U, np.eye(n))
    env.true('a complex draw', sum(x.size for x in got) == 2 * n * n)
    if len(got) != 2: return
    M = got[0] + 1j * got[1]
    R = np.conj(U).T @ M
    env.eq('Q factor of the draw', [R[i, j] for i in range(n) for j in range(i)], np.zeros(n * (n - 1) // 2))

def cases(tier):
    out = []
    q = tier == 'quick'
    for s, l in GROUPS:
        out.append(dict(name='group %s %s' % (s, l), fn=grouped, params=dict(shape=s, legs=l)))
    for m, n in [(2, 1), (3, 1), (3, 2), (4, 2)] + ([] if q else [(5, 2), (6, 3), (4, 1)]):
        for wide in (False, True):
            for D in (None, m, m + 2):
                out.append(dict(name='unitary extension %dx%d%s D%s' % (m, n, ' wide' if wide else '', D), fn=extension, params=dict(m=m, n=n, D=D, wide=wide)))
    out.append(dict(name='unitary extension of a unitary', fn=extension, params=dict(m=2, n=2, D=3, wide=False)))
    for k in (2, 3): out.append(dict(name='embedded %d' % k, fn=embedded, params=dict(k=k)))
    for k, m in [(1, 2), (1, 3), (2, 3), (2, 4)] + ([] if q else [(3, 5), (2, 6)]):
        out.append(dict(name='null space %dx%d' % (k, m), fn=nullspace, params=dict(k=k, m=m)))
    for s, t in [((2, 2), (2, 2)), ((1, 2), (3, 1)), ((3, 1), (1, 2)), ((2, 3), (1, 1))]:
        out.append(dict(name='direct sum %s %s' % (s, t), fn=blocks, params=dict(s=s, t=t)))
    for d in (2, 3): out.append(dict(name='split operator d%d' % d, fn=splitting, params=dict(d=d)))
    for p, r in [(2, 2), (3, 2), (1, 3), (2, 1)]: out.append(dict(name='location %d %d' % (p, r), fn=located, params=dict(dp=p, dq=r)))
    for D in (None, 1, 2, 3, 5):
        for w in 'AB': out.append(dict(name='truncation %s D%s' % (w, D), fn=truncation, params=dict(m=2, n=2, D=D, which=w)))
    for z in (0, 1, 2): out.append(dict(name='zeros removed %d' % z, fn=zeros_removed, params=dict(z=z)))
    for a in [(2, 2, 2, 2), (3, 1, 2, 3), (2, 3, 1, 2)]: out.append(dict(name='bond products %s' % (a,), fn=dots, params=dict(zip('dlmr', a))))
    for n, (s1, s2) in enumerate([([(2, 1, 1), (2, 1, 1)], [(2, 1, 2), (2, 2, 1)]), ([(2, 1, 2), (2, 2, 1)], [(2, 1, 1), (2, 1, 1)]),
                                  ([(2, 1, 2), (2, 2, 1), (2, 1, 1)], [(2, 1, 1), (2, 1, 2), (2, 2, 1)]), ([(2, 1, 1), (2, 1, 3), (2, 3, 1)], [(2, 1, 2), (2, 2, 2), (2, 2, 1)]),
                                  ([(2, 1, 2), (2, 2, 1)], [(2, 1, 2), (2, 2, 1)])]):
        out.append(dict(name='padding %d' % n, fn=padded, params=dict(s1=s1, s2=s2)))
    for n in (2, 3, 4): out.append(dict(name='random unitary %d' % n, fn=haar, params=dict(n=n)))
    for n in (2, 3): out.append(dict(name='diagonalised %d' % n, fn=spectrum, params=dict(n=n)))
    for a in [(2, 2, 1, 1, False), (2, 2, 2, 1, False), (2, 2, 1, 2, False), (1, 2, 2, 2, True), (2, 1, 1, 2, True)]: out.append(dict(name='purity %s' % (a,), fn=renyi, params=dict(zip(['d1', 'd2', 'l', 'r', 'free'], a))))
    return out
