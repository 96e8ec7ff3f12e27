"""Spin operators and su(N): algebra in arbitrary directions, coordinates, embeddings, gates."""
import numpy as np
from xmps import spin
from .C26 import swapped
from . import ref

BOUNDS = 'spins 1/2 to 4 (half steps), su(N) for N<=6 (embedding 2->4, 4->8), symbolic directions and coefficients with |entry| <= 1; group elements as unitaries commuting with their generator (matrix exponential by contract)'
X, Y, Z = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])

def lin(v, Os):
    r = 0
    for x, O in zip(v, Os): r = r + x * np.asarray(O)
    return r

def algebra(env, S):
    u, v = env.r('u', (3,)), env.r('v', (3,))
    Os = spin.spins(S)
    n = int(2 * S + 1)
    env.true('dimension', all(np.asarray(o).shape == (n, n) for o in Os))
    A, B = lin(u, Os), lin(v, Os)
    w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    env.eq('[u.S, v.S] = i (u x v).S', A @ B - B @ A, 1j * lin(w, Os))
    env.eq('comm', spin.comm(A, B), A @ B - B @ A)
    env.eq('acomm', spin.acomm(A, B), A @ B + B @ A)
    env.eq('u.S Hermitian', np.conj(A).T, A)
    env.eq('tr (u.S)(v.S)', np.trace(A @ B), (u[0] * v[0] + u[1] * v[1] + u[2] * v[2]) * (S * (S + 1) * n / 3))
    x = env.c('x', (n,))
    C = sum(np.asarray(o) @ (np.asarray(o) @ x) for o in Os)
    env.eq('Casimir S(S+1)', C, S * (S + 1) * x)
    m = np.arange(S, -S - 1, -1)
    env.eq('Sz diagonal, largest first', np.asarray(Os[2]) @ x, m * x)

def ladder(env, S):
    Sx, Sy, Sz = (np.asarray(o) for o in spin.spins(S))
    Sm, Sp = (np.asarray(o) for o in spin.ladders(S))
    a = env.c('a', (2,))
    env.eq('aS+ + bS- in terms of Sx, Sy', a[0] * Sp + a[1] * Sm, a[0] * (Sx + 1j * Sy) + a[1] * (Sx - 1j * Sy))

def pauli(env):
    u, v = env.r('u', (3,)), env.r('v', (3,))
    P = spin.paulis(0.5)
    A, B = lin(u, P), lin(v, P)
    dot = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    env.eq('(u.s)(v.s) = u.v + i (u x v).s', A @ B, dot * np.eye(2) + 1j * lin(w, P))
    env.eq('values', A, lin(u, [X, Y, Z]))

def levi(env):
    u, v, w = env.r('u', (3,)), env.r('v', (3,)), env.r('w', (3,))
    e = np.asarray(spin.levi_civita(3)) * 1.0
    got = np.tensordot(np.tensordot(np.tensordot(e, w, [[2], [0]]), v, [[1], [0]]), u, [[0], [0]])
    env.eq('triple product', got, u[0] * (v[1] * w[2] - v[2] * w[1]) + u[1] * (v[2] * w[0] - v[0] * w[2]) + u[2] * (v[0] * w[1] - v[1] * w[0]))
    M = env.r('M', (2, 2))
    e2 = np.asarray(spin.levi_civita(2)) * 1.0
    env.eq('determinant', np.tensordot(np.tensordot(e2, M[1], [[1], [0]]), M[0], [[0], [0]]), M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0])
    N = env.r('N', (4, 4)); N = env.num('Nf', (4, 4), False) + 0 * N
    e4 = np.asarray(spin.levi_civita(4)) * 1.0
    t = e4
    for k in (3, 2, 1, 0): t = np.tensordot(t, N[k], [[k], [0]])
    env.eq('4 x 4 determinant', t, np.linalg.det(env.num('Nf', (4, 4), False)))

def su(env, N):
    v, w = env.r('v', (N * N - 1,)), env.r('w', (N * N - 1,))
    B = [np.asarray(b) for b in spin.su(N)]
    env.true('number of generators', len(B) == N * N - 1)
    Q, R = lin(v, B), lin(w, B)
    env.eq('Hermitian', np.conj(Q).T, Q)
    env.eq('traceless', np.trace(Q), 0.0)
    env.eq('tr QR = 2 v.w', np.trace(Q @ R), 2 * np.sum(v * w))
    env.eq('components inverts the expansion', spin.components(Q), v)
    M = env.c('M', (N, N))
    H = (M + np.conj(M).T) / 2
    H = H - np.trace(H) / N * np.eye(N)
    env.eq('every traceless Hermitian matrix is a combination', lin(spin.components(H), B), H)

def su4(env):
    for nm in ('lambdas', 'slambdas'):
        B = [np.asarray(b) for b in getattr(spin, nm)()]
        v, w = env.r('v' + nm, (len(B),)), env.r('w' + nm, (len(B),))
        Q, R = lin(v, B), lin(w, B)
        env.eq(nm + ' Hermitian', np.conj(Q).T, Q)
        env.eq(nm + ' traceless', np.trace(Q), 0.0)
        if nm == 'lambdas':
            env.true('15 generators', len(B) == 15)
            env.eq('normalised and orthogonal', np.trace(Q @ R), 2 * np.sum(v * w))
        else:
            env.true('9 generators', len(B) == 9)
            W = np.asarray(spin.swap())
            env.eq('swap symmetric', W @ Q @ W, Q)
    for nm in ('antiferro', 'ferro'):
        B = [np.asarray(b) for b in getattr(spin, nm)()]
        Q = lin(env.r('v' + nm, (3,)), B)
        env.eq(nm + ' Hermitian', np.conj(Q).T, Q)

def local(env):
    v = env.r('v', (3,))
    P = [X / 2, Y / 2, Z / 2]
    I = np.eye(2)
    L = [np.asarray(x) for x in spin.locals()]
    env.eq('second spin', lin(v, L[:3]), np.kron(I, lin(v, P)))
    env.eq('first spin', lin(v, L[3:]), np.kron(lin(v, P), I))
    u1, u2 = spin.U1(v), spin.U2(v)
    W = np.asarray(spin.swap())
    env.eq('U2 is U1 with the spins swapped', W @ u1 @ W, u2)
    for n, u in (('U1', u1), ('U2', u2)):
        env.eq(n + ' unitary', np.conj(u).T @ u, np.eye(4))
        env.eq(n + '(-v) inverts', getattr(spin, n)(-v) @ u, np.eye(4))
    k = u1.reshape(2, 2, 2, 2)
    env.eq('U1 leaves the first spin alone', k, np.tensordot(I, k[0, :, 0, :], 0).transpose([0, 2, 1, 3]))

def group(env, name, n):
    v = env.r('v', (n,))
    U = getattr(spin, name)(v)
    N = U.shape[0]
    env.eq('unitary', np.conj(U).T @ U, np.eye(N))
    env.eq('unitary (rows)', U @ np.conj(U).T, np.eye(N))
    env.eq('inverse at -v', getattr(spin, name)(-v) @ U, np.eye(N))

def SUN(env, N):
    v = env.r('v', (N * N - 1,))
    U = spin.SU(v, N)
    env.eq('unitary', np.conj(U).T @ U, np.eye(N))
    Q = lin(v, spin.su(N))
    env.eq('commutes with its generator', U @ Q, Q @ U)

def spectator(env, N):
    """group elements in the doubled representation: the same rotation with one more spin, which it leaves alone"""
    v = env.r('v', (N * N - 1,))
    k = int(round(np.log2(N)))
    U = spin.SU(v, N, '2N')
    env.true('dimension', U.shape == (2 * N, 2 * N))
    Q = ref.embed_op(lin(v, spin.su(N)), [i for i in range(k + 1) if i != k - 1], k + 1, 2)
    env.eq('unitary', np.conj(U).T @ U, np.eye(2 * N))
    env.eq('commutes with its generator', U @ Q, Q @ U)

def spectator_phase(env, N):
    """along a diagonal direction the phases are those of the smaller group, twice over"""
    ds = [j for j, g in enumerate(spin.su(N)) if np.allclose(g, np.diag(np.diag(g)))]
    k = int(round(np.log2(N)))
    for j in ds[:2]:
        a = env.r('a', (1,))[0]
        a = a if env.sym else float(a)
        v = np.array([a if i == j else 0.0 for i in range(N * N - 1)])
        p = [np.exp(-1j * a * float(x)) for x in np.real(np.diag(spin.su(N)[j]))]
        env.eq('phases of direction %d' % j, spin.SU(v, N), np.diag(p))
        env.eq('phases of direction %d with a spectator' % j, spin.SU(v, N, '2N'), ref.embed_op(np.diag(p), [i for i in range(k + 1) if i != k - 1], k + 1, 2))

def phases(env):
    """diagonal directions: exact phases"""
    a = env.r('a', (1,))[0]
    a = a if env.sym else float(a)
    z = env.zeros((2,), False)
    v = np.concatenate([z, env.r('a', (1,))])
    p = np.exp(-1j * a / 2)
    q = np.exp(1j * a / 2)
    env.eq('U1 along z', spin.U1(v), np.diag([p, q, p, q]))
    env.eq('U2 along z', spin.U2(v), np.diag([p, p, q, q]))
    env.eq('SU(2) along z', spin.SU(v, 2), np.diag([np.exp(-1j * a), np.exp(1j * a)]))

def embed(env, n, where):
    v = env.r('v', (n * n - 1,))
    Q = lin(v, spin.su(n))
    k = int(round(np.log2(n)))
    R = lin(spin.insu2N(v, where), spin.su(2 * n))
    at = dict(left=0, right=k, mid=k - 1)[where]
    sites = [i for i in range(k + 1) if i != at]
    env.eq('same operator with a spectator at %s' % where, R, ref.embed_op(Q, sites, k + 1, 2))

def sphere(env, n):
    v = env.r('v', (n,), 3.0)
    x = spin.Nsphere(v)
    env.true('dimension', x.shape == (n + 1,))
    env.eq('unit vector', np.sum(x * x), 1.0)
    p = 1.0
    for i in range(n):
        env.eq('coordinate %d' % i, x[i], p * np.cos(v[i])); p = p * np.sin(v[i])
    env.eq('last coordinate', x[n], p)

def gates(env):
    W = np.asarray(spin.swap()) * 1.0
    a, b = env.c('a', (2,)), env.c('b', (2,))
    env.eq('swap exchanges', W @ np.kron(a, b), np.kron(b, a))
    env.eq('CZ', np.asarray(spin.CZ()) @ np.kron(a, b), np.kron(a * np.array([1, 0]), b) + np.kron(a * np.array([0, 1]), Z @ b))
    env.eq('CNOT', np.asarray(spin.CNOT()) @ np.kron(a, b), np.kron(a * np.array([1, 0]), b) + np.kron(a * np.array([0, 1]), X @ b))
    t = env.r('t', (1,), 3.0)[0]
    t = t if env.sym else float(t)
    C = spin.CRy(t)
    env.eq('CRy unitary', C @ np.conj(C).T, np.eye(4))
    env.eq('CRy leaves the other spin alone when the control is off', C @ np.kron(np.array([1, 0]), b), np.kron(np.array([1, 0]), b))
    env.eq('CRy keeps the control', (C @ np.kron(np.array([0, 1]), b))[:2], np.zeros(2))
    M = env.c('M', (4, 4))
    M0 = M.copy()
    s, r = spin.swap_symmetrise(M), spin.swap_antisymmetrise(M)
    env.eq('parts sum to the operator', s + r, M0)
    env.eq('symmetric part', W @ s @ W, s); env.eq('antisymmetric part', W @ r @ W, -r)
    env.eq('argument unchanged', M, M0)
    F = env.num('F', (4, 4))
    env.true('is_swap_symmetric accepts', spin.is_swap_symmetric(F + W @ F @ W) and spin.is_swap_symmetric(W))
    env.true('is_swap_symmetric refuses', not spin.is_swap_symmetric(F) and not spin.is_swap_symmetric(F - W @ F @ W))
    env.eq('Hadamard', np.asarray(spin.H) @ a, np.array([[1, 1], [1, -1]]) @ a / np.sqrt(2))

def predicates(env):
    for S in (0.5, 1, 1.5, 2):
        x, y, z = spin.spins(S)
        env.true('CR accepts spin %s' % S, spin.CR(x, y, z) and spin.CR(y, z, x))
        env.true('CR refuses a wrong order or scale %s' % S, not spin.CR(y, x, z) and not spin.CR(2 * x, 2 * y, 2 * z) and not spin.CR(x, y, 2 * z))
    x, y, z = spin.paulis(0.5)
    env.true('pCR', spin.pCR(x, y, z) and not spin.pCR(y, x, z) and not spin.pCR(*spin.spins(0.5)))
    U = np.linalg.qr(env.num('U', (4, 4)))[0]
    env.true('equal_up_to_phase', spin.equal_up_to_phase(U, U * np.exp(0.7j)) and not spin.equal_up_to_phase(U, U.conj()))
    v = env.r('v', (1,))[0]
    env.eq('anchor', v * 2, v + v)

def extracted(env, N):
    """coordinates of a group element: those of i times the traceless part of its logarithm (any anti-hermitian logarithm)"""
    h = env.herm('h', N)
    U = np.asarray(env.num('U', (N, N)))
    with swapped(spin, logm=lambda x: -1j * h): v = spin.extractv(U)
    env.eq('coordinates of the logarithm', np.tensordot(v, spin.su(N), [[0], [0]]), h - np.trace(h) * np.eye(N) / N)
    c = spin.components(h)
    env.eq('components leave the trace out', np.tensordot(c, spin.su(N), [[0], [0]]), h - np.trace(h) * np.eye(N) / N)

def exchanged_rows(env, i, j):
    A = env.c('A', (4, 3)); A0 = A.copy()
    B = spin.swap_rows(A, i, j)
    p = list(range(4)); p[i], p[j] = p[j], p[i]
    env.eq('rows', B, A0[p]); env.eq('argument unchanged', A, A0)

NO_REALS = ("predicates",)

def cases(tier):
    out = []
    t = tier == 'thorough'
    for S in [0.5, 1, 1.5, 2, 2.5, 3] + ([3.5, 4] if t else []):
        out.append(dict(name='spin %s' % S, fn=algebra, params=dict(S=S)))
    for S in (0.5, 1, 1.5): out.append(dict(name='ladder %s' % S, fn=ladder, params=dict(S=S)))
    for N in [2, 3, 4, 5] + ([6, 8] if t else []): out.append(dict(name='su(%d)' % N, fn=su, params=dict(N=N)))
    for N in [2, 4]:
        out.append(dict(name='SU(%d) with a spectator' % N, fn=spectator, params=dict(N=N), cost=3)); out.append(dict(name='phases with a spectator %d' % N, fn=spectator_phase, params=dict(N=N)))
    for N in [2, 3, 4]: out.append(dict(name='SU(%d)' % N, fn=SUN, params=dict(N=N)))
    for nm, n in [('U4', 15), ('U4s', 9), ('SU4', 15)] + ([('SU8', 63)] if t else []): out.append(dict(name='group %s' % nm, fn=group, params=dict(name=nm, n=n)))
    for n in (2, 4, 8):
        for w in ('left', 'mid', 'right'): out.append(dict(name='embed su(%d) %s' % (n, w), fn=embed, params=dict(n=n, where=w)))
    for n in (1, 2, 3, 4) + ((5, 6) if t else ()): out.append(dict(name='sphere %d' % n, fn=sphere, params=dict(n=n)))
    for N in (2, 3, 4) + ((8,) if t else ()): out.append(dict(name='coordinates of a group element %d' % N, fn=extracted, params=dict(N=N)))
    for i, j in [(0, 1), (3, 1), (2, 2)]: out.append(dict(name='rows %d %d' % (i, j), fn=exchanged_rows, params=dict(i=i, j=j)))
    for f in (pauli, levi, su4, local, phases, gates, predicates): out.append(dict(name=f.__name__, fn=f))
    return out
