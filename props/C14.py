"""Transfer matrices of uniform states: dense matrix, products, adjoints, eigenvector tests."""
import numpy as np
import scipy.linalg
from xmps.iMPS import iMPS, Map, TransferMatrix, ivMPS
from xmps import tensor
from . import ref

BOUNDS = 'd<=4, D<=4 (listed per case); |Re|,|Im| of every entry <= 1; Arnoldi iteration itself is outside (library)'

def dense(A, B):
    """[(i,j),(k,l)] = sum_s A[s,i,k] conj(B[s,j,l])"""
    D = A.shape[1]
    return np.transpose(np.tensordot(A, np.conj(B), [[0], [0]]), [0, 2, 1, 3]).reshape(D * D, -1)

def both(env, tag, X, T, D):
    r, l = env.c('r', (D, D)), env.c('l', (D, D))
    rv, lv = r.reshape(D * D), l.reshape(D * D)
    env.eq(tag + ' asmatrix', X.asmatrix(), T)
    env.eq(tag + ' mv = T r', X.mv(rv), T @ rv)
    env.eq(tag + ' mvr = T+ l', X.mvr(lv), np.conj(T).T @ lv)
    env.eq(tag + ' mv takes matrices', X.mv(r), T @ rv)
    O = X.aslinearoperator()
    env.eq(tag + ' operator', O.matvec(rv), T @ rv)
    env.eq(tag + ' adjoint operator', O.rmatvec(lv), np.conj(T).T @ lv)
    env.eq(tag + ' <l|T r> = <T+ l|r>', np.tensordot(np.conj(lv), X.mv(rv), 1), np.tensordot(np.conj(X.mvr(lv)), rv, 1))

def tm(env, d, D):
    A = env.c('A', (d, D, D))
    both(env, 'transfer matrix', TransferMatrix(A), dense(A, A), D)
    both(env, 'iMPS transfer matrix', iMPS([A]).transfer_matrix(), dense(A, A), D)

def mp(env, d, D):
    A, B = env.c('A', (d, D, D)), env.c('B', (d, D, D))
    both(env, 'map', Map(A, B), dense(A, B), D)

def vidal(env, d, D):
    G, L = env.c('G', (d, D, D)), env.c('L', (D, D))
    v = ivMPS([(G, L)])
    A = np.tensordot(G, L, [[2], [0]])
    T = np.tensordot(A, np.conj(A), [[0], [0]])
    env.eq('vidal transfer tensor', v.transfer_matrix(), T)
    env.eq('to_iMPS multiplies the weights in', v.to_iMPS()[0], A)

def lin(env, d, D):
    A = [env.c('A%d' % i, (d, D, D)) for i in range(2)]; B = [env.c('B%d' % i, (d, D, D)) for i in range(2)]
    x = env.pos('x', (1,))[0]; x = x if env.sym else float(x)
    P, Q = iMPS(A), iMPS(B)
    for n, (got, want) in dict(plus=(P + Q, [a + b for a, b in zip(A, B)]), minus=(P - Q, [a - b for a, b in zip(A, B)]),
                               times=(P * x, [a * x for a in A]), rtimes=(x * P, [a * x for a in A]), over=(P / x, [a / x for a in A])).items():
        env.true(n + ' type and period', type(got) is iMPS and got.period == 2 and got.D == D and got.d == d)
        for i in range(2): env.eq('%s tensor %d' % (n, i), got[i], want[i])
    for i in range(2): env.eq('operands unchanged %d' % i, P[i], A[i])
    C = P.copy()
    C[0] = B[0]
    env.eq('copies are separate', P[0], A[0])
    env.eq('copy assigned', C[0], B[0]); env.eq('copy kept', C[1], A[1])

def accepts(env, d, D):
    """the identity is an eigenvector of the maps of an isometric tensor and a multiple of it, with a complex eigenvalue"""
    A = scipy.linalg.qr(env.c('Q', (d * D, D)), mode='economic')[0].reshape(d, D, D)
    B = np.transpose(np.conj(A), [0, 2, 1])
    I = np.eye(D) + 0j
    for p, q in [(1 + 1j, 0.5 - 0.5j), (-1 + 0j, -1 + 0j), (2j, -0.5j)]:  # p q = 1
        env.true('left %s' % p, bool(Map(A, p * A).is_left_eigenvector(I, q)))
        env.true('left, first %s' % p, bool(Map(np.conj(p) * A, A).is_left_eigenvector(I, q)))
        env.true('right %s' % p, bool(Map(B, np.conj(p) * B).is_right_eigenvector(I, q)))
        env.true('right, first %s' % p, bool(Map(p * B, B).is_right_eigenvector(I, q)))
        env.true('left, any multiple', bool(Map(A, p * A).is_left_eigenvector(1j * I, q)))

def refuses(env, d, D):
    """multiples of an eigenvector with another eigenvalue: only zero is accepted"""
    A = np.linalg.qr(np.asarray(env.num('Q', (d * D, D))))[0].reshape(d, D, D)
    B = np.transpose(np.conj(A), [0, 2, 1])
    x = env.c('z', (1,))[0] * np.eye(D)
    for p, q in [(1 + 1j, 0.5 - 0.5j), (-1 + 0j, -1 + 0j), (2j, -0.5j)]:
        for w in [-q, 1j * q, np.conj(1j * q), abs(q), 2 * q]:
            if abs(w - q) < 1e-9: continue
            if Map(A, p * A).is_left_eigenvector(x, w): env.eq('left %s %s' % (p, w), x, w * p * x)
            if Map(B, np.conj(p) * B).is_right_eigenvector(x, w): env.eq('right %s %s' % (p, w), x, w * p * x)
    env.true('decided', True)

def rejects(env, d, D, side):
    """what is accepted equals the multiple of its image"""
    A, B, x, w = env.c('A', (d, D, D)), env.c('B', (d, D, D)), env.c('x', (D, D)), env.c('w', (1,))[0]
    T = dense(A, B)
    y = ((T if side == 'right' else np.conj(T).T) @ x.reshape(D * D)).reshape(D, D) * w
    M = Map(A, B)
    if (M.is_right_eigenvector if side == 'right' else M.is_left_eigenvector)(x, w): env.eq('accepted', x, y)
    env.true('decided', True)

def copies(env, d, D, p):
    """a copy and its original do not see each other's changes"""
    A, B = env.cs('A', [(d, D, D)] * p), env.c('B', (d, D, D))
    P = iMPS([a.copy() for a in A])
    C = P.copy()
    for i in range(p):
        C[i] = B
        env.eq('original kept %d' % i, P[i], A[i])
    C = P.copy()
    for i in range(p):
        P[i] = B
        env.eq('copy kept %d' % i, C[i], A[i])
    env.true('period', C.period == p and len(C) == p and C.d == d and C.D == D)

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    for d, D in [(2, 1), (2, 2), (3, 2)]:
        out.append(dict(name='eigenvector accepted d%d D%d' % (d, D), fn=accepts, params=dict(d=d, D=D)))
        out.append(dict(name='eigenvector refused d%d D%d' % (d, D), fn=refuses, params=dict(d=d, D=D)))
    for d, D in [(1, 1), (2, 1), (2, 2)]:
        for side in ('left', 'right'):
            out.append(dict(name='eigenvector only %s d%d D%d' % (side, d, D), fn=rejects, params=dict(d=d, D=D, side=side)))
    for p in (1, 2, 3):
        out.append(dict(name='copy of period %d' % p, fn=copies, params=dict(d=2, D=2, p=p)))
    cfg = [(2, 1), (2, 2), (3, 2), (2, 3), (4, 2)] + ([(2, 4), (3, 3)] if tier == 'thorough' else [])
    for d, D in cfg:
        out.append(dict(name='transfer matrix d%d D%d' % (d, D), fn=tm, params=dict(d=d, D=D)))
        out.append(dict(name='map d%d D%d' % (d, D), fn=mp, params=dict(d=d, D=D)))
        out.append(dict(name='vidal d%d D%d' % (d, D), fn=vidal, params=dict(d=d, D=D)))
        out.append(dict(name='itemwise d%d D%d' % (d, D), fn=lin, params=dict(d=d, D=D)))
    return out
