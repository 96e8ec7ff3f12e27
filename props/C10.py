"""Two-site kernels: merge, gate, split (QR, RQ, truncated SVD)."""
import numpy as np
from xmps import fMPS as M
from xmps.tensor import tr_svd, uqr, urq
from . import ref
from .C07 import left_iso, right_iso

BOUNDS = 'two sites of equal dimension d<=4 (uneven pairs: products 2, 3, 6, 8, 12), bond dimensions<=3 (listed per case); |Re|,|Im| of every entry <= 1; every matrix decomposed has nonzero singular values'

def merged(a, b):
    """[s1 s2, l, r]"""
    T = np.transpose(np.tensordot(a, b, [[2], [1]]), [0, 2, 1, 3])
    return T.reshape(a.shape[0] * b.shape[0], a.shape[1], b.shape[2])

def group(env, da, db, l, m, r):
    a, b = env.c('a', (da, l, m)), env.c('b', (db, m, r))
    env.eq('group', M.group_tensors([a, b]), merged(a, b))

def isometry(env, d, l, m, r, k=None):
    a, b = env.c('a', (d, l, m)), env.c('b', (d, m, r))
    V = env.c('V', (k or d, d * d))
    env.eq('apply_isometry', M.apply_isometry([a, b], V), np.tensordot(V, merged(a, b), [[1], [0]]))

def split(env, d, l, r, how):
    T = env.c('T', (d * d, l, r))
    a, b = dict(qr=M.separate_tensor_qr, rq=M.separate_tensor_rq)[how](T)
    k = min(d * l, d * r)
    env.true('shapes', tuple(a.shape) == (d, l, k) and tuple(b.shape) == (d, k, r))
    env.eq('product of the parts', merged(a, b), T)
    if how == 'qr': left_iso(env, 'left part isometric', a)
    else: right_iso(env, 'right part isometric', b)

def split_svd(env, d, l, r, which, D):
    T = env.c('T', (d * d, l, r))
    a, b = M.separate_tensor_svd(T, D, which)
    k = min(d * l, d * r); k = k if D is None else min(k, D)
    env.true('shapes', tuple(a.shape) == (d, l, k) and tuple(b.shape) == (d, k, r))
    X = T.reshape(d, d, l, r).transpose([0, 2, 1, 3]).reshape(d * l, d * r)
    U, s, V = np.linalg.svd(X, full_matrices=False)
    W = ((U[:, :k] * s[:k]) @ V[:k]).reshape(d, l, d, r).transpose([0, 2, 1, 3]).reshape(d * d, l, r)
    n = np.linalg.norm(s[:k])
    env.eq('normalised best approximation', merged(a, b) * n, W)
    if which == 'l': left_iso(env, 'left part isometric', a)
    else: right_iso(env, 'right part isometric', b)

def gate(env, d, l, m, r, which, D):
    a, b = env.c('a', (d, l, m)), env.c('b', (d, m, r))
    U = env.c('U', (d * d, d * d))
    T = np.tensordot(U, merged(a, b), [[1], [0]])
    x, y = M.apply_unitary([a, b], U, which, D)
    if D is None: env.eq('gate then split', merged(x, y), T)
    else:
        k = min(d * l, d * r, D)
        X = T.reshape(d, d, l, r).transpose([0, 2, 1, 3]).reshape(d * l, d * r)
        P, s, V = np.linalg.svd(X, full_matrices=False)
        W = ((P[:, :k] * s[:k]) @ V[:k]).reshape(d, l, d, r).transpose([0, 2, 1, 3]).reshape(d * d, l, r)
        env.eq('gate then normalised best approximation', merged(x, y) * np.linalg.norm(s[:k]), W)
    if which == 'l': left_iso(env, 'left part isometric', x)
    else: right_iso(env, 'right part isometric', y)

def unequal(env, n, parts, l, r, how):
    """a pair whose dimensions are only known by their product: split as evenly as possible"""
    T = env.c('T', (n, l, r))
    a, b = {'qr': M.separate_tensor_qr, 'rq': M.separate_tensor_rq, 'l': lambda t: M.separate_tensor_svd(t, None, 'l'), 'r': lambda t: M.separate_tensor_svd(t, None, 'r')}[how](T)
    env.true('dimensions', sorted([a.shape[0], b.shape[0]]) == sorted(parts))
    env.true('outer bonds', a.shape[1] == l and b.shape[2] == r)
    W = merged(a, b)
    if how in 'lr':
        p, q = a.shape[0], b.shape[0]
        W = W * np.linalg.norm(np.linalg.svd(T.reshape(p, q, l, r).transpose([0, 2, 1, 3]).reshape(p * l, q * r), full_matrices=False)[1])
    env.eq('product of the parts', W, T)
    if how in ('qr', 'l'): left_iso(env, 'left part isometric', a)
    else: right_iso(env, 'right part isometric', b)

def truncated_svd(env, m, n, D):
    A = env.c('A', (m, n))
    U, S, V = tr_svd(A, D)
    u, s, v = np.linalg.svd(A, full_matrices=False)
    k = min(m, n, D)
    env.true('shapes', tuple(U.shape) == (m, k) and tuple(S.shape) == (k, k) and tuple(V.shape) == (k, n))
    env.eq('best approximation', U @ S @ V, (u[:, :k] * s[:k]) @ v[:k])
    env.eq('left vectors orthonormal', np.conj(U).T @ U, np.eye(k))
    env.eq('right vectors orthonormal', V @ np.conj(V).T, np.eye(k))

def cases(tier):
    out = []
    for p in [(2, 2, 1, 2, 1), (2, 2, 2, 2, 3), (3, 2, 2, 1, 2), (2, 4, 1, 3, 2), (3, 3, 2, 2, 2)]:
        out.append(dict(name='group %s' % (p,), fn=group, params=dict(zip(('da', 'db', 'l', 'm', 'r'), p))))
    for d, l, m, r in [(2, 2, 2, 2), (2, 1, 2, 3), (3, 1, 2, 1)]:
        out.append(dict(name='isometry d%d %s' % (d, (l, m, r)), fn=isometry, params=dict(d=d, l=l, m=m, r=r)))
    for d, k in [(2, 1), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (3, 9)]:
        out.append(dict(name='isometry d%d to %d' % (d, k), fn=isometry, params=dict(d=d, l=2, m=2, r=1, k=k)))
    for d, l, r in [(2, 1, 1), (2, 2, 1), (2, 1, 3), (2, 2, 2), (3, 1, 2), (3, 2, 1), (4, 1, 1)]:
        for how in ('qr', 'rq'):
            out.append(dict(name='split %s d%d %s' % (how, d, (l, r)), fn=split, params=dict(d=d, l=l, r=r, how=how)))
        for which in ('l', 'r'):
            for D in (None, 1, 2, 9):
                out.append(dict(name='split svd %s d%d %s D%s' % (which, d, (l, r), D), fn=split_svd, params=dict(d=d, l=l, r=r, which=which, D=D)))
    for d, l, m, r in [(2, 1, 2, 1), (2, 2, 2, 1), (2, 1, 1, 2)]:
        for which in ('l', 'r'):
            for D in (None, 1, 2):
                out.append(dict(name='gate %s d%d %s D%s' % (which, d, (l, m, r), D), fn=gate, params=dict(d=d, l=l, m=m, r=r, which=which, D=D)))
    for n, parts in [(6, (2, 3)), (2, (1, 2)), (8, (2, 4)), (3, (1, 3)), (12, (3, 4))]:
        for how in ('qr', 'rq', 'l', 'r'):
            out.append(dict(name='uneven %d %s' % (n, how), fn=unequal, params=dict(n=n, parts=parts, l=1, r=2 if n < 8 else 1, how=how)))
    for m, n, D in [(2, 2, 1), (2, 3, 1), (3, 2, 2), (3, 3, 2), (2, 2, 5)]:
        out.append(dict(name='tr_svd %dx%d D%d' % (m, n, D), fn=truncated_svd, params=dict(m=m, n=n, D=D)))
    return out
