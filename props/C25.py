"""Environments, transfers, gauge matching, tangent vectors and comparison of finite states."""
import numpy as np
from scipy.linalg import polar
from xmps.fMPS import fMPS, fTFD
from xmps.iMPS import iMPS
from xmps.ncon import ncon
from . import ref

BOUNDS = ('chains of 1 to 7 sites, d=2,3, bond dimensions 1 to 3 (listed); transferred operators with two to four legs, every entry free; tensors free on up to three '
          'sites (|Re|,|Im| of every entry <= 1), fixed generic tensors on longer stretches; environments of free states of up to three sites and of fixed states of four sites after the listed histories')

def state(env, b, d, free, name='A'):
    sh = ref.custom(d, b)
    return fMPS([x for x in (env.cs(name, sh) if free else [env.num('%s%d' % (name, n), s) for n, s in enumerate(sh)])], d)

# ------------------------------------------------------------------ transfers
def lstep(a, X):
    """[k, b, ...] on the right bond of a -> left bond"""
    return np.tensordot(a, np.tensordot(np.conj(a), X, [[2], [1]]), [[0, 2], [0, 2]])

def left(env, b, d, i, j, extra, free):
    A = state(env, b, d, free)
    op = env.c('op', (b[i], b[i]) + tuple(extra))
    want = {i: op}
    for m in range(i - 1, j - 1, -1): want[m] = lstep(A[m], want[m + 1])
    got = A.left_transfer(op, j, i)
    for n in range(j, i + 1): env.eq('at bond %d' % n, got(n), want[n])
    env.eq('one value', A.left_transfer(op, j, i, False), want[j])

def right(env, b, d, i, j, extra, free):
    """operator on the bond right of site i, its last two legs (bra, ket)"""
    A = state(env, b, d, free)
    op = env.c('op', tuple(extra) + (b[i + 1], b[i + 1]))
    k = op.ndim
    want = {i + 1: op}
    for m in range(i + 1, j + 1):
        t = np.tensordot(want[m], np.conj(A[m]), [[k - 2], [1]])          # ..., ket, s, bra'
        want[m + 1] = np.tensordot(t, A[m], [[k - 2, k - 1], [1, 0]])     # ..., bra', ket'
    got = A.right_transfer(op, i, j)
    for n in range(i + 1, j + 1): env.eq('at bond %d' % n, got(n), want[n])
    env.eq('last bond', A.right_transfer(op, i, j, False), want[j])

def pairing(env, b, d, i, j):
    """an operator carried right meets one carried left with the same value at every bond between"""
    A = state(env, b, d, False)
    x, y = env.c('x', (b[i], b[i])), env.c('y', (b[j], b[j]))
    R, L = A.right_transfer(x, i - 1, j), A.left_transfer(y, i, j)
    v = [np.sum(R(n) * np.transpose(L(n), [1, 0])) for n in range(i, j + 1)]
    for n, w in enumerate(v[1:]): env.eq('the same value at bond %d' % (i + n + 1), w, v[0])

# ------------------------------------------------------------------ environments
def envs(env, b, d, side, store, steps=None, at=None):
    A = state(env, b, d, False)
    if steps is not None: A = ref.history(A, steps)
    elif side == 'free': A = state(env, b, d, True)
    else: A = A.left_canonicalise() if side == 'left' else A.right_canonicalise()
    if at is not None: A[at] = env.c('X', A[at].shape)
    L = A.L
    l, r = A.get_envs(store_envs=True) if store else A.get_envs()
    X = np.eye(1)
    for n in range(L):
        env.eq('left of bond %d' % n, l(n - 1), X)
        X = sum(np.conj(a).T @ X @ a for a in A[n])
    env.eq('left of everything', l(L - 1), X)
    Y = np.eye(1)
    for n in reversed(range(L)):
        env.eq('right of site %d' % n, r(n), Y)
        Y = sum(a @ Y @ np.conj(a).T for a in A[n])
    env.eq('right of everything', r(-1), Y)
    if store:
        env.true('kept', A.l is l and A.r is r)

def envs_product(env, L, d):
    A = fMPS(env.cs('A', [(d, 1, 1)] * L), d)
    l, r = A.get_envs()
    n2 = [np.sum(a * np.conj(a)) for a in A.data]
    x = 1.0
    for n in range(L + 1):
        env.eq('left %d' % n, l(n - 1), x * np.ones((1, 1)))
        if n < L: x = x * n2[n]
    x = 1.0
    for n in reversed(range(-1, L)):
        env.eq('right %d' % n, r(n), x * np.ones((1, 1)))
        if n >= 0: x = x * n2[n]

# ------------------------------------------------------------------ gauge
def gauge(env, b, d, free):
    """the tensors of the listed sites are free (all of a pair matched against a fixed state)"""
    B = state(env, b, d, False, 'B')
    if free != 'all': B = B.left_canonicalise()
    sh = ref.custom(d, b)
    A = state(env, b, d, free == 'all')
    if free != 'all': A = fMPS([env.c('F%d' % n, sh[n]) if n in free else env.const(x) for n, x in enumerate(A.left_canonicalise().data)], d)
    A0 = [x.copy() for x in A.data]
    psi = ref.dense(A0); B0 = [x.copy() for x in B.data]
    C = A.match_gauge_to(B)
    env.true('in place', C is A and A.L == len(b) - 1)
    for n, s in enumerate(ref.custom(d, b)): env.true('shape %d' % n, A[n].shape == s)
    got = ref.dense(A.data)
    p, q = got.reshape(-1), psi.reshape(-1)
    if free in ('all', [0]):
        env.eq('norm', ref.inner(got, got), ref.inner(psi, psi))
        env.eq('the same state up to a phase', np.tensordot(p, np.conj(p), 0), np.tensordot(q, np.conj(q), 0))
    else:
        env.eq('the same state up to a factor', np.tensordot(p, q, 0), np.tensordot(q, p, 0))
        for n in free: env.eq('norm of tensor %d' % n, ref.inner(A[n], A[n]), ref.inner(A0[n], A0[n]))
    for n in range(A.L):
        env.eq('reference unchanged %d' % n, B[n], B0[n])
        S = sum(x @ np.conj(y).T for x, y in zip(A[n], B[n]))
        env.eq('matched %d' % n, S, np.conj(S).T)
        for k in range(S.shape[0]): env.le('positive %d %d' % (n, k), -np.real(S[k, k]), 0.0)

def regauge(env, b, d):
    """a state in another gauge is brought back to the tensors it came from"""
    B = state(env, b, d, False, 'B').left_canonicalise()
    Ws = [np.eye(1) + 0j]
    for n in range(1, len(b) - 1): Ws.append(np.linalg.qr(env.num('W%d' % n, (b[n], b[n])))[0])
    Ws.append(np.eye(1) * np.exp(0.4j))
    A = fMPS([np.conj(Ws[n]).T @ B[n] @ Ws[n + 1] for n in range(B.L)], d)
    A.match_gauge_to(B)
    for n in range(B.L): env.eq('tensor %d' % n, A[n], B[n])

# ------------------------------------------------------------------ tangent vectors
def tangent(env, b, d, n, given):
    A = state(env, b, d, False).left_canonicalise()
    l, r = A.get_envs()
    pr, v = A.left_null_projector(n, l, get_vL=True)
    x = env.c('x', (v.shape[2], b[n + 1]))
    kw = dict(none={}, envs=dict(envs=(l, r)), vL=dict(vL=v), both=dict(envs=(l, r), vL=v))[given]
    T = A.tangent_state(x, n, **kw)
    env.true('a state', type(T) is fMPS and len(T.data) == A.L)
    ll, rr = np.diag(np.diag(l(n - 1))), np.diag(np.diag(r(n)))
    t = np.linalg.inv(np.linalg.cholesky(ll)) @ v @ x @ np.linalg.inv(np.linalg.cholesky(rr))
    want = ref.dense([t if m == n else a for m, a in enumerate(A.data)])
    env.eq('the tangent vector', ref.dense(T.data), want)
    env.eq('orthogonal to the state', ref.inner(ref.dense(A.data), want), 0.0)
    env.eq('as long as its coordinates', ref.inner(want, want), ref.inner(x, x))

# ------------------------------------------------------------------ bookkeeping
def equal(env, b, d, cls):
    K = fTFD if cls == 'fTFD' else fMPS
    sh = ref.custom(d, b)
    As = env.cs('A', sh); x = env.c('x', (1,))[0]
    A, B = K([a.copy() for a in As], d), K([a.copy() for a in As], d)
    env.true('equal', bool(A == B) and not (A != B))
    for n in range(A.L):
        for ix in np.ndindex(*sh[n]):
            C = K([a.copy() for a in As], d)
            t = C[n].copy(); t[ix] = t[ix] + 1.5; C[n] = t
            env.true('differs in one entry %d' % n, not (A == C) and (A != C) and not (C == A))
    for m in range(1, A.L):
        C = K([a.copy() for a in As[:m]], d)
        env.true('a shorter chain differs (%d)' % m, not (A == C) and not (C == A) and A != C)

def shape_differs(env, d):
    t = env.c('t', (d, 1, 1))
    A = fMPS([t.copy()], d); B = fMPS([np.tile(t, (1, 1, 2))], d)
    env.true('other bonds differ', not (A == B) and not (B == A))

def count(env, b, d, kind):
    sh = ref.custom(d, b)
    As = env.cs('A', sh)
    A = fMPS([a.copy() for a in As], d) if kind == 'finite' else iMPS([a.copy() for a in As])
    L = len(b) - 1
    env.true('length', len(A) == L)
    for n in range(L):
        env.eq('counted from zero %d' % n, A[n], As[n])
        env.eq('counted from one %d' % n, A(n + 1), As[n])
    t = env.c('t', sh[0])
    A[0] = t
    env.eq('assigned', A.data[0], t)
    for n in range(1, L): env.eq('others kept %d' % n, A[n], As[n])

def network(env, b, d, op):
    A = state(env, b, d, True)
    L = A.L
    psi = ref.dense(A.data).reshape(-1)
    if op:
        X = env.c('X', (d ** L, d ** L))
        got = ncon([np.conj(a) for a in A.data] + [X.reshape([d] * (2 * L))] + A.data, A.links(), check_indices=False)
        env.eq('value of an operator', got.reshape(-1)[0], ref.inner(psi, X @ psi))
        env.true('length given', A.links(L) == A.links())
    else:
        got = ncon([np.conj(a) for a in A.data] + A.data, A.links(op=False), check_indices=False)
        env.eq('overlap', got.reshape(-1)[0], ref.inner(psi, psi))

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    q = tier == 'quick'
    out = []
    add = lambda name, fn, **p: out.append(dict(name=name, fn=fn, params=p))
    for b, d, i, j in [([1, 2, 2, 1], 2, 2, 1), ([1, 2, 3, 1], 2, 2, 0), ([1, 2, 2, 2, 1], 2, 3, 1), ([1, 3, 2, 1], 3, 2, 1), ([1, 2, 2, 1], 2, 1, 1)]:
        add('left %s d%d %d-%d' % (b, d, i, j), left, b=b, d=d, i=i, j=j, extra=[], free=True)
    for b, d, i, j in [([1, 2, 2, 2, 2, 2, 1], 2, 5, 1), ([1, 2, 3, 3, 2, 2, 1], 2, 4, 0), ([1, 3, 2, 3, 1], 3, 3, 0), ([1, 2, 3, 4, 3, 2, 1], 2, 6, 0)]:
        for x in ([], [2], [2, 1]): add('left fixed %s d%d %d-%d %s' % (b, d, i, j, x), left, b=b, d=d, i=i, j=j, extra=x, free=False)
    for b, d, i, j in [([1, 2, 2, 1], 2, 0, 1), ([1, 2, 3, 1], 2, 0, 1), ([1, 2, 2, 2, 1], 2, 0, 2), ([1, 2, 3, 2, 1], 3, 1, 2), ([1, 2, 2, 1], 2, 0, 2), ([1, 2, 2, 1], 2, 0, 0)]:
        if i < j: add('right %s d%d %d-%d' % (b, d, i, j), right, b=b, d=d, i=i, j=j, extra=[], free=True)
    for b, d, i, j in [([1, 2, 2, 2, 2, 2, 1], 2, 0, 4), ([1, 2, 3, 3, 2, 2, 1], 2, 1, 5), ([1, 3, 2, 3, 1], 3, 0, 3), ([1, 2, 3, 4, 3, 2, 1], 2, 0, 5)]:
        for x in ([], [2], [2, 1]): add('right fixed %s d%d %d-%d %s' % (b, d, i, j, x), right, b=b, d=d, i=i, j=j, extra=x, free=False)
    for b, i, j in [([1, 2, 2, 2, 1], 1, 3), ([1, 2, 3, 3, 2, 2, 1], 1, 5), ([1, 2, 2, 2, 2, 2, 2, 1], 2, 6)]:
        add('pairing %s %d-%d' % (b, i, j), pairing, b=b, d=2, i=i, j=j)
    for b, d in [([1, 2, 1], 2), ([1, 2, 2, 1], 2), ([1, 2, 3, 2, 1], 2), ([1, 2, 4, 3, 2, 1], 2), ([1, 3, 3, 1], 3), ([1, 1, 2, 1, 1], 2)]:
        for side in ('left', 'right'):
            add('environments %s d%d %s' % (b, d, side), envs, b=b, d=d, side=side, store=side == 'left')
    for b, d in [([1, 2, 1], 2), ([1, 2, 2, 1], 2), ([1, 2, 1], 3), ([1, 1, 2, 1], 2)]: add('environments %s d%d free' % (b, d), envs, b=b, d=d, side='free', store=d == 2)
    for at in range(3): add('environments, tensor %d replaced' % at, envs, b=[1, 2, 2, 1], d=2, side='left', store=False, at=at)
    for h in ref.histories(): add('environments after %s' % ', '.join(h), envs, b=[1, 2, 3, 2, 1], d=2, side='', store=False, steps=h)
    for L, d in [(1, 2), (3, 2), (2, 3), (4, 2)]: add('environments of products L%d d%d' % (L, d), envs_product, L=L, d=d)
    for b, d in [([1, 1], 2), ([1, 1, 1], 2), ([1, 1, 1, 1], 3)]: add('gauge, free %s d%d' % (b, d), gauge, b=b, d=d, free='all')
    for b, d, ns in [([1, 2, 1], 2, (0, 1)), ([1, 2, 2, 1], 2, (0,) if q else (0, 1)), ([1, 2, 3, 2, 1], 2, (0,)), ([1, 3, 1], 3, (0,))]:
        for n in ns: out.append(dict(name='gauge %s d%d free %d' % (b, d, n), fn=gauge, params=dict(b=b, d=d, free=[n]), cost=10 * n + 1))
    for b, d in [([1, 2, 1], 2), ([1, 2, 2, 1], 2), ([1, 2, 3, 2, 1], 2), ([1, 3, 3, 1], 3), ([1, 1, 1], 2)]: add('gauge undone %s d%d' % (b, d), regauge, b=b, d=d)
    for b, d in [([1, 2, 2, 1], 2), ([1, 2, 2, 2, 1], 2), ([1, 1, 1, 1], 2), ([1, 2, 2, 1], 3)]:
        for n in range(len(b) - 1):
            if d * b[n] == b[n + 1]: continue
            for g in ('none', 'envs', 'vL', 'both'): add('tangent %s d%d site %d given %s' % (b, d, n, g), tangent, b=b, d=d, n=n, given=g)
    for b, d, c in [([1, 1], 2, 'fMPS'), ([1, 2, 1], 2, 'fMPS'), ([1, 2, 2, 1], 2, 'fMPS'), ([1, 4, 1], 4, 'fTFD')]:
        add('equality %s %s' % (c, b), equal, b=b, d=d, cls=c)
    add('equality of shapes', shape_differs, d=2)
    for b, k in [([1, 2, 2, 1], 'finite'), ([1, 1], 'finite'), ([2, 2, 2], 'uniform'), ([2, 2], 'uniform')]:
        add('counting %s %s' % (k, b), count, b=b, d=2, kind=k)
    for b, d in [([1, 1], 2), ([1, 2, 1], 2), ([1, 2, 2, 1], 2), ([1, 2, 1], 3)]:
        for o in (True, False):
            if not (o and len(b) > 3 and q and d > 2): add('network %s d%d %s' % (b, d, 'operator' if o else 'overlap'), network, b=b, d=d, op=o)
    return out
