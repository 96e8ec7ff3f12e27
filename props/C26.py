"""Uniform states: fixed points of mixed maps, overlaps, mixed gauge, the Vidal canonicalisation, ground-state search."""
import contextlib
import numpy as np
import scipy.linalg
import xmps.iMPS, xmps.iTDVP, xmps.tensor, xmps.iOptimize
from xmps.iMPS import iMPS, ivMPS, Map, TransferMatrix
from xmps.tensor import uqr, urq, r_eigenmatrix, l_eigenmatrix
from xmps.iTDVP import Trajectory
from . import ref
from .C13 import replaced
from .C15 import pos_gen, fix, positive_point, same_state, dominant, earlier
from symx import poly, stubs, solve
from symx.arr import wrap, o_, lift

BOUNDS = ('one-tensor cells, D=2 (maps and factorisations also 1 and 3), d=2,3; every tensor entry free; eigensolvers by contract (an eigenpair up to a listed phase, positive eigenmatrices '
          'for the Vidal form); one iteration of the mixed-gauge loop from any start; two or three iterations of the ground-state search with any velocity')

@contextlib.contextmanager
def swapped(mod, **kw):
    old = {n: getattr(mod, n) for n in kw}
    for n, f in kw.items(): setattr(mod, n, f)
    try: yield
    finally:
        for n, f in old.items(): setattr(mod, n, f)

# ------------------------------------------------------------------ eigenpair of a mixed map, by contract
def rmap(A, B, x): return sum(a @ x @ np.conj(b).T for a, b in zip(A, B))
def lmap(A, B, x): return sum(np.conj(a).T @ x @ b for a, b in zip(A, B))

def vec_gen(name, D, phase):
    """a unit vector as a matrix, with first entry phase * positive"""
    X = np.empty((D, D), object)
    for i in range(D):
        for j in range(D):
            X[i, j] = poly.fresh('%s[%d,%d]' % (name, i, j), 'r' if i == j == 0 else 'c', 1.0, i == j == 0)
    stubs.nz(X[0, 0])
    stubs.isometry('unit', X.reshape(D * D, 1), True)
    return wrap(X * phase, True)

def bind(lhs, lam, x, label):
    """constraint lhs(x) = lam x, entry by entry"""
    D = x.shape[0]
    y, xx = o_(lift(lhs)), o_(lift(x))
    for i in range(D):
        for j in range(D):
            p = y[i, j] - lam * xx[i, j]
            poly.add_constraint(label, p, [m for m in poly.terms(y[i, j])])

def fixed(env, d, D, ph, side, guess):
    poly.ST.reduce_sqrt = True
    A, B = env.c('A', (d, D, D)), env.c('B', (d, D, D))
    M = Map(A, B)
    x0 = env.c('g', (D, D)) if guess else None
    ops = []
    def arnoldi(op, k=6, v0=None, tol=0, **kw):
        ops.append((op, k, v0))
        lam = poly.fresh('lam', 'c', 8.0); stubs.nz(lam)
        v = vec_gen('v', D, ph)
        bind((rmap if side == 'right' else lmap)(A, B, v), lam, v, 'eigenpair')
        return wrap(np.array([lam], object), True), v.reshape(D * D, 1)
    if not env.sym:
        T = np.array([rmap(A, B, u.reshape(D, D)).reshape(-1) for u in np.eye(D * D)]).T
        w = np.sort(abs(np.linalg.eigvals(T)))
        env.assume(np.isfinite(w).all() and (D == 1 or w[-1] > 1e-3 and w[-2] < w[-1] * (1 - 1e-3)))
    with (swapped(xmps.iMPS, arnoldi=arnoldi) if env.sym else contextlib.nullcontext()):
        e, x = (M.right_fixed_point(x0) if side == 'right' else M.left_fixed_point(x0))
    env.true('a matrix', x.shape == (D, D))
    y = (rmap if side == 'right' else lmap)(A, B, x)
    e = np.reshape(e, (-1,))[0]
    if side == 'left' and not env.sym: e = np.conj(e) if abs(np.sum(np.conj(x) * y) - e * np.sum(np.conj(x) * x)) > abs(np.sum(np.conj(x) * y) - np.conj(e) * np.sum(np.conj(x) * x)) else e
    env.eq('fixed point', y, e * x)
    if env.sym:
        op, k, v0 = ops[0]
        env.true('one eigenpair, from the guess', len(ops) == 1 and k == 1 and ((v0 is None) == (x0 is None)))
        if guess: env.eq('guess', v0, x0.reshape(-1))
        z = env.c('z', (D, D))
        env.eq('the map', op.matvec(z.reshape(-1)), (rmap if side == 'right' else lmap)(A, B, z).reshape(-1))
    else: env.true('the largest', abs(abs(e) - w[-1]) < 1e-6 * w[-1])

def tests(env, d, D):
    """a given matrix is, or is not, fixed"""
    Q = scipy.linalg.qr(env.c('Q', (d * D, D)), mode='economic')[0]
    A = Q.reshape(d, D, D)
    B = np.transpose(np.conj(A), [0, 2, 1])
    I = np.eye(D) + 0j
    env.true('left', bool(Map(A, A).is_left_eigenvector(I)))
    env.true('right', bool(Map(B, B).is_right_eigenvector(I)))
    env.true('left, factor', bool(Map(2.0 * A, A).is_left_eigenvector(I, 0.5)))
    env.true('right, factor', bool(Map(2.0 * B, B).is_right_eigenvector(I, 0.5)))

# ------------------------------------------------------------------ overlaps per site
def overlap(env, d, D, stale=''):
    """|largest eigenvalue|^2 of the mixed map of the two left canonical tensors; stale: the tensor replaced after that state was canonicalised"""
    A, B = env.c('A', (d, D, D)), env.c('B', (d, D, D))
    X, Y = earlier(env, A, 'l' if 'x' in stale else None), earlier(env, B, 'l' if 'y' in stale else None)
    if not env.sym:
        v = X.overlap(Y)
        w = [max(abs(np.linalg.eigvals(np.einsum('sab,scd->acbd', p, np.conj(q)).reshape(D * D, -1)))) for p, q in ((A, B), (A, A), (B, B))]
        env.eq('overlap', np.reshape(v, (-1,))[0], w[0] ** 2 / w[1] / w[2], 1e-6)
        return
    a, b = env.c('a', (d, D, D)), env.c('b', (d, D, D))
    lam = env.c('lam', (1,))
    asked, maps = [], []
    def canon(self, hand='r', *r, **k):
        asked.append((self, hand))
        self.data[0] = a if self is X else b
        self.canonical = hand
        return self
    def point(self, l0=None, tol=0, **k):
        maps.append((self.A, self.B))
        return lam, np.eye(D)
    with replaced(iMPS, canonicalise=canon), replaced(Map, left_fixed_point=point, right_fixed_point=point):
        v = X.overlap(Y)
    env.true('both states left canonical', len(asked) == 2 and all(h == 'l' for s, h in asked) and {id(s) for s, h in asked} == {id(X), id(Y)})
    env.true('one map', len(maps) == 1)
    p, q = maps[0]
    env.eq('of both tensors', np.stack([p, q]), np.stack([a, b]))
    env.eq('overlap', np.reshape(v, (-1,))[0], lam[0] * np.conj(lam[0]))

def echoes(env, n):
    """-log of the overlap of each recorded state with the first"""
    d = D = 2
    As = [env.c('A%d' % k, (d, D, D)) for k in range(n)]
    T = Trajectory(iMPS([As[0].copy()]), env.num('H', (4, 4)))
    T.mps_history = [iMPS([a]).serialize(real=True) for a in As]
    T.Ds = [D] * n
    seen = []
    vals = [0.9, 0.5, 0.25, 1.0][:n]
    def ov(self, other):
        seen.append((self.data[0].copy(), other.data[0].copy()))
        return vals[len(seen) - 1]
    with replaced(iMPS, overlap=ov): r = T.loschmidts()
    env.true('one per record', len(seen) == n and np.shape(r) == (n,))
    for k in range(n):
        x, y = seen[k]
        env.eq('pair %d' % k, np.stack([x, y]), np.stack([As[k], As[0]]))
        env.eq('value %d' % k, r[k], -np.log(vals[k]))

# ------------------------------------------------------------------ factorisations and the mixed gauge
def factor(env, m, n, kind):
    M = env.c('M', (m, n))
    if kind == 'qr':
        q, r = uqr(M)
        k = min(m, n)
        env.true('shapes', q.shape == (m, k) and r.shape == (k, n))
        env.eq('isometry', np.conj(q).T @ q, np.eye(k))
        env.eq('upper triangular', np.stack([r[i, j] for i in range(k) for j in range(i)] + [0.0]), np.zeros(k * (k - 1) // 2 + 1))
    else:
        r, q = urq(M)
        k = min(m, n)
        env.true('shapes', q.shape == (k, n) and r.shape == (m, k))
        env.eq('isometry', q @ np.conj(q).T, np.eye(k))
        if m == k: env.eq('upper triangular', np.stack([r[i, j] for i in range(k) for j in range(i)] + [0.0]), np.zeros(k * (k - 1) // 2 + 1))
    env.eq('product', q @ r if kind == 'qr' else r @ q, M)
    for i in range(min(r.shape)): env.le('positive diagonal %d' % i, -np.real(r[i, i]), 0.0)

def half(env, d, D, side):
    """one iteration: the new isometry carries the start gauge into the new one"""
    A = env.c('A', (d, D, D))
    X0 = env.c('X', (D, D))
    S = iMPS([A.copy()])
    keep = X0.copy()
    Q, X, lam = (S._lmixed(np.inf, X0) if side == 'left' else S._rmixed(np.inf, X0))
    env.true('shapes', Q.shape == (d, D, D) and X.shape == (D, D))
    nn = np.sqrt(np.sum(np.real(keep * np.conj(keep))))
    for s in range(d):
        if side == 'left': env.eq('gauge relation %d' % s, nn * lam * (Q[s] @ X), keep @ A[s])
        else: env.eq('gauge relation %d' % s, nn * lam * (X @ Q[s]), A[s] @ keep)
    if side == 'left': env.eq('left isometry', sum(np.conj(q).T @ q for q in Q), np.eye(D))
    else: env.eq('right isometry', sum(q @ np.conj(q).T for q in Q), np.eye(D))
    env.eq('state unchanged', S.data[0], A)

def mixed(env, d, D):
    """left isometry of the state, then the right isometry and the centre of the left one"""
    A, L, R = env.c('A', (d, D, D)), env.c('L', (d, D, D)), env.c('R', (d, D, D))
    C, C2 = env.c('C', (D, D)), env.c('C2', (D, D))
    S = iMPS([A.copy()]); seen = []
    def lm(self, eta=1e-10, L0=None): seen.append(('l', self.data[0].copy())); return L, C2, 1.5
    def rm(self, eta=1e-10, R0=None): seen.append(('r', self.data[0].copy())); return R, C, 1.0
    with replaced(iMPS, _lmixed=lm, _rmixed=rm): X, Y, c = S.mixed()
    env.true('left then right', [s for s, _ in seen] == ['l', 'r'] and type(X) is iMPS and type(Y) is iMPS)
    env.eq('of the state', seen[0][1], A); env.eq('of the left tensor', seen[1][1], L)
    env.eq('left', X[0], L); env.eq('right', Y[0], R); env.eq('centre', c, C)

# ------------------------------------------------------------------ eigenmatrices and the Vidal form
def eigmat(env, K, ph, side):
    M = env.c('M', (K, K, K, K))
    def arnoldi(op, k=6, which='LM', **kw):
        lam = poly.fresh('lam', 'r', 8.0, True); stubs.nz(lam)
        v = vec_gen('v', K, ph)
        env.true('one largest eigenpair', k == 1 and which == 'LM')
        y = (np.tensordot(M, v, [[2, 3], [0, 1]]) if side == 'right' else np.tensordot(np.conj(M), v, [[0, 1], [0, 1]]))
        bind(y, lam, v, 'eigenpair')
        env.eq('the matrix', op @ v.reshape(K * K), y.reshape(-1))
        return wrap(np.array([lam], object), True), v.reshape(K * K, 1)
    with (swapped(xmps.tensor, arnoldi=arnoldi) if env.sym else contextlib.nullcontext()):
        e, V = (r_eigenmatrix if side == 'right' else l_eigenmatrix)(M)
    e = np.reshape(e, (-1,))[0]
    env.true('a matrix', V.shape == (K, K))
    if side == 'right': env.eq('eigenmatrix', np.tensordot(M, V, [[2, 3], [0, 1]]), e * V)
    else: env.eq('eigenmatrix', np.tensordot(V, M, [[0, 1], [0, 1]]), (e if env.sym else np.conj(e)) * V)
    env.eq('first entry real', np.imag(V[0, 0]), 0.0)

def same_spectrum(M, N):
    """traces of the first K^2 powers agree at random points (identically, up to chance)"""
    from symx.runner import evaluate
    K = M.shape[0] ** 2
    for seed in range(2):
        rng, pt = np.random.RandomState(seed), {}
        for g in range(len(poly.ST.gens)):
            if g in pt: continue
            real = poly.ST.gens[g].kind == 'r'
            z = 0.1 + rng.rand() if real else rng.randn() + 1j * rng.randn()
            pt[g] = z; pt[poly.ST.conj[g]] = np.conj(z)
        m, n = [np.array([complex(evaluate(x, pt)) for x in o_(X).ravel()]).reshape(K, K) for X in (M, N)]
        for k in range(1, K + 1):
            x, y = np.trace(np.linalg.matrix_power(m, k)), np.trace(np.linalg.matrix_power(n, k))
            if abs(x - y) > 1e-9 * max(1, abs(x)): return False
    return True

class Eigenmatrices:
    """contract of the eigenmatrix solvers: the first map of a side gets (eta, V > 0) with M.V = eta V; the transformed map has to fix the identity with the same eta"""
    def __init__(self, env): self.env, self.seen = env, {}
    def solve(self, M, side):
        K = M.shape[0]
        act = (lambda V: np.tensordot(M, V, [[2, 3], [0, 1]])) if side == 'right' else (lambda V: np.tensordot(V, M, [[0, 1], [0, 1]]))
        for M0, eta, V in self.seen.get(side, []):
            if all((a.key() == b.key()) if isinstance(a, poly.Sym) and isinstance(b, poly.Sym) else a is b for a, b in zip(o_(M).ravel(), o_(M0).ravel())): return eta, V.copy()
        if self.seen.get(side):
            eta, I = self.seen[side][0][1], np.eye(K)
            self.env.eq('transformed map fixes the identity', act(I), eta * I)
            return eta, wrap(np.array(I + 0j, object), True)
        # maps of equal traces of powers have the same spectrum, hence the same largest eigenvalue
        other = [x for s, l in self.seen.items() if s != side for x in l[:1] if same_spectrum(x[0], M)]
        e = o_(other[0][1])[()] if other else stubs.nz(poly.fresh('eta', 'r', 8.0, True))
        V = pos_gen('v' + side[0], K)
        bind(act(V), e, V, 'eigenmatrix')
        eta = wrap(np.array(e, object).reshape(()), False)
        self.seen.setdefault(side, []).append((M.copy(), eta, V.copy()))
        return eta, V
    def right(self, M): return self.solve(M, 'right')
    def left(self, M): return self.solve(M, 'left')

def vidal(env, d, D, what):
    G = env.c('G', (d, D, D)); L = np.diag(env.pos('s', (D,)))
    V = ivMPS([(G.copy(), L.copy())])
    A = G @ L
    if env.sym:
        E = Eigenmatrices(env)
        with swapped(xmps.iMPS, r_eigenmatrix=E.right, l_eigenmatrix=E.left):
            W = V.canonicalise()
    else: W = V.canonicalise()
    env.true('in place', W is V and len(V.data) == 1)
    g, l = V.data[0]
    I = np.eye(D)
    if what == 'right': env.eq('right isometry', sum((x @ l) @ np.conj(x @ l).T for x in g), I)
    if what == 'left': env.eq('left isometry', sum(np.conj(l @ x).T @ (l @ x) for x in g), I)
    if what == 'state':        # the same state: traces of words are those of the given tensors, up to one factor per site
        B = [x @ l for x in g]
        one = np.stack([np.trace(x) for x in B]), np.stack([np.trace(x) for x in A])
        k = np.sqrt(E.seen['right'][0][1]) if env.sym else np.vdot(*one) / np.vdot(one[0], one[0])
        env.eq('two sites', k * k * np.stack([np.trace(x @ y) for x in B for y in B]), np.stack([np.trace(x @ y) for x in A for y in A]))
    if what == 'weights':
        env.eq('normalised', np.trace(l @ l), 1.0)
        env.eq('diagonal', l - np.diag(np.diag(l)), np.zeros((D, D)))

# ------------------------------------------------------------------ ground states
def search(env, n, D, tol):
    """steps against the velocity in imaginary time, each followed by the left canonical form; stops when the velocity is small"""
    d = 2
    H = env.num('H', (4, 4)); H = H + np.conj(H).T
    start = env.num('S', (d, D, D))
    K = [env.c('k%d' % i, (d, D, D)) for i in range(n)]
    seen, canon = [], []
    def velocity(self, h):
        seen.append((self.data[0].copy(), h))
        self.e = float(len(seen))
        return iMPS([K[len(seen) - 1].copy()])
    def left(self): canon.append(self.data[0].copy()); return self
    def rand(self, d_, D_, period=1): self.__init__([start.copy()]); env.true('qubits', (d_, D_) == (d, D)); return self
    with replaced(iMPS, dA_dt=velocity, left_canonicalise=left, random=rand):
        psi, es = xmps.iOptimize.find_ground_state(H, D, 0.125, n, tol)
    env.true('one energy per step', list(es) == [float(i + 1) for i in range(n)] and len(seen) == n and len(canon) == n + 1)
    A = start
    for i in range(n):
        env.eq('at step %d' % i, seen[i][0], A)
        env.eq('Hamiltonian %d' % i, seen[i][1][0], H)
        A = A - 0.125j * K[i]
        env.eq('canonical form %d' % i, canon[i + 1], A)
    env.eq('result', psi[0], A)

def cases(tier):
    q = tier == 'quick'
    out = []
    add = lambda name, fn, cost=1, **p: out.append(dict(name=name, fn=fn, params=p, cost=cost))
    for side in ('right', 'left'):
        for d, D in [(2, 2), (3, 2), (2, 3)]:
            for n, ph in enumerate([1, np.exp(0.7j), -1, np.exp(2.9j)]):
                if (d, D) == (2, 2) or n == 1: add('fixed point %s d%d D%d phase %d' % (side, d, D, n), fixed, d=d, D=D, ph=ph, side=side, guess=n == 0)
        for K in (2, 3):
            for n, ph in enumerate([1, np.exp(0.7j), -1, np.exp(2.9j)]):
                if K == 2 or n == 1: add('eigenmatrix %s %d phase %d' % (side, K, n), eigmat, K=K, ph=ph, side=side)
        for d, D in [(2, 1), (2, 2)] + ([] if q else [(3, 2)]): add('mixed gauge %s d%d D%d' % (side, d, D), half, d=d, D=D, side=side, cost=5)
    for d, D in [(2, 2), (3, 2), (2, 3)]: add('tests d%d D%d' % (d, D), tests, d=d, D=D)
    for d, D in [(2, 2), (3, 2)]:
        add('overlap d%d D%d' % (d, D), overlap, d=d, D=D)
        for w in ('x', 'y', 'xy'): add('overlap d%d D%d, tensor replaced %s' % (d, D, w), overlap, d=d, D=D, stale=w)
        add('mixed d%d D%d' % (d, D), mixed, d=d, D=D)
    for n in (1, 3): add('echoes %d' % n, echoes, n=n)
    for m, n in [(1, 1), (2, 2), (4, 2), (3, 1), (6, 2)]: add('qr %dx%d' % (m, n), factor, m=m, n=n, kind='qr')
    for m, n in [(1, 1), (2, 2), (2, 4), (1, 3), (2, 6)]: add('rq %dx%d' % (m, n), factor, m=m, n=n, kind='rq')
    for w in ('right', 'left', 'weights', 'state'): add('vidal %s' % w, vidal, d=2, D=2, what=w, cost=20)
    for n, D in [(1, 2), (2, 2), (3, 1)]: add('ground state %d D%d' % (n, D), search, n=n, D=D, tol=-1.0)
    return out
