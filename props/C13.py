"""Trajectories: one integration step, recorded histories, exact evolution, quantities along a trajectory."""
import contextlib
import numpy as np
import scipy.linalg
import xmps.fTDVP, xmps.iTDVP
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS
from . import ref

BOUNDS = ('one to three steps with every step size |dt|<=1; the velocity at each stage is an arbitrary tensor list (every entry free), so the formulas hold for every vector '
          'field; finite chains of 2-3 sites, uniform states with cells of 1-2 tensors, D<=2; exact evolution of 2-3 sites under every Hermitian H (entries bounded by 2); '
          'the canonicalisation is the real one for single steps of chains, and taken as given (replaced by a recorder) for runs and uniform states')

class Field:
    """an arbitrary velocity: fresh free tensors at each call; the states and Hamiltonians asked about are kept"""
    def __init__(self, env, shapes, cls):
        self.env, self.shapes, self.cls, self.asked, self.given, self.H = env, shapes, cls, [], [], []
    def __call__(self, mps, H, *a, **k):
        self.asked.append([x.copy() for x in mps.data])
        self.H.append((H, k.get('fullH', a[0] if a else False)))
        B = self.env.cs('k%d_' % len(self.given), self.shapes)
        self.given.append([x.copy() for x in B])
        return self.cls(B)

@contextlib.contextmanager
def replaced(cls, **kw):
    old = {n: getattr(cls, n) for n in kw}
    for n, f in kw.items(): setattr(cls, n, f)
    try: yield
    finally:
        for n, f in old.items(): setattr(cls, n, f)

def lin(A, *terms):
    out = []
    for n in range(len(A)):
        x = A[n]
        for k, B in terms: x = x + k * B[n]
        out.append(x)
    return out

def same(env, label, A, B):
    env.true(label + ' (count)', len(A) == len(B))
    for n in range(len(B)): env.eq(label + ' %d' % n, A[n], B[n])

def classical(env, kind, f, A, dt, at=0):
    """reference step from the recorded stages: checks the points asked about, returns the new point"""
    K = f.given[at:at + (1 if kind == 'euler' else 4)]
    P = f.asked[at:at + len(K)]
    same(env, 'stage 1 at', P[0], A)
    if kind == 'euler': return lin(A, (dt, K[0]))
    same(env, 'stage 2 at', P[1], lin(A, (dt / 2, K[0])))
    same(env, 'stage 3 at', P[2], lin(A, (dt / 2, K[1])))
    same(env, 'stage 4 at', P[3], lin(A, (dt, K[2])))
    return lin(A, (dt / 6, K[0]), (dt / 3, K[1]), (dt / 3, K[2]), (dt / 6, K[3]))

def step(env, kind, d, b, own, full, store):
    As = env.cs('A', ref.custom(d, b))
    keep = [x.copy() for x in As]
    dt = env.r('dt', (1,))[0]
    f = Field(env, ref.custom(d, b), fMPS)
    A = fMPS(As, d)
    H, other = object(), object()
    with replaced(fMPS, dA_dt=lambda self, H, *a, **k: f(self, H, *a, **k)):
        t = xmps.fTDVP.Trajectory(A, H, fullH=full)
        n0 = len(t.Ds)
        new = getattr(t, kind)(A, dt, store=store) if own else getattr(t, kind)(A, dt, other, store=store)
    env.true('evaluations', len(f.given) == (1 if kind == 'euler' else 4))
    env.true('Hamiltonian handed on', all(h is (H if own else other) and bool(g) == full for h, g in f.H))
    want = classical(env, kind, f, keep, dt)
    env.propto('new state', ref.dense(new.data), ref.dense(want))
    same(env, 'old state', A.data, keep)
    env.true('history', len(t.mps_history) == int(store) and len(t.Ds) == n0 + int(store))
    if store: env.eq('recorded', t.mps_history[0], A.serialize(real=True))

def integrate(env, kind, d, b, N, D=None):
    As = env.cs('A', ref.custom(d, b))
    keep = [x.copy() for x in As]
    dt = env.r('dt', (1,))[0]
    T = [0.75 + k * dt for k in range(N)]
    f = Field(env, ref.custom(d, b), fMPS)
    seen = []
    def canon(self, *a, **k):
        seen.append(self)
        return self
    with replaced(fMPS, dA_dt=lambda self, H, *a, **k: f(self, H, *a, **k), left_canonicalise=canon):
        A = fMPS(As, d)
        t = xmps.fTDVP.Trajectory(A, object())
        r = getattr(t, kind + 'int')(T)
    env.true('returns the trajectory', r is t)
    env.true('one record per time', len(t.mps_history) == N)
    env.true('given state left alone', all(x is not A for x in seen))
    same(env, 'initial state', A.data, keep)
    same(env, 'stored initial state', t.mps_0.data, keep)
    S = t.mps_list()
    env.true('one state per time', len(S) == N)
    same(env, 'first state', S[0].data, keep)
    env.true('brought to canonical form', len(seen) > N)
    m = 1 if kind == 'euler' else 4
    env.true('evaluations', len(f.given) == m * N)
    for k in range(N):
        new = classical(env, kind, f, [x.copy() for x in S[k].data], dt, m * k)
        if k + 1 < N: same(env, 'state %d' % (k + 1), S[k + 1].data, new)
    same(env, 'ends in the last state', t.mps.data, S[-1].data)
    t.clear()
    env.true('cleared', len(t.mps_history) == 0 and len(t.Ds) == 1)
    same(env, 'back to the start', t.mps.data, keep)

def library(env, d, b, full):
    """integration left to the library: it is given the canonical initial state and the projected velocity as a function of the state, for the asked times"""
    As = env.cs('A', ref.custom(d, b))
    keep = [x.copy() for x in As]
    L, n = len(b) - 1, 2 * sum(int(np.prod(x)) for x in ref.custom(d, b))
    T = [0.0, 0.25, 0.5]
    f = Field(env, ref.custom(d, b), fMPS)
    H = object()
    points = [env.r('v%d' % k, (n,)) for k in range(5)]
    ys = [env.r('y%d' % k, (n,)) for k in range(3)]
    calls = []
    def tensors(v):
        v = v.reshape(2, -1)
        z, out, i = v[0] + 1j * v[1], [], 0
        for x in ref.custom(d, b):
            out.append(z[i:i + int(np.prod(x))].reshape(x)); i += int(np.prod(x))
        return out
    class Result: pass
    def solver(fun, t_span, y0, *a, **k):
        calls.append((t_span, y0, a, k, [fun(0.1 * m, v) for m, v in enumerate(points)]))
        q = Result()
        q.y, q.t, q.success = np.stack(ys, 1), np.array(T), True
        return q
    old = xmps.fTDVP.solve_ivp
    xmps.fTDVP.solve_ivp = solver
    seen = []
    def canon(self, *a, **k):
        seen.append(self)
        return self
    try:
        with replaced(fMPS, dA_dt=lambda self, H, *a, **k: f(self, H, *a, **k), left_canonicalise=canon, right_canonicalise=canon):
            A = fMPS(As, d)
            t = xmps.fTDVP.Trajectory(A, H, fullH=full)
            r = t.odeint(T)
    finally: xmps.fTDVP.solve_ivp = old
    env.true('returns the trajectory', r is t)
    env.true('one integration', len(calls) == 1)
    span, y0, a, k, vs = calls[0]
    env.true('time span', tuple(span) == (T[0], T[-1]) and list(k.get('t_eval', a[1] if len(a) > 1 else [])) == T)
    env.true('from the canonical state', len(seen) == 1 and seen[0] is not A)
    same(env, 'initial vector', tensors(y0), keep)
    env.true('Hamiltonian handed on', all(h is H and bool(g) == full for h, g in f.H) and len(f.H) == len(points))
    for m, v in enumerate(points):
        same(env, 'velocity at %d' % m, f.asked[m], tensors(v))
        same(env, 'velocity %d' % m, tensors(vs[m]), f.given[m])
    S = t.mps_list()
    env.true('one state per time', len(S) == 3)
    for m in range(3): same(env, 'state %d' % m, S[m].data, tensors(ys[m]))
    same(env, 'ends in the last state', t.mps.data, tensors(ys[-1]))
    same(env, 'stored initial state', t.mps_0.data, keep)
    t.clear()
    env.true('cleared', len(t.mps_history) == 0 and len(t.Ds) == 1)

def uniform(env, kind, d, D, cells, own):
    As = env.cs('A', [(d, D, D)] * cells)
    keep = [x.copy() for x in As]
    dt = env.r('dt', (1,))[0]
    f = Field(env, [(d, D, D)] * cells, iMPS)
    seen = []
    def canon(self, *a, **k):
        seen.append(self)
        return self
    H, other = object(), object()
    with replaced(iMPS, dA_dt=lambda self, H, *a, **k: f(self, H, *a, **k), left_canonicalise=canon):
        A = iMPS(As)
        t = xmps.iTDVP.Trajectory(A, H)
        new = getattr(t, kind)(A, dt) if own else getattr(t, kind)(A, dt, other)
        want = classical(env, kind, f, keep, dt)
        env.true('brought to canonical form', any(x is new for x in seen))
        same(env, 'new state', new.data, want)
        same(env, 'old state', A.data, keep)
        env.true('Hamiltonian handed on', all(h is (H if own else other) for h, _ in f.H))
        env.true('history', len(t.mps_history) == 1)
        env.eq('recorded', t.mps_history[0], A.serialize(real=True))
        f.given.clear(); f.asked.clear(); t.mps_history.clear()
        t.Ds = t.Ds[:1]
        getattr(t, kind + 'int')([0.75 + k * dt for k in range(3)])
        env.true('given state left alone', t.mps is not A and all(x is not A for x in seen))
        env.true('one record per time', len(t.mps_history) == 3)
        P, m = keep, 1 if kind == 'euler' else 4
        for k in range(3):
            env.eq('record %d' % k, t.mps_history[k], iMPS(P).serialize(real=True))
            last = P
            P = classical(env, kind, f, P, dt, m * k)
        same(env, 'ends in the last state', t.mps.data, last)

def ham(env, L, full, d=2):
    if full: return env.herm('H', d ** L)
    return [env.herm('h%d' % n, d * d) for n in range(L - 1)]

def total(H, L, full, d=2):
    if full: return H
    return sum(np.kron(np.kron(np.eye(d ** n), h), np.eye(d ** (L - n - 2))) for n, h in enumerate(H))

def exact(env, L, full, N, free=True, d=2, fixed=False):
    b = {2: [1, 2, 1], 3: [1, 2, 2, 1]}[L]
    A = fMPS(env.cs('A', ref.custom(d, b)) if free else env.nums('A', ref.custom(d, b)), d)
    psi = ref.vec(A.data)
    H = ham(env, L, full, d)
    if fixed: H = [x + np.conj(x).T for x in env.nums('h', [(d * d, d * d)] * (L - 1))]
    if fixed and full: H = total(H, L, False, d)
    dt = env.num('dt', (1,), cx=False)[0]
    T = dt * np.arange(N)
    t = xmps.fTDVP.Trajectory(A, H, fullH=full)
    t.edint(T)
    env.true('one state per time', len(t.ed_history) == N)
    U = scipy.linalg.expm(-1j * dt * total(H, L, full, d))
    ev = t.ed_energies()
    env.true('one energy per time', ev.shape == (N, 1))
    for n in range(N):
        x = t.ed_history[n]
        env.eq('state %d' % n, x, psi)
        env.eq('norm %d' % n, np.sum(np.conj(x) * x), np.sum(np.conj(t.ed_history[0]) * t.ed_history[0]))
        if n < 2: env.eq('energy %d' % n, ev[n, 0], ev[0, 0])
        psi = U @ psi
    env.eq('final state', t.psi, t.ed_history[-1])
    env.propto('final chain', ref.vec(t.mps.data), t.ed_history[-1])
    O = env.herm('O', d ** L)
    env.eq('expectation values', t.ed_evs([O])[0, 0], np.real(np.conj(t.ed_history[0]) @ O @ t.ed_history[0]))

def observed(env, L, full):
    """quantities along an exact trajectory of fixed states, every operator"""
    b = {2: [1, 2, 1], 3: [1, 2, 2, 1]}[L]
    H = [h + np.conj(h).T for h in env.nums('h', [(4, 4)] * (L - 1))]
    t = xmps.fTDVP.Trajectory(fMPS(env.nums('A', ref.custom(2, b)), 2).left_canonicalise(), total(H, L, False) if full else H, fullH=full)
    t.edint(0.3 * np.arange(3))
    psis = [x.copy() for x in t.ed_history]
    O = env.herm('O', 2)
    lo = t.loschmidt()
    env.true('one overlap per time', len(lo) == 3)
    for k in range(3): env.eq('overlap %d' % k, lo[k], abs(np.sum(np.conj(psis[0]) * psis[k])))
    S = t.mps_list()
    env.true('one chain per time', len(S) == 3)
    phi = env.c('phi', psis[0].shape)
    for k in range(3):
        x = ref.vec(S[k].data)
        c = np.sum(np.conj(psis[k]) * x)
        env.eq('chain %d' % k, np.sum(phi * x), c * np.sum(phi * psis[k]))
        env.eq('chain normalised %d' % k, abs(c), 1.0)
    for s in range(L):
        ev = t.mps_evs([O, np.eye(2)], s)
        for k in range(3):
            env.eq('value of %d at %d' % (k, s), ev[k][0], ref.expect(psis[k].reshape([2] * L), O, [s]))
            env.eq('unit value of %d at %d' % (k, s), ev[k][1], 1.0)
    e = np.array([np.real(np.sum(np.conj(p) * (total(H, L, False) @ p))) for p in psis])
    env.eq('energies', t.mps_energies() * (1 if full else L), e)
    env.eq('exact energies', t.ed_energies()[:, 0], e)

def recorded(env, full):
    """values read from a recorded history whose bonds change"""
    L = 3
    bs = [[1, 1, 1, 1], [1, 2, 2, 1], [1, 2, 2, 1]]
    As = [fMPS(env.nums('A%d' % k, ref.custom(2, b)), 2).left_canonicalise() for k, b in enumerate(bs)]
    psis = [ref.dense(A.data) for A in As]
    hs = [env.herm('h%d' % n, 4) for n in range(L - 1)]
    H = total(hs, L, False) if full else hs
    t = xmps.fTDVP.Trajectory(As[0], H, fullH=full)
    t.mps_history = [A.serialize(real=True) for A in As]
    t.Ds = [A.D for A in As]
    S = t.mps_list()
    for k in range(3): env.eq('chain %d' % k, ref.dense(S[k].data), psis[k])
    O = env.herm('O', 2)
    for s in range(L):
        ev = t.mps_evs([O], s)
        env.true('one value per record', len(ev) == 3)
        for k in range(3): env.eq('value of %d at %d' % (k, s), ev[k][0], ref.expect(psis[k], O, [s]))
    e = [np.real(np.sum(np.conj(p.reshape(-1)) * (total(hs, L, False) @ p.reshape(-1)))) for p in psis]
    got = t.mps_energies()
    for k in range(3): env.eq('energy %d' % k, got[k] * (1 if full else L), e[k])
    for a, b in zip(t.mps_history, As): env.eq('records kept', a, b.serialize(real=True))

def echo(env, d, b):
    """overlaps with the first record"""
    As = [fMPS(env.cs('A%d' % k, ref.custom(d, b)) if k else env.nums('A0', ref.custom(d, b)), d) for k in range(3)]
    t = xmps.fTDVP.Trajectory(As[0], None)
    t.mps_history = [A.serialize(real=True) for A in As]
    t.Ds = [A.D for A in As]
    lo = t.loschmidt()
    env.true('one per record', len(lo) == 3)
    for k in range(3):
        c = ref.inner(ref.dense(As[0].data), ref.dense(As[k].data))
        env.eq('overlap %d' % k, lo[k] * lo[k], c * np.conj(c))

def entropies(env, which):
    """Schmidt spectra and entropies of fixed states, against the dense density matrices"""
    L, b = 4, [1, 2, 4, 2, 1]
    As = [fMPS(env.nums('A%d' % k, ref.custom(2, b)), 2).left_canonicalise() for k in range(2)]
    t = xmps.fTDVP.Trajectory(As[0], None)
    t.mps_history = [A.serialize(real=True) for A in As]
    t.Ds = [A.D for A in As]
    if which == 'exact': t.ed_history = [ref.vec(A.data) for A in As]
    sch, S1, S2, S3 = t.schmidts(), t.von_neumann(), t.renyi(), t.renyi(3)
    for k in range(2):
        ps = []
        for n in range(1, L):
            p = np.linalg.eigvalsh(ref.rdm(ref.dense(As[k].data), list(range(n))))[::-1]
            ps.append(p)
            s = np.asarray(np.real(sch[k][n]))
            env.eq('spectrum %d,%d' % (k, n), np.sum(s), 1.0)
            for m in (2, 3): env.eq('moment %d of %d,%d' % (m, k, n), np.sum(s ** m), np.sum(p ** m))
        f = lambda p: -np.sum(p[p > 1e-14] * np.log(p[p > 1e-14]))
        env.eq('entropy %d' % k, S1[k], max(f(p) for p in ps))
        env.eq('second entropy %d' % k, S2[k], max(-np.log(np.sum(p ** 2)) for p in ps))
        env.eq('third entropy %d' % k, S3[k], max(-np.log(np.sum(p ** 3)) / 2 for p in ps))

def otoc(env, L):
    b = {2: [1, 2, 1], 3: [1, 2, 2, 1]}[L]
    A = fMPS(env.nums('A', ref.custom(2, b)), 2)
    psi = ref.vec(A.data)
    H = env.num('H', (2 ** L, 2 ** L)); H = H + np.conj(H).T
    V, W = np.kron(env.herm('V', 2), np.eye(2 ** (L - 1))), np.kron(np.eye(2 ** (L - 1)), env.herm('W', 2))
    T = [0.0, 0.25, 1.5]
    t = xmps.fTDVP.Trajectory(A, H, fullH=True)
    got = t.ed_OTOC(T, (V, W))
    env.true('one per time', len(got) == 3)
    for k, x in enumerate(T):
        U = scipy.linalg.expm(-1j * x * H)
        Wt = np.conj(U).T @ W @ U
        C = (Wt @ V - V @ Wt) @ psi
        env.eq('time %d' % k, got[k], np.real(np.sum(np.conj(C) * C)))      # [W,V]^+ = -[W,V]

def expanded(env, L, D0, D1):
    """a larger bond limit leaves the state alone; records before and after are read back with their own size"""
    A = fMPS(env.nums('A', ref.shapes(L, 2, D0)), 2).left_canonicalise()
    psi = ref.dense(A.data)
    t = xmps.fTDVP.Trajectory(A, [np.eye(4)] * (L - 1))
    t.eulerint([0.0, 0.1])
    t.expand(D1)
    env.true('bonds', [x.shape[1:] for x in t.mps.data] == [s[1:] for s in ref.shapes(L, 2, D1)])
    phi = env.c('phi', psi.shape)
    c = ref.inner(psi, ref.dense(t.mps.data))
    env.eq('same state', ref.inner(phi, ref.dense(t.mps.data)), c * ref.inner(phi, psi))
    env.eq('norm', abs(c), 1.0)
    t.mps_history.append(t.mps.serialize(real=True))
    S = t.mps_list()
    env.true('all records', len(S) == 3)
    R, lo = t.deserialize(), t.loschmidt()
    env.true('all read back', len(R) == len(lo) == 3)
    for k in range(3):
        same(env, 'read back %d' % k, R[k].data, S[k].data)
        env.eq('overlap with the first %d' % k, lo[k], 1.0)
    for k, x in enumerate(S):
        c = ref.inner(psi, ref.dense(x.data))
        env.eq('record %d' % k, ref.inner(phi, ref.dense(x.data)), c * ref.inner(phi, psi))

def restarted(env, L, D0, D1, T=(0.0, 0.1)):
    """a run that is cleared starts again from its first state, whatever bond dimension it had grown to; a smaller limit later leaves earlier records alone"""
    A = fMPS(env.nums('A', ref.shapes(L, 2, D0)), 2).left_canonicalise()
    psi = ref.dense(A.data)
    shp = [x.shape for x in A.data]
    phi = env.c('phi', psi.shape)
    t = xmps.fTDVP.Trajectory(A, [np.eye(4)] * (L - 1))
    def records(label, n):
        for S in (t.mps_list(), t.deserialize()):
            env.true(label + ' count', len(S) == n)
            for k, x in enumerate(S):
                env.true('%s shapes %d' % (label, k), [y.shape for y in x.data] == shp)
                c = ref.inner(psi, ref.dense(x.data))
                env.eq('%s %d' % (label, k), ref.inner(phi, ref.dense(x.data)), c * ref.inner(phi, psi))
                env.eq('%s norm %d' % (label, k), abs(c), 1.0)
    t.expand(D1) if D1 > D0 else t.contract(D1)
    t.clear()
    t.eulerint(list(T))
    records('after clearing', 2)
    t.contract(1)
    env.true('smaller bonds', all(max(x.shape[1:]) == 1 for x in t.mps.data))
    records('after a smaller limit', 2)
    t.clear()
    t.rk4int(list(T))
    records('cleared again', 2)

def cases(tier):
    t = tier == 'thorough'
    out = []
    for kind in ('euler', 'rk4'):
        for d, b in [(2, [1, 1, 1]), (2, [1, 2, 1]), (2, [1, 2, 2, 1]), (3, [1, 2, 1]), (2, [1, 1, 1, 1])] + ([(2, [1, 1, 2, 1]), (3, [1, 3, 1])] if t else []):
            if kind == 'rk4' and (len(b) > 3 or d > 2 and not t) and max(b) > 1: continue
            for own in (True, False):
                out.append(dict(name='%s step d%d %s own %d' % (kind, d, b, own), fn=step, params=dict(kind=kind, d=d, b=b, own=own, full=not own, store=own)))
        for b, N in [([1, 1, 1], 3), ([1, 2, 1], 3), ([1, 2, 2, 1], 2)]:
            out.append(dict(name='%s run %s N%d' % (kind, b, N), fn=integrate, params=dict(kind=kind, d=2, b=b, N=N)))
        for d, D, cells in [(2, 1, 1), (2, 2, 1), (3, 2, 1), (4, 1, 1)]:
            for own in (True, False):
                out.append(dict(name='uniform %s d%d D%d cells %d own %d' % (kind, d, D, cells, own), fn=uniform, params=dict(kind=kind, d=d, D=D, cells=cells, own=own)))
    for d, b in [(2, [1, 2, 1]), (2, [1, 2, 2, 1]), (3, [1, 3, 1])]:
        for full in (False, True): out.append(dict(name='library run d%d %s full %d' % (d, b, full), fn=library, params=dict(d=d, b=b, full=full)))
    for full in (False, True):
        out.append(dict(name='exact L2 d3 full %d' % full, fn=exact, params=dict(L=2, full=full, N=3, d=3, fixed=True)))
        out.append(dict(name='exact L2 full %d' % full, fn=exact, params=dict(L=2, full=full, N=3)))
        out.append(dict(name='exact L3 full %d' % full, fn=exact, params=dict(L=3, full=full, N=2, free=False)))
        for L in (2, 3): out.append(dict(name='observed L%d full %d' % (L, full), fn=observed, params=dict(L=L, full=full)))
        out.append(dict(name='recorded full %d' % full, fn=recorded, params=dict(full=full)))
    for d, b in [(2, [1, 1, 1]), (2, [1, 2, 1]), (2, [1, 2, 2, 1]), (3, [1, 2, 1])]:
        out.append(dict(name='echo d%d %s' % (d, b), fn=echo, params=dict(d=d, b=b)))
    for w in ('recorded', 'exact'): out.append(dict(name='entropies ' + w, fn=entropies, params=dict(which=w)))
    for L in (2, 3): out.append(dict(name='commutators L%d' % L, fn=otoc, params=dict(L=L)))
    for L, D0, D1 in [(3, 1, 2), (3, 2, 1), (4, 2, 4), (4, 2, 1)]: out.append(dict(name='restarted L%d %d %d' % (L, D0, D1), fn=restarted, params=dict(L=L, D0=D0, D1=D1)))
    for L, D0, D1 in [(4, 1, 2), (4, 2, 4), (5, 2, 3)]: out.append(dict(name='expanded L%d %d to %d' % (L, D0, D1), fn=expanded, params=dict(L=L, D0=D0, D1=D1)))
    return out
