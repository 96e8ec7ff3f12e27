"""Thermofield doubles: two copies of a state, exchange of the copies, overlaps with product states; Vidal round trip."""
import numpy as np
from xmps.fMPS import fMPS, fTFD, vfMPS
import xmps.fMPS
from . import ref
from .C26 import swapped

BOUNDS = ('two to four sites (tensors per copy with bonds up to 2, physical dimension 2 and 3), every tensor entry free for doubling, exchange and arithmetic; for local overlaps every entry of '
          'the product state free and the double a fixed generic state (listed bonds, histories)')

def copies(psi, L, d):
    """the dense double with the legs (copy 1, copy 2) per site pulled apart: rows copy 1, columns copy 2"""
    t = psi.reshape([d] * (2 * L))
    return np.transpose(t, list(range(0, 2 * L, 2)) + list(range(1, 2 * L, 2))).reshape(d ** L, d ** L)

def doubled(env, d, b):
    A = env.cs('A', ref.custom(d, b)); L = len(A)
    m = fMPS([a.copy() for a in A], d)
    T = fTFD().from_fMPS(m)
    env.true('shape', T.L == L and T.d == d * d and T.D == max(b) ** 2 and len(T.data) == L and all(t.shape == tuple(x * x for x in a.shape) for t, a in zip(T.data, A)))
    v = ref.vec(A)
    env.eq('two copies', copies(ref.vec(T.data), L, d), np.outer(v, v))
    for n in range(L): env.eq('source kept %d' % n, m.data[n], A[n])
    S = T.symmetry()
    env.true('a double', type(S) is fTFD)
    env.eq('copies alike', ref.vec(S.data), ref.vec(T.data))

def exchanged(env, d, b):
    D = [x * x for x in b]
    A = env.cs('A', ref.custom(d * d, D)); L = len(A)
    T = fTFD([a.copy() for a in A], d * d)
    S = T.symmetry()
    env.eq('copies exchanged', copies(ref.vec(S.data), L, d), copies(ref.vec(A), L, d).T)
    Q = S.symmetry()
    for n in range(L): env.eq('twice is nothing %d' % n, Q.data[n], A[n])
    Y = T.symmetrise()
    Z = Y.symmetry()
    for n in range(L):
        env.eq('symmetrised %d' % n, Z.data[n], Y.data[n])
        env.eq('a sum %d' % n, Y.data[n], A[n] + S.data[n])
        env.eq('kept %d' % n, T.data[n], A[n])

def squared(env, d, b1, b2):
    """overlap of two doubles"""
    A, B = env.cs('A', ref.custom(d, b1)), env.cs('B', ref.custom(d, b2))
    T, S = fTFD().from_fMPS(fMPS(A, d)), fTFD().from_fMPS(fMPS(B, d))
    o = ref.inner(ref.vec(B), ref.vec(A))
    got = T.overlap(S)
    env.eq('overlap squared', got * np.conj(got), (o * o) * np.conj(o * o))
    n = ref.inner(ref.vec(A), ref.vec(A))
    env.eq('norm', T.norm(), np.real(n * n))

def local(env, b, sites, double, steps, both=False):
    d = 2
    T = fTFD().from_fMPS(fMPS(env.nums('A', ref.custom(d, b)), d)) if not both else fTFD(env.nums('T', ref.custom(4, b)), 4)
    if steps: T = ref.history(T, steps)
    psi = ref.dense([x.copy() for x in T.data])
    L = T.L
    P = env.cs('P', [(d, 1, 1)] * L)
    other = fMPS([p.copy() for p in P], d)
    w = psi
    for s in sites:
        p = P[s][:, 0, 0]
        r = np.outer(p, np.conj(p))
        w = ref.apply_op(w, np.kron(r, r) if double else np.kron(np.eye(d), r), [s])
    n = np.real(ref.inner(psi, psi))
    want = ref.inner(psi, w)
    env.eq('overlap on the sites', T.local_overlap(other, list(sites), double) * n, want)
    env.eq('again', T.local_overlap(other, list(sites), double) * n, want)
    env.eq('same state', ref.rdm(ref.dense(T.data), list(range(L))) * n / np.real(ref.inner(ref.dense(T.data), ref.dense(T.data))), ref.rdm(psi, list(range(L))))
    for s in range(L): env.eq('other kept %d' % s, other.data[s], P[s])

def averaged(env, b, parts):
    d = 2
    T = fTFD().from_fMPS(fMPS(env.nums('A', ref.custom(d, b)), d))
    psi = ref.dense([x.copy() for x in T.data])
    P = env.cs('P', [(d, 1, 1)] * T.L)
    want = 0.0
    for part in parts:
        w = psi
        for s in part: w = ref.apply_op(w, np.kron(np.eye(d), np.outer(P[s][:, 0, 0], np.conj(P[s][:, 0, 0]))), [s])
        want = want + ref.inner(psi, w)
    env.eq('mean of the local ones', T.approx_overlap(fMPS(P, d), parts) * np.real(ref.inner(psi, psi)) * len(parts), want)

def refused(env, what):
    T = fTFD().from_fMPS(fMPS(env.cs('A', ref.custom(2, [1, 2, 1])), 2))
    o = fMPS(env.cs('B', ref.custom(2, [1, 2, 1])), 2) if what == 'entangled' else np.zeros(3)
    env.raises('refused', NotImplementedError, lambda: T.local_overlap(o, [0]))

def vidal(env, d, b, free):
    S = ref.custom(d, b)
    T = [env.c('A%d' % n, x) if n in free else env.num('A%d' % n, x) for n, x in enumerate(S)]
    A = fMPS([t.copy() for t in T], d)
    psi = ref.vec(T)
    V = vfMPS().from_fMPS(A)
    env.true('pairs', V.d == d and len(V.data) == len(b) - 1)
    B = V.to_fMPS()
    env.true('a finite state', type(B) is fMPS and B.d == d and B.L == len(b) - 1)
    for n in range(B.L): env.eq('tensor %d' % n, B.data[n], A.data[n])

def drawn(env, L, D, pure, d=2):
    """random doubles: two copies of one draw, or a draw plus its exchange"""
    got = []
    def randn(*sh):
        got.append(env.r('R%d' % len(got), sh) if not pure or D > 1 else env.num('R%d' % len(got), sh).real); return got[-1]
    with swapped(xmps.fMPS, randn=randn): T = fTFD().random(L, d, D, pure)
    env.true('a double', type(T) is fTFD and T.d == d * d and len(T.data) == L and T.L == L)
    b = [min(d ** n, d ** (L - n), D) for n in range(L + 1)] if pure else [min(d ** (2 * n), d ** (2 * (L - n)), D * D) for n in range(L + 1)]
    if pure: b = [x * x for x in b]
    env.true('shapes', [tuple(t.shape) for t in T.data] == [(d * d, b[n], b[n + 1]) for n in range(L)])
    S = T.symmetry()
    for n in range(L): env.eq('symmetric under exchange %d' % n, S.data[n], T.data[n])
    if len(got) == 2 * L:
        A = [got[2 * n] + 1j * got[2 * n + 1] for n in range(L)]
        if pure:
            v = ref.vec(A)
            env.eq('two copies of the draw', copies(ref.vec(T.data), L, d), np.outer(v, v))
        else:
            X = fTFD(A, d * d).symmetry()
            for n in range(L): env.eq('draw and exchange %d' % n, T.data[n], A[n] + X.data[n])

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    q = tier == 'quick'
    for d, b in [(2, [1, 1, 1]), (2, [1, 2, 1]), (3, [1, 2, 1]), (2, [1, 2, 1, 1]), (2, [1, 2, 2, 1])][:4 if q else None]:
        out.append(dict(name='doubled d%d %s' % (d, b), fn=doubled, params=dict(d=d, b=b)))
    for d, b in [(2, [1, 1, 1]), (2, [1, 2, 1]), (2, [1, 1, 2, 1]), (3, [1, 2, 1])]:
        out.append(dict(name='exchanged d%d %s' % (d, b), fn=exchanged, params=dict(d=d, b=b)))
    for d, b, c in [(2, [1, 1, 1], [1, 1, 1]), (2, [1, 1], [1, 1]), (3, [1, 1], [1, 1])]:
        out.append(dict(name='squared d%d %s' % (d, b), fn=squared, params=dict(d=d, b1=b, b2=c)))
    B = [([1, 2, 1], [(0,), (1,), (0, 1)]), ([1, 2, 2, 1], [(0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)]), ([1, 1, 1], [(0, 1)])]
    if not q: B += [([1, 2, 3, 2, 1], [(0,), (3,), (1, 2), (2, 3), (0, 1, 2, 3)])]
    for b, S in B:
        for s in S:
            for dbl in (False, True):
                out.append(dict(name='local overlap %s %s%s' % (b, s, ' both' if dbl else ''), fn=local, params=dict(b=b, sites=s, double=dbl, steps=[])))
    for b, s in [([1, 4, 4, 1], (1,)), ([1, 3, 2, 1], (0, 1)), ([1, 3, 2, 1], (1, 2))]:
        for dbl in (False, True):
            out.append(dict(name='local overlap, mixed %s %s%s' % (b, s, ' both' if dbl else ''), fn=local, params=dict(b=b, sites=s, double=dbl, steps=[], both=True)))
    out.append(dict(name='averaged', fn=averaged, params=dict(b=[1, 2, 2, 1], parts=[[0], [1], [2]])))
    out.append(dict(name='averaged over pairs', fn=averaged, params=dict(b=[1, 2, 2, 1], parts=[[0, 1], [1, 2]])))
    for s in ['left', 'right', 'mixed 1', 'left canonical', 'right canonical', 'copy', 'sum', 'scaled']:
        for sites in ((1,), (0, 1)):
            out.append(dict(name='local overlap after %s %s' % (s, sites), fn=local, params=dict(b=[1, 2, 2, 1], sites=sites, double=False, steps=[s])))
    for d, b, f in [(2, [1, 1, 1], (0, 1)), (2, [1, 1, 1, 1], (0, 1, 2)), (2, [1, 2, 1], (0,)), (2, [1, 2, 1], (1,)), (2, [1, 2, 2, 1], (1,))]:
        out.append(dict(name='vidal d%d %s %s' % (d, b, f), fn=vidal, params=dict(d=d, b=b, free=f)))
    for L, D, p in [(2, 1, True), (2, 2, True), (3, 2, True), (2, 1, False), (3, 1, False), (2, 2, False), (3, 2, False), (4, 2, False)]:
        out.append(dict(name='random L%d D%d %s' % (L, D, 'pure' if p else 'mixed'), fn=drawn, params=dict(L=L, D=D, pure=p)))
    for w in ('entangled', 'array'): out.append(dict(name='refused %s' % w, fn=refused, params=dict(what=w)))
    return out
