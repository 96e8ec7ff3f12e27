"""Example states, random states, and what a state reports about itself."""
import numpy as np
import xmps.fMPS, xmps.iMPS, xmps.tests as T
from xmps.fMPS import fMPS, fTFD
from xmps.iMPS import iMPS, ivMPS, TransferMatrix
from xmps import mps_examples as X
from xmps.spin import spins
from . import ref
from .C15 import dominant, fixed_points
from .C26 import swapped
from symx import poly

BOUNDS = ('every example; operators and comparison states with every entry free; uniform product states with every amplitude free; entropies, forms and ranks of fixed generic states of 2-5 sites, '
          'qubits and qutrits, after the listed histories, and of tensors with one free deviation in the listed entry; random states of 2-6 sites in every listed dimension')

s = np.sqrt(0.5)
KET = {'z': ([1, 0], [0, 1]), 'x': ([s, s], [s, -s])}
def named(kind, i):
    if kind == 'bell': return np.array({1: [[s, 0], [0, s]], 2: [[s, 0], [0, -s]], 3: [[0, s], [s, 0]], 4: [[0, -s], [s, 0]]}[i]) + 0j
    a, b = {1: (0, 0), 2: (0, 1), 3: (1, 0), 4: (1, 1)}[i]
    return np.outer(KET[kind][a], KET[kind][b]) + 0j

def example(env, kind, i):
    make = {'bell': X.bell, 'z': X.comp_z, 'x': X.comp_x}[kind]
    want = named(kind, i)
    O, P = env.herm('O', 2), env.herm('P', 4)
    B = fMPS(env.cs('B', [(2, 1, 2), (2, 2, 1)]), 2)
    t = ref.dense(B.data)
    a = make(i)
    env.eq('norm', a.norm(), 1.0)
    o = a.overlap(B)
    w = ref.inner(t, want)
    env.eq('overlap with any state', o * np.conj(o), w * np.conj(w))
    for n in range(2): env.eq('value of any operator at %d' % n, make(i).E(O, n), ref.inner(want, ref.apply_op(want, O, [n])))
    env.eq('value of any pair operator', make(i).E_k(P, [0, 1]), ref.inner(want, ref.apply_op(want, P, [0, 1])))
    env.eq('density of the pair', make(i).rho([0, 1], single_string=False), np.outer(want.reshape(-1), np.conj(want.reshape(-1))))
    for j in range(1, 5): env.eq('overlap with number %d' % j, abs(make(i).overlap(make(j))), 1.0 if i == j else 0.0)

def uniform(env, i):
    a = X.i_comp_z(i)
    O = env.herm('O', 2)
    env.eq('value of any operator', X.i_comp_z(i).E(O), O[i - 1, i - 1])
    b = np.zeros((2, 1, 1)); b[i - 1] = 1
    env.eq('tensor', a.data[0], b)
    B = iMPS([env.c('B', (2, 1, 1))])
    v = B[0][:, 0, 0].copy()
    env.eq('overlap', np.reshape(X.i_comp_z(i).overlap(B), ()) * np.sum(v * np.conj(v)), v[i - 1] * np.conj(v[i - 1]))

def product(env, d):
    """uniform product states"""
    v, w = env.c('v', (d,)), env.c('w', (d,))
    O = env.herm('O', d)
    A = lambda: iMPS([v.copy().reshape(d, 1, 1)])
    n2 = np.sum(v * np.conj(v))
    for hand in 'lrm':
        M = A().canonicalise(hand)
        u = M.data[0][:, 0, 0]
        env.eq('%s: unit' % hand, np.sum(u * np.conj(u)), 1.0)
        env.eq('%s: same ray' % hand, np.outer(u, np.conj(u)) * n2, np.outer(v, np.conj(v)))
        env.eq('%s: Schmidt value' % hand, M.L, np.ones((1, 1)))
        env.eq('%s: value' % hand, M.E(O, hand) * n2, np.sum(np.conj(v) * (O @ v)))
    eta, l, r = A().eigs()
    env.eq('eigenvalue', np.reshape(eta, ()), n2)
    env.eq('eigenmatrices', l * r, np.ones((1, 1)))
    env.eq('value', A().E(O) * n2, np.sum(np.conj(v) * (O @ v)))
    c = np.sum(np.conj(w) * v)
    env.eq('overlap', np.reshape(A().overlap(iMPS([w.copy().reshape(d, 1, 1)])), ()) * n2 * np.sum(w * np.conj(w)), c * np.conj(c))
    m = xmps.iMPS.Map(v.copy().reshape(d, 1, 1), w.copy().reshape(d, 1, 1))
    e, x = m.right_fixed_point()
    env.eq('map', (np.reshape(e, ()), np.reshape(x, ())), (c, 1.0))

def aklt(env):
    a = X.AKLT()
    A = a.data[0]
    env.eq('left isometry', sum(np.conj(x).T @ x for x in A), np.eye(2))
    env.eq('right isometry', sum(x @ np.conj(x).T for x in A), np.eye(2))
    S = spins(1)
    SS = sum(np.kron(x, x) for x in S)
    P = (SS @ SS + 3 * SS + 2 * np.eye(9)) / 6
    p = env.c('p', (2, 2))                                # any boundary
    pair = np.einsum('aij,bjk,ik->ab', A, A, p)
    env.eq('no spin two on a pair', ref.apply_op(pair, P, [0, 1]), np.zeros((3, 3)))
    three = np.einsum('aij,bjk,ckl,il->abc', A, A, A, p)
    for n in (0, 1): env.eq('nor within three sites, from %d' % n, ref.apply_op(three, P, [n, n + 1]), np.zeros((3, 3, 3)))
    O, H = env.herm('O', 3), env.herm('H', 9)
    with dominant(env):
        env.eq('value of any operator', X.AKLT().left_canonicalise().E(O, 'l') * 3.0, np.trace(O))
        env.eq('value of any operator, right', X.AKLT().right_canonicalise().E(O, 'r') * 3.0, np.trace(O))
        rho = np.einsum('aij,bjk,cil,dlk->abcd', A, A, np.conj(A), np.conj(A)).reshape(9, 9) / 2
        env.eq('energy of any interaction', X.AKLT().left_canonicalise().energy([H]), np.trace(rho @ H))

def cat(env):
    """invariant under turning all spins over; the pure cat state when undisturbed"""
    e = env.r('e', ())
    A = X.i_cat(e).data[0] if env.sym else X.i_cat(float(e)).data[0]
    F = np.array([[0, 1], [1, 0]])
    env.eq('flip', F @ A[0] @ F, A[1])
    env.eq('up', A[0], np.array([[1.0, 0], [0, 0]]) + e * np.array([[0, 1], [1, 1]]))

# ------------------------------------------------------------------ reports
def entropy(env, b, d, steps):
    A = fMPS(env.nums('A', ref.custom(d, b)), d)
    A = ref.history(A, steps)
    psi = ref.dense([x.copy() for x in A.data])
    for n in range(A.L):
        p = np.array([1.0]) if n == 0 else np.linalg.eigvalsh(ref.rdm(psi, list(range(n))))
        p = p / np.sum(p)
        p = p[p > 1e-10]
        env.eq('left of %d' % n, A.entanglement_entropy(n), -np.sum(p * np.log(p)))
    new = ref.dense(A.data)
    env.eq('unit norm after', ref.inner(new, new), 1.0)
    env.eq('same ray after', ref.inner(new, psi) * ref.inner(psi, new), ref.inner(psi, psi))

def forms(env, b, d):
    A = lambda: fMPS(env.nums('A', ref.custom(d, b)), d)
    for hand in ('left', 'right'):
        x = getattr(A(), hand + '_canonicalise')(testing=True)
        other = {'left': 'right', 'right': 'left'}[hand]
        env.true('%s form confirmed' % hand, bool(x.ok) and bool(x.has_norm_1))
        env.true('%s form is not the other one' % hand, len(b) == 2 or not getattr(x, 'is_%s_canonical' % other))
        env.true('%s: weights' % hand, bool(x.has_trace_1) and bool(x.is_full_rank))
        x.data[-1] = 2 * x.data[-1]
        x.update_properties()
        env.true('%s form lost' % hand, not getattr(x, 'is_%s_canonical' % hand) and not x.has_norm_1)
    x = A().mixed_canonicalise(1, testing=True)
    env.true('mixed form confirmed', bool(x.ok))
    x = A()
    x.update_properties()
    env.true('no form', not x.is_left_canonical and not x.is_right_canonical and not x.has_norm_1 and not x.has_trace_1 and not x.is_full_rank and not x.is_left_env_canonical)

def tests(env, side, d, b):
    """chains of isometries, whatever the tensors they were made from; scaled ones are not"""
    if env.sym: poly.ST.reduce_sqrt = True
    A = getattr(fMPS(env.cs('A', ref.custom(d, b)), d), side + '_orthogonalise')()
    f = getattr(T, 'is_%s_canonical' % side)
    env.true('holds', bool(f([x.copy() for x in A.data])))
    for n in range(len(b) - 1):
        for t in (1.001, 0.999, 2j, 0.0):
            xs = [x.copy() for x in A.data]
            xs[n] = xs[n] * t
            env.true('site %d scaled by %s' % (n, t), not f(xs))

def deviations(env, side, b):
    """isometries with one entry off"""
    A = getattr(fMPS(env.nums('A', ref.custom(2, b)), 2), side + '_canonicalise')()
    f = getattr(T, 'is_%s_canonical' % side)
    for n, x in enumerate(A.data):
        for ix in np.ndindex(*x.shape):
            for t in (1e-3, 0.5j, -0.1):
                xs = [y.copy() + 0j for y in A.data]
                xs[n] = xs[n] + t * unit(x.shape, ix)
                G = sum(np.conj(y).T @ y if side == 'left' else y @ np.conj(y).T for y in xs[n]) - np.eye(x.shape[2 if side == 'left' else 1])
                env.true('site %d, %s off by %s' % (n, ix, t), bool(f(xs)) == (float(np.max(abs(G))) < 1e-8))

def unit(shape, ix):
    e = np.zeros(shape); e[ix] = 1
    return e

def drawn(env, L, d, D):
    got = []
    def randn(*sh):
        got.append(env.r('R%d' % len(got), sh) if D > 1 or d != 2 else env.num('R%d' % len(got), sh).real); return got[-1]
    with swapped(xmps.fMPS, randn=randn): A = fMPS().random(L, d, D)
    b = [min(d ** n, d ** (L - n), D) for n in range(L + 1)]
    env.true('shapes', [x.shape for x in A.data] == [(d, b[n], b[n + 1]) for n in range(L)])
    env.true('sizes', (A.L, A.d, A.D) == (L, d, max(b)))
    env.true('no gauge', not A.canonical and not A.orthogonal)
    if D > 1 or d != 2:
        env.true('every part drawn', sum(x.size for x in got) == 2 * sum(int(np.prod(x.shape)) for x in A.data))
        for n in range(L if len(got) == 2 * L else 0): env.eq('tensor %d' % n, A[n], got[2 * n] + 1j * got[2 * n + 1])
    else:
        for n in range(L): env.true('unit %d' % n, abs(complex(np.sum(A[n] * np.conj(A[n]))) - 1) < 1e-9)
        for n in range(L):
            for m in range(n): env.true('site %d independent of %d' % (n, m), abs(complex(np.sum(A[n] * np.conj(A[m])))) < 1 - 1e-9)

def drawn_uniform(env, d, D, p):
    got = []
    def randn(*sh):
        got.append(env.r('R%d' % len(got), sh)); return got[-1]
    with swapped(xmps.iMPS, randn=randn): A = iMPS().random(d, D, p)
    env.true('shapes', [x.shape for x in A.data] == [(d, D, D)] * p and (A.d, A.D, A.period) == (d, D, p))
    env.true('fresh', sum(x.size for x in got) == 2 * p * d * D * D)
    for n in range(p if len(got) == 2 * p else 0): env.eq('tensor %d' % n, A[n], 5.0 * (got[2 * n] + 1j * got[2 * n + 1]))

def compared(env):
    A = [env.num('A%d' % n, (2, 2, 2)) for n in range(2)]
    x = iMPS([a.copy() for a in A])
    y = iMPS([a.copy() for a in A])
    env.true('equal', bool(x == y) and not (x != y))
    env.true('lengths', not (x == iMPS([A[0].copy()])) and not (iMPS([A[0].copy()]) == x))
    env.true('one call from one', x(1) is x.data[0] and x(2) is x.data[1] and x[0] is x.data[0])
    for n in range(2):
        z = iMPS([a.copy() for a in A]); z.data[n][1, 0, 1] += 1e-3
        env.true('differs %d' % n, not (x == z) and (x != z))

def cases(tier):
    t = tier == 'thorough'
    out = []
    def add(name, fn, cost=1, **p): out.append(dict(name=name, fn=fn, params=p, cost=cost))
    for kind in ('bell', 'z', 'x'):
        for i in range(1, 5): add('%s %d' % (kind, i), example, kind=kind, i=i)
    for i in (1, 2): add('uniform z %d' % i, uniform, i=i)
    for d in (2, 3) + ((4,) if t else ()): add('uniform product d%d' % d, product, d=d)
    add('AKLT', aklt)
    add('cat', cat)
    for st in ref.histories(): add('entropy after %s' % ', '.join(st), entropy, b=[1, 2, 2, 1], d=2, steps=st)
    for b, d in [([1, 2, 1], 2), ([1, 1, 2, 1], 2), ([1, 2, 4, 2, 1], 2), ([1, 3, 1], 3), ([1, 2, 3, 3, 2, 1], 2)]:
        add('entropy d%d %s' % (d, b), entropy, b=b, d=d, steps=())
        add('forms d%d %s' % (d, b), forms, b=b, d=d)
    for side in ('left', 'right'):
        for b, d in [([1, 2, 1], 2), ([1, 2, 2, 1], 2), ([1, 2, 1], 3)]: add('%s test d%d %s' % (side, d, b), tests, side=side, d=d, b=b)
        add('%s deviations' % side, deviations, side=side, b=[1, 2, 2, 1])
    for L in (2, 3, 4, 5, 6):
        for d, D in [(2, 1), (2, 2), (2, 3), (2, 8), (3, 1), (3, 2), (3, 5)]:
            add('random L%d d%d D%d' % (L, d, D), drawn, L=L, d=d, D=D)
    if t:
        for b, d in [([1, 2, 4, 4, 2, 1], 2), ([1, 2, 4, 6, 4, 2, 1], 2), ([1, 3, 5, 3, 1], 3), ([1, 4, 1], 4)]:
            add('entropy d%d %s' % (d, b), entropy, b=b, d=d, steps=())
            add('forms d%d %s' % (d, b), forms, b=b, d=d)
        for side in ('left', 'right'):
            add('%s test d2 long' % side, tests, side=side, d=2, b=[1, 2, 4, 2, 1])
            add('%s deviations long' % side, deviations, side=side, b=[1, 2, 3, 2, 1])
    for d, D, p in [(2, 1, 1), (2, 3, 1), (3, 2, 2)]: add('random uniform %s' % ((d, D, p),), drawn_uniform, d=d, D=D, p=p)
    add('comparison of uniform states', compared)
    return out
