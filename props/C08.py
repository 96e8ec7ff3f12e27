"""Canonicalisation (SVD): same state, isometric tensors, diagonal environments."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref
from .C07 import left_iso, right_iso

BOUNDS = 'L<=4 (and fixed generic chains, listed), d<=3, bond dimensions<=3 (listed per case); every orthogonality centre; |Re|,|Im| of every tensor entry <= 1; every matrix decomposed has distinct nonzero singular values, except in the cases named degenerate: fixed states with equal Schmidt values'

def shape_ok(env, A, L, d):
    env.true('length and bonds fit', len(A.data) == L and A.L == L and A.d == d
             and all(x.ndim == 3 and x.shape[0] == d for x in A.data) and A[0].shape[1] == 1 and A[-1].shape[2] == 1
             and all(A[i].shape[2] == A[i + 1].shape[1] for i in range(L - 1)))

def full(env, d, b, hand, sweep):
    L = len(b) - 1
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    psi = ref.dense(A.data)
    R = getattr(A, hand + '_canonicalise')(sweep_back=sweep)
    env.true('returns the state itself', R is A)
    shape_ok(env, A, L, d)
    iso = right_iso if hand == 'right' else left_iso
    for i, x in enumerate(A.data): iso(env, 'site %d %s isometric' % (i, hand), x)
    env.propto('state preserved up to a scalar', ref.dense(A.data), psi)
    env.true('centre recorded', A.orthogonal and A.oc == (0 if hand == 'right' else L))

def envs(env, d, b, hand):
    """Schmidt weights: the environments are diagonal, equal the recorded weights"""
    L = len(b) - 1
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    getattr(A, hand + '_canonicalise')()
    env.true('one weight per bond', len(A.Ls) == L + 1)
    E = np.eye(1)
    if hand == 'right':
        env.eq('left boundary', A.Ls[0], E)
        for i, x in enumerate(A.data):
            env.eq('left environment of bond %d' % (i + 1), sum(np.conj(y).T @ A.Ls[i] @ y for y in x), A.Ls[i + 1])
    else:
        env.eq('right boundary', A.Ls[L], E)
        for i, x in list(enumerate(A.data))[::-1]:
            env.eq('right environment of bond %d' % i, sum(y @ A.Ls[i + 1] @ np.conj(y).T for y in x), A.Ls[i])
    for i, l in enumerate(A.Ls):
        l = np.asarray(l) if not env.sym else l
        env.eq('weights of bond %d real and diagonal' % i, l, np.diag(np.real(np.diag(l))))

def mixed(env, d, b, oc):
    L = len(b) - 1
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    psi = ref.dense(A.data)
    A.mixed_canonicalise(oc)
    shape_ok(env, A, L, d)
    for i, x in enumerate(A.data):
        if i < oc: left_iso(env, 'site %d left isometric' % i, x)
        if i > oc: right_iso(env, 'site %d right isometric' % i, x)
    env.propto('state preserved up to a scalar', ref.dense(A.data), psi)
    env.true('centre recorded', A.oc == oc)

def trunc(env, d, b, hand, D):
    """truncated: still isometric, bonds capped, shapes consistent"""
    L = len(b) - 1
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    getattr(A, hand + '_canonicalise')(D, sweep_back=False)
    shape_ok(env, A, L, d)
    env.true('bonds capped', all(x.shape[1] <= D and x.shape[2] <= D for x in A.data) and A.D <= max(b))
    iso = right_iso if hand == 'right' else left_iso
    for i, x in enumerate(A.data): iso(env, 'site %d %s isometric' % (i, hand), x)

def ample(env, d, b, hand, D):
    """a cap at or above every bond changes nothing"""
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    psi = ref.dense(A.data)
    getattr(A, hand + '_canonicalise')(D, sweep_back=False)
    env.propto('state preserved up to a scalar', ref.dense(A.data), psi)

def mixed_cap(env, d, b, oc, D, prior):
    """mixed form with a cap: the bonds respect it; one at or above every bond changes nothing"""
    L = len(b) - 1
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    if prior: getattr(A, prior + '_orthogonalise')()
    psi = ref.dense(A.data)
    A.mixed_canonicalise(oc, D, sweep_back=False)
    shape_ok(env, A, L, d)
    env.true('bonds capped', all(x.shape[1] <= D and x.shape[2] <= D for x in A.data))
    for i, x in enumerate(A.data):
        if i < oc: left_iso(env, 'site %d left isometric' % i, x)
        if i > oc: right_iso(env, 'site %d right isometric' % i, x)
    if D >= max(b): env.propto('state preserved up to a scalar', ref.dense(A.data), psi)
    env.true('centre recorded', A.oc == oc)

def successive(env, L, d, b, D, hand, sweep):
    """a state orthogonal from the other side: at every bond in turn the largest Schmidt vectors are kept"""
    A = fMPS([x + 0j for x in env.nums('A', ref.custom(d, b))], d)
    getattr(A, ('left' if hand == 'right' else 'right') + '_orthogonalise')()
    psi = np.asarray(env.value(ref.dense(A.data)) if hasattr(env, 'value') else ref.dense(A.data))
    x = psi.reshape(-1)
    for n in range(1, L)[::-1 if hand == 'right' else 1]:
        U, s, V = np.linalg.svd(x.reshape(d ** n, -1), full_matrices=False)
        x = ((U[:, :D] * s[:D]) @ V[:D]).reshape(-1)
    x = x / np.sqrt(np.sum(abs(x) ** 2))
    getattr(A, hand + '_canonicalise')(D, sweep_back=sweep)
    shape_ok(env, A, L, d)
    phi = env.c('phi', (d ** L,))
    new = ref.dense(A.data).reshape(-1)
    k = ref.inner(x, new)
    env.eq('largest Schmidt vectors kept', ref.inner(phi, new), k * ref.inner(phi, x))
    env.eq('normalised', k * np.conj(k), 1.0)

def best(env, d, hand, D):
    """one bond: the best approximation of that rank is kept"""
    M = env.c('M', (d, d))
    I = np.eye(d)
    if hand == 'right':
        data = [I.reshape(d, 1, d) * (1 + 0j), np.transpose(M).reshape(d, d, 1)]
    else:
        data = [M.reshape(d, 1, d), I.reshape(d, d, 1) * (1 + 0j)]
    data = [env.const(x) if not isinstance(x, type(M)) else x for x in data]
    A = fMPS(data, d)
    psi = ref.dense(A.data)
    U, s, V = np.linalg.svd(psi, full_matrices=hand == 'left')
    want = (U[:, :D] * s[:D]) @ V[:D]
    getattr(A, hand + '_canonicalise')(D, sweep_back=False)
    new = ref.dense(A.data)
    env.propto('projection on the %d largest Schmidt vectors' % D, new, want)
    env.eq('normalised', ref.inner(new, new), 1.0)

def regrown(env, L, cut, step, hand, sweep):
    """a state once cut to a small bond and grown again since: a cap at or above its bonds changes nothing"""
    A = fMPS(env.nums('A', ref.custom(2, [1] + [2] * (L - 1) + [1])), 2)
    getattr(A, cut + '_canonicalise')(1)
    if step.startswith('gate'):
        n = int(step.split()[1])
        A.apply_two_site((env.c('G', (4, 4)), (n, n + 1)), 'l' if cut == 'left' else 'r')
    if step == 'sum': A = A.add(fMPS(env.cs('B', ref.custom(2, [1] + [1] * (L - 1) + [1])), 2))
    if step == 'tensors':
        data = env.cs('B', ref.custom(2, [1] + [2] * (L - 1) + [1]))
        for n, x in enumerate(data): A[n] = x
    psi = ref.dense(A.data)
    getattr(A, hand + '_canonicalise')(2, sweep_back=sweep)
    shape_ok(env, A, L, 2)
    env.propto('state preserved up to a scalar', ref.dense(A.data), psi)
    iso = right_iso if hand == 'right' else left_iso
    for i, x in enumerate(A.data): iso(env, 'site %d %s isometric' % (i, hand), x)

CHAINS = dict(zip(['chain 6', 'chain 7', 'chain 8', 'ququart', 'd5', 'dips'], [(2, b) for b in ref.LONG] + [(4, [1, 4, 4, 1]), (5, [1, 5, 1]), (2, [1, 2, 1, 2, 2, 1, 1])]))
def degenerate_state(env, which):
    import scipy.linalg
    rot = lambda k: np.linalg.qr(env.num('rot%d' % k, (2, 2)))[0]
    def local(As): return [np.tensordot(rot(k), a, [1, 0]) for k, a in enumerate(As)]
    if which in CHAINS: return fMPS(env.nums('A', ref.custom(*CHAINS[which])), CHAINS[which][0])
    if which == 'ghz': L, A = 4, fMPS([np.stack([np.eye(2)[:1] * (s == 0) + np.eye(2)[1:] * (s == 1) for s in (0, 1)]) + 0j] + [np.stack([np.diag([1.0, 0]), np.diag([0, 1.0])]) + 0j] * 2
                                        + [np.stack([np.eye(2)[:, :1], np.eye(2)[:, 1:]]) + 0j], 2)
    if which == 'pair': A = fMPS([np.stack([np.eye(2)[:1], np.eye(2)[1:]]) + 0j, np.stack([np.eye(2)[:, :1], np.eye(2)[:, 1:]]) + 0j], 2)
    if which == 'two pairs':    # sites (0,2), (1,3) maximally entangled
        I = np.eye(2)
        a = np.stack([I[:1], I[1:]]) + 0j
        b = np.stack([np.kron(I, I[:1]), np.kron(I, I[1:])]) + 0j
        A = fMPS([a, b, np.stack([np.kron(I[:, :1], I), np.kron(I[:, 1:], I)]) + 0j, np.stack([I[:, :1], I[:, 1:]]) + 0j], 2)
    if which in ('ghz', 'pair', 'two pairs'):
        return fMPS(local(A.data), 2)
    a = fMPS(env.nums('A', ref.custom(2, [1, 2, 1] if which == 'double 2' else [1, 2, 2, 1])), 2).left_canonicalise()
    return fMPS([np.kron(x, x) for x in a.data], 4)

def degenerate(env, which, hand):
    """states with equal Schmidt coefficients (GHZ, Bell pairs, doubled states): against any state"""
    A = degenerate_state(env, which)
    L = A.L
    psi = ref.dense(A.data)
    psi = psi / np.sqrt(np.real(ref.inner(psi, psi)))
    if hand in ('left', 'right'): getattr(A, hand + '_canonicalise')()
    else: A.mixed_canonicalise(int(hand))
    phi = env.c('phi', psi.shape)
    new = ref.dense(A.data)
    k = ref.inner(psi, new)
    env.eq('same state', ref.inner(phi, new), k * ref.inner(phi, psi))
    env.eq('normalised', k * np.conj(k), 1.0)
    for i, x in enumerate(A.data):
        if hand == 'left' or (hand not in ('left', 'right') and i < int(hand)): left_iso(env, 'site %d' % i, x)
        if hand == 'right' or (hand not in ('left', 'right') and i > int(hand)): right_iso(env, 'site %d' % i, x)
    if hand in ('left', 'right'):
        E = np.eye(1)
        for i, x in (list(enumerate(A.data)) if hand == 'right' else list(enumerate(A.data))[::-1]):
            E = sum((np.conj(y).T @ E @ y) if hand == 'right' else (y @ E @ np.conj(y).T) for y in x)
            env.eq('environment diagonal %d' % i, E, np.diag(np.real(np.diag(E))))
            env.eq('recorded weights %d' % i, E, A.Ls[i + 1] if hand == 'right' else A.Ls[i])

def cases(tier):
    out = []
    t = tier == 'thorough'
    for d, b in [(2, [1, 2, 1]), (2, [1, 2, 2, 1]), (2, [1, 3, 1]), (2, [1, 2, 1, 2, 1]), (3, [1, 2, 1]), (2, [1, 1, 2, 1])]:
        for hand in ('right', 'left'):
            for s in (False, True):
                out.append(dict(name='%s d%d %s sweep %s' % (hand, d, b, s), fn=full, params=dict(d=d, b=b, hand=hand, sweep=s)))
            out.append(dict(name='%s weights d%d %s' % (hand, d, b), fn=envs, params=dict(d=d, b=b, hand=hand)))
        for oc in range(len(b) - 1):
            out.append(dict(name='mixed d%d %s oc%d' % (d, b, oc), fn=mixed, params=dict(d=d, b=b, oc=oc)))
    for d, b, D in [(2, [1, 2, 2, 1], 1), (2, [1, 3, 2, 1], 2), (3, [1, 3, 1], 2), (2, [1, 2, 1, 2, 1], 1)]:
        for hand in ('right', 'left'):
            out.append(dict(name='%s truncated d%d %s D%d' % (hand, d, b, D), fn=trunc, params=dict(d=d, b=b, hand=hand, D=D)))
    for d, b, D in [(2, [1, 2, 2, 1], 2), (2, [1, 2, 1, 1], 5)]:
        for hand in ('right', 'left'):
            out.append(dict(name='%s ample cap d%d %s D%d' % (hand, d, b, D), fn=ample, params=dict(d=d, b=b, hand=hand, D=D)))
    for d, b, D in [(2, [1, 2, 2, 1], 2), (2, [1, 2, 2, 1], 1), (2, [1, 2, 1, 1], 5), (2, [1, 2, 3, 1], 2), (3, [1, 2, 1], 2)]:
        for oc in range(len(b) - 1):
            for prior in [None] + ['left'] * (D < max(b)):
                out.append(dict(name='mixed cap d%d %s oc%d D%d %s' % (d, b, oc, D, prior), fn=mixed_cap, params=dict(d=d, b=b, oc=oc, D=D, prior=prior)))
    for d, b, D in [(2, [1, 2, 2, 1], 1), (2, [1, 2, 4, 2, 1], 2), (2, [1, 2, 3, 2, 1], 1), (3, [1, 3, 3, 1], 2), (2, [1, 2, 4, 4, 2, 1], 3)]:
        for hand in ('right', 'left'):
            for s in (False, True):
                out.append(dict(name='successive d%d %s %s D%d sweep %s' % (d, b, hand, D, s), fn=successive,
                                params=dict(L=len(b) - 1, d=d, b=b, D=D, hand=hand, sweep=s)))
    for L in (2, 3):
        for cut in ('right', 'left'):
            for step in ['gate %d' % n for n in range(L - 1)] + ['sum', 'tensors']:
                for hand in ('right', 'left'):
                    for s in (False, True)[:2 if L == 2 and step != 'sum' else 1]:
                        out.append(dict(name='regrown L%d %s %s %s sweep %s' % (L, cut, step, hand, s), fn=regrown,
                                        params=dict(L=L, cut=cut, step=step, hand=hand, sweep=s)))
    for w in ('ghz', 'pair', 'two pairs', 'double 2', 'double 3'):
        for hand in ('left', 'right', '0', '1'):
            out.append(dict(name='degenerate %s %s' % (w, hand), fn=degenerate, params=dict(which=w, hand=hand)))
    for w in CHAINS:
        n = len(CHAINS[w][1]) - 1
        for hand in ['left', 'right'] + [str(k) for k in range(n)]:
            out.append(dict(name='fixed %s %s' % (w, hand), fn=degenerate, params=dict(which=w, hand=hand)))
    for d, D in [(2, 1), (3, 1), (3, 2), (2, 2), (4, 2), (4, 3)]:
        for hand in ('right', 'left'):
            out.append(dict(name='best %s d%d D%d' % (hand, d, D), fn=best, params=dict(d=d, hand=hand, D=D)))
    return out
