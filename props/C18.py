"""Spin-chain Hamiltonians: strings, matrices, MPO and full operator agree."""
import numpy as np
from xmps.Hamiltonians import Hamiltonian
from . import ref

BOUNDS = 'chains of 2 to 7 spins; every two-letter Pauli string and one-letter field with a symbolic real (or complex) coefficient, |entry| <= 1'
P = {'I': np.eye(2) + 0j, 'X': np.array([[0, 1], [1, 0]]) + 0j, 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.array([[1, 0], [0, -1]]) + 0j}
XYZ = 'XYZ'
PAIRS = [a + b for a in XYZ for b in XYZ]

def coef(env, keys, cx=False):
    out = {}
    for k in keys:
        x = (env.c if cx else env.pos)('J' + k, (1,))[0]
        out[k] = x if env.sym else (complex(x) if cx else float(x))
    return out

def full(J, L):
    """pairs on every bond; a one-letter field once on every site; aI / Ia: on the first / second site of a bond,
    with the field of a site shared by its two bonds"""
    H = 0
    for k, v in J.items():
        if len(k) == 1:
            for i in range(L): H = H + v * ref.embed_op(P[k], [i], L, 2)
        else:
            for i in range(L - 1): H = H + v * ref.embed_op(np.kron(P[k[0]], P[k[1]]), [i, i + 1], L, 2)
    return H

def sum_terms(hs, L):
    return sum(ref.embed_op(h, [i, i + 1], L, 2) for i, h in enumerate(hs))

def chain(env, keys, L):
    J = coef(env, keys)
    J0 = dict(J)
    h = Hamiltonian(J)
    hs = h.to_matrices(L)
    env.true('one term per bond', len(hs) == L - 1 and all(m.shape == (4, 4) for m in hs))
    want = full(J0, L)
    env.eq('terms sum to the Hamiltonian', sum_terms(hs, L), want)
    env.eq('to_full', Hamiltonian(dict(J0)).to_full(L), want)
    env.true('terms given are unchanged', set(J) == set(J0))
    for k in J0: env.eq('coefficient of %s unchanged' % k, J[k], J0[k])
    for k, m in enumerate(hs): env.eq('term %d Hermitian' % k, np.conj(m).T, m)
    env.eq('asked again', sum_terms(h.to_matrices(L), L), want)

def uneven(env, big, small, keys):
    """coefficients of very different size: the small ones count as the large ones do"""
    x = env.pos('x', (1,))[0]
    J = {k: big for k in keys[:-1]}
    J[keys[-1]] = small * x
    for L in (2, 3, 4):
        want = full(J, L)
        env.eq('terms L%d' % L, (sum_terms(Hamiltonian(dict(J)).to_matrices(L), L) - want) * (1 / small), 0 * want)
        env.eq('operator L%d' % L, (Hamiltonian(dict(J)).to_full(L) - want) * (1 / small), 0 * want)

def lengths(env, keys):
    """the same object asked for several lengths"""
    J = coef(env, keys)
    h = Hamiltonian(J)
    for L in (3, 4, 2, 5, 3): env.eq('length %d' % L, h.to_full(L), full(J, L))
    for L in (4, 2, 3): env.eq('terms for length %d' % L, sum_terms(h.to_matrices(L), L), full(J, L))

def shared(env):
    """two Hamiltonians from one dictionary"""
    J = coef(env, ['ZZ', 'X'])
    a, b = Hamiltonian(J), Hamiltonian(J)
    env.eq('first', a.to_full(3), full(J, 3))
    env.eq('second', b.to_full(3), full(J, 3))
    env.eq('matrix', a.to_matrix(), b.to_matrix())

def bond(env, keys, cx):
    """two-letter strings with any coefficients: one bond"""
    J = coef(env, keys, cx)
    want = sum(v * np.kron(P[k[0]], P[k[1]]) for k, v in J.items())
    env.eq('to_matrix', Hamiltonian(J).to_matrix(), want)

def inverse(env):
    M = env.c('M', (4, 4))
    M = M - np.trace(M) / 4 * np.eye(4)
    h = Hamiltonian().from_matrix(M)
    env.eq('to_matrix inverts from_matrix', h.to_matrix(), M)
    env.true('fifteen strings', set(h.strings) == {a + b for a in 'IXYZ' for b in 'IXYZ'} - {'II'})
    for k in h.strings:
        env.eq('coefficient %s' % k, h.strings[k], np.trace(np.kron(P[k[0]], P[k[1]]) @ M) / 4)

def matrices(env, L, k):
    """local matrices given: the full operator is their sum"""
    ms = [env.c('m%d' % i, (2 ** k, 2 ** k)) for i in range(L - k + 1)]
    h = Hamiltonian(matrices=ms)
    env.true('k and L', h.k == k and h.L == L)
    env.eq('to_full', h.to_full(), sum(ref.embed_op(m, list(range(i, i + k)), L, 2) for i, m in enumerate(ms)))

def mpo(env, keys, L):
    J = coef(env, keys)
    W = Hamiltonian(J).to_mpo(L)
    env.true('one tensor per site', len(W) == L and all(w.shape == (5, 5, 2, 2) for w in W))
    v = np.array([1, 0, 0, 0, 0]) + 0j
    T = np.tensordot(v, W[0], [[0], [0]])           # b, s, s'
    for w in W[1:]:
        # T: b, S, S' ; w: b, c, s, s'
        T = np.tensordot(T, w, [[0], [0]])          # S S' c s s'
        n = T.shape[0] * 2
        T = np.transpose(T, [2, 0, 3, 1, 4]).reshape(5, n, n)
    env.eq('MPO contracts to the Hamiltonian', T[4], full(J, L))

def refuse(env):
    x = coef(env, ['XY'])['XY']
    env.raises('asymmetric strings have no mpo', NotImplementedError, lambda: Hamiltonian({'XY': x}).to_mpo(3))
    env.raises('no length', Exception, lambda: Hamiltonian(matrices=[np.eye(4)]).to_full() if False else Hamiltonian({'ZZ': 1}).L)
    env.eq('anchor', Hamiltonian({'XX': x}).to_matrix(), x * np.kron(P['X'], P['X']))

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    t = tier == 'thorough'
    sets = {'ising': ['ZZ', 'X'], 'heisenberg': ['XX', 'YY', 'ZZ', 'X', 'Y', 'Z'], 'all': PAIRS + list(XYZ), 'fields': ['X', 'Y', 'Z'], 'cross': ['XY', 'ZX', 'Y'],
            'pairs': ['XX', 'YZ'], 'one': ['Y']}
    for n, keys in sets.items():
        for L in (2, 3, 4, 5) + ((6,) if n != 'all' or t else ()) + ((7,) if n in ('ising', 'cross') or t else ()) + ((8,) if t else ()):
            out.append(dict(name='chain %s L%d' % (n, L), fn=chain, params=dict(keys=keys, L=L)))
    for keys in (['ZZ', 'X'], ['XX', 'YY', 'ZZ'], ['ZZ', 'XY']):
        for big, small in ((64.0, 2.0 ** -10), (2.0 ** -6, 2.0 ** -17)):
            out.append(dict(name='uneven %s %g %g' % ('+'.join(keys), big, small), fn=uneven, params=dict(big=big, small=small, keys=keys)))
    for n in ('ising', 'heisenberg', 'all'): out.append(dict(name='lengths %s' % n, fn=lengths, params=dict(keys=sets[n])))
    for n in ('ising', 'heisenberg', 'fields'):
        for L in (2, 3, 4) + ((5, 6) if t else ()):
            out.append(dict(name='mpo %s L%d' % (n, L), fn=mpo, params=dict(keys=sets[n], L=L)))
    two = [a + b for a in 'IXYZ' for b in 'IXYZ']
    for cx in (False, True): out.append(dict(name='bond %s' % ('complex' if cx else 'real'), fn=bond, params=dict(keys=two, cx=cx)))
    for L, k in [(2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (2, 1), (3, 1)]: out.append(dict(name='matrices L%d k%d' % (L, k), fn=matrices, params=dict(L=L, k=k)))
    for f in (shared, inverse, refuse): out.append(dict(name=f.__name__, fn=f))
    return out
