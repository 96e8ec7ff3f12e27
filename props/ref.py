"""Dense reference semantics used as oracles (independent of xmps code)."""
import numpy as np

def dense(As):
    """state tensor psi[s1..sL] = (A1[s1] A2[s2] ... AL[sL])[0,0]"""
    T = As[0][:, 0, :]                        # s1, b
    for A in As[1:]:
        T = np.tensordot(T, A, [[T.ndim - 1], [1]])    # ..., s, b'
    return T[..., 0]

def open_dense(As):
    """[a, s1..sn, b] for a segment with open bonds"""
    T = np.transpose(As[0], [1, 0, 2])
    for A in As[1:]:
        T = np.tensordot(T, A, [[T.ndim - 1], [1]])
    return T

def vec(As):
    return dense(As).reshape(-1)

def inner(a, b):
    """<a|b>"""
    a, b = a.reshape(-1), b.reshape(-1)
    return np.tensordot(np.conj(a), b, [[0], [0]])

def apply_op(psi, op, sites):
    """op acting on the listed sites (op index order = list order) of a dense state tensor"""
    d = psi.shape[sites[0]]
    k = len(sites)
    ds = [psi.shape[s] for s in sites]
    n = int(np.prod(ds))
    op = op.reshape(ds + ds)
    T = np.tensordot(op, psi, [list(range(k, 2 * k)), list(sites)])
    rest = [i for i in range(psi.ndim) if i not in sites]
    order = list(sites) + rest
    inv = [order.index(i) for i in range(psi.ndim)]
    return np.transpose(T, inv)

def expect(psi, op, sites):
    return inner(psi, apply_op(psi, op, sites))

def embed_op(op, sites, L, d):
    """full d^L matrix of op on the listed sites"""
    n = d ** L
    full = apply_op(np.eye(n).reshape([d] * L + [n]), op, sites)
    return full.reshape(n, n)

def rdm(psi, sites, phi=None):
    """rho[(s),(s')] = sum_rest psi[s..] conj(phi[s'..])"""
    phi = psi if phi is None else phi
    rest = [i for i in range(psi.ndim) if i not in sites]
    A = np.transpose(psi, list(sites) + rest).reshape(int(np.prod([psi.shape[s] for s in sites])), -1)
    B = np.transpose(phi, list(sites) + rest).reshape(int(np.prod([psi.shape[s] for s in sites])), -1)
    return A @ np.conj(B).T

def shapes(L, d, D):
    """[d, Dl, Dr] of an open chain with bond dimension at most D"""
    b = [min(d ** min(n, L - n), D) for n in range(L + 1)]
    return [(d, b[n], b[n + 1]) for n in range(L)]

def custom(d, bonds):
    return [(d, bonds[n], bonds[n + 1]) for n in range(len(bonds) - 1)]

LONG = [[1, 2, 4, 5, 4, 2, 1], [1, 2, 4, 8, 8, 4, 2, 1], [1, 2, 2, 3, 2, 3, 2, 2, 1]]
def probe(env, L, name='B'):
    """a qubit chain to compare with: every entry free up to four sites, else fixed with two sites free"""
    s = custom(2, [1] + [2] * (L - 1) + [1])
    return [env.c('%s%d' % (name, n), x) if L <= 4 or n in (1, L - 2) else env.num('%s%d' % (name, n), x) for n, x in enumerate(s)]

# ---------------------------------------------------------------- histories
def ref_tensor(shape):
    n = np.arange(int(np.prod(shape)))
    return (((n * 7 + 3) % 11 - 5) / 6. + 1j * ((n * 5 + 1) % 7 - 3) / 4.).reshape(shape)

def random_anew(A):
    """random tensors in the same object (numbers of our own, in the shapes it chose)"""
    A.random(A.L, 2, 2)
    A.data[:] = [ref_tensor(x.shape) for x in A.data]

def used(A, B):
    """something made from A is moved about; A itself goes on"""
    B.E(np.diag([1.0, -1.0]) + 0j, 1)
    B.left_canonicalise()
    B.right_orthogonalise()
    return A

STEPS = {
    'left': lambda A: A.left_orthogonalise(),
    'right': lambda A: A.right_orthogonalise(),
    'left to 1': lambda A: A.left_orthogonalise(to=1),
    'right from 1': lambda A: A.right_orthogonalise(fr=1),
    'mixed 0': lambda A: A.mixed_orthogonalise(0),
    'mixed 1': lambda A: A.mixed_orthogonalise(1),
    'mixed last': lambda A: A.mixed_orthogonalise(A.L - 1),
    'left canonical': lambda A: A.left_canonicalise(),
    'right canonical': lambda A: A.right_canonicalise(),
    'mixed canonical 0': lambda A: A.mixed_canonicalise(0),
    'mixed canonical 1': lambda A: A.mixed_canonicalise(1),
    'mixed canonical last': lambda A: A.mixed_canonicalise(A.L - 1),
    'value 0': lambda A: A.E(np.diag([1.0, -1.0]) + 0j, 0),
    'value last': lambda A: A.E(np.diag([1.0, -1.0]) + 0j, A.L - 1),
    'canonical value 1': lambda A: A.E_(np.diag([1.0, -1.0]) + 0j, 1),
    'pair value 0': lambda A: A.E_k(np.diag([1.0, -1.0, 0.5, 2.0]) + 0j, [0, 1]),
    'density last': lambda A: A.rho([A.L - 1], single_string=False),
    'gate 0 1': lambda A: A.apply_two_site((np.arange(16).reshape(4, 4) / 16. + 1j * np.eye(4), (0, 1))),
    'gate last right': lambda A: A.apply_two_site((np.arange(16).reshape(4, 4) / 16. - 1j * np.eye(4), (A.L - 2, A.L - 1)), 'r'),
    'far gate': lambda A: A.apply_two_site((np.arange(16).reshape(4, 4) / 16. + 1j * np.eye(4), (0, 2))),
    'site gate 1': lambda A: A.apply((np.array([[1, 2j], [0.5, 1]]), 1)),
    'measure 1': lambda A: A.post_select(1, 1),
    'copy': lambda A: A.copy(),
    'copy used': lambda A: used(A, A.copy()),
    'multiple used': lambda A: used(A, A.mul(1j)),
    'sum': lambda A: A.add(A.copy()),
    'scaled': lambda A: A.mul(0.5j),
    'another tensor 0': lambda A: A.__setitem__(0, ref_tensor(A[0].shape)),
    'another tensor 1': lambda A: A.__setitem__(1, ref_tensor(A[1].shape)),
    'another tensor last': lambda A: A.__setitem__(A.L - 1, ref_tensor(A[A.L - 1].shape)),
    'tensor 0 in the list': lambda A: A.data.__setitem__(0, ref_tensor(A[0].shape)),
    'tensor 1 in the list': lambda A: A.data.__setitem__(1, ref_tensor(A[1].shape)),
    'random': lambda A: random_anew(A),
    'round trip': lambda A: A.deserialize(A.serialize(), structure=[x.shape for x in A.data]),
}
def history(A, steps):
    """run named steps on a (qubit) state; the state they leave, whose amplitudes are read from its tensors"""
    for s in steps:
        r = STEPS[s](A)
        if type(r) is type(A): A = r
    return A

def histories(pairs=True, raw=False):
    """single operations and pairs of them; raw: also tensors written into the list behind the state's back"""
    one = [(s,) for s in STEPS if not s.endswith('in the list')]
    two = [('left', 'value 0'), ('value 0', 'right'), ('left canonical', 'mixed 1'), ('value 0', 'gate last right'), ('gate 0 1', 'value last'), ('left', 'measure 1'),
           ('right', 'measure 1'), ('mixed last', 'sum'), ('left', 'copy'), ('right canonical', 'copy used'), ('left', 'copy used'), ('mixed 1', 'copy used'), ('left canonical', 'multiple used'), ('mixed 1', 'copy'), ('right canonical', 'site gate 1'), ('value last', 'site gate 1'), ('density last', 'left to 1'),
           ('mixed canonical last', 'value 0'), ('left', 'scaled'), ('value last', 'round trip'), ('mixed canonical 1', 'far gate'), ('left', 'right from 1'),
           ('value 0', 'left to 1'), ('value last', 'right from 1'), ('mixed 1', 'right from 1'), ('right canonical', 'left to 1'),
           ('right canonical', 'another tensor 1'), ('value 0', 'another tensor last'), ('mixed 1', 'another tensor 0'), ('left', 'another tensor 1'), ('value last', 'another tensor 0'),
           ('value 0', 'random')]
    three = [('right canonical', 'tensor 1 in the list'), ('left canonical', 'tensor 0 in the list'), ('right', 'tensor 0 in the list'), ('mixed 1', 'tensor 0 in the list')]
    return one + (two if pairs else []) + (three if raw else [])
