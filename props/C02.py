"""Linear structure: proper sum / scalar multiple, element-wise hacks, append / extend."""
import numpy as np
from xmps.fMPS import fMPS, fTFD
from . import ref

BOUNDS = 'L<=4 (and L = 6-8 for fixed generic chains with some sites free), d<=4, bond dimensions<=3 (listed per case); |Re|,|Im| of every entry <= 1; after histories of one or two other operations on a fixed generic state'

def add(env, d, b1, b2, cls):
    K = fTFD if cls == 'fTFD' else fMPS
    A = K(env.cs('A', ref.custom(d, b1)), d)
    B = K(env.cs('B', ref.custom(d, b2)), d)
    a, b = ref.dense(A.data), ref.dense(B.data)
    C = A.add(B)
    env.eq('add = |a>+|b>', ref.dense(C.data), a + b)
    env.eq('first summand unchanged', ref.dense(A.data), a)
    env.eq('second summand unchanged', ref.dense(B.data), b)
    env.true('length recorded', C.L == len(b1) - 1 and C.d == d)
    env.eq('overlap is linear in the sum', C.overlap(B), ref.inner(b, a) + ref.inner(b, b))

def mul(env, d, b):
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    x = env.c('x', (1,))[0]
    x = x if env.sym else complex(x)
    a = ref.dense(A.data)
    env.eq('mul = scalar multiple', ref.dense(A.mul(x).data), x * a)
    env.eq('operand unchanged', ref.dense(A.data), a)

def itemwise(env, d, b, cls):
    K = fTFD if cls == 'fTFD' else fMPS
    A = K(env.cs('A', ref.custom(d, b)), d)
    B = K(env.cs('B', ref.custom(d, b)), d)
    A0, B0 = [x.copy() for x in A.data], [x.copy() for x in B.data]
    x = env.pos('x', (1,))[0]
    x = x if env.sym else float(x)
    for n, (got, want) in dict(plus=(A + B, [p + q for p, q in zip(A0, B0)]), minus=(A - B, [p - q for p, q in zip(A0, B0)]),
                               times=(A * x, [p * x for p in A0]), rtimes=(x * A, [p * x for p in A0]),
                               over=(A / x, [p / x for p in A0])).items():
        env.true(n + ' type and size', type(got) is K and got.L == A.L and got.d == d)
        for i, (g, w) in enumerate(zip(got.data, want)):
            env.eq('%s site %d' % (n, i), g, w)
    for i in range(A.L):
        env.eq('operands unchanged %d' % i, A[i], A0[i]); env.eq('operands unchanged %d (B)' % i, B[i], B0[i])

def chains(env, d):
    A = fMPS(env.cs('A', ref.custom(d, [1, 2, 1])), d)
    B = fMPS(env.cs('B', ref.custom(d, [1, 2, 1])), d)
    t = env.c('t', (d, 1, 1))
    E = A.extend(B)
    env.eq('extend = product of the states', ref.dense(E.data), np.tensordot(ref.dense(A.data), ref.dense(B.data), 0))
    env.true('extend length', E.L == 4 and A.L == 2 and len(A.data) == 2)
    P = A.append(t)
    env.eq('append = product with one site', ref.dense(P.data), np.tensordot(ref.dense(A.data), t[:, 0, 0], 0))
    env.true('append length', P.L == 3 and len(A.data) == 2)

def product(env, L, d):
    v = env.c('v', (L, d)); A = fMPS(env.cs('A', ref.custom(d, [1] + [2] * (L - 1) + [1])), d)
    P = fMPS().from_product_state(v)
    want = v[0]
    for k in range(1, L): want = np.tensordot(want, v[k], 0)
    env.eq('product state', ref.dense(P.data), want)
    env.eq('product_state_overlap', A.product_state_overlap(v), ref.inner(want, ref.dense(A.data)))
    Q = fMPS().from_product_states([v, 2 * v])
    env.eq('list of product states', ref.dense(Q[1].data), 2 ** L * want)

def after(env, b, steps):
    """a state with a past is scaled and added to like any other"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    a = ref.dense(A.data)
    n = A.L
    B = fMPS(ref.probe(env, n), 2)
    x = env.c('x', (1,))[0]
    x = x if env.sym else complex(x)
    env.eq('scalar multiple', ref.dense(A.mul(x).data), x * a)
    env.eq('sum', ref.dense(A.add(B).data), a + ref.dense(B.data))
    env.eq('sum the other way round', ref.dense(B.add(A).data), a + ref.dense(B.data))
    env.eq('multiple of the sum', ref.dense(A.add(B).mul(x).data), x * (a + ref.dense(B.data)))
    env.eq('operand unchanged', ref.dense(A.data), a)
    C = A.append(env.c('t', (2, 1, 1)))
    env.eq('one more site', ref.dense(C.data), np.tensordot(a, env.c('t', (2, 1, 1))[:, 0, 0], 0))

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    for b in ref.LONG:
        for st in [(), ('right', 'mixed 1'), ('left canonical',)]: out.append(dict(name='long %s %s' % (b, ', '.join(st) or 'as given'), fn=after, params=dict(b=b, steps=st), cost=3))
    for st in ref.histories(raw=True): out.append(dict(name='after %s' % ', '.join(st), fn=after, params=dict(b=[1, 2, 2, 1], steps=st)))
    for d, b1, b2 in [(2, [1, 2, 1], [1, 2, 1]), (2, [1, 2, 2, 1], [1, 2, 2, 1]), (2, [1, 2, 3, 2, 1], [1, 1, 2, 1, 1]), (3, [1, 3, 1], [1, 2, 1]), (2, [1, 1], [1, 1]), (3, [1, 1], [1, 1])]:
        out.append(dict(name='add d%d %s+%s' % (d, b1, b2), fn=add, params=dict(d=d, b1=b1, b2=b2, cls='fMPS')))
    out.append(dict(name='TFD add', fn=add, params=dict(d=4, b1=[1, 2, 2, 1], b2=[1, 1, 2, 1], cls='fTFD')))
    out.append(dict(name='TFD add one site', fn=add, params=dict(d=4, b1=[1, 1], b2=[1, 1], cls='fTFD')))
    for d, b in [(2, [1, 2, 1]), (2, [1, 2, 2, 1]), (3, [1, 3, 2, 1])]:
        out.append(dict(name='mul d%d %s' % (d, b), fn=mul, params=dict(d=d, b=b)))
        out.append(dict(name='itemwise d%d %s' % (d, b), fn=itemwise, params=dict(d=d, b=b, cls='fMPS')))
    out.append(dict(name='TFD itemwise', fn=itemwise, params=dict(d=4, b=[1, 2, 2, 1], cls='fTFD')))
    out.append(dict(name='extend append', fn=chains, params=dict(d=2)))
    out.append(dict(name='product states L3', fn=product, params=dict(L=3, d=2)))
    out.append(dict(name='product states L2 d3', fn=product, params=dict(L=2, d=3)))
    return out
