"""Overlap, norm and recombination of finite MPS against the dense state."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref

BOUNDS = 'L<=4 (and fixed generic chains with L = 6-8, some entries free), d<=3, bond dimensions<=3 (listed per case); |Re|,|Im| of every tensor entry <= 1'

def overlap(env, d, b1, b2, real=False):
    mk = env.rs if real else env.cs
    A = fMPS(mk('A', ref.custom(d, b1)), d)
    B = fMPS(mk('B', ref.custom(d, b2)), d)
    a, b = ref.dense(A.data), ref.dense(B.data)
    o = A.overlap(B)
    env.eq('overlap = sum a conj(b)', o, ref.inner(b, a))
    env.eq('overlap conjugate symmetry', np.conj(B.overlap(A)), o)
    env.eq('norm = <a|a>', A.norm(), ref.inner(a, a))
    env.eq('full_overlap = <a|b>', A.full_overlap(B), ref.inner(a, b))

def recombine(env, d, b1):
    A = fMPS(env.cs('A', ref.custom(d, b1)), d)
    env.eq('recombine = product of matrices', A.recombine(), ref.dense(A.data))

def after(env, b, steps):
    """a state with a past against any state"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    a = ref.dense(A.data)
    B = fMPS(ref.probe(env, A.L), 2)
    env.eq('overlap', A.overlap(B), ref.inner(ref.dense(B.data), a))
    env.eq('overlap the other way round', B.overlap(A), ref.inner(a, ref.dense(B.data)))
    env.eq('dense overlap', A.full_overlap(B), ref.inner(a, ref.dense(B.data)))
    env.eq('norm', A.norm(), ref.inner(a, a))
    env.eq('recombine', A.recombine(), a)

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    for b in ref.LONG:
        for st in [(), ('right', 'mixed 1'), ('left canonical',)]: out.append(dict(name='long %s %s' % (b, ', '.join(st) or 'as given'), fn=after, params=dict(b=b, steps=st), cost=3))
    for st in ref.histories(raw=True): out.append(dict(name='after %s' % ', '.join(st), fn=after, params=dict(b=[1, 2, 2, 1], steps=st)))
    cfg = [(2, [1, 2, 1], [1, 2, 1]), (2, [1, 2, 2, 1], [1, 2, 2, 1]), (3, [1, 3, 1], [1, 2, 1]), (2, [1, 3, 1, 1], [1, 1, 2, 1])]
    for d, b1, b2 in cfg:
        out.append(dict(name='overlap d%d %s %s' % (d, b1, b2), fn=overlap, params=dict(d=d, b1=b1, b2=b2)))
        out.append(dict(name='recombine d%d %s' % (d, b1), fn=recombine, params=dict(d=d, b1=b1)))
    return out
