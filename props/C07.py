"""Orthogonalisation: same state, isometric tensors (QR/RQ contract stubs)."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref

BOUNDS = 'L<=4 (and fixed generic chains with L = 6-8), d<=3, bond dimensions<=3 (listed per case), every orthogonality centre; |Re|,|Im| of every tensor entry <= 1'

def left_iso(env, label, A):
    d, a, b = A.shape
    M = A.reshape(d * a, b)
    env.eq(label, np.conj(M).T @ M, np.eye(b))

def right_iso(env, label, A):
    d, a, b = A.shape
    M = np.transpose(A, [1, 0, 2]).reshape(a, d * b)
    env.eq(label, M @ np.conj(M).T, np.eye(a))

def left(env, d, b):
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    psi = ref.dense(A.data)
    A.left_orthogonalise()
    for i, x in enumerate(A.data): left_iso(env, 'site %d left isometric' % i, x)
    env.eq('state preserved', ref.dense(A.data) * A.norm_[0, 0], psi)

def right(env, d, b):
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    psi = ref.dense(A.data)
    A.right_orthogonalise()
    for i, x in enumerate(A.data): right_iso(env, 'site %d right isometric' % i, x)
    env.eq('state preserved', ref.dense(A.data) * A.norm_[0, 0], psi)

def mixed(env, d, b, oc):
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    psi = ref.dense(A.data)
    A.mixed_orthogonalise(oc)
    for i, x in enumerate(A.data):
        if i < oc: left_iso(env, 'site %d left isometric' % i, x)
        if i > oc: right_iso(env, 'site %d right isometric' % i, x)
    env.eq('centre normalised', np.sum(np.conj(A[oc]) * A[oc]), 1.0)
    new = ref.dense(A.data)
    if oc: env.eq('state = recorded norm * new state', new * A.norm_, psi)
    else: env.eq('state preserved up to a scalar', new * ref.inner(new, psi), psi)

def partial(env, d, b, hand, fr, to):
    """a sweep over some of the sites: those become isometric, the others beyond the next stay as they are, same state"""
    data = env.cs('A', ref.custom(d, b))
    A = fMPS(list(data), d)
    psi = ref.dense(data)
    L = A.L
    if hand == 'left':
        A.left_orthogonalise(fr=fr, to=to)
        for i in range(fr, to): left_iso(env, 'site %d left isometric' % i, A[i])
        touched = set(range(fr, to + 1))
    else:
        A.right_orthogonalise(fr=fr, to=to)
        for i in range(fr, to): right_iso(env, 'site %d right isometric' % i, A[i])
        touched = set(range(fr - 1, to))
    for i in range(L):
        if i not in touched: env.eq('site %d untouched' % i, A[i], data[i])
    env.eq('same state', ref.dense(A.data), psi)

def ray(env, label, got, want):
    env.eq(label, got * ref.inner(got, want), want * ref.inner(got, got))

def after(env, b, steps):
    """a state with a past, its middle tensor then replaced by any: every centre"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    psi = ref.dense(A.data)
    base = [x.copy() for x in A.data]
    past = {k: v for k, v in A.__dict__.items() if k != 'data'}
    B = fMPS(ref.probe(env, A.L), 2)
    t = ref.dense(B.data)
    for oc in range(A.L):
        X = fMPS([x.copy() for x in base], 2)
        X.__dict__.update(past)
        X.mixed_orthogonalise(oc)
        for i, x in enumerate(X.data):
            if i < oc: left_iso(env, 'centre %d: site %d left isometric' % (oc, i), x)
            if i > oc: right_iso(env, 'centre %d: site %d right isometric' % (oc, i), x)
        new = ref.dense(X.data)
        env.eq('centre %d: unit norm' % oc, ref.inner(new, new), 1.0)
        env.eq('centre %d: amplitude on any state' % oc, X.overlap(B) * ref.inner(new, psi), ref.inner(t, psi))
    for hand in ('left', 'right'):
        X = fMPS([x.copy() for x in base], 2)
        X.__dict__.update(past)
        getattr(X, hand + '_orthogonalise')()
        for i, x in enumerate(X.data): (left_iso if hand == 'left' else right_iso)(env, '%s: site %d isometric' % (hand, i), x)
        new = ref.dense(X.data)
        env.eq('%s: amplitude on any state' % hand, X.overlap(B) * ref.inner(new, psi), ref.inner(t, psi))

def cases(tier):
    out = []
    for b in ref.LONG:
        for st in [(), ('right', 'mixed 1'), ('left canonical',)]: out.append(dict(name='long %s %s' % (b, ', '.join(st) or 'as given'), fn=after, params=dict(b=b, steps=st), cost=3))
    for st in ref.histories(raw=True): out.append(dict(name='after %s' % ', '.join(st), fn=after, params=dict(b=[1, 2, 2, 1], steps=st)))
    for b in ([1, 2, 2, 1], [1, 2, 3, 2, 1]):
        L = len(b) - 1
        for fr in range(L):
            for to in range(fr + 1, L + 1):
                if to < L and (L == 3 or tier == 'thorough' or to == fr + 1): out.append(dict(name='partial left %s %d to %d' % (b, fr, to), fn=partial, params=dict(d=2, b=b, hand='left', fr=fr, to=to)))
                if fr > 0 and (L == 3 or tier == 'thorough' or to == fr + 1): out.append(dict(name='partial right %s %d to %d' % (b, fr, to), fn=partial, params=dict(d=2, b=b, hand='right', fr=fr, to=to)))
    cfg = [(2, [1, 2, 1]), (2, [1, 2, 2, 1]), (3, [1, 2, 1]), (2, [1,3,1,1])]
    for d, b in cfg:
        out.append(dict(name='left d%d %s' % (d, b), fn=left, params=dict(d=d, b=b)))
        out.append(dict(name='right d%d %s' % (d, b), fn=right, params=dict(d=d, b=b)))
        for oc in range(len(b) - 1):
            out.append(dict(name='mixed d%d %s oc%d' % (d, b, oc), fn=mixed, params=dict(d=d, b=b, oc=oc)))
    return out
