"""Serialization round trips: vector, vector of reals, file; finite and infinite."""
import numpy as np
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS
from . import ref

BOUNDS = 'finite: L<=7, d<=3, bond dimensions<=4, standard and explicit structures; one bond of 130, one local dimension of 130, chains of 45 one-dimensional bonds; infinite: d<=3, D<=3, period<=3 (listed per case); |Re|,|Im| of every entry <= 1'

def same(env, tag, got, want, T, d):
    env.true(tag + ' type', type(got) is T)
    env.true(tag + ' number of tensors', len(got.data) == len(want))
    for i, (g, w) in enumerate(zip(got.data, want)):
        env.eq('%s tensor %d' % (tag, i), g, w)
    env.true(tag + ' local dimension', got.d == d)

def vectors(env, L, d, D):
    shp = ref.shapes(L, d, D)
    A = fMPS(env.cs('A', shp), d); a0 = [x.copy() for x in A.data]
    v, w = A.serialize(), A.serialize(real=True)
    n = sum(int(np.prod(s)) for s in shp)
    env.true('one number per tensor entry', v.shape == (n,) and w.shape == (2 * n,))
    env.eq('real vector = real parts then imaginary parts', w, np.concatenate([np.real(v), np.imag(v)]))
    same(env, 'L d D', fMPS().deserialize(v, L, d, D), a0, fMPS, d)
    same(env, 'real L d D', fMPS().deserialize(w, L, d, D, real=True), a0, fMPS, d)
    same(env, 'structure', fMPS().deserialize(v, structure=shp), a0, fMPS, d)
    same(env, 'real structure', fMPS().deserialize(w, structure=shp, real=True), a0, fMPS, d)
    env.eq('vector survives the round trip', fMPS().deserialize(w, L, d, D, real=True).serialize(real=True), w)
    for i in range(L): env.eq('state unchanged %d' % i, A[i], a0[i])

def structure(env, d, b):
    shp = ref.custom(d, b)
    A = fMPS(env.cs('A', shp), d); a0 = [x.copy() for x in A.data]
    same(env, 'structure', fMPS().deserialize(A.serialize(), structure=shp), a0, fMPS, d)
    same(env, 'real structure', fMPS().deserialize(A.serialize(real=True), structure=shp, real=True), a0, fMPS, d)
    f = env.tmpfile('s.npy')
    A.store(f, structured=True)
    same(env, 'structured file', fMPS().load(f, structured=True), a0, fMPS, d)

def files(env, L, d, D):
    A = fMPS(env.cs('A', ref.shapes(L, d, D)), d); a0 = [x.copy() for x in A.data]
    f, g = env.tmpfile('a.npy'), env.tmpfile('b.npy')
    A.store(f); A.store(g, structured=True)
    same(env, 'file', fMPS().load(f), a0, fMPS, d)
    same(env, 'structured file', fMPS().load(g, structured=True), a0, fMPS, d)
    B = fMPS(env.nums('other', ref.custom(d, [1, D + 1, 1])), d)
    same(env, 'read by a used object', B.load(f), a0, fMPS, d)
    same(env, 'structured, read by a used object', B.load(g, structured=True), a0, fMPS, d)
    for i in range(L): env.eq('state unchanged %d' % i, A[i], a0[i])

def two_files(env):
    A = fMPS(env.cs('A', ref.shapes(3, 2, 2)), 2); B = fMPS(env.cs('B', ref.shapes(2, 2, 2)), 2)
    f, g = env.tmpfile('a.npy'), env.tmpfile('b.npy')
    A.store(f); B.store(g)
    same(env, 'first file', fMPS().load(f), A.data, fMPS, 2)
    same(env, 'second file', fMPS().load(g), B.data, fMPS, 2)
    B.store(f)
    same(env, 'overwritten file', fMPS().load(f), B.data, fMPS, 2)

def infinite(env, d, D, p):
    A = iMPS(env.cs('A', [(d, D, D)] * p)); a0 = [x.copy() for x in A.data]
    v, w = A.serialize(), A.serialize(real=True)
    env.true('one number per tensor entry', v.shape == (p * d * D * D,) and w.shape == (2 * p * d * D * D,))
    for t, B in (('complex', iMPS().deserialize(v, d, D, p)), ('real', iMPS().deserialize(w, d, D, p, real=True))):
        same(env, t, B, a0, iMPS, d)
        env.true(t + ' attributes', (B.d, B.D, B.period) == (d, D, p))
    f = env.tmpfile('i.npy')
    A.store(f)
    B = iMPS().load(f)
    same(env, 'file', B, a0, iMPS, d)
    env.true('file attributes', (B.d, B.D, B.period) == (d, D, p))
    # an object that held another state before
    for how in ('vector', 'file'):
        B = iMPS([env.num('other', (d + 1, D + 1, D + 1))] * (p + 1))
        B = B.deserialize(v, d, D, p) if how == 'vector' else B.load(f)
        same(env, 'used object, ' + how, B, a0, iMPS, d)
        g = env.tmpfile('j%s.npy' % how)
        B.store(g)
        same(env, 'used object stored, ' + how, iMPS().load(g), a0, iMPS, d)

def real_states(env, L, d, D):
    A = fMPS(env.rs('A', ref.shapes(L, d, D)), d); a0 = [x.copy() for x in A.data]
    same(env, 'real tensors', fMPS().deserialize(A.serialize(), L, d, D), a0, fMPS, d)
    same(env, 'real tensors as real vector', fMPS().deserialize(A.serialize(real=True), L, d, D, real=True), a0, fMPS, d)
    f = env.tmpfile('a.npy'); A.store(f)
    same(env, 'real tensors file', fMPS().load(f), a0, fMPS, d)

def struct_shapes(env, L, d, D):
    st = fMPS().create_structure(L, d, D)
    env.true('structure = bond dimensions capped by D and by the distance to the ends', [tuple(s) for s in st] == [s[1:] for s in ref.shapes(L, d, D)])

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    t = tier == 'thorough'
    for L, d, D in [(2, 2, 2), (3, 2, 2), (4, 2, 2), (4, 2, 4), (5, 2, 3), (3, 3, 3), (4, 3, 2), (3, 2, 1)] + ([(6, 2, 4), (7, 2, 5), (5, 3, 4), (4, 4, 5), (8, 2, 8)] if t else [(7, 2, 4)]) + [(45, 2, 1)]:
        out.append(dict(name='vectors L%d d%d D%d' % (L, d, D), fn=vectors, params=dict(L=L, d=d, D=D)))
        out.append(dict(name='files L%d d%d D%d' % (L, d, D), fn=files, params=dict(L=L, d=d, D=D)))
    for d, b in [(2, [1, 1, 2, 1]), (2, [1, 3, 2, 1]), (3, [1, 2, 1, 1]), (2, [1, 2, 4, 3, 2, 1]), (2, [1, 1]), (4, [1, 2, 1]), (2, [1, 130, 1]), (2, [1] * 46), (130, [1, 1, 2, 1])]:
        out.append(dict(name='structure d%d %s' % (d, b), fn=structure, params=dict(d=d, b=b)))
    for L, d, D in [(3, 2, 2), (4, 3, 2)]:
        out.append(dict(name='real tensors L%d d%d D%d' % (L, d, D), fn=real_states, params=dict(L=L, d=d, D=D)))
    for d, D, p in [(2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2), (2, 1, 3), (2, 2, 3), (3, 3, 1)] + ([(2, 5, 1), (4, 3, 2)] if t else []):
        out.append(dict(name='infinite d%d D%d p%d' % (d, D, p), fn=infinite, params=dict(d=d, D=D, p=p)))
    out.append(dict(name='two files', fn=two_files))
    for L in range(2, 9):
        for d, D in [(2, 2), (2, 3), (2, 64), (3, 5), (4, 2)]:
            out.append(dict(name='bond structure L%d d%d D%d' % (L, d, D), fn=struct_shapes, params=dict(L=L, d=d, D=D)))
    return out
