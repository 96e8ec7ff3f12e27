"""Tensor network contraction against einsum."""
import itertools
import numpy as np
from xmps.ncon import ncon
from xmps import ncon as mod

BOUNDS = 'networks of 1 to 5 symbolic complex tensors with up to 4 legs and leg dimensions 1 to 3 (every network listed by case name); every contraction order of the listed networks for <= 4 contracted legs'

NETS = {
    'matrix product': ([(2, 3), (3, 2)], [[-1, 1], [1, -2]]),
    'matrix product transposed': ([(2, 3), (3, 2)], [[-2, 1], [1, -1]]),
    'full contraction': ([(2, 3), (2, 3)], [[1, 2], [1, 2]]),
    'full contraction crossed': ([(3, 2), (2, 3)], [[2, 1], [1, 2]]),
    'trace': ([(2, 2)], [[1, 1]]),
    'partial trace': ([(2, 3, 2, 2)], [[1, -1, 1, -2]]),
    'partial trace swapped': ([(2, 3, 2, 2)], [[1, -2, 1, -1]]),
    'double trace': ([(2, 3, 2, 3)], [[1, 2, 1, 2]]),
    'transpose only': ([(2, 3, 1)], [[-3, -1, -2]]),
    'outer product': ([(2,), (3,)], [[-1], [-2]]),
    'outer product swapped': ([(2,), (3,)], [[-2], [-1]]),
    'outer of three': ([(2, 2), (3,), (2,)], [[-2, -4], [-1], [-3]]),
    'disconnected with contraction': ([(2, 3), (3, 2), (2, 2)], [[-1, 1], [1, -3], [-2, -4]]),
    'disconnected two loops': ([(2, 3), (3, 2), (2, 2), (2, 2)], [[1, 2], [2, 1], [3, 4], [4, 3]]),
    'disconnected trace': ([(2, 2), (2, 3)], [[1, 1], [-1, -2]]),
    'mps transfer': ([(2, 3), (2, 2, 2), (2, 3, 2)], [[1, 2], [3, 1, -1], [3, 2, -2]]),
    'two-site operator': ([(2, 2, 2, 2), (2, 1, 3), (2, 3, 2)], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]),
    'star': ([(2, 3, 2), (2, 2), (3, 2), (2, 2)], [[1, 2, 3], [1, -1], [2, -2], [3, -3]]),
    'ring': ([(2, 2), (2, 3), (3, 2), (2, 2)], [[1, 2], [2, 3], [3, 4], [4, 1]]),
    'chain of five': ([(2, 2), (2, 3), (3, 2), (2, 2), (2, 2)], [[-1, 2], [2, 1], [1, 4], [4, 3], [3, -2]]),
    'ladder': ([(2, 2, 1), (2, 2, 1), (2, 2, 1), (2, 2, 1)], [[1, 2, -1], [1, 3, -2], [2, 4, -3], [3, 4, -4]]),
    'unit legs': ([(1, 2, 1), (1, 1, 3)], [[1, -1, 2], [1, 2, -2]]),
    'non-consecutive labels': ([(2, 3), (3, 2), (2, 2)], [[-5, 7], [7, 11], [11, -2]]),
    'contraction leaves a self loop': ([(2, 2, 3), (2, 2, 3)], [[1, 1, 2], [3, 3, 2]]),
}

def want(Ts, v, forder=None):
    lab = sorted({i for l in v for i in l})
    m = {x: n for n, x in enumerate(lab)}
    neg = forder or sorted([x for x in lab if x < 0], reverse=True)
    a = []
    for T, l in zip(Ts, v): a += [T, [m[x] for x in l]]
    return np.einsum(*a, [m[x] for x in neg])

def net(env, key, orders):
    shp, v = NETS[key]
    Ts = env.cs('T', shp)
    ref = want(Ts, v)
    env.eq('default order', ncon(Ts, v), ref)
    env.eq('without index checks', ncon(tuple(Ts), tuple(v), check_indices=False), ref)
    pos = sorted({i for l in v for i in l if i > 0})
    if orders and 1 < len(pos) <= 4:
        for o in itertools.permutations(pos):
            o_ = list(o)
            env.eq('order %s' % (o,), ncon(Ts, v, order=o_), ref)
            env.true('order list unchanged', o_ == list(o))
    neg = sorted([i for l in v for i in l if i < 0], reverse=True)
    for f in itertools.permutations(neg) if 1 < len(neg) <= 3 else []:
        env.eq('final order %s' % (f,), ncon(Ts, v, forder=list(f)), want(Ts, v, list(f)))
    env.true('label lists unchanged', v == NETS[key][1] and [tuple(t.shape) for t in Ts] == [tuple(s) for s in shp])

def single(env):
    T = env.c('T', (2, 3, 2))
    env.eq('single tensor, flat label list', ncon(T, [1, -1, 1]), np.einsum('aba->b', T))
    M = env.c('M', (2, 3))
    env.eq('single matrix', ncon(M, [-2, -1]), M.T)

def bad(env):
    A, B = env.c('A', (2, 3)), env.c('B', (3, 2))
    env.raises('leg dimensions differ', ValueError, lambda: ncon([A, B], [[1, -1], [1, -2]]))
    env.raises('label used once', ValueError, lambda: ncon([A, B], [[-1, 1], [2, -2]]))
    env.raises('label used three times', ValueError, lambda: ncon([A, B, B], [[-1, 1], [1, -2], [1, -3]]))
    env.raises('wrong number of legs', ValueError, lambda: ncon([A, B], [[-1, 1], [1, -2, -3]]))
    env.raises('wrong number of tensors', ValueError, lambda: ncon([A, B], [[-1, 1]]))
    env.raises('free label repeated', ValueError, lambda: ncon([A, B], [[-1, 1], [1, -1]]))
    S, T, R = env.c('S', (1, 3, 2)), env.c('T', (2, 3, 2)), env.c('R', (1, 2))
    env.raises('trace of unequal legs', ValueError, lambda: ncon(T, [1, 1, -1]))
    env.raises('trace of a unit leg with a longer one', ValueError, lambda: ncon([S], [[1, 1, -1]]))
    env.raises('trace of a longer leg with a unit one', ValueError, lambda: ncon([S], [[1, -1, 1]]))
    env.raises('unit leg joined to a longer one', ValueError, lambda: ncon([R, A], [[1, -1], [1, -2]]))
    env.raises('longer leg joined to a unit one', ValueError, lambda: ncon([A, R], [[1, -1], [1, -2]]))
    env.raises('one of two shared labels differs', ValueError, lambda: ncon([A, A], [[1, 2], [2, 1]]))
    env.raises('order names an absent label', ValueError, lambda: ncon([A, B], [[-1, 1], [1, -2]], order=[1, 2]))
    env.raises('final order names an absent label', ValueError, lambda: ncon([A, B], [[-1, 1], [1, -2]], forder=[-1, -2, -3]))
    env.eq('the same network accepted when right', ncon([A, B], [[-1, 1], [1, -2]]), A @ B)

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = [dict(name=k, fn=net, params=dict(key=k, orders=True)) for k in NETS]
    out.append(dict(name='single tensor', fn=single))
    out.append(dict(name='malformed networks are refused', fn=bad))
    return out
