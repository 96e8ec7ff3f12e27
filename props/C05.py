"""Gates, isometries and post-selection against the dense action."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref

BOUNDS = ('L<=5 (and fixed generic chains with L = 6-8), d=2, bond dimensions <=3, all pairs i<j (adjacent and distant), both canonical sides; gates symbolic 4x4 (|Re|,|Im|<=1), '
          'states symbolic for adjacent sites and one-site operations, fixed generic complex (distance 2: gate symbolic; distance 3, 4: fixed gate, '
          'symbolic tensors on the untouched sites) for distant gates')

def one(env, d, b, site):
    data = env.cs('A', ref.custom(d, b))
    op = env.c('op', (d, d))
    A = fMPS(data, d)
    psi = ref.dense(data)
    B = A.apply((op, site))
    env.eq('op|psi>', ref.dense(B.data), ref.apply_op(psi, op, [site]))
    env.eq('argument unchanged', ref.dense(A.data), psi)

def two(env, b, i, j, which, conc, far=False):
    shp = ref.custom(2, b)
    data = (env.nums if conc else env.cs)('A', shp)
    if far:       # symbolic tensors on the sites the gate does not touch
        data = [x if i <= n <= j else env.c('S%d' % n, shp[n]) for n, x in enumerate(data)]
    A = fMPS(list(data), 2)
    psi = ref.dense(data)
    U = env.num('U', (4, 4)) if far else env.c('U', (4, 4))
    A = A.apply_two_site((U, (i, j)), which)
    env.eq('gate on (%d,%d)' % (i, j), ref.dense(A.data), ref.apply_op(psi, U, [i, j]))
    env.true('same number of sites', A.L == len(data) and len(A.data) == len(data))

def twice(env, b, p, q):
    """two gates in sequence, then a one-site operator"""
    data = env.nums('A', ref.custom(2, b))
    A = fMPS(list(data), 2)
    psi = ref.dense(data)
    U, V = env.num('U', (4, 4)), env.c('V', (4, 4))
    A = A.apply_two_site((U, p), 'l')
    A = A.apply_two_site((V, q), 'r')
    op = env.num('op', (2, 2))
    A = A.apply((op, p[1]))
    want = ref.apply_op(ref.apply_op(ref.apply_op(psi, U, list(p)), V, list(q)), op, [p[1]])
    env.eq('gate sequence', ref.dense(A.data), want)

def onevia(env, sites, which):
    """a one-site operator through the two-site interface"""
    data = env.cs('A', ref.custom(2, [1, 2, 2, 1]))
    op = env.c('op', (2, 2))
    A = fMPS(list(data), 2)
    k = sites[0] if which == 'l' or len(sites) == 1 else sites[1]
    B = A.apply_two_site((op, sites), which)
    env.eq('one-site operator', ref.dense(B.data), ref.apply_op(ref.dense(data), op, [k]))

def cap(env, b, i, j, D, which, swaps=False):
    """a truncating gate whose limit the gated bond respects anyway keeps the state up to its norm (unless the exchanges of far sites are to be truncated too)"""
    data = env.nums('A', ref.custom(2, b))
    A = fMPS(list(data), 2)
    psi = ref.dense(data)
    U = env.num('U', (4, 4))
    want = ref.apply_op(psi, U, [i, j])
    A = A.apply_two_site((U, (i, j)), which, D, swaps)
    got = ref.dense(A.data)
    env.true('gated bond capped', A[i].shape[2] <= D or j > i + 1)
    if swaps or j == i + 1:
        env.true('bonds capped', all(A[k].shape[2] <= D for k in range(i, j)))
        if D < max(b): return
    env.eq('same ray', got * ref.inner(got, want), want * ref.inner(got, got))

def posts(env, b, site, which):
    data = env.cs('A', ref.custom(2, b))
    A = fMPS(list(data), 2)
    psi = ref.dense(data)
    A = A.post_select(site, which)
    env.true('one site fewer', A.L == len(data) - 1 and len(A.data) == len(data) - 1)
    env.eq('post-selected state', ref.dense(A.data), np.take(psi, which, axis=site))

def iso(env, b, i, j, lr, conc):
    """an isometry from two sites to one: the result replaces one of them"""
    data = (env.nums if conc else env.cs)('A', ref.custom(2, b))
    A = fMPS(list(data), 2)
    V = env.c('V', (2, 4))
    from xmps.fMPS import apply_isometry, group_tensors
    g = group_tensors([data[i], data[i + 1]])
    want = np.tensordot(V, g, [[1], [0]])
    A = A.apply_two_site_isometry((V, (i, i + 1)), lr)
    env.eq('isometry result', A[i + lr], want)

def after(env, b, steps):
    """gates on a state with a past"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    psi = ref.dense(A.data)
    op, U = env.c('op', (2, 2)), env.c('U', (4, 4))
    base = [x.copy() for x in A.data]
    past = {k: v for k, v in A.__dict__.items() if k != 'data'}
    def again():
        X = fMPS([x.copy() for x in base], 2)
        X.__dict__.update(past)
        return X
    L = A.L
    for k in range(L):
        env.eq('operator on site %d' % k, ref.dense(again().apply((op, k)).data), ref.apply_op(psi, op, [k]))
        for w in (0, 1):
            X = again().post_select(k, w)
            env.true('one site fewer', X.L == L - 1 and len(X.data) == L - 1)
            want = np.take(psi, w, axis=k)
            env.eq('outcome %d on site %d' % (w, k), ref.dense(X.data), want)
            n = np.real(ref.inner(want, want))
            for m in range(L - 1): env.eq('outcome %d on site %d: value on site %d' % (w, k, m), X.E(op, m) * n, np.real(ref.expect(want, op, [m])))
        if k < L - 1:
            for w in 'lr':
                X = again().apply_two_site((U, (k, k + 1)), w)
                env.eq('gate on %d %d %s' % (k, k + 1, w), ref.dense(X.data), ref.apply_op(psi, U, [k, k + 1]))
    V = env.num('V', (4, 4))
    for k in range(L - 1):
        X = again().apply_two_site((V, (k, k + 1)))
        want = ref.apply_op(psi, V, [k, k + 1])
        n = np.real(ref.inner(want, want))
        for m in range(L): env.eq('gate on %d %d: value on site %d' % (k, k + 1, m), X.E(op, m) * n, np.real(ref.expect(want, op, [m])))

def long(env, b, steps):
    """longer chains: fixed gates on near and far pairs and outcomes, read through any operator on each site"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    psi = ref.dense(A.data)
    op, V = env.c('op', (2, 2)), env.num('V', (4, 4))
    base = [x.copy() for x in A.data]
    past = {k: v for k, v in A.__dict__.items() if k != 'data'}
    def again():
        X = fMPS([x.copy() for x in base], 2)
        X.__dict__.update(past)
        return X
    L = A.L
    for k in range(L):
        w = k % 2
        X = again().post_select(k, w)
        want = np.take(psi, w, axis=k)
        env.eq('outcome %d on site %d' % (w, k), ref.dense(X.data), want)
        n = np.real(ref.inner(want, want))
        for m in range(L - 1): env.eq('outcome %d on site %d: value on site %d' % (w, k, m), X.E(op, m) * n, np.real(ref.expect(want, op, [m])))
        if k in (1, L - 2):
            t = ref.dense(ref.probe(env, L))
            env.eq('operator on site %d' % k, ref.dense(again().apply((env.num('o', (2, 2)), k)).data), ref.apply_op(psi, env.num('o', (2, 2)), [k]))
            env.eq('any operator on site %d' % k, ref.inner(env.num('t', t.shape), ref.dense(again().apply((op, k)).data)), ref.inner(env.num('t', t.shape), ref.apply_op(psi, op, [k])))
    for i, j, w in [(0, 1, 'l'), (2, 3, 'r'), (L - 2, L - 1, 'l'), (0, L - 1, 'l'), (1, 4, 'l'), (2, L - 1, 'l')]:
        X = again().apply_two_site((V, (i, j)), w) if w == 'r' else again().apply_two_site((V, (i, j)))
        want = ref.apply_op(psi, V, [i, j])
        env.eq('gate on %d %d' % (i, j), ref.dense(X.data), want)
        n = np.real(ref.inner(want, want))
        for m in (0, i, j, L - 1): env.eq('gate on %d %d: value on site %d' % (i, j, m), X.E(op, m) * n, np.real(ref.expect(want, op, [m])))

def cases(tier):
    out = []
    for b in ref.LONG:
        for st in [(), ('right', 'mixed 1'), ('left canonical',)]: out.append(dict(name='long %s %s' % (b, ', '.join(st) or 'as given'), fn=long, params=dict(b=b, steps=st), cost=3))
    for st in ref.histories(raw=True): out.append(dict(name='after %s' % ', '.join(st), fn=after, params=dict(b=[1, 2, 2, 1], steps=st)))
    for d, b in ((2, [1, 2, 2, 1]), (3, [1, 3, 1]), (2, [1, 1, 1])):
        for s in range(len(b) - 1):
            out.append(dict(name='one-site d%d %s site %d' % (d, b, s), fn=one, params=dict(d=d, b=b, site=s)))
    for w in 'lr':
        for i in (0, 1):
            out.append(dict(name='gate symbolic state %d %s' % (i, w), fn=two, params=dict(b=[1, 2, 2, 1], i=i, j=i + 1, which=w, conc=False)))
        for b in ([1, 2, 2, 1], [1, 2, 3, 2, 1], [1, 1, 1, 1]):
            L = len(b) - 1
            for i in range(L):
                for j in range(i + 1, L):
                    if j - i > 2: continue
                    out.append(dict(name='gate fixed %s (%d,%d) %s' % (b, i, j, w), fn=two, params=dict(b=b, i=i, j=j, which=w, conc=True)))
        for i, j in ((0, 3), (1, 4), (1, 5)):
            out.append(dict(name='gate far (%d,%d) of 6 %s' % (i, j, w), fn=two, params=dict(b=[1, 2, 2, 3, 2, 2, 1], i=i, j=j, which=w, conc=True, far=True)))
        if tier == 'thorough':
            out.append(dict(name='gate fixed [1,2,3,2,1] (0,3) %s' % w, fn=two, params=dict(b=[1, 2, 3, 2, 1], i=0, j=3, which=w, conc=True)))
        for s in ([1], [0, 2], [0, 1]):
            out.append(dict(name='one-site operator via pair %s %s' % (s, w), fn=onevia, params=dict(sites=s, which=w)))
        for i, j, D in ((0, 1, 2), (1, 2, 4), (2, 3, 2), (0, 2, 4), (0, 3, 4)):
            out.append(dict(name='gate with cap (%d,%d) D%d %s' % (i, j, D, w), fn=cap, params=dict(b=[1, 2, 2, 2, 1], i=i, j=j, D=D, which=w)))
        for b, i, j, D in (([1, 2, 4, 2, 1], 0, 2, 2), ([1, 2, 4, 2, 1], 0, 3, 2), ([1, 2, 4, 4, 2, 1], 0, 3, 3)):
            out.append(dict(name='far gate with a tight cap %s (%d,%d) D%d %s' % (b, i, j, D, w), fn=cap, params=dict(b=b, i=i, j=j, D=D, which=w)))
            out.append(dict(name='far gate, exchanges capped %s (%d,%d) D%d %s' % (b, i, j, D, w), fn=cap, params=dict(b=b, i=i, j=j, D=D, which=w, swaps=True)))
        out.append(dict(name='far gate, exchanges capped loosely %s' % w, fn=cap, params=dict(b=[1, 2, 4, 2, 1], i=0, j=2, D=8, which=w, swaps=True)))
    for p, q in (((0, 1), (1, 2)), ((0, 2), (1, 3))):
        out.append(dict(name='sequence %s %s' % (p, q), fn=twice, params=dict(b=[1, 2, 2, 2, 1], p=p, q=q)))
    for b in ([1, 2, 2, 1], [1, 2, 1], [1, 1, 1, 1]):
        for s in range(len(b) - 1):
            for w in (0, 1):
                out.append(dict(name='post-select %s site %d outcome %d' % (b, s, w), fn=posts, params=dict(b=b, site=s, which=w)))
    for i in (0, 1):
        for lr in (0, 1):
            out.append(dict(name='isometry %d %d' % (i, lr), fn=iso, params=dict(b=[1, 2, 2, 1], i=i, j=i + 1, lr=lr, conc=False)))
    return out
