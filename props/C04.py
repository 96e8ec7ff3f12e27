"""Reduced density matrices, projected ones, and local overlaps."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref

BOUNDS = ('L<=4 (5 where listed; fixed generic chains with L = 6-8 and any gate or operator), d=2, bond dimensions 1 and 2; product states fully symbolic (|Re|,|Im|<=1); entangled states symbolic for '
          'single sites and otherwise one entry matrix symbolic / fixed generic complex states as the case name says')

def density(env, b, sites, conc, string=False):
    d = 2
    data = (env.nums if conc else env.cs)('A', ref.custom(d, b))
    A = fMPS(data, d)
    psi = ref.dense(data)
    got = A.rho(sites, single_string=string)
    if conc:
        n = np.real(ref.inner(psi, psi))
        env.eq('rho <psi|psi> = tr_rest |psi><psi|', got * n, ref.rdm(psi, sites))
        return
    new = ref.dense(A.data)
    env.eq('state left behind is normalised', ref.inner(new, new), 1.0)
    env.eq('rho is the reduced density matrix of the state', got, ref.rdm(new, sites))
    env.eq('hermitian', got, np.conj(got).T)

def onesym(env, b, sites, k):
    """all tensors fixed but one, which is symbolic and sits on a site of the block"""
    d = 2
    shp = ref.custom(d, b)
    data = env.nums('A', shp)
    A = fMPS(data, d)
    A.mixed_orthogonalise(k)
    A.data[k] = env.c('X', A.data[k].shape)
    psi = ref.dense(A.data)
    env.eq('rho', A.rho(sites, single_string=False), ref.rdm(psi, sites))

def product(env, L, sites):
    """D=1: a list of one-site density matrices"""
    A = fMPS(env.cs('A', [(2, 1, 1)] * L), 2)
    got = A.rho(sites)
    env.true('one matrix per site', len(got) == len(sites))
    for s, g in zip(sites, got):
        v = A[s][:, 0, 0]
        env.eq('site %d' % s, g, np.outer(v, np.conj(v)))

def proj(env, L, sites):
    A = fMPS(env.cs('A', [(2, 1, 1)] * L), 2)
    B = fMPS(env.cs('B', [(2, 1, 1)] * L), 2)
    got = A.rho_proj(B, sites)
    env.eq('rho_proj = tr_rest |self><other|', got, ref.rdm(ref.dense(A.data), sites, ref.dense(B.data)))

def local(env, b, L, sites, which):
    """local overlap of two states: tr(rho_1 rho_2) on the sites (product states normalised)"""
    P = env.nums('P', [(2, 1, 1)] * L)
    P = [p / np.linalg.norm(p) for p in P]
    X = env.nums('A', ref.custom(2, b))
    x = ref.dense(X)
    x = x / np.sqrt(np.real(ref.inner(x, x)))
    if which == 'both entangled':
        P = env.nums('B', ref.custom(2, b))
    p = ref.dense(P)
    p = p / np.sqrt(np.real(ref.inner(p, p)))
    k = sites[-1]
    a, o = fMPS(X, 2), fMPS(P, 2)
    if which == 'product first': a, o = o, a
    # the centre of each state is made symbolic after orthogonalising, so every value of it is covered
    want = np.trace(ref.rdm(x, sites) @ ref.rdm(p, sites))
    env.eq('tr(rho1 rho2)', a.local_overlap(o, sites), np.real(want))

def local_sym(env, b, L, sites):
    """a symbolic (entangled, orthogonalised) state against a symbolic normalised product state"""
    P = env.cs('P', [(2, 1, 1)] * L)
    A = fMPS(env.nums('A', ref.custom(2, b)), 2)
    A.mixed_orthogonalise(sites[0])
    A.data[sites[0]] = env.c('X', A.data[sites[0]].shape)
    o = fMPS(P, 2)
    got = A.local_overlap(o, sites)
    want = 0
    r = ref.rdm(ref.dense(A.data), sites)
    pr = 1
    v = P[sites[0]][:, 0, 0]
    for s in sites[1:]: v = np.kron(v, P[s][:, 0, 0])
    want = np.real(np.conj(v) @ r @ v)
    env.eq('<p|rho|p>', got, want)

def approx(env, L, k):
    """k-local approximate overlap: mean of the local overlaps over all windows of length k"""
    P = env.cs('P', [(2, 1, 1)] * L)
    Q = env.nums('Q', [(2, 1, 1)] * L)
    Q = [q / np.linalg.norm(q) for q in Q]
    got = fMPS(P, 2).k_local_approx_overlap(fMPS(Q, 2), k)
    want = 0
    for i in range(L - k + 1):
        t = 1
        for s in range(i, i + k):
            z = np.sum(np.conj(Q[s]) * P[s])
            t = t * np.real(z * np.conj(z))
        want = want + t
    env.eq('mean of local overlaps', got, want / (L - k + 1))

def after(env, b, steps):
    """density matrices of a state with a past, traced against any operator"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    psi = ref.dense(A.data)
    n = np.real(ref.inner(psi, psi))
    base = [x.copy() for x in A.data]
    past = {k: v for k, v in A.__dict__.items() if k != 'data'}
    for sites in ([0], [1], [A.L - 1], [0, 1], [A.L - 2, A.L - 1]) + (() if A.L < 5 else ([3], [2, 3, 4], [A.L - 3])):
        X = fMPS([x.copy() for x in base], 2)
        X.__dict__.update(past)
        op = env.c('op%d' % len(sites), (2 ** len(sites),) * 2)
        env.eq('tr(rho op) on %s' % sites, np.trace(X.rho(sites, single_string=False) @ op) * n, np.trace(ref.rdm(psi, sites) @ op))
    for sites in ([0], [A.L - 1], [1], [0, 1]):     # one after the other on the same object
        op = env.c('op%d' % len(sites), (2 ** len(sites),) * 2)
        env.eq('then on %s' % sites, np.trace(A.rho(sites, single_string=False) @ op) * n, np.trace(ref.rdm(psi, sites) @ op))

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    for b in ref.LONG:
        for st in [(), ('right', 'mixed 1'), ('left canonical',)]: out.append(dict(name='long %s %s' % (b, ', '.join(st) or 'as given'), fn=after, params=dict(b=b, steps=st), cost=3))
    for st in ref.histories():
        out.append(dict(name='after %s' % ', '.join(st), fn=after, params=dict(b=[1, 2, 2, 1], steps=st)))
    for s in ([0], [1], [2], [0, 1], [1, 2]):
        out.append(dict(name='rho fixed %s' % s, fn=density, params=dict(b=[1, 2, 2, 1], sites=s, conc=True)))
    out.append(dict(name='rho fixed all sites', fn=density, params=dict(b=[1, 2, 2, 1], sites=[0, 1, 2], conc=True)))
    out.append(dict(name='rho fixed [1,2] of 5', fn=density, params=dict(b=[1, 2, 3, 3, 2, 1], sites=[1, 2], conc=True)))
    out.append(dict(name='rho fixed [2,3,4] of 5', fn=density, params=dict(b=[1, 2, 3, 3, 2, 1], sites=[2, 3, 4], conc=True)))
    for s in ([0], [1]):
        out.append(dict(name='rho symbolic L2 %s' % s, fn=density, params=dict(b=[1, 2, 1], sites=s, conc=False)))
    for s in ([0], [1], [2]):
        out.append(dict(name='rho symbolic L3 %s' % s, fn=density, params=dict(b=[1, 2, 2, 1], sites=s, conc=False)))
    for s, k in (([0, 1], 0), ([0, 1], 1), ([1, 2], 1), ([1, 2, 3], 3), ([1], 1), ([0, 1, 2], 2)):
        out.append(dict(name='rho centre symbolic %s at %d' % (s, k), fn=onesym, params=dict(b=[1, 2, 3, 2, 1], sites=s, k=k)))
    for s in ([0], [1, 2], [0, 2], [0, 1, 2]):
        out.append(dict(name='rho product %s' % s, fn=product, params=dict(L=3, sites=s)))
        out.append(dict(name='rho_proj %s' % s, fn=proj, params=dict(L=3, sites=s)))
    for w in ('product first', 'product second', 'both entangled'):
        for s in ([0], [1, 2], [0, 1, 2]):
            out.append(dict(name='local overlap %s %s' % (w, s), fn=local, params=dict(b=[1, 2, 2, 1], L=3, sites=s, which=w)))
    for s in ([0], [1], [0, 1], [1, 2]):
        out.append(dict(name='local overlap symbolic %s' % s, fn=local_sym, params=dict(b=[1, 2, 2, 1], L=3, sites=s)))
    for k in (1, 2, 3):
        out.append(dict(name='k-local overlap k=%d' % k, fn=approx, params=dict(L=3, k=k)))
    return out
