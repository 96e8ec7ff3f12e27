"""Operators placed on a chain, and partial traces."""
import numpy as np
from xmps import spin, tensor
from . import ref

BOUNDS = 'chains of up to 5 sites, local dimension up to 4 (listed per case), every site; partial traces over every subset of up to 4 factors of dimension <= 3; symbolic operators with |Re|,|Im| of every entry <= 1'

def place(env, d, n, i):
    A = env.c('A', (d, d))
    env.eq('operator on site %d of %d' % (i, n), spin.n_body(A, i, n), ref.embed_op(A, [i - 1], n, d))

def products(env, d, n, i, j):
    A, B = env.c('A', (d, d)), env.c('B', (d, d))
    P, Q = spin.n_body(A, i, n), spin.n_body(B, j, n)
    if i == j: env.eq('same site: products of the operators', P @ Q, spin.n_body(A @ B, i, n))
    else:
        env.eq('different sites commute', P @ Q, Q @ P)
        env.eq('product acts on both sites', P @ Q, ref.embed_op(np.kron(A, B), [i - 1, j - 1], n, d))

def term(env, d, n, i):
    """term i of a chain of n nearest-neighbour terms (n+1 sites)"""
    h = env.c('h', (d * d, d * d))
    env.eq('term %d of %d' % (i, n), spin.n_body(h, i, n, d), ref.embed_op(h, [i, i + 1], n + 1, d))

def bad(env):
    A = env.c('A', (2, 2))
    env.raises('site beyond the chain', Exception, lambda: spin.n_body(A, 4, 3))
    env.raises('site beyond the chain (2)', Exception, lambda: spin.n_body(A, 7, 3))
    env.eq('last site accepted', spin.n_body(A, 3, 3), ref.embed_op(A, [2], 3, 2))

def chain_spins(env, S, N):
    u, v = env.r('u', (3,)), env.r('v', (3,))
    lin = lambda v, O: sum(x * np.asarray(o) for x, o in zip(v, O))
    d = int(2 * S + 1)
    cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    for i in range(1, N + 1):
        A = lin(u, spin.N_body_spins(S, i, N))
        env.eq('site %d' % i, A, ref.embed_op(lin(u, spin.spins(S)), [i - 1], N, d))
        for j in range(1, N + 1):
            B = lin(v, spin.N_body_spins(S, j, N))
            env.eq('commutator %d %d' % (i, j), A @ B - B @ A, 1j * lin(cr, spin.N_body_spins(S, i, N)) if i == j else np.zeros((d ** N, d ** N)))
    for i in range(1, N + 1):
        env.eq('paulis site %d' % i, lin(u, spin.N_body_paulis(0.5, i, N)), ref.embed_op(2 * lin(u, spin.spins(0.5)), [i - 1], N, 2))
        if S <= 1.5: env.eq('ladders site %d' % i, lin(u[:2], spin.N_body_ladders(S, i, N)), ref.embed_op(lin(u[:2], spin.ladders(S)), [i - 1], N, d))

def strings(env, ds):
    Os = [env.c('O%d' % k, (d, d)) for k, d in enumerate(ds)]
    xs = [env.c('x%d' % k, (d,)) for k, d in enumerate(ds)]
    a, b = xs[0], Os[0] @ xs[0]
    for O, x in zip(Os[1:], xs[1:]): a, b = np.kron(a, x), np.kron(b, O @ x)
    env.eq('operator string on a product state', spin.tensor(Os) @ a, b)

def ptrace(env, dims, keep, mod):
    n = int(np.prod(dims))
    R = env.c('R', (n, n))
    k = len(dims)
    T = R.reshape(list(dims) * 2)
    drop = [i for i in range(k) if i not in keep]
    for c, i in enumerate(sorted(drop, reverse=True)):
        T = np.trace(T, axis1=i, axis2=i + T.ndim // 2)
    m = int(np.prod([dims[i] for i in keep]))
    f = (spin if mod == 'spin' else tensor).partial_trace
    env.eq('partial trace', f(R, list(keep), list(dims)), T.reshape(m, m))
    env.eq('trace preserved', np.trace(f(R, list(keep), list(dims))), np.trace(R))
    if mod == 'tensor':
        u = env.c('u', (n,))
        env.eq('reduced pure state', tensor.ρA(u, list(keep), list(dims)), ref.rdm(u.reshape(dims), list(keep)))

def rho_all(env):
    u = env.c('u', (4,))
    env.eq('nothing traced', tensor.ρA(u, [], [2, 2]), np.outer(u, np.conj(u)))

def cases(tier):
    out = []
    t = tier == 'thorough'
    for d, n in [(2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2)] + ([(2, 5), (2, 6), (4, 3)] if t else []):
        for i in range(1, n + 1):
            out.append(dict(name='place d%d n%d i%d' % (d, n, i), fn=place, params=dict(d=d, n=n, i=i)))
    for d, n in [(2, 2), (2, 3), (3, 2)]:
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                out.append(dict(name='products d%d n%d %d,%d' % (d, n, i, j), fn=products, params=dict(d=d, n=n, i=i, j=j)))
    for d, n in [(2, 1), (2, 2), (2, 3), (3, 2)] + ([(2, 4), (3, 3)] if t else []):
        for i in range(n):
            out.append(dict(name='term d%d n%d i%d' % (d, n, i), fn=term, params=dict(d=d, n=n, i=i)))
    for S, N in [(0.5, 2), (0.5, 3), (1, 2), (1.5, 2)]:
        out.append(dict(name='chain spins %s N%d' % (S, N), fn=chain_spins, params=dict(S=S, N=N)))
    for ds in [(2, 2), (2, 3), (3, 2, 2), (2, 1, 3)]:
        out.append(dict(name='string %s' % (ds,), fn=strings, params=dict(ds=ds)))
    import itertools
    for dims in [(2, 2), (2, 3), (2, 3, 2), (2, 1, 3)] + ([(2, 2, 2, 2), (2, 3, 2, 2)] if t else [(2, 2, 2, 2)]):
        for r in range(1, len(dims) + 1):
            for keep in itertools.combinations(range(len(dims)), r):
                for mod in ('spin', 'tensor'):
                    out.append(dict(name='%s partial trace %s keep %s' % (mod, dims, keep), fn=ptrace, params=dict(dims=dims, keep=keep, mod=mod)))
    out.append(dict(name='rho of everything', fn=rho_all))
    out.append(dict(name='sites outside the chain', fn=bad))
    return out
