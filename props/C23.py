"""Projected entangled pair states (open grids): amplitudes, overlaps, values, blocks, environments, sums, embeddings, operator chains."""
import itertools
import numpy as np
from xmps import fPEPS as P
from xmps.fPEPS import fPEPS, fMPO
from xmps.fMPS import fMPS
from . import ref

BOUNDS = ('grids of 1 to 3 columns by 1 to 3 rows (listed), bond dimensions 1 to 3 varying along the grid, physical dimension 2 and 3; every entry of the listed tensors free (all of them on small grids), '
          'the others fixed generic numbers; every operator entry')

# ------------------------------------------------------------------ reference: legs (phys, up, right, down, left), rows from the top
def dense(rows):
    """amplitudes in reading order"""
    acc, labs = None, []
    for j, row in enumerate(rows):
        for i, A in enumerate(row):
            new = [('p', j, i), ('v', j, i), ('h', j, i + 1), ('v', j + 1, i), ('h', j, i)]
            if acc is None: acc, labs = A, new; continue
            sh = [l for l in labs if l in new]
            acc = np.tensordot(acc, A, [[labs.index(l) for l in sh], [new.index(l) for l in sh]])
            labs = [l for l in labs if l not in sh] + [l for l in new if l not in sh]
    order = [('p', j, i) for j, row in enumerate(rows) for i in range(len(row))]
    rest = [l for l in labs if l not in order]
    acc = np.transpose(acc, [labs.index(l) for l in order + rest])
    return acc.reshape(acc.shape[:len(order)])

def grid(Lx, Ly, d, h, v):
    """shapes; h[j][i] bond right of column i in row j, v[j][i] bond below row j in column i"""
    H = lambda j, i: 1 if i < 0 or i >= Lx - 1 else (h if isinstance(h, int) else h[j][i])
    V = lambda j, i: 1 if j < 0 or j >= Ly - 1 else (v if isinstance(v, int) else v[j][i])
    return [[(d, V(j - 1, i), H(j, i), V(j, i), H(j, i - 1)) for i in range(Lx)] for j in range(Ly)]

def tensors(env, name, shapes, free):
    """free: 'all' or a list of sites (column, row)"""
    return [[env.c('%s%d%d' % (name, i, j), s) if free == 'all' or (i, j) in free else env.num('%s%d%d' % (name, i, j), s) for i, s in enumerate(row)] for j, row in enumerate(shapes)]

def copied(rows): return [[a.copy() for a in row] for row in rows]
def site(Lx, i, j): return j * Lx + i

# ------------------------------------------------------------------ amplitudes
def amplitudes(env, g, free):
    S = grid(*g); Lx, Ly, d = g[:3]
    A = tensors(env, 'A', S, free)
    x = fPEPS(copied(A))
    psi = dense(A)
    env.true('size', (x.Lx, x.Ly, x.d) == (Lx, Ly, d) and x.bond_dimension == x.X == max(max(s[1:]) for r in S for s in r))
    env.true('structure', [[tuple(s) for s in r] for r in x.structure] == S)
    env.eq('reading order', x.recombine(), psi.reshape(-1))
    perm = [site(Lx, i if j % 2 == 0 else Lx - 1 - i, j) for j in range(Ly) for i in range(Lx)]
    env.eq('snake order', x.recombine('row_snake'), np.transpose(psi, perm).reshape(-1))
    for j, i in itertools.product(range(Ly), range(Lx)): env.eq('kept %d %d' % (i, j), x.data[j][i], A[j][i])

def overlaps(env, g, g2, fa, fb):
    S = grid(*g)
    A, B = tensors(env, 'A', S, fa), tensors(env, 'B', grid(*g2), fb)
    x, y = fPEPS(copied(A)), fPEPS(copied(B))
    want = ref.inner(dense(A), dense(B))
    env.eq('overlap', np.asarray(x.overlap(y)).reshape(-1)[0], want)
    env.eq('by amplitudes', x.full_overlap(y), want)

def lengths(env, g, free):
    Lx, Ly, d = g[:3]
    A = [[env.const(a) for a in row] for row in tensors(env, 'A', grid(*g), free)]
    x = fPEPS(copied(A))
    n2 = np.real(ref.inner(dense(A), dense(A)))
    n = np.asarray(x.norm())
    env.true('one number', n.size == 1)
    n = n.reshape(-1)[0]
    env.eq('norm', n * n * n * n, n2 * n2)                # a sum of squares, so its root is the norm
    env.le('not negative', 0.0, n)
    y = x.copy().normalise()
    # a state divided by its norm (by the norms of its factors if it is a product) has norm one
    if x.bond_dimension > 1: env.eq('normalised', dense(y.data) * n, dense(A))
    else:
        v = dense(y.data)
        for a in [a for row in A for a in row]: v = v * np.sqrt(np.sum(np.real(a * np.conj(a))))
        env.eq('normalised', v, dense(A))
    for j, i in itertools.product(range(Ly), range(Lx)): env.eq('copy isolated %d %d' % (i, j), x.data[j][i], A[j][i])

def values(env, g, free, s):
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), free)
    x = fPEPS(copied(A))
    O = env.c('O', (d, d))
    i, j = s
    psi = dense(A)
    phi = ref.apply_op(psi, O, [site(Lx, i, j)])
    env.eq('applied', dense(x.apply(O, s).data), phi)
    env.eq('value', x.E(O, s), np.real(ref.inner(psi, phi)))
    env.eq('kept', dense(x.data), psi)

def blocks(env, g, free, sites):
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), free)
    x = fPEPS(copied(A))
    (i0, j0), (w, h) = sites
    psi = dense(A)
    where = [site(Lx, i, j) for j in range(j0, j0 + h) for i in range(i0, i0 + w)]
    c = x.contract(sites)
    env.true('one site for the block', c.Lx == Lx - w + 1 and c.Ly == Ly - h + 1 and c.data[j0][i0].shape[0] == d ** (w * h))
    if Lx * Ly == w * h: env.eq('whole grid', c.data[0][0].reshape(-1), psi.reshape(-1))
    O = env.c('O', (d ** (w * h),) * 2) if w * h < 3 else np.kron(np.kron(env.c('O', (d, d)), env.c('Q', (d, d))), env.num('R', (d ** (w * h - 2),) * 2))
    env.eq('value', x.E_k(O, sites), np.real(ref.inner(psi, ref.apply_op(psi, O, where))))
    env.eq('kept', dense(x.data), psi)

def lines(env, g, free, fr, to, rows):
    """rows (columns) merged into one"""
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), free)
    x = fPEPS(copied(A))
    psi = dense(A)
    y = x.row_contract(fr, to) if rows else x.col_contract(fr, to)
    env.true('size', (y.Lx, y.Ly) == ((Lx, Ly - (to - fr) + 1) if rows else (Lx - (to - fr) + 1, Ly)))
    order = []
    for J in range(y.Ly):
        js = [J] if not rows or J < fr else list(range(fr, to)) if J == fr else [J + to - fr - 1]
        for I in range(y.Lx):
            cs = [I] if rows or I < fr else list(range(fr, to)) if I == fr else [I + to - fr - 1]
            order += [site(Lx, i, j) for j in js for i in cs]
    env.eq('amplitudes', dense(y.data).reshape(-1), np.transpose(psi, order).reshape(-1))

def marginals(env, g, sites):
    """blocks of product states"""
    Lx, Ly, d = g[:3]
    S = grid(Lx, Ly, d, 1, 1)
    A, B = tensors(env, 'A', S, 'all'), tensors(env, 'B', S, 'all')
    x, y = fPEPS(copied(A)), fPEPS(copied(B))
    (i0, j0), (w, h) = sites
    r, q = x.rho(sites).reshape(-1, d, d), x.rho_proj(y, sites).reshape(-1, d, d)
    for n, (j, i) in enumerate(itertools.product(range(j0, j0 + h), range(i0, i0 + w))):
        a, b = A[j][i].reshape(-1), B[j][i].reshape(-1)
        env.eq('state of %d %d' % (i, j), r[n], np.outer(a, np.conj(a)))
        env.eq('between states %d %d' % (i, j), q[n], np.outer(a, np.conj(b)))

def layers(A, B):
    """two-layer tensors: legs (ket, bra) fused"""
    return np.transpose(np.tensordot(A, np.conj(B), [[0], [0]]), [0, 4, 1, 5, 2, 6, 3, 7]).reshape([a * b for a, b in zip(A.shape[1:], B.shape[1:])])

def operators(env, g, free):
    Lx, Ly, d = g[:3]
    A, B = tensors(env, 'A', grid(*g), free), tensors(env, 'B', grid(*g), [])
    x, y = fPEPS(copied(A)), fPEPS(copied(B))
    for nm, o, C in (('itself', None, A), ('another', y, B)):
        R, K = x.row_mpos(o), x.col_mpos(o)
        env.true('as many %s' % nm, len(R) == Ly and len(K) == Lx and all(len(r.data) == Lx for r in R) and all(len(k.data) == Ly for k in K))
        for j, i in itertools.product(range(Ly), range(Lx)):
            E = layers(A[j][i], C[j][i])
            env.eq('row operator with %s %d %d' % (nm, i, j), R[j].data[i], E)
            env.eq('column operator with %s %d %d' % (nm, i, j), K[i].data[j], np.transpose(E, [3, 2, 1, 0]))
    for j, i in itertools.product(range(Ly), range(Lx)):
        env.eq('transfer tensor %d %d' % (i, j), x.tm((i, j)).reshape(layers(A[j][i], A[j][i]).shape), layers(A[j][i], A[j][i]))

def surroundings(env, g, free, s):
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), free)
    x = fPEPS(copied(A))
    j, i = s                                              # (row, column)
    E = x.environment(s)
    env.true('legs', E.shape == tuple(k * k for k in A[j][i].shape[1:]))
    C = env.c('C', A[j][i].shape)                         # any other tensor in this place of the ket
    K = copied(A); K[j][i] = C
    T = layers(C, A[j][i])
    env.eq('closed by the site', np.sum(E * T), ref.inner(dense(A), dense(K)))

def sums(env, g, g2, fa, fb):
    A, B = tensors(env, 'A', grid(*g), fa), tensors(env, 'B', grid(*g2), fb)
    x, y = fPEPS(copied(A)), fPEPS(copied(B))
    z = x.add(y)
    env.eq('sum', dense(z.data), dense(A) + dense(B))
    w = z.add(x)
    env.eq('sum of three', dense(w.data), 2 * dense(A) + dense(B))
    env.eq('first kept', dense(x.data), dense(A))
    env.eq('second kept', dense(y.data), dense(B))

def embedded(env, d, b, Lx, free):
    S = ref.custom(d, b)
    A = [env.c('A%d' % n, s) if n in free else env.num('A%d' % n, s) for n, s in enumerate(S)]
    L = len(S)
    m = fMPS([a.copy() for a in A], d)
    x = fPEPS().from_mps(m) if Lx is None else fPEPS().from_mps(m, Lx)
    w = int(round(np.sqrt(L))) if Lx is None else Lx
    env.true('size', (x.Lx, x.Ly) == (w, L // w))
    env.true('bonds fit', all(x.data[j][i].shape[2] == x.data[j][i + 1].shape[4] for j in range(x.Ly) for i in range(x.Lx - 1)) and
             all(x.data[j][i].shape[3] == x.data[j + 1][i].shape[1] for j in range(x.Ly - 1) for i in range(x.Lx)))
    psi = ref.vec(A)
    env.eq('amplitudes along the snake', x.recombine('row_snake'), psi)
    for n in range(L): env.eq('source kept %d' % n, m.data[n], A[n])

# ------------------------------------------------------------------ operator chains, legs (up, right, down, left)
def opmap(W):
    """matrix from the upper to the lower legs, [down, up]"""
    T = np.transpose(W[0][:, :, :, 0], [0, 2, 1])
    for w in W[1:]: T = np.tensordot(T, w, [[T.ndim - 1], [3]]); T = np.moveaxis(T, T.ndim - 2, T.ndim - 1)
    T = T[..., 0]
    L = len(W)
    T = np.transpose(T, list(range(1, 2 * L, 2)) + list(range(0, 2 * L, 2)))
    return T.reshape(int(np.prod(T.shape[:L])), -1)

def wshapes(u, d, X):
    return [(u[n], X[n + 1], d[n], X[n]) for n in range(len(u))]

def chains(env, u, m, l, X, Y, fa, fb):
    A = [env.c('A%d' % n, s) if n in fa else env.num('A%d' % n, s) for n, s in enumerate(wshapes(u, m, X))]
    B = [env.c('B%d' % n, s) if n in fb else env.num('B%d' % n, s) for n, s in enumerate(wshapes(m, l, Y))]
    x, y = fMPO([a.copy() for a in A]), fMPO([b.copy() for b in B])
    env.eq('matrix', x.recombine(), np.conj(opmap(A)))
    z = y * x                                             # x above, y below
    env.eq('one after the other', opmap(z.data), opmap(B) @ opmap(A))
    env.eq('product of matrices', z.recombine(), y.recombine() @ x.recombine())
    env.true('length', z.L == len(u))
    for n, a in enumerate(A): env.eq('kept %d' % n, x.data[n], a)
    q = fMPO([a.copy() for a in A]).transpose_ud()
    env.eq('upside down', opmap(q.data), opmap(A).T)
    q = fMPO([a.copy() for a in A]).transpose_lr().reverse()
    n = len(u)
    M = opmap(A).reshape(list(m) + list(u))
    env.eq('mirrored', opmap(q.data), np.transpose(M, list(range(n))[::-1] + list(range(n, 2 * n))[::-1]).reshape(opmap(A).shape))
    for n, (a, r, s) in enumerate(zip(A, x.rotate_90().data, x.rotate_90().unrotate_90().data)):
        env.true('turned %d' % n, r.shape == (a.shape[3],) + a.shape[:3])
        env.eq('right leg goes down %d' % n, r, np.transpose(a, [3, 0, 1, 2]))
        env.eq('turned back %d' % n, s, a)

def acted(env, d, b, u, X, free):
    """operator chain on a finite state"""
    A = [env.c('A%d' % n, s) if n in free else env.num('A%d' % n, s) for n, s in enumerate(ref.custom(d, b))]
    L = len(A)
    W = env.cs('W', wshapes([d] * L, u, X))
    m = fMPS([a.copy() for a in A], d)
    s = fMPO().from_mps(m)
    env.eq('state as a chain', opmap(s.data)[:, 0], ref.vec(A))
    z = fMPO([w.copy() for w in W]) * m
    env.eq('state acted on', opmap(z.data)[:, 0], opmap(W) @ ref.vec(A))
    env.true('labels', s.L == L and s.d == d)

def trivial(env, L):
    t = fMPO().trivial(L)
    env.eq('one', t.recombine(), np.ones((1, 1)))
    r = fMPO().random(L, 2, 3)
    env.true('structure', r.structure() == [(2, 1 if n == L - 1 else 3, 2, 1 if n == 0 else 3) for n in range(L)] and (r.L, r.d, r.X) == (L, 2, 3))

def drawn(env, Lx, Ly, d, X):
    x = fPEPS().random(Lx, Ly, d, X)
    env.true('sizes', (x.Lx, x.Ly, x.d, x.X) == (Lx, Ly, d, X))
    env.true('structure', [[tuple(a.shape) for a in row] for row in x.data] == grid(Lx, Ly, d, X, X))
    if Lx * Ly <= 2: env.eq('overlap', np.asarray(x.overlap(x)).reshape(-1)[0], ref.inner(dense(x.data), dense(x.data)))

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    q = tier == 'quick'
    G22 = (2, 2, 2, [[2], [3]], [[2, 1]])
    G22b = (2, 2, 2, [[1], [2]], [[1, 2]])
    G21, G12 = (2, 1, 2, [[3]], 1), (1, 2, 2, 1, [[3]])
    G31, G13 = (3, 1, 2, [[2, 3]], 1), (1, 3, 2, 1, [[2], [3]])
    G32 = (3, 2, 2, [[2, 1], [2, 3]], [[1, 2, 2]])
    G23 = (2, 3, 2, [[2], [1], [3]], [[2, 1], [1, 2]])
    G33 = (3, 3, 2, [[2, 1], [1, 2], [2, 2]], [[1, 2, 1], [2, 1, 2]])
    T3 = (2, 2, 3, [[2], [1]], [[2, 2]])
    nm = lambda g: '%dx%d d%d %s %s' % (g[0], g[1], g[2], g[3], g[4])
    def add(kind, fn, name, cost=1, **p): out.append(dict(name='%s %s' % (kind, name), fn=fn, params=p, cost=cost))
    for g in (G21, G12, G31, G13, G22, T3): add('amplitudes', amplitudes, nm(g), g=g, free='all')
    for g in (G32, G23, G33):
        for f in [[(0, 0), (1, 1)], [(g[0] - 1, 0), (0, g[1] - 1)], [(g[0] - 1, g[1] - 1), (1, 0)]]: add('amplitudes', amplitudes, '%s %s' % (nm(g), f), g=g, free=f)
    for g, g2 in [(G21, G21), (G12, G12), ((2, 1, 3, 2, 1), (2, 1, 3, 1, 1)), (G22b, (2, 2, 2, 1, 1))]: add('overlap', overlaps, nm(g) + ' ' + nm(g2), g=g, g2=g2, fa='all', fb='all')
    for g, g2, fa, fb in [(G22, G22b, [(0, 0), (1, 1)], [(1, 0)]), (G22b, G22, [(0, 1)], [(0, 0), (1, 1)]), (G32, G32, [(1, 0)], [(2, 1)]), (G23, G23, [(1, 2)], [(0, 0)]), (G31, G31, [(0, 0), (2, 0)], [(1, 0)]),
                          (G13, G13, [(0, 1)], [(0, 0), (0, 2)]), (G33, G33, [(1, 1)], [(2, 0)])]:
        add('overlap', overlaps, '%s %s %s %s' % (nm(g), nm(g2), fa, fb), g=g, g2=g2, fa=fa, fb=fb)
    for g, f in [(G21, 'all'), (G12, 'all'), (G22, [(0, 0)]), (G22, [(1, 1)]), (G32, [(1, 0)]), (G23, [(0, 2)]), (G33, [(1, 1)]), ((2, 2, 2, 1, 1), 'all'), ((3, 2, 2, 1, 1), [(0, 0), (2, 0), (1, 1)]), ((2, 3, 2, 1, 1), [(1, 0), (0, 2)])]:
        add('norm', lengths, '%s %s' % (nm(g), f), g=g, free=f)
    for g, f, S in [(G21, 'all', [(0, 0), (1, 0)]), (G12, 'all', [(0, 0), (0, 1)]), (G22, [(0, 1)], [(0, 0), (1, 0), (0, 1), (1, 1)]), (G32, [(1, 1)], [(0, 0), (2, 0), (1, 1), (0, 1)]), (G23, [(1, 0)], [(0, 2), (1, 1), (1, 0)]),
                    (T3, [(1, 1)], [(1, 0), (0, 1)]), (G33, [(0, 0)], [(1, 2), (2, 1)])]:
        for s in S: add('value', values, '%s %s at %s' % (nm(g), f, s), g=g, free=f, s=s)
    for g, f, S in [(G22, [(0, 0)], [((0, 0), (2, 1)), ((0, 1), (2, 1)), ((0, 0), (1, 2)), ((1, 0), (1, 2)), ((0, 0), (2, 2)), ((1, 1), (1, 1))]), (G32, [(2, 1)], [((1, 0), (2, 1)), ((0, 0), (1, 2)), ((1, 0), (2, 2)), ((0, 1), (3, 1)), ((0, 0), (3, 2))]),
                    (G23, [(0, 1)], [((0, 1), (2, 1)), ((1, 1), (1, 2)), ((0, 0), (2, 2)), ((0, 0), (1, 3)), ((0, 1), (2, 2))]), (G31, [(0, 0), (1, 0)], [((0, 0), (2, 1)), ((1, 0), (2, 1))]), (G13, [(0, 2)], [((0, 1), (1, 2))])]:
        for s in S: add('block', blocks, '%s %s at %s' % (nm(g), f, s), g=g, free=f, sites=s)
    for g, fr, to, r in [(G22, 0, 2, True), (G22, 0, 2, False), (G32, 0, 2, False), (G32, 1, 3, False), (G32, 0, 3, False), (G32, 0, 2, True), (G23, 0, 2, True), (G23, 1, 3, True), (G23, 0, 2, False), (G33, 1, 2, True), (G33, 0, 2, False), (G23, 2, 3, True)]:
        add('merged %s' % ('rows' if r else 'columns'), lines, '%s %d:%d' % (nm(g), fr, to), g=g, free=[(0, 0), (1, 1)], fr=fr, to=to, rows=r)
    for g, s in [((2, 2, 2), ((0, 0), (2, 2))), ((3, 2, 2), ((1, 0), (2, 2))), ((2, 3, 3), ((0, 1), (2, 2))), ((3, 3, 2), ((1, 1), (1, 2))), ((3, 3, 2), ((0, 2), (3, 1)))]:
        add('product block', marginals, '%s %s' % (g, s), g=g, sites=s)
    for g, f in [(G22, 'all'), (G32, [(1, 0), (2, 1)]), (G23, [(0, 2), (1, 1)])]: add('layers', operators, '%s %s' % (nm(g), f), g=g, free=f)
    for g, f in [(G21, 'all'), (G12, 'all'), (G22, [(0, 0)]), (G32, [(2, 1)]), (G23, [(0, 1)])] + ([] if q else [(G33, [(0, 0)])]):
        for s in itertools.product(range(g[1]), range(g[0])):
            if q and g[0] * g[1] == 6 and s in [(1, 0), (0, 1)]: continue
            add('environment', surroundings, '%s %s at %s' % (nm(g), f, s), g=g, free=f, s=s)
    if q: add('environment', surroundings, '%s at (1, 1)' % nm(G33), g=G33, free=[], s=(1, 1))
    for g, g2, fa, fb in [((2, 2, 2, 1, 1), (2, 2, 2, 1, 1), 'all', 'all'), (G22b, G22, [(0, 0), (1, 1)], [(1, 0), (0, 1)]), (G32, (3, 2, 2, 1, 1), [(0, 0), (1, 1)], [(2, 0), (0, 1)]), (G23, (2, 3, 2, 2, 1), [(0, 1), (1, 1)], [(1, 0), (0, 2)]),
                          (G33, (3, 3, 2, 1, 1), [(1, 1)], [(1, 0), (0, 1)]), ((3, 3, 2, 1, 1), G33, [(2, 1)], [(1, 2)])]:
        add('sum', sums, '%s + %s' % (nm(g), nm(g2)), g=g, g2=g2, fa=fa, fb=fb)
    for d, b, Lx, f in [(2, [1, 2, 3, 2, 1], None, 'all'), (2, [1, 2, 3, 2, 1], 2, 'all'), (2, [1, 2, 2, 3, 1], 4, (0, 2)), (2, [1, 2, 3, 2, 1], 1, (1, 2)), (3, [1, 2, 1, 3, 1], 2, (0, 3)), (2, [1, 2, 3, 2, 3, 2, 1], 2, (1, 4)), (2, [1, 2, 3, 2, 3, 2, 1], 3, (2, 3)),
                       (2, [1, 2, 2, 2, 3, 2, 2, 3, 2, 1], None, (0, 5)), (2, [1, 2, 2, 2, 3, 2, 2, 3, 2, 1], 3, (3, 8))]:
        add('embedded', embedded, 'd%d %s %s' % (d, b, Lx), d=d, b=b, Lx=Lx, free=range(4) if f == 'all' else f)
    for u, m, l, X, Y, fa, fb in [([2, 2], [2, 2], [2, 2], [1, 2, 1], [1, 3, 1], (0, 1), (0, 1)), ([2], [3], [2], [1, 1], [1, 1], (0,), (0,)), ([2, 1, 3], [2, 2, 2], [1, 2, 3], [1, 2, 2, 1], [1, 2, 3, 1], (0, 2), (1,)),
                                  ([1, 1, 1], [2, 2, 2], [2, 1, 2], [1, 3, 2, 1], [1, 1, 2, 1], (1,), (0, 2)), ([2, 2, 1, 2], [1, 2, 2, 2], [2, 1, 2, 1], [1, 2, 2, 2, 1], [1, 2, 1, 2, 1], (1, 2), (0, 3))]:
        add('operator chain', chains, '%s %s %s %s %s' % (u, m, l, X, Y), u=u, m=m, l=l, X=X, Y=Y, fa=fa, fb=fb)
    for d, b, u, X, f in [(2, [1, 2, 1], [2, 2], [1, 2, 1], (0, 1)), (2, [1, 2, 2, 1], [2, 3, 1], [1, 2, 3, 1], (1,)), (3, [1, 2, 1], [2, 3], [1, 2, 1], (0,))]:
        add('operator on a state', acted, 'd%d %s %s %s' % (d, b, u, X), d=d, b=b, u=u, X=X, free=f)
    for L in (2, 3, 4): add('trivial', trivial, '%d' % L, L=L)
    for a in [(2, 1, 2, 2), (1, 2, 2, 2), (2, 2, 2, 3), (3, 2, 2, 2), (2, 3, 3, 2), (3, 4, 2, 1), (1, 4, 2, 2), (4, 1, 2, 2), (4, 3, 2, 2)]: add('drawn', drawn, '%s' % (a,), Lx=a[0], Ly=a[1], d=a[2], X=a[3])
    return out
