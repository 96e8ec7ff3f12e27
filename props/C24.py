"""Projected entangled pair states: reflections, truncation of bonds, isometric form, copies and comparison."""
import itertools
import numpy as np
from xmps import fPEPS as P
from xmps.fPEPS import fPEPS
from . import ref
from .C23 import grid, tensors, copied, dense, site

BOUNDS = ('grids of 1 to 4 columns by 1 to 4 rows (listed; isometric form up to 5), bond dimensions 1 to 4, physical dimension 2 and 3; every tensor entry free for reflections, truncations, and isometries of one tensor; '
          'in the isometric form of a whole grid every entry of the listed tensors')

def reflected(env, g, oc):
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), 'all' if Lx * Ly <= 4 else [(0, 0), (Lx - 1, Ly - 1)])
    x = fPEPS(copied(A))
    if oc is not None: x.oc = oc
    x.X = 7
    psi = dense(A)
    i, j = oc if oc is not None else (0, 0)
    for nm, f, size, perm, c in [('transposed', lambda p: p.T, (Ly, Lx), [site(Lx, i, j) for i in range(Lx) for j in range(Ly)], (j, i)),
                                 ('left to right', lambda p: p.R, (Lx, Ly), [site(Lx, Lx - 1 - i, j) for j in range(Ly) for i in range(Lx)], (Lx - 1 - i, j)),
                                 ('upside down', lambda p: p.U, (Lx, Ly), [site(Lx, i, Ly - 1 - j) for j in range(Ly) for i in range(Lx)], (i, Ly - 1 - j))]:
        y = f(x)
        env.true('size, %s' % nm, (y.Lx, y.Ly) == size and y.X == 7 and y.d == d)
        env.eq('amplitudes, %s' % nm, dense(y.data).reshape(-1), np.transpose(psi, perm).reshape(-1))
        env.true('centre, %s' % nm, tuple(y.oc) == c if oc is not None else not hasattr(y, 'oc'))
        z = f(y)
        env.true('centre again, %s' % nm, (z.Lx, z.Ly) == (Lx, Ly) and (tuple(z.oc) == oc if oc is not None else not hasattr(z, 'oc')))
        for m, n in itertools.product(range(Ly), range(Lx)): env.eq('twice is nothing, %s %d %d' % (nm, n, m), z.data[m][n], A[m][n])
    for m, n in itertools.product(range(Ly), range(Lx)): env.eq('kept %d %d' % (n, m), x.data[m][n], A[m][n])

LEG = {'up': 1, 'right': 2, 'down': 3, 'left': 4}

def cut(A, i, j, leg, D):
    ix = [slice(None)] * 5
    ix[LEG[leg]] = slice(0, D)
    return A[j][i][tuple(ix)]

def truncated(env, g, how, n, D):
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), 'all' if Lx * Ly <= 4 else [(0, 0), (Lx - 1, Ly - 1), (Lx // 2, Ly // 2)])
    want = copied(A)
    x = fPEPS(copied(A))
    # bonds named by their upper (left) end
    V = {'above': [(i, n - 1) for i in range(Lx)], 'below': [(i, n) for i in range(Lx)], 'along column': [(n, j) for j in range(-1, Ly)]}.get(how, [])
    H = {'left': [(n - 1, j) for j in range(Ly)], 'along row': [(i, n) for i in range(-1, Lx)]}.get(how, [])
    f = {'above': x.truncate_above, 'below': x.truncate_below, 'left': x.truncate_left, 'along row': x.truncate_along_row, 'along column': x.truncate_along_column}[how]
    outside = (how, n) in [('above', 0), ('below', Ly - 1), ('left', 0)]
    if outside:
        env.raises('no bonds there', Exception, lambda: f(n, D))
    else:
        y = f(n, D)
        env.true('in place', y is x)
        for i, j in V:
            if j >= 0: want[j][i] = cut(want, i, j, 'down', D)
            if j + 1 < Ly: want[j + 1][i] = cut(want, i, j + 1, 'up', D)
        for i, j in H:
            if i >= 0: want[j][i] = cut(want, i, j, 'right', D)
            if i + 1 < Lx: want[j][i + 1] = cut(want, i + 1, j, 'left', D)
        for j, i in itertools.product(range(Ly), range(Lx)): env.eq('tensor %d %d' % (i, j), x.data[j][i], want[j][i])
    env.true('bonds fit', fits(x))

def fits(x):
    D = x.data
    Ly, Lx = len(D), len(D[0])
    return all(D[j][i].shape[2] == D[j][i + 1].shape[4] for j in range(Ly) for i in range(Lx - 1)) and all(D[j][i].shape[3] == D[j + 1][i].shape[1] for j in range(Ly - 1) for i in range(Lx)) and \
        all(D[0][i].shape[1] == D[-1][i].shape[3] == 1 for i in range(Lx)) and all(D[j][0].shape[4] == D[j][-1].shape[2] == 1 for j in range(Ly))

def lists(env, D):
    S = [(2, 2, 1, 3, 2), (2, 1, 3, 2, 1), (2, 3, 2, 2, 3)]
    A = env.cs('A', S)
    for n, (a, r, c) in enumerate(zip(A, P.row_truncate(A, D), P.col_truncate(A, D))):
        env.eq('row %d' % n, r, a[:, :, :D, :, :D])
        env.eq('column %d' % n, c, a[:, :D, :, :D, :])

def neighbours(env, g, s, sizes):
    """one tensor with other bonds than its neighbours"""
    Lx, Ly, d = g[:3]
    A = tensors(env, 'A', grid(*g), 'all' if Lx * Ly <= 4 else [s])
    i, j = s
    A[j][i] = env.c('B', (d,) + tuple(1 if o else n for o, n in zip((j == 0, i == Lx - 1, j == Ly - 1, i == 0), sizes)))
    x = fPEPS(copied(A))
    y = x.fix_neighbours(i, j)
    env.true('in place', y is x)
    env.true('bonds fit', fits(x))
    want = copied(A)
    for leg, back, (a, b) in (('up', 'down', (i, j - 1)), ('right', 'left', (i + 1, j)), ('down', 'up', (i, j + 1)), ('left', 'right', (i - 1, j))):
        if not (0 <= a < Lx and 0 <= b < Ly): continue
        D = min(A[j][i].shape[LEG[leg]], A[b][a].shape[LEG[back]])
        want[j][i], want[b][a] = cut(want, i, j, leg, D), cut(want, a, b, back, D)
    for m, n in itertools.product(range(Ly), range(Lx)): env.eq('tensor %d %d' % (n, m), x.data[m][n], want[m][n])

def drawn(env, Lx, Ly):
    x = fPEPS()
    env.true('structure', [[tuple(s) for s in r] for r in x.create_structure(Lx, Ly, 3, 4)] == grid(Lx, Ly, 3, 4, 4))

# ------------------------------------------------------------------ isometries of one tensor
def out_legs(kind, where):
    """diag: towards 1 below left, 2 above left, 3 above right, 4 below right; straight: towards the leg opposite to where"""
    if kind == 'diag': return {1: (4, 3), 2: (1, 4), 3: (2, 1), 4: (3, 2)}[where]
    return ((where + 1) % 4 + 1,)

def gram(A, out):
    inn = [0] + [l for l in range(1, 5) if l not in out]
    M = np.transpose(A, inn + list(out)).reshape(int(np.prod([A.shape[l] for l in inn])), -1)
    return np.conj(M).T @ M, M

def single(env, kind, where, shape):
    out = out_legs(kind, where)
    A = env.c('A', shape)
    group = P.tensor_grouping_diag if kind == 'diag' else P.tensor_grouping_lrud
    G, pipe = group(A, where)
    n = int(np.prod([shape[l] for l in out]))
    env.true('map', G.shape == (int(np.prod(shape)) // n, n))
    env.eq('same entries', np.conj(G).T @ G if kind != 'diag' else np.trace(np.conj(G).T @ G), gram(A, out)[0] if kind != 'diag' else np.trace(gram(A, out)[0]))
    f = P.tensor_isometrise_diag if kind == 'diag' else P.tensor_isometrise_lrud
    if int(np.prod(shape)) // n < n:
        env.raises('too large', Exception, lambda: f(A.copy(), where))
        return
    B = f(A.copy(), where)
    env.true('same legs', B.shape == shape)
    env.eq('isometry', gram(B, out)[0], np.eye(n))

def centre(env, shape):
    A = env.c('A', shape)
    B = P.tensor_isometrise_center(A)
    env.eq('norm', np.sum(np.real(B * np.conj(B))), 1.0)
    env.eq('direction', B * np.sqrt(np.sum(np.real(A * np.conj(A)))), A)

def towards(i, j, oc):
    return tuple(l for l, c in ((1, j > oc[1]), (2, i < oc[0]), (3, j < oc[1]), (4, i > oc[0])) if c)

def isometric(env, Lx, Ly, d, X, oc, free):
    A = tensors(env, 'A', grid(Lx, Ly, d, X, X), free)
    A = [[env.const(a) for a in row] for row in A]
    x = fPEPS(copied(A), d)
    y = x.isometrise(oc)
    env.true('in place, with its centre', y is x and tuple(x.oc) == oc)
    env.true('bonds fit', fits(x))
    for j, i in itertools.product(range(Ly), range(Lx)):
        out = towards(i, j, oc)
        B = x.data[j][i]
        n = int(np.prod([B.shape[l] for l in out]))
        env.eq('isometry %d %d' % (i, j), gram(B, out)[0].reshape(n, n), np.eye(n))

def at_centre(env, Lx, Ly, d, X, oc):
    """a state in isometric form whose centre is any tensor"""
    A = tensors(env, 'A', grid(Lx, Ly, d, X, X), [])
    x = fPEPS(copied(A), d).isometrise(oc)
    x.data[oc[1]][oc[0]] = env.c('C', x.data[oc[1]][oc[0]].shape)
    O, Q = env.c('O', (d, d)), env.c('Q', (d, d))
    psi = dense(x.data)
    f = lambda M: np.real(ref.inner(psi, ref.apply_op(psi, M, [site(Lx, *oc)])))
    env.eq('value', x.iso_E(O), f(O))
    env.eq('value at the centre', x.iso_E(O, oc), f(O))
    env.eq('value by contraction', x.E(O, oc), f(O))
    env.eq('several values', x.iso_Es([(O, oc), (Q, oc)]), np.array([f(O), f(Q)]))
    z = fPEPS(copied(x.data))
    env.raises('not isometric', Exception, lambda: z.iso_E(O))

# ------------------------------------------------------------------ copies and comparison
def compared(env):
    g = (2, 2, 2, [[2], [1]], [[1, 2]])
    A = tensors(env, 'A', grid(*g), [])
    x = fPEPS(copied(A))
    x.oc = (1, 0); x.X = 5
    y = x.copy()
    env.true('copied', (y.oc, y.X, y.d, y.Lx, y.Ly) == ((1, 0), 5, 2, 2, 2) and x == y)
    for j, i in itertools.product(range(2), range(2)):
        z = x.copy()
        z.data[j][i] = z.data[j][i].copy()
        z.data[j][i][(1,) + tuple(n - 1 for n in z.data[j][i].shape[1:])] += 1e-3
        env.true('one entry differs %d %d' % (i, j), not (x == z) and not (z == x))
        y.data[j][i][...] = 0
        env.eq('isolated %d %d' % (i, j), x.data[j][i], A[j][i])
    z = x.copy(); z.oc = (0, 0)
    env.true('another centre', not (x == z))
    z = fPEPS(copied(A)); z.X = 5
    env.true('no centre', not (x == z) and not (z == x))
    z = x.copy(); z.X = 4
    env.true('another bond dimension', not (x == z))
    z = x.copy(); z.d = 3
    env.true('another dimension', not (x == z))
    z = x.copy(); z.data[0][0] = np.concatenate([z.data[0][0], z.data[0][0]], 2)
    env.true('another shape', not (x == z))
    one = [[env.num('o%d%d' % (i, j), (2, 1, 1, 1, 1)) for i in range(3)] for j in range(3)]
    sizes = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    for (a, b), (m, n) in itertools.product(sizes, sizes):
        y, z = fPEPS([r[:a] for r in one[:b]]), fPEPS([r[:m] for r in one[:n]])
        env.true('%dx%d and %dx%d' % (a, b, m, n), bool(y == z) == ((a, b) == (m, n)))

def cases(tier):
    out = []
    q = tier == 'quick'
    def add(what, fn, name, cost=1, **p): out.append(dict(name='%s %s' % (what, name), fn=fn, params=p, cost=cost))
    G22 = (2, 2, 2, [[2], [3]], [[2, 1]])
    G32 = (3, 2, 2, [[2, 1], [2, 3]], [[1, 2, 2]])
    G23 = (2, 3, 2, [[2], [1], [3]], [[2, 1], [1, 2]])
    G33 = (3, 3, 2, [[2, 1], [1, 2], [2, 2]], [[1, 2, 1], [2, 1, 2]])
    G31, G13 = (3, 1, 2, [[2, 3]], 1), (1, 3, 3, 1, [[2], [3]])
    nm = lambda g: '%dx%d d%d %s %s' % (g[0], g[1], g[2], g[3], g[4])
    for g in (G22, G32, G23, G31, G13, G33):
        for oc in [None, (0, 0), (g[0] - 1, 0), (0, g[1] - 1), (g[0] // 2, g[1] - 1)]: add('reflected', reflected, '%s %s' % (nm(g), oc), g=g, oc=oc)
    for g in (G22, (3, 2, 2, 3, 3), (2, 3, 2, 3, 3), (1, 3, 2, 1, 3), (3, 1, 2, 3, 1)):
        for how in ('above', 'below', 'along row'):
            for n in range(g[1]): add('truncated', truncated, '%s %s %d' % (nm(g), how, n), g=g, how=how, n=n, D=2 if n % 2 else 1)
        for how in ('left', 'along column'):
            for n in range(g[0]): add('truncated', truncated, '%s %s %d' % (nm(g), how, n), g=g, how=how, n=n, D=2 if n % 2 else 1)
    for D in (1, 2): add('lists', lists, 'D%d' % D, D=D)
    for g in (G22, G32, G23, G33):
        for s, z in [((0, 0), (1, 1, 3, 1)), ((g[0] - 1, 0), (2, 2, 1, 2)), ((1, 1), (2, 3, 1, 2)), ((0, g[1] - 1), (3, 1, 1, 2)), ((1, 1), (1, 1, 4, 3))]: add('neighbours', neighbours, '%s %s %s' % (nm(g), s, z), g=g, s=s, sizes=z)
    for a in [(2, 1), (1, 2), (2, 2), (3, 1), (1, 4), (3, 2), (2, 3), (4, 3), (3, 4)]: add('structure', drawn, '%dx%d' % a, Lx=a[0], Ly=a[1])
    for w in (1, 2, 3, 4):
        for kind in ('diag', 'straight'):
            for s in [(2, 1, 1, 1, 1), (2, 2, 1, 2, 1), (2, 1, 2, 1, 2), (2, 2, 2, 1, 1), (2, 1, 1, 2, 2), (3, 1, 2, 1, 1), (2, 2, 2, 2, 1), (2, 3, 1, 2, 1), (2, 1, 2, 1, 3)] + ([] if q else [(2, 2, 2, 2, 2), (3, 2, 1, 2, 2)]): add('isometry', single, '%s %d %s' % (kind, w, s), kind=kind, where=w, shape=s)
    for s in [(2, 1, 2, 1, 1), (2, 2, 2, 1, 3), (3, 1, 1, 1, 1)]: add('centre', centre, '%s' % (s,), shape=s)
    for Lx, Ly, d, X, cs in [(2, 2, 2, 2, None), (2, 2, 3, 2, [(1, 0)]), (3, 3, 2, 2, [(1, 1), (0, 0), (2, 1)]), (3, 2, 2, 3, [(1, 0), (2, 1)]), (2, 3, 2, 3, [(0, 1), (1, 2)]), (1, 3, 2, 2, None), (3, 1, 2, 2, None), (4, 3, 2, 2, [(1, 1), (3, 2)]), (3, 4, 2, 2, [(1, 2), (0, 0)]), (3, 5, 2, 4, [(2, 2), (1, 0)]), (5, 3, 2, 4, [(4, 1), (2, 2)]), (2, 5, 2, 4, [(1, 2)]), (4, 4, 2, 4, [(2, 1)])]:
        for oc in cs or list(itertools.product(range(Lx), range(Ly))):
            fs = ['all'] if Lx * Ly <= 4 else [[(0, 0), (1, Ly // 2)], [(Lx - 1, Ly - 1), (Lx // 2, 0)], [oc]]
            for f in fs: add('isometric', isometric, '%dx%d d%d X%d %s %s' % (Lx, Ly, d, X, oc, f), Lx=Lx, Ly=Ly, d=d, X=X, oc=oc, free=f)
    for Lx, Ly, d, X, cs in [(2, 2, 2, 2, [(0, 0), (1, 0), (0, 1), (1, 1)]), (3, 3, 2, 2, [(1, 1), (0, 1), (2, 2)]), (3, 2, 2, 2, [(1, 0), (2, 1)]), (2, 3, 3, 2, [(0, 1), (1, 2)]), (1, 3, 2, 2, [(0, 1)]), (3, 1, 2, 2, [(1, 0)]), (3, 3, 2, 3, [(1, 1)])]:
        for oc in cs: add('value', at_centre, '%dx%d d%d X%d %s' % (Lx, Ly, d, X, oc), Lx=Lx, Ly=Ly, d=d, X=X, oc=oc)
    out.append(dict(name='compared', fn=compared, params={}))
    return list({c['name']: c for c in out}.values())
