"""Expectation values against dense <psi|O|psi>/<psi|psi>."""
import numpy as np
from xmps.fMPS import fMPS, fTFD
from . import ref

BOUNDS = ('L<=4 (and fixed generic chains with L = 6-8 under any operator), d=2 (thermofield d=4), bond dimensions 1 and 2, operators on 1, 2 or all sites, every site; operator entries symbolic '
          '(|Re|,|Im|<=1); states symbolic for single-site, two-site and full-chain values, fixed generic complex states where a case name says fixed')

def ratio(env, label, got, psi, op, sites):
    """got * <psi|psi> = Re <psi|op|psi>"""
    n = np.real(ref.inner(psi, psi))
    env.eq(label, got * n, np.real(ref.expect(psi, op, sites)))

def mk(env, d, b, conc):
    return (env.nums if conc else env.cs)('A', ref.custom(d, b))

def one(env, d, b, site, conc, which):
    data = mk(env, d, b, conc)
    A = fMPS(data, d)
    op = env.c('op', (d, d))
    psi = ref.dense(data)
    if which == 'E': got = A.E(op, site)
    elif which == 'E_': got = A.E_(op, site)
    elif which == 'Es':
        op2 = env.c('oq', (d, d))
        got, g2 = A.Es([op, op2], site)
        ratio(env, 'Es second operator', g2, psi, op2, [site])
    elif which == 'E_k': got = A.E_k(op, [site])
    elif which == 'E_k list': got = A.E_k([op], [site], single_string=True)
    if conc: return ratio(env, which, got, psi, op, [site])
    new = ref.dense(A.data)
    env.eq('state left behind is normalised', ref.inner(new, new), 1.0)
    env.eq(which + ' = Re <new|op|new>', got, np.real(ref.expect(new, op, [site])))

def history(env, d, b, seq, conc):
    """several expectation values and gauge changes on one object"""
    data = mk(env, d, b, conc)
    A = fMPS(data, d)
    op = env.c('op', (d, d))
    psi = ref.dense(data)
    for i, (what, k) in enumerate(seq):
        if what == 'E': ratio(env, 'step %d E site %d' % (i, k), A.E(op, k), psi, op, [k])
        elif what == 'E_k': ratio(env, 'step %d E_k site %d' % (i, k), A.E_k(op, [k]), psi, op, [k])
        elif what == 'rho':
            got = A.rho([k], single_string=False)
            env.eq('step %d rho site %d' % (i, k), got * np.real(ref.inner(psi, psi)), ref.rdm(psi, [k]))
        elif what == 'left': A.left_orthogonalise()
        elif what == 'right': A.right_orthogonalise()
        elif what == 'mixed': A.mixed_orthogonalise(k)
        elif what == 'leftc': A.left_canonicalise()
        elif what == 'rightc': A.right_canonicalise()
        elif what == 'mixedc': A.mixed_canonicalise(k)
        elif what == 'two':
            U = env.num('U%d' % i, (d * d, d * d))
            A.apply_two_site((U, (k, k + 1)), 'lr'[i % 2])
            psi = ref.apply_op(psi, U, [k, k + 1])
        elif what == 'post':
            A.post_select(k, 1)
            psi = np.take(psi, 1, axis=k)
    n = A.L - 1
    ratio(env, 'final E site 0', A.E(op, 0), psi, op, [0])
    ratio(env, 'final E site %d' % n, A.E(op, n), psi, op, [n])

def multi(env, d, b, sites, conc, string):
    data = mk(env, d, b, conc)
    A = fMPS(data, d)
    psi = ref.dense(data)
    k = len(sites)
    if string:
        ops = [env.c('op%d' % i, (d, d)) for i in range(k)]
        big = ops[0]
        for o in ops[1:]: big = np.kron(big, o)
        got = A.E_k(ops, sites, single_string=True)
    else:
        big = env.c('op', (d ** k, d ** k))
        got = A.E_k(big, sites)
    if conc: return ratio(env, 'E_k', got, psi, big, sites)
    new = ref.dense(A.data)
    env.eq('state left behind is normalised', ref.inner(new, new), 1.0)
    env.eq('E_k = Re <new|op|new>', got, np.real(ref.expect(new, big, sites)))

def full(env, d, b):
    A = fMPS(env.cs('A', ref.custom(d, b)), d)
    L = A.L
    op = env.c('op', (d ** L, d ** L))
    psi = ref.dense(A.data)
    env.eq('E_L = Re <psi|op|psi>', A.E_L(op), np.real(ref.expect(psi, op, list(range(L)))))
    env.eq('energy(fullH)', A.energy(op, fullH=True), np.real(ref.expect(psi, op, list(range(L)))))

def energy(env, b, form):
    """nearest-neighbour energy of a canonical state (canonical: diagonal environments)"""
    d = 2
    A = fMPS(env.nums('A', ref.custom(d, b)), d)
    getattr(A, form)()
    H = [env.c('h%d' % i, (4, 4)) for i in range(A.L - 1)]
    psi = ref.dense(A.data)
    want = sum(np.real(ref.expect(psi, h, [i, i + 1])) for i, h in enumerate(H))
    env.eq('energy density', A.energy(H) * A.L * np.real(ref.inner(psi, psi)), want)

def tfd(env, lr, site, which):
    d, L = 2, 2
    T = fTFD(env.nums('T', ref.custom(4, [1, 3, 1])), 4)
    psi = ref.dense(T.data)
    op = env.c('op', (d, d))
    big = np.kron(op, np.eye(d)) if lr == 0 else np.kron(np.eye(d), op)
    got = T.E(op, site, lr) if which == 'E' else np.real(T.Es([op], site, lr)[0])
    ratio(env, which, got, psi, big, [site])

def after(env, b, steps):
    """values of any operators on a state with a past, all sites forwards and backwards"""
    A = ref.history(fMPS(env.nums('A', ref.custom(2, b)), 2), steps)
    psi = ref.dense(A.data)
    op, h = env.c('op', (2, 2)), env.c('h', (4, 4))
    base = [x.copy() for x in A.data]
    past = {k: v for k, v in A.__dict__.items() if k != 'data'}
    def again():
        X = fMPS([x.copy() for x in base], 2)
        X.__dict__.update(past)
        return X
    L = A.L
    for k in range(L):
        ratio(env, 'E site %d' % k, again().E(op, k), psi, op, [k])
        ratio(env, 'E_ site %d' % k, again().E_(op, k), psi, op, [k])
        ratio(env, 'E_k site %d' % k, again().E_k(op, [k]), psi, op, [k])
        if k < L - 1:
            ratio(env, 'E_k sites %d %d' % (k, k + 1), again().E_k(h, [k, k + 1]), psi, h, [k, k + 1])
            ratio(env, 'E_k product sites %d %d' % (k, k + 1), again().E_k([op, op], [k, k + 1], single_string=True), psi, np.kron(op, op), [k, k + 1])
    A = again()
    for k in list(range(L)) + list(range(L))[::-1]: ratio(env, 'then E site %d' % k, A.E(op, k), psi, op, [k])
    for k in list(range(L - 1)) + list(range(L - 1))[::-1]: ratio(env, 'then E_k sites %d %d' % (k, k + 1), A.E_k(h, [k, k + 1]), psi, h, [k, k + 1])

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    for b in ref.LONG:
        for st in [(), ('right', 'mixed 1'), ('left canonical',)]: out.append(dict(name='long %s %s' % (b, ', '.join(st) or 'as given'), fn=after, params=dict(b=b, steps=st), cost=3))
    for st in ref.histories():
        out.append(dict(name='after %s' % ', '.join(st), fn=after, params=dict(b=[1, 2, 2, 1], steps=st)))
    if tier == 'thorough':
        for p in ref.STEPS:
            for q in ref.STEPS:
                if (p, q) not in ref.histories(): out.append(dict(name='after %s, %s (4 sites)' % (p, q), fn=after, params=dict(b=[1, 2, 3, 2, 1], steps=(p, q))))
    for b in ([1, 2, 1], [1, 2, 2, 1]):
        for s in range(len(b) - 1):
            for w in ('E', 'E_k'):
                out.append(dict(name='%s %s site %d' % (w, b, s), fn=one, params=dict(d=2, b=b, site=s, conc=False, which=w)))
    for s in range(3):
        for w in ('E', 'E_', 'Es', 'E_k', 'E_k list'):
            out.append(dict(name='%s fixed [1,2,2,1] site %d' % (w, s), fn=one, params=dict(d=2, b=[1, 2, 2, 1], site=s, conc=True, which=w)))
    out.append(dict(name='E fixed d3', fn=one, params=dict(d=3, b=[1, 3, 3, 1], site=1, conc=True, which='E')))
    for s in ([0, 1], [1, 2]):
        for st in (False, True):
            out.append(dict(name='E_k fixed %s string=%s' % (s, st), fn=multi, params=dict(d=2, b=[1, 2, 2, 1], sites=s, conc=True, string=st)))
    out.append(dict(name='E_k fixed [0,1,2]', fn=multi, params=dict(d=2, b=[1, 2, 2, 1], sites=[0, 1, 2], conc=True, string=False)))
    out.append(dict(name='E_k fixed [1,2] of 4', fn=multi, params=dict(d=2, b=[1, 2, 4, 2, 1], sites=[1, 2], conc=True, string=False)))
    out.append(dict(name='E_k fixed strings [1,2,3] of 5', fn=multi, params=dict(d=2, b=[1, 2, 3, 3, 2, 1], sites=[1, 2, 3], conc=True, string=True)))
    out.append(dict(name='E_k two sites', fn=multi, params=dict(d=2, b=[1, 2, 2, 1], sites=[0, 1], conc=False, string=False)))
    out.append(dict(name='E_k bond dimension 1', fn=multi, params=dict(d=2, b=[1, 1, 1], sites=[0, 1], conc=False, string=True)))
    seqs = [[('E', 0), ('E', 2), ('E', 1)], [('left', 0), ('E', 1), ('right', 0), ('E_k', 2)], [('mixed', 1), ('E', 0), ('E', 1)],
            [('mixedc', 2), ('E', 0), ('E', 2)], [('leftc', 0), ('E', 1), ('rho', 2)], [('rightc', 0), ('E', 0), ('rho', 1)],
            [('mixed', 0), ('two', 0)], [('mixed', 2), ('two', 1), ('E', 1)], [('mixed', 1), ('two', 0), ('rho', 1)],
            [('mixed', 1), ('post', 1)], [('mixed', 0), ('post', 0)], [('left', 0), ('post', 2), ('E', 1)], [('right', 0), ('rho', 0), ('rho', 2)]]
    for i, q in enumerate(seqs):
        out.append(dict(name='history fixed ' + ','.join('%s%d' % x for x in q), fn=history, params=dict(d=2, b=[1, 2, 2, 1], seq=q, conc=True)))
    out.append(dict(name='E_L d2 L3', fn=full, params=dict(d=2, b=[1, 2, 2, 1])))
    out.append(dict(name='E_L d3 L2', fn=full, params=dict(d=3, b=[1, 3, 1])))
    for f in ('left_canonicalise', 'right_canonicalise'):
        for b in ([1, 2, 2, 1], [1, 2, 4, 2, 1], [1, 2, 3, 3, 2, 1]):
            out.append(dict(name='energy fixed %s %s' % (f, b), fn=energy, params=dict(b=b, form=f)))
    for lr in (0, 1):
        for w in ('E', 'Es'):
            out.append(dict(name='TFD %s side %d' % (w, lr), fn=tfd, params=dict(lr=lr, site=lr, which=w)))
    return out
