"""Lyapunov spectra: growth of tangent-space volumes along a trajectory."""
import os, tempfile, shutil
import numpy as np
import scipy.linalg
import xmps.fTDVP
from xmps.fMPS import fMPS
from . import ref

BOUNDS = ('L<=3, d=2, bond dimensions<=2, up to 3 steps, fixed generic states and Hamiltonians (neighbour terms or one full matrix); any starting basis of one to three tangent vectors '
          '(|entry| <= 1, linearly independent) or the named bases; no growth of the bond dimension before the run')

def ham(env, L, local=False):
    hs = []
    for k in range(L - 1):
        h = env.num('H%d' % k, (4, 4)); h = h + np.conj(h).T
        if local:
            a = h[:2, :2]
            h = np.kron(a, np.eye(2)) + (np.kron(np.eye(2), h[2:, 2:]) if k == L - 2 else 0)
        hs.append(h)
    return hs

def start(env, b, local=False):
    A = fMPS(env.nums("A", ref.custom(2, b)), 2).right_canonicalise()
    return A, ham(env, len(b) - 1, local)

def jacobians(A, H, dt, N):
    """Jacobians at the states of the trajectory (tangent frames carried along), and those states"""
    m = A.copy()
    Js, ms = [], []
    for k in range(N):
        Js.append(m.jac(H)); ms.append([x.copy() for x in m.data])
        frame, old = m.new_vL, m.copy()
        m = xmps.fTDVP.Trajectory(m, H).rk4(m, dt).right_canonicalise()
        m.match_gauge_to(old)
        m.old_vL = frame
    return Js, ms, m

def growth(Js, dt, Q, back=False):
    out = []
    for J in Js:
        E = scipy.linalg.expm(-J.T * dt if back else J * dt)
        Q, R = np.linalg.qr(E @ Q)
        out.append(np.log(abs(np.diag(R))))
    return out, Q

def run(env, b, N, cols, free=True, local=False):
    """any starting basis: logarithms of the growth factors step by step, running averages, states on the way"""
    A, H = start(env, b, local)
    A0 = [x.copy() for x in A.data]
    dt = 0.125
    T = dt * np.arange(N)
    Js, ms, last = jacobians(A, H, dt, N)
    n = Js[0].shape[0]
    Q = env.r('Q', (n, cols)) if free else np.real(env.num('Q', (n, cols)))
    Q0 = Q.copy()
    t = xmps.fTDVP.Trajectory(A, H)
    got = t.lyapunov(T, t_burn=0, initial_basis=Q, thresh=None)
    ly, Qn = growth(Js, dt, Q0)
    bk, _ = growth(Js, dt, Q0, True)
    env.true('one row per step', np.shape(t.lys) == (N, cols) and np.shape(t.exps) == (N, cols) and np.shape(t.exps_) == (N, cols))
    env.true('times returned', len(got[0]) == N)
    for k in range(N):
        env.eq('growth in step %d' % k, t.lys[k], ly[k])
        env.eq('exponents after step %d' % k, t.exps[k] * (dt * (k + 1)), sum(ly[:k + 1]))
        env.eq('both ways, step %d' % k, t.lys_[k] * 2, ly[k] + bk[k])
        env.eq('exponents both ways after step %d' % k, t.exps_[k] * (2 * dt * (k + 1)), sum(ly[:k + 1]) + sum(bk[:k + 1]))
    env.eq('returned exponents', got[1][0], t.exps); env.eq('returned growth', got[1][1], t.lys)
    env.eq('returned exponents both ways', got[2][0], t.exps_); env.eq('returned growth both ways', got[2][1], t.lys_)
    env.eq('basis reached', t.Q, Qn)
    env.eq('starting basis left alone', Q, Q0)
    env.true('one record per step', len(t.mps_history) == N)
    for k, x in enumerate(t.mps_list()):
        for i, (p, q) in enumerate(zip(x.data, ms[k])): env.eq('record %d site %d' % (k, i), p, q)
    for i in range(A.L):
        env.eq('state reached %d' % i, t.mps[i], last[i]); env.eq('initial state left alone %d' % i, A[i], A0[i])
        env.eq('first state kept %d' % i, t.mps_0[i], A0[i])
    if not free:
        # volumes: what the growth factors of the first j vectors multiply up to
        P = Q0
        for J in Js: P = scipy.linalg.expm(J * dt) @ P
        for j in range(1, cols + 1):
            g = [np.linalg.det(X[:, :j].T @ X[:, :j]) for X in (P, np.linalg.qr(Q0)[1])]
            env.eq('volume of the first %d' % j, np.exp(2 * np.sum(t.exps[N - 1][:j]) * dt * N), g[0])

def resumed(env, b, N, cols):
    """two runs of the same trajectory are one longer run"""
    A, H = start(env, b)
    dt = 0.125
    n = len(A.jac(H))
    Q = env.r('Q', (n, cols))
    t = xmps.fTDVP.Trajectory(A, H)
    t.lyapunov(dt * np.arange(N), t_burn=0, initial_basis=Q.copy(), thresh=None)
    t.lyapunov(dt * np.arange(N), t_burn=0, thresh=None)
    Js, ms, last = jacobians(A, H, dt, 2 * N)
    ly, Qn = growth(Js, dt, Q)
    env.true('all steps', np.shape(t.lys) == (2 * N, cols))
    for k in range(2 * N): env.eq('growth in step %d' % k, t.lys[k], ly[k])
    env.eq('basis reached', t.Q, Qn)
    for i in range(A.L): env.eq('state reached %d' % i, t.mps[i], last[i])

def largest(env, b, N):
    """one vector only"""
    A, H = start(env, b)
    dt = 0.125
    Js, ms, last = jacobians(A, H, dt, N)
    n = len(Js[0])
    q = env.r('q', (n,))
    t = xmps.fTDVP.Trajectory(A, H)
    t.lyapunov(dt * np.arange(N), t_burn=0, initial_basis=np.array([q, q]), just_max=True)
    for k in range(N):
        q = scipy.linalg.expm(Js[k] * dt) @ q
        r = np.sqrt(np.sum(q * q))
        env.eq('growth in step %d' % k, t.lys[k], np.log(abs(r)))
        q = q / r
    env.eq('vector reached', t.q, q)

def bases(env, b, kind):
    """the named bases are complete and orthonormal; with the whole space to move in nothing grows"""
    A, H = start(env, b)
    n = len(A.jac(H))
    t = xmps.fTDVP.Trajectory(A, H)
    t.lyapunov(0.125 * np.arange(2), t_burn=0, initial_basis=kind, thresh=None)
    env.true('as many exponents as real directions', t.exps.shape == (2, n) and t.Q.shape == (n, n))
    env.eq('orthonormal', np.conj(t.Q).T @ t.Q, np.eye(n))
    x = env.r('x', (n,))
    env.eq('complete', np.conj(t.Q) @ (t.Q.T @ x), x)
    if kind != 'rand': env.eq('volume in phase space kept', np.sum(t.exps[1]), 0.0)

def still(env, b, local, kind):
    """no projection, or no interaction: no exponents (longer chains: at the first state, where the Jacobian is exact)"""
    A, H = start(env, b, local)
    t = xmps.fTDVP.Trajectory(A, H)
    t.lyapunov(0.125 * np.arange(2), t_burn=0, initial_basis=kind, thresh=None)
    E = t.exps if max(b) == 1 or len(b) == 3 else t.exps[:1]
    env.eq('exponents vanish', E, np.zeros(E.shape))
    x = env.r('x', E.shape)
    env.eq('weighted', np.sum(x * E), 0.0)

def enough(env, b):
    """a run stops once the averages move less than asked"""
    A, H = start(env, b)
    n = len(A.jac(H))
    Q = env.r('Q', (n, 1))
    t = xmps.fTDVP.Trajectory(A, H)
    got = t.lyapunov(0.125 * np.arange(4), t_burn=0, initial_basis=Q, thresh=1e9)
    env.true('one step only', len(t.lys) == 1 and len(t.exps) == 1 and len(got[0]) == 1)
    env.eq('its average', t.exps[0] * 0.125, t.lys[0])

def stored(env, b, what):
    """a run saved under its name is what can be loaded: the growth factors and the basis, or the records"""
    A, H = start(env, b)
    dt, N = 0.125, 2
    n = len(A.jac(H))
    t = xmps.fTDVP.Trajectory(A, H, run_name='run')
    w = tempfile.mkdtemp(prefix='c28-')
    try:
        os.makedirs(os.path.join(w, 'bases'))
        if what == 'records': t.rk4int(dt * np.arange(N))
        elif what == 'largest': t.lyapunov(dt * np.arange(N), t_burn=0, initial_basis='eye', just_max=True)
        else: t.lyapunov(dt * np.arange(N), t_burn=0, initial_basis='eye', thresh=None)
        keep = [np.array(x) for x in t.mps_history]
        last = [x.copy() for x in t.mps.data]
        ly, Q = getattr(t, 'lys', None), getattr(t, 'q' if what == 'largest' else 'Q', None)
        L, D = t.mps.L, t.mps.D
        t.save(loc=w + '/', exps=what != 'records')
        name = os.path.join(w, 'run_L%d_D%d_N%d' % (L, D, N))
        if what == 'records':
            got = np.load(name + '.npy')
            env.true('records', len(got) == N)
            for k in range(N): env.eq('record %d' % k, got[k], keep[k])
        else:
            env.eq('growth', np.load(name + '.npy'), ly)
            base = os.path.join(w, 'bases', os.path.basename(name))
            env.eq('basis', np.load(base + '_basis.npy'), Q)
            m = fMPS().load(base + '_state.npy')
            for i in range(L): env.eq('state %d' % i, m[i], last[i])
        env.true('cleared', len(t.mps_history) == 0 and not hasattr(t, 'lys') and t.mps.L == L)
        for i in range(L): env.eq('back at the start %d' % i, t.mps[i], A[i])
        x = env.r('x', (1,))[0]
        env.eq('anchor', x * t.mps[0], A[0] * x)
    finally: shutil.rmtree(w, ignore_errors=True)

def cases(tier):
    out = []
    add = lambda name, fn, cost=1, **p: out.append(dict(name=name, fn=fn, params=p, cost=cost))
    for b, N, cols in [([1, 1, 1], 2, 2), ([1, 1, 1], 3, 1), ([1, 1, 1], 2, 4), ([1, 1, 1, 1], 2, 2), ([1, 2, 1], 2, 2), ([1, 2, 2, 1], 2, 1)]: add('run %s N%d %d free' % (b, N, cols), run, b=b, N=N, cols=cols)
    for b, N, cols in [([1, 1, 1], 3, 4), ([1, 1, 1, 1], 3, 6), ([1, 2, 2, 1], 2, 4), ([1, 2, 1], 2, 3), ([1, 2, 2, 2, 1], 2, 5), ([1, 1, 1, 1, 1], 3, 8)]: add('run %s N%d %d fixed' % (b, N, cols), run, b=b, N=N, cols=cols, free=False)
    for b in ([1, 1, 1], [1, 1, 1, 1]):
        add('resumed %s' % b, resumed, b=b, N=2, cols=1)
        add('largest %s' % b, largest, b=b, N=2)
        add('enough %s' % b, enough, b=b)
    for w in ('records', 'growth', 'largest'):
        for b in ([1, 1, 1], [1, 2, 2, 1]): add('stored %s %s' % (b, w), stored, b=b, what=w)
    for b in ([1, 1, 1], [1, 2, 1], [1, 1, 1, 1], [1, 2, 2, 1]):
        for k in ('eye', 'rand', 'F2'):
            add('bases %s %s' % (b, k), bases, b=b, kind=k)
            if k == 'rand': continue
            if b in ([1, 2, 1], [1, 2, 2, 1]): add('whole space %s %s' % (b, k), still, b=b, local=False, kind=k)
            else: add('no interaction %s %s' % (b, k), still, b=b, local=True, kind=k)
    return out
