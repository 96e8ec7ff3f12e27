"""State vector -> MPS and back."""
import numpy as np
from xmps.fMPS import fMPS
from . import ref
from .C07 import left_iso, right_iso

BOUNDS = 'L<=6, d<=6 with d**L<=81 (listed per case); |Re|,|Im| of every amplitude <= 1; every matrix decomposed has nonzero singular values'

def from_state(env, L, d, hand, real=False):
    psi = env.r('psi', (d,) * L) if real else env.c('psi', (d,) * L)
    psi0 = psi.copy()
    A = fMPS()
    R = getattr(A, hand + '_from_state')(psi)
    env.true('returns the new state', R is A and A.L == L and A.d == d and len(A.data) == L)
    env.true('bonds fit', A[0].shape[1] == 1 and A[-1].shape[2] == 1 and all(A[i].shape[2] == A[i + 1].shape[1] for i in range(L - 1))
             and all(x.shape[0] == d for x in A.data) and A.D == max(max(x.shape[1:]) for x in A.data))
    for i, x in enumerate(A.data): (left_iso if hand == 'left' else right_iso)(env, 'site %d %s isometric' % (i, hand), x)
    env.propto('same state up to a scalar', ref.dense(A.data), psi0)
    env.propto('recombine gives the state back up to a scalar', A.recombine(), psi0)
    env.eq('argument unchanged', psi, psi0)
    env.true('centre recorded', A.orthogonal and A.oc == (L if hand == 'left' else 0))

FROZEN = True   # arguments are left alone: also with read-only arrays

def cases(tier):
    out = []
    cfg = [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3)] + [(5, 2)] + ([(6, 2), (4, 3), (2, 6)] if tier == 'thorough' else [])
    for L, d in cfg:
        for hand in ('left', 'right'):
            out.append(dict(name='%s L%d d%d' % (hand, L, d), fn=from_state, params=dict(L=L, d=d, hand=hand)))
    for L, d in [(3, 2), (2, 3)]:
        for hand in ('left', 'right'):
            out.append(dict(name='%s L%d d%d real' % (hand, L, d), fn=from_state, params=dict(L=L, d=d, hand=hand, real=True)))
    return out
