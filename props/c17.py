"""C17  the fixed-lag smoother: filter-exact, batch = recursive, bounded lag

`smooth` is verified from an arbitrary state for every count, lag and list length; `smooth_batch`
by relational induction over the epochs (vf/induct.py) with the inner loop over the lag treated
as the iteration of one map (vf/lag.py)."""
from vf.harness import contract
from .common import *


def fls(W, N, ctl, nd=None):
    e = E()
    e.nd = W.choice('nd', [2, 1]) if nd is None else nd
    e.n, e.m = W.dim('n'), W.dim('m')
    s = W.mods.kalman.FixedLagSmoother(dim_x=e.n, dim_z=e.m, N=N)
    W.ok('no estimates yet', s.count == 0 and len(s.xSmooth) == 0)
    e.s = s
    e.x, e.P = W.vec('x', e.n, e.nd), W.pd('P', e.n)
    e.F, e.H = W.mat('F', e.n, e.n), W.mat('H', e.m, e.n)
    e.Q, e.R = W.psd('Q', e.n), W.pd('R', e.m)
    e.B, e.du = None, None
    s.x, s.P, s.F, s.H, s.Q, s.R = [W.snap(v) for v in (e.x, e.P, e.F, e.H, e.Q, e.R)]
    if ctl:
        e.du = W.dim('du', hi=3)
        e.B = W.mat('B', e.n, e.du)
        s.B = W.snap(e.B)
    return e


def kf_of(W, e, x, P):
    return RefKF(W, x, P, e.F, e.Q, e.H, e.R, e.B)


@contract('C17', weight=1)
def one_step(W):
    """smooth() from an arbitrary state"""
    N = W.lag('N')
    ctl = W.choice('control', [False, True])
    e = fls(W, N, ctl)
    s = e.s
    k = W.lag('k', hi=7)
    rows = W.tlist('xs', k, lambda t: W.vec(t, e.n, e.nd))
    s.count, s.xSmooth = k, rows
    old = W.tsnap(rows)
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    u = W.vec('u', e.du, e.nd) if ctl else None
    z0, u0 = W.snap(z), None if u is None else W.snap(u)
    ref = kf_of(W, e, W.snap(e.x), W.snap(e.P))
    W.call('smooth', s.smooth, z, u)
    ref.predict(u)
    ref.update(z)
    W.eq('state', s.x, ref.x)
    W.eq('covariance', s.P, ref.P)
    W.eq('residual', s.y, ref.y)
    W.eq('innovation covariance', s.S, ref.S)
    W.ok('count', s.count == k + 1)
    W.ok('one more estimate', W.len(s.xSmooth) == k + 1)
    W.rows_within('only the last N estimates change', s.xSmooth, old, k - N + 1, k)
    W.same('measurement unchanged', z, z0)
    if ctl:
        W.same('control unchanged', u, u0)
    for a in 'FHQR':
        W.eq('model unchanged ' + a, getattr(s, a), getattr(e, a))
    if ctl:
        W.eq('model unchanged B', s.B, e.B)


@contract('C17', con=False, weight=2)
def batch(W):
    """smooth_batch against smooth, by induction over the epochs"""
    N = W.lag('N')
    T = W.horizon('T')
    ctl = W.choice('control', [False, True])
    e = fls(W, N, ctl)
    s = e.s
    zs = W.seq('z', T, lambda t: shaped(W, W.vec(t, e.m, 2), e.nd))
    us = W.seq('u', T, lambda t: W.vec(t, e.du, e.nd)) if ctl else None
    r = W.clone(s)
    ep = W.epochs(T, [s], [], carry={'x': e.x, 'P': e.P}, props={'P': ('sym', 'pd')})
    with ep:
        sm, xh = W.call('smooth_batch', s.smooth_batch, zs, N, us)
    W.eq('x not modified', s.x, e.x)
    W.eq('P not modified', s.P, e.P)
    for k in ep.steps():
        r.x, r.P = ep.state('x'), ep.state('P')
        r.y, r.S, r.K = W.stale(), W.stale(), W.stale()
        r.count = k
        r.xSmooth = W.tlist('xs', k, lambda i: ep.before(sm, i), indexed=True)
        ref = kf_of(W, e, ep.state('x'), ep.state('P'))
        ref.predict(us[k] if ctl else None)
        ref.update(zs[k])
        r.smooth(zs[k], us[k] if ctl else None)
        W.eq('filter output', ep.row(xh, k), ref.x)
        W.eq('filter output = recursive state', ep.row(xh, k), r.x)
        ep.put(k, x=r.x, P=r.P)
        ep.same_rows('smoothed', sm, r.xSmooth)


@contract('C17', sym=False, weight=1)
def sequences(W):
    """whole sequences on the real code: batch = recursive, one estimate per step, bounded lag"""
    N, T = W.lag('N', 0, 5), W.horizon('T', 1, 12)
    ctl = W.choice('control', [False, True])
    e = fls(W, N, ctl)
    s = e.s
    zs = [shaped(W, W.vec('z%d' % k, e.m, 2), e.nd) for k in range(T)]
    us = [W.vec('u%d' % k, e.du, e.nd) for k in range(T)] if ctl else None
    b = W.clone(s)
    sm, xh = W.call('smooth_batch', b.smooth_batch, zs, N, us)
    W.same('x not modified', b.x, e.x)
    W.same('P not modified', b.P, e.P)
    ref = kf_of(W, e, W.snap(e.x), W.snap(e.P))
    for k in range(T):
        old = W.snap(s.xSmooth)
        s.smooth(zs[k], us[k] if ctl else None)
        ref.predict(us[k] if ctl else None)
        ref.update(zs[k])
        W.eq('state', s.x, ref.x)
        W.eq('covariance', s.P, ref.P)
        W.eq('filter output', xh[k], ref.x)
        W.ok('one more estimate', len(s.xSmooth) == k + 1)
        W.ok('older estimates are final', all((s.xSmooth[i] == old[i]).all() for i in range(max(0, min(k, k - N + 1)))))
    W.ok('one smoothed row per measurement', len(sm) == T and len(xh) == T)
    for k in range(T):
        W.eq('smoothed', sm[k], s.xSmooth[k])
