"""C07  Rauch-Tung-Striebel smoothers

Induction over the epochs, backwards (vf/induct.py): the generic step reads the filtered row k
(as given) and the smoothed row k+1 (unknown), and must produce the RTS row k.  Every row below
the last is written exactly once and the last one never, so the result is the RTS recursion
for sequences of every length."""
from vf.harness import contract
from .common import *
from .c06 import opt_seq
from .c13 import split


def sequences(W, n, nd, lo=1):
    T = W.horizon('T', lo)
    Xs = W.tarr('X', T, lambda t: W.vec(t, n, nd))
    Ps = W.tarr('P', T, lambda t: W.pd(t, n))
    return T, Xs, Ps


def rts(W, ep, res, Xs, Ps, F, Q, T):
    """the specification"""
    xs, ps, K, Pp = res
    last = T - 1
    X0, P0 = W.snap(Xs), W.snap(Ps)
    W.eq('last mean', ep.row(xs, last), X0[last])
    W.eq('last covariance', ep.row(ps, last), P0[last])
    for k in ep.steps(count=T - 1, index=lambda k: T - 2 - k):
        x, P = X0[k], P0[k]
        Fk, Qk = F(k + 1), Q(k + 1)
        xn, Pn = ep.prev(xs, k + 1), ep.prev(ps, k + 1)
        PP = Fk @ P @ Fk.T + Qk
        G = P @ Fk.T @ W.inv(PP)
        W.eq('predicted covariance', ep.row(Pp, k), PP)
        W.eq('gain', ep.row(K, k), G)
        W.eq('smoothed mean', ep.row(xs, k), x + G @ (xn - Fk @ x))
        W.eq('smoothed covariance', ep.row(ps, k), P + G @ (Pn - PP) @ G.T)


@contract('C07')
def kf_method(W):
    e = any_kf(W, alpha=False, hists=('fresh',))
    T, Xs, Ps = sequences(W, e.n, e.nd)
    g = W.choice('given', ['none', 'F', 'Q', 'both'])
    Fs = opt_seq(W, 'F', T, lambda t: W.inv_mat(t, e.n), g in ('F', 'both'))
    Qs = opt_seq(W, 'Q', T, lambda t: W.pd(t, e.n), g in ('Q', 'both'))
    kw = {'inv': W.inv} if W.choice('inv', [False, True]) else {}
    if not W.symbolic:
        e.kf.Q = W.pd('Q', e.n)
    F, Q = W.snap(e.kf.F), W.snap(e.kf.Q)
    before = W.state(e.kf)
    ep = W.epochs(T, [e.kf])
    X0, P0 = W.snap(Xs), W.snap(Ps)
    with ep:
        res = W.call('rts_smoother', e.kf.rts_smoother, Xs, Ps, Fs, Qs, **kw)
    W.unchanged('filter', e.kf, before)
    rts(W, ep, res, X0, P0, (lambda k: F) if Fs is None else (lambda k: Fs[k]), (lambda k: Q) if Qs is None else (lambda k: Qs[k]), T)
    ep.kept('means given', Xs, X0)
    ep.kept('covariances given', Ps, P0)


@contract('C07')
def kf_function(W):
    n, nd = W.dim('n'), W.choice('nd', [2, 1])
    T, Xs, Ps = sequences(W, n, nd)
    Fs = W.seq('F', T, lambda t: W.inv_mat(t, n))
    Qs = W.seq('Q', T, lambda t: W.pd(t, n))
    ep = W.epochs(T)
    X0, P0 = W.snap(Xs), W.snap(Ps)
    with ep:
        res = W.call('rts_smoother', W.mods.kalman.rts_smoother, Xs, Ps, Fs, Qs)
    rts(W, ep, res, X0, P0, lambda k: Fs[k], lambda k: Qs[k], T)
    ep.kept('means given', Xs, X0)
    ep.kept('covariances given', Ps, P0)


@contract('C07')
def lengths_checked(W):
    """sequences of different lengths are rejected"""
    n, nd = W.dim('n'), W.choice('nd', [2, 1])
    T = W.horizon('T', 2)
    Xs = W.tarr('X', T, lambda t: W.vec(t, n, nd))
    Ps = W.tarr('P', T - 1, lambda t: W.pd(t, n))
    Fs, Qs = W.seq('F', T, lambda t: W.mat(t, n, n)), W.seq('Q', T, lambda t: W.pd(t, n))
    W.raises('lengths differ', ValueError, lambda: W.mods.kalman.rts_smoother(Xs, Ps, Fs, Qs))
    kf = W.mods.kalman.KalmanFilter(n, 1)
    W.raises('lengths differ (method)', ValueError, lambda: kf.rts_smoother(Xs, Ps, Fs, Qs))


@contract('C07', weight=2)
def ukf_method(W):
    """the same recursion with unscented moments"""
    n, = split(W, W.dim('n', hi=3))
    f0 = W.func('f', n)
    res_x = W.choice('residual', ['none', 'custom'] if W.symbolic else ['none'])
    rx = W.func('rx', n) if res_x == 'custom' else None
    pts = ukf_points(W, n)
    dt = W.scal('dt', pos=True)
    u = W.mods.kalman.UnscentedKalmanFilter(n, 1, dt, hx=None, fx=f0, points=pts, residual_x=rx)
    u.Q = W.pd('Q', n)
    Q = W.snap(u.Q)
    T, Xs, Ps = sequences(W, n, 1)
    g = W.choice('given', ['none', 'Qs', 'dts', 'dt', 'both', 'UT'])
    Qs = opt_seq(W, 'Q', T, lambda t: W.pd(t, n), g in ('Qs', 'both'))
    dts = W.scal('dt1', pos=True) if g == 'dt' else opt_seq(W, 'dt', T, lambda t: W.scal(t, pos=True), g in ('dts', 'both'))
    ut = other_ut(W) if g == 'UT' else None
    before = W.state(u)
    X0, P0 = W.snap(Xs), W.snap(Ps)
    ep = W.epochs(T, [u])
    with ep:
        xs, ps, Ks = W.call('rts_smoother', u.rts_smoother, Xs, Ps, Qs, dts, ut)
    W.unchanged('filter', u, before)
    last = T - 1
    W.eq('last mean', ep.row(xs, last), X0[last])
    W.eq('last covariance', ep.row(ps, last), P0[last])
    sub = (lambda a, b: a - b) if rx is None else rx
    for k in ep.steps(count=T - 1, index=lambda k: T - 2 - k):
        x, P = X0[k], P0[k]
        S = pts.sigma_points(x, P)
        d = dt if dts is None else dts if g == 'dt' else dts[k + 1]
        Qk = Q if Qs is None else Qs[k + 1]
        Y = W.maprows(lambda s: f0(s, d), S)
        xb = W.flat(W.col(pts.Wm).T @ Y)
        D = W.maprows(lambda s: sub(s, xb), Y)
        Z = W.maprows(lambda s: sub(s, x), S)
        Pb = (D.T @ W.diag(pts.Wc) @ D + Qk) * (2 if g == 'UT' else 1)
        G = Z.T @ W.diag(pts.Wc) @ D @ W.inv(Pb)
        W.eq('gain', ep.row(Ks, k), G)
        W.eq('smoothed mean', ep.row(xs, k), x + G @ sub(ep.prev(xs, k + 1), xb))
        W.eq('smoothed covariance', ep.row(ps, k), P + G @ (ep.prev(ps, k + 1) - Pb) @ G.T)
    ep.kept('means given', Xs, X0)
    ep.kept('covariances given', Ps, P0)
