"""C03  covariances stay symmetric positive semidefinite.

Each obligation exhibits the covariance as a sum of congruences A X A' of
matrices already known psd; `sum_congruences_psd` (lean/Psd.lean) concludes."""
from vf.harness import contract
from .common import *
from .c01 import any_ekf
from .c02 import posterior


@contract('C03')
def kf_predict_psd(W):
    e = any_kf(W, pd=False)
    kf = e.kf
    kf.predict()
    W.psd_cert('predicted covariance', kf.P, [(e.alpha * e.F, e.P), (None, e.Q)])
    W.psd_cert('recorded prior', kf.P_prior, [(e.alpha * e.F, e.P), (None, e.Q)])
    gp = kf.get_prediction()[1]
    W.psd_cert('queried prediction', gp, [(e.alpha * e.F, kf.P), (None, e.Q)])


def upd_certs(W, tag, P0, P1, H, R, K):
    n = P0.shape[0]
    ikh = W.eye(n) - K @ H
    S = H @ P0 @ H.T + R
    W.psd_cert(tag + ' posterior covariance', P1, [(ikh, P0), (K, R)])
    W.psd_cert(tag + ' innovation covariance', S, [(H, P0), (None, R)])
    W.psd_cert(tag + ' prior minus posterior', P0 - P1, [(K, S)])


@contract('C03')
def kf_update_psd(W):
    e = any_kf(W, pd=False)
    kf = e.kf
    H, R, kw = e.H, e.R, {}
    c = W.choice('case', ['plain', 'R', 'Rscalar', 'HR'])
    if c == 'R':
        R = W.pd('R1', e.m)
        kw = dict(R=R)
    elif c == 'Rscalar':
        r = W.scal('r', pos=True)
        R = W.eye(e.m) * r
        kw = dict(R=r)
    elif c == 'HR':
        H, R = W.mat('H1', e.m, e.n), W.pd('R1', e.m)
        kw = dict(H=H, R=R)
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    K = e.P @ H.T @ W.inv(H @ e.P @ H.T + R)
    if not kw:
        upd_certs(W, 'queried', e.P, kf.get_update(z)[1], H, R, K)
    kf.update(z, **kw)
    upd_certs(W, 'kf', e.P, kf.P, H, R, K)
    W.eq('P_post', kf.P_post, kf.P)
    kf.predict()
    W.psd_cert('next predict', kf.P, [(e.alpha * e.F, kf.P_post), (None, e.Q)])
    kf.update(None)
    W.psd_cert('after missing measurement', kf.P, [(e.alpha * e.F, kf.P_prior * 0), (None, kf.P_prior)])


@contract('C03')
def kf_update_sequential_psd(W):
    n = W.dim('n')
    m1, m2 = W.dim('m1'), W.dim('m2')
    m = m1 + m2
    kf = W.mods.kalman.KalmanFilter(dim_x=n, dim_z=m)
    x, P, H = W.vec('x', n, 2), W.psd('P', n), W.mat('H', m, n)
    R = W.pd('R', m)
    kf.x, kf.P, kf.H, kf.R = x, W.snap(P), H, R
    a, ln = (0, m1) if W.choice('block', ['first', 'last']) == 'first' else (m1, m2)
    r = R[a:a + ln, a:a + ln]
    h = H[a:a + ln]
    K = P @ h.T @ W.inv(h @ P @ h.T + r)
    ri = W.pd('Ri', ln)
    kf.update_sequential(a, W.vec('z', ln, 1), R_i=ri)
    K = P @ h.T @ W.inv(h @ P @ h.T + ri)
    upd_certs(W, 'block', P, kf.P, h, ri, K)


@contract('C03')
def procedural_psd(W):
    nd = W.choice('nd', [2, 1])
    n, m = W.dim('n'), W.dim('m')
    x, P, H, R, F, Q = W.vec('x', n, nd), W.psd('P', n), W.mat('H', m, n), W.pd('R', m), W.mat('F', n, n), W.psd('Q', n)
    KM = W.mods.kalman
    a = W.scal('a', pos=True)
    _, P1 = KM.predict(x, P, F, Q, alpha=a)
    W.psd_cert('predicted covariance', P1, [(a * F, P), (None, Q)])
    z = shaped(W, W.vec('z', m, 2), nd)
    _, P2 = KM.update(x, P, z, R, H)
    upd_certs(W, 'procedural', P, P2, H, R, P @ H.T @ W.inv(H @ P @ H.T + R))


@contract('C03')
def ekf_psd(W):
    e = any_ekf(W)
    f = e.kf
    J, h = W.jac('J', e.m, e.n), W.func('h', e.m)
    z = W.vec('z', e.m, e.nd)
    c = W.choice('op', ['predict', 'update', 'updateR', 'predict_update'])
    if c == 'predict':
        f.predict()
        W.psd_cert('predicted covariance', f.P, [(e.F, e.P), (None, e.Q)])
        return
    if c == 'predict_update':
        xp, Pp = e.F @ e.x, e.F @ e.P @ e.F.T + e.Q
        f.predict_update(z, J, h)
        W.psd_cert('predicted covariance', f.P_prior, [(e.F, e.P), (None, e.Q)])
        H = J(xp)
        upd_certs(W, 'ekf', Pp, f.P, H, e.R, Pp @ H.T @ W.inv(H @ Pp @ H.T + e.R))
        return
    R, kw = e.R, {}
    if c == 'updateR':
        R = W.pd('R1', e.m)
        kw = dict(R=R)
    H = J(e.x)
    f.update(z, J, h, **kw)
    upd_certs(W, 'ekf', e.P, f.P, H, R, e.P @ H.T @ W.inv(H @ e.P @ H.T + R))


@contract('C03')
def fading_psd(W):
    e = any_ekf(W, 'fading')
    f = e.kf
    z = W.vec('z', e.m, e.nd)
    W.psd_cert('queried prediction', f.get_prediction()[1], [(e.alpha * e.F, e.P), (None, e.Q)])
    f.predict()
    W.psd_cert('predicted covariance', f.P, [(e.alpha * e.F, e.P), (None, e.Q)])
    P = W.pd('P9', e.n)
    f.P = P
    f.update(z)
    upd_certs(W, 'fading', P, f.P, e.H, e.R, P @ e.H.T @ W.inv(e.H @ P @ e.H.T + e.R))


@contract('C03')
def square_root_psd(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.SquareRootKalmanFilter(n, m)
    x, P, F, Q, H, R = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.pd('Q', n), W.mat('H', m, n), W.pd('R', m)
    f.x, f.P, f.F, f.Q, f.H, f.R = W.snap(x), P, F, Q, H, R
    W.psd_cert('P as set', f.P, [(None, P)])
    z = W.vec('z', m, 2)
    if W.choice('op', ['predict', 'update']) == 'predict':
        f.predict()
        W.psd_cert('predicted covariance', f.P, [(F, P), (None, Q)])
        W.psd_cert('recorded prior', f.P_prior, [(F, P), (None, Q)])
    else:
        f.update(z)
        upd_certs(W, 'sqrt', P, f.P, H, R, P @ H.T @ W.inv(H @ P @ H.T + R))
        W.psd_cert('recorded posterior', f.P_post, [(None, f.P)])


@contract('C03')
def smoother_psd(W):
    """one backward step: smoothed covariance psd and not above the filtered one,
    given the induction hypothesis for the next epoch"""
    n = W.dim('n')
    proc = W.choice('api', ['method', 'function'])
    F, Q, P0 = W.mat('F', n, n), W.pd('Q', n), W.psd('P0', n)
    # induction hypothesis: P1 psd and P1 <= predicted covariance
    K9 = W.mat('L', n, n)
    Pp = F @ P0 @ F.T + Q
    if W.symbolic:
        P1 = W.psd('P1', n)
        D = W.psd('D', n)
        # D = Pp - P1 is psd by hypothesis; eliminate P1
        P1 = Pp - D
        W.certified.append(P1.mat)
    else:
        H, R = W.mat('H', n, n), W.pd('R', n)
        P1 = Pp - Pp @ H.T @ W.inv(H @ Pp @ H.T + R) @ H @ Pp
        P1 = (P1 + P1.T) / 2
        D = Pp - P1
    if W.symbolic:
        from vf.snp import array
        Xs = array([W.vec('x0', n, 1), W.vec('x1', n, 1)])
        Ps = array([P0, P1])
    else:
        import numpy as np
        Xs = np.array([W.vec('x0', n, 1), W.vec('x1', n, 1)])
        Ps = np.array([P0, P1])
    KM = W.mods.kalman
    if proc == 'method':
        kf = KM.KalmanFilter(n, 1)
        r = kf.rts_smoother(Xs, Ps, [F, F], [Q, Q])
    else:
        r = KM.rts_smoother(Xs, Ps, [F, F], [Q, Q])
    S0 = r[1][0]
    K = P0 @ F.T @ W.inv(Pp)
    W.psd_cert('filtered minus smoothed', P0 - S0, [(K, D)])
    ikf = W.eye(n) - K @ F
    W.psd_cert('smoothed covariance', S0, [(ikf, P0), (K, Q), (K, P1)])
