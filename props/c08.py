"""C08  reported likelihood always describes the latest innovation"""
import sys
from vf.harness import contract
from .common import *
from .c01 import any_ekf
from .c05 import CACHE

TINY = sys.float_info.min


def lik_checks(W, f, tag=''):
    """the reported values are functions of the current innovation and covariance"""
    y, S = f.y, f.S
    want = W.logpdf(y, S)
    order = W.choice(tag + 'order', ['ll', 'l'] if W.symbolic else ['ll', 'l', 'm'])
    s0 = W.state(f, skip=CACHE)
    if order == 'l':
        f.likelihood
    if order == 'm':
        f.mahalanobis
    W.eq(tag + 'log-likelihood', f.log_likelihood, want)
    e = W.exp(want)
    if not W.symbolic:
        # exp underflows: compare the floor only
        W.ok(tag + 'likelihood not below the smallest normal', f.likelihood >= TINY)
        W.eq(tag + 'likelihood', f.likelihood, max(e, TINY), tol=1e-6, rel=True)
    elif e < TINY:
        W.eq(tag + 'likelihood (floored)', f.likelihood, TINY)
    else:
        W.eq(tag + 'likelihood', f.likelihood, e)
    yc = W.col(y)
    W.eq(tag + 'mahalanobis', f.mahalanobis, W.sqrt(W.scalar(yc.T @ W.inv(S) @ yc)), tol=1e-6)
    if order == 'll':
        f.log_likelihood, f.likelihood, f.mahalanobis
        W.unchanged(tag + 'reading is pure', f, s0, skip=CACHE)
    W.eq(tag + 'log-likelihood again', f.log_likelihood, want)


def far(W, z, hx, S):
    """concretely, sometimes move the measurement so far out that the density underflows"""
    if W.symbolic:
        return z
    import numpy as np
    k = W.pyrng.choice([0, 0, 1, 2])
    if k == 0:
        return z
    d = np.asarray(z, float) - hx
    dc = d.reshape(-1, 1)
    q = (dc.T @ np.linalg.inv(S) @ dc).item()
    if q < 1e-9:
        return z
    t = W.pyrng.uniform(680, 760) if k == 1 else W.pyrng.uniform(1, 100)
    return hx + d * (2 * t / q) ** .5


@contract('C08')
def kf_likelihood(W):
    e = any_kf(W, alpha=False, hists=('pu',))
    kf = e.kf
    op = W.choice('op', ['update', 'update override', 'correlated', 'steady', 'none'])
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    S = e.H @ e.P @ e.H.T + e.R
    z = far(W, z, e.H @ e.x, S)
    if op == 'update':
        kf.update(z)
    elif op == 'update override':
        kf.update(z, R=W.pd('R1', e.m), H=W.mat('H1', e.m, e.n))
    elif op == 'correlated':
        if W.symbolic or W.pyrng.random() < .5:
            kf.M = kf.M * 0
        kf.update_correlated(z)
    elif op == 'steady':
        kf.S, kf.K = S, W.mat('K', e.n, e.m)
        kf.SI = W.inv(S)
        kf.update_steadystate(z)
    else:
        kf.update(z)
        kf.log_likelihood, kf.likelihood, kf.mahalanobis
        kf.update(None)
        W.eq('innovation of a missing measurement', W.col(kf.y), W.zeros(e.m, 1))
    lik_checks(W, kf)


@contract('C08')
def kf_missing(W):
    """a missing measurement in the steady-state and correlated forms, after the values were read"""
    e = any_kf(W, alpha=False, hists=('fresh',))
    kf = e.kf
    kf.update(shaped(W, W.vec('z1', e.m, 2), e.nd))
    kf.log_likelihood, kf.likelihood, kf.mahalanobis
    w = W.vec('w', e.m, e.nd)
    W.eq('log-likelihood of another measurement', kf.log_likelihood_of(w), W.logpdf(w - kf.H @ kf.x, kf.S))
    (kf.update_steadystate if W.choice('op', ['steady', 'correlated']) == 'steady' else kf.update_correlated)(None)
    W.eq('innovation of a missing measurement', W.col(kf.y), W.zeros(e.m, 1))
    lik_checks(W, kf)


@contract('C08')
def kf_no_stale_cache(W):
    """read, update, read: the second answer belongs to the second update"""
    e = any_kf(W, alpha=False, hists=('fresh',))
    kf = e.kf
    ups = ['update', 'steady', 'correlated']
    kf.update(shaped(W, W.vec('z1', e.m, 2), e.nd))
    kf.log_likelihood, kf.likelihood, kf.mahalanobis
    z2 = shaped(W, W.vec('z2', e.m, 2), e.nd)
    o = W.choice('second', ups)
    if o == 'update':
        kf.update(z2)
    elif o == 'steady':
        kf.update_steadystate(z2)
    else:
        kf.M = kf.M * 0
        kf.update_correlated(z2)
    lik_checks(W, kf)


@contract('C08')
def procedural_log_likelihood(W):
    nd = W.choice('nd', [2, 1])
    n, m = W.dim('n'), W.dim('m')
    x, P, H, R = W.vec('x', n, nd), W.pd('P', n), W.mat('H', m, n), W.pd('R', m)
    z, zc = layout(W, 'z', m, nd)
    r = W.mods.kalman.update(x, P, z, R, H, return_all=True)
    S = H @ P @ H.T + R
    W.eq('log-likelihood', r[5], W.logpdf(zc - H @ W.col(x), S))


@contract('C08')
def procedural_log_likelihood_scalar(W):
    x, z = W.scal('x'), W.scal('z')
    P, R = W.scal('P', pos=True), W.scal('R', pos=True)
    r = W.mods.kalman.update(x, P, z, R, return_all=True)
    W.eq('log-likelihood', r[5], W.logpdf(W.col(z - x), W.col(P + R)))


@contract('C08')
def ekf_likelihood(W):
    e = any_ekf(W)
    f = e.kf
    J, h = W.jac('J', e.m, e.n), W.func('h', e.m)
    z = W.vec('z', e.m, e.nd)
    if e.hist != 'fresh':
        f.log_likelihood, f.likelihood, f.mahalanobis
    op = W.choice('op', ['update', 'updateR', 'predict_update', 'again'])
    if op in ('update', 'again'):
        H = J(e.x)
        z = far(W, z, h(e.x), H @ e.P @ H.T + e.R)
        f.update(z, J, h)
        if op == 'again':
            f.log_likelihood, f.likelihood, f.mahalanobis
            f.update(W.vec('z2', e.m, e.nd), J, h)
    elif op == 'updateR':
        f.update(z, J, h, R=W.pd('R1', e.m))
    else:
        f.predict_update(z, J, h)
    lik_checks(W, f)


@contract('C08')
def fading_likelihood(W):
    e = any_ekf(W, 'fading')
    f = e.kf
    if e.hist != 'fresh':
        f.log_likelihood, f.likelihood, f.mahalanobis
    z = far(W, W.vec('z', e.m, e.nd), e.H @ e.x, e.H @ e.P @ e.H.T + e.R)
    f.update(z, *([W.pd('R1', e.m)] if W.choice('R', [0, 1]) else []))
    if W.choice('again', [0, 1]):
        f.log_likelihood, f.likelihood, f.mahalanobis
        f.update(W.vec('z2', e.m, e.nd))
    lik_checks(W, f)


@contract('C08')
def sigma_filter_likelihood(W):
    from .c05 import sigma_filter
    n, m = W.dim('n'), W.dim('m')
    cls = W.choice('cls', ['ukf', 'ckf'])
    f = sigma_filter(W, cls, n, m)
    f.x, f.P, f.Q, f.R = W.vec('x', n, 1), W.pd('P', n), W.pd('Q', n), W.pd('R', m)
    if W.symbolic:
        N = f.sigmas_f.shape[0]
        f.sigmas_f = W.mat('sf', N, n)
        if cls == 'ckf':
            f.x = W.vec('xc', n, 2)
    else:
        f.predict()
    z = W.vec('z', m, 1)
    k = W.choice('case', ['plain', 'R', 'again', 'none'])
    if k == 'R':
        f.update(z, W.pd('R1', m))
    else:
        f.update(z)
    if k == 'again':
        f.log_likelihood, f.likelihood, f.mahalanobis
        f.sigmas_f = W.mat('sf2', f.sigmas_f.shape[0], n)
        f.update(W.vec('z2', m, 1))
    elif k == 'none':
        f.log_likelihood, f.likelihood, f.mahalanobis
        f.update(None)
    lik_checks(W, f)
