"""C04  a missing measurement changes nothing.

The state before the call is arbitrary (not only one reachable after predict),
and the filter may carry any history in its hidden fields."""
from vf.harness import contract
from .common import *
from .c01 import any_ekf


def none_checks(W, f, x, P, tag='', post='P_post', Pname='P', exact=True):
    W.same(tag + 'state', f.x, x)
    W.same(tag + 'covariance', getattr(f, Pname), P, exact)
    W.same(tag + 'x_post', f.x_post, x)
    W.same(tag + post, getattr(f, post), P, exact)
    W.all_none(tag + 'z marked missing', f.z)


@contract('C04')
def kf_none(W):
    e = any_kf(W, hists=('fresh', 'pu', 'none', 'uu'), pd=False)
    kf = e.kf
    op = W.choice('op', ['update', 'steady', 'correlated', 'overrides'])
    if W.choice('predict first', [0, 1]):
        kf.predict()
    x, P = W.snap(kf.x), W.snap(kf.P)
    xp, Pp = W.snap(kf.x_prior), W.snap(kf.P_prior)
    if op == 'update':
        kf.update(None)
    elif op == 'steady':
        kf.update_steadystate(None)
    elif op == 'correlated':
        kf.update_correlated(None)
    else:
        kf.update(None, R=W.pd('R1', e.m), H=W.mat('H1', e.m, e.n))
    none_checks(W, kf, x, P)
    W.same('x_prior', kf.x_prior, xp)
    W.same('P_prior', kf.P_prior, Pp)
    same_model(W, kf, e)


@contract('C04')
def procedural_none(W):
    nd = W.choice('nd', [2, 1])
    n, m = W.dim('n'), W.dim('m')
    x, P, H, R, K = W.vec('x', n, nd), W.psd('P', n), W.mat('H', m, n), W.pd('R', m), W.mat('K', n, m)
    KM = W.mods.kalman
    kw = {}
    if W.choice('H given', [1, 0]):
        kw['H'] = H
    x0, P0 = W.snap(x), W.snap(P)
    gx, gP = KM.update(x, P, None, R, **kw)
    W.same('mean', gx, x0)
    W.same('covariance', gP, P0)
    r = KM.update(x, P, None, R, return_all=True, **kw)
    W.same('all: mean', r[0], x0)
    W.same('all: covariance', r[1], P0)
    W.same('steady-state mean', KM.update_steadystate(x, None, K, **kw), x0)


@contract('C04')
def procedural_none_scalar(W):
    x, P, R, K = W.scal('x'), W.scal('P', pos=True), W.scal('R', pos=True), W.scal('K')
    KM = W.mods.kalman
    gx, gP = KM.update(x, P, None, R)
    W.same('mean', gx, x)
    W.same('covariance', gP, P)
    W.same('steady-state mean', KM.update_steadystate(x, None, K), x)


@contract('C04')
def ekf_none(W):
    e = any_ekf(W)
    f = e.kf
    if W.choice('predict first', [0, 1]):
        f.predict()
    x, P = W.snap(f.x), W.snap(f.P)
    J, h = W.jac('J', e.m, e.n), W.func('h', e.m)
    if W.choice('R', [0, 1]):
        f.update(None, J, h, R=W.pd('R1', e.m))
    else:
        f.update(None, J, h)
    none_checks(W, f, x, P)
    for a in 'FQR':
        W.same('model ' + a, getattr(f, a), getattr(e, a))


@contract('C04')
def fading_none(W):
    e = any_ekf(W, 'fading')
    f = e.kf
    if W.choice('predict first', [0, 1]):
        f.predict()
    x, P = W.snap(f.x), W.snap(f.P)
    f.update(None, *([W.pd('R1', e.m)] if W.choice('R', [0, 1]) else []))
    none_checks(W, f, x, P)
    for a in 'FQRH':
        W.same('model ' + a, getattr(f, a), getattr(e, a))


@contract('C04')
def square_root_none(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.SquareRootKalmanFilter(n, m)
    x, P, F, Q, H, R = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.pd('Q', n), W.mat('H', m, n), W.pd('R', m)
    f.x, f.P, f.F, f.Q, f.H, f.R = x, P, F, Q, H, R
    h = W.choice('hist', ['fresh', 'predict', 'update'])
    if h != 'fresh':
        f.predict()
    if h == 'update':
        f.update(W.vec('z0', m, 2))
    x, P, L = W.snap(f.x), W.snap(f.P), W.snap(f.P1_2)
    f.update(None, *([W.pd('R1', m)] if W.choice('R', [0, 1]) else []))
    none_checks(W, f, x, P, exact=False)
    W.same('factor', f.P1_2, L)
    W.same('Q', f.Q, f.Q1_2 @ f.Q1_2.T, exact=False)


@contract('C04')
def information_none(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.InformationFilter(n, m, compute_log_likelihood=W.choice('ll', [False, True]))
    nd = W.choice('nd', [2, 1])
    f.x, f.P_inv, f.Q, f.H, f.R_inv = W.vec('x', n, nd), W.pd('Pi', n), W.psd('Q', n), W.mat('H', m, n), W.pd('Ri', m)
    f.F = W.inv_mat('F', n)
    h = W.choice('hist', ['fresh', 'predict', 'update'])
    if h != 'fresh':
        f.predict()
    if h == 'update':
        f.compute_log_likelihood = False
        f.update(shaped(W, W.vec('z0', m, 2), nd))
    x, P = W.snap(f.x), W.snap(f.P_inv)
    f.update(None, *([W.pd('R1', m)] if W.choice('R', [0, 1]) else []))
    none_checks(W, f, x, P, post='P_inv_post', Pname='P_inv')


def some_points(W, n):
    SP = W.mods.kalman
    k = W.choice('points', ['merwe', 'julier', 'simplex'])
    if k == 'merwe':
        return SP.MerweScaledSigmaPoints(n, W.scal('al', lo=.1, hi=1), W.scal('be', lo=0, hi=3), W.scal('ka', lo=.1, hi=3))
    if k == 'julier':
        return SP.JulierSigmaPoints(n, W.scal('ka', lo=.1, hi=3))
    return SP.SimplexSigmaPoints(n)


@contract('C04')
def ukf_none(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.UnscentedKalmanFilter(n, m, W.scal('dt', pos=True), hx=W.func('h', m), fx=W.func('f', n), points=some_points(W, n))
    nh = 0 if W.symbolic else W.pyrng.randint(0, 2)
    for k in range(nh):
        f.predict()
        f.update(W.vec('z%d' % k, m, 1))
    if not nh:
        f.x, f.P = W.vec('x', n, 1), W.psd('P', n)
        f.Q, f.R = W.psd('Q', n), W.pd('R', m)
    else:
        f.predict()
    x, P, sf = W.snap(f.x), W.snap(f.P), W.snap(f.sigmas_f)
    f.update(None, *([W.pd('R1', m)] if W.choice('R', [0, 1]) else []))
    none_checks(W, f, x, P)
    W.same('sigma points', f.sigmas_f, sf)


@contract('C04')
def ckf_none(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.CubatureKalmanFilter(n, m, W.scal('dt', pos=True), hx=W.func('h', m), fx=W.func('f', n))
    nh = 0 if W.symbolic else W.pyrng.randint(0, 2)
    for k in range(nh):
        f.predict()
        f.update(W.vec('z%d' % k, m, 1))
    if not nh:
        f.x, f.P = W.vec('x', n, W.choice('nd', [1, 2])), W.psd('P', n)
        f.Q, f.R = W.psd('Q', n), W.pd('R', m)
    else:
        f.predict()
    x, P, sf = W.snap(f.x), W.snap(f.P), W.snap(f.sigmas_f)
    f.update(None, *([W.pd('R1', m)] if W.choice('R', [0, 1]) else []))
    none_checks(W, f, x, P)
    W.same('sigma points', f.sigmas_f, sf)


@contract('C04')
def enkf_none(W):
    n, m, N = W.dim('n'), W.dim('m'), W.dim('N', lo=2, hi=6)
    with W.random():
        f = W.mods.kalman.EnsembleKalmanFilter(W.vec('x', n, 1), W.pd('P', n), m, W.scal('dt', pos=True), N, W.func('h', m), W.func('f', n))
        if not W.symbolic:
            for k in range(W.pyrng.randint(0, 2)):
                f.predict()
                f.update(W.vec('z%d' % k, m, 1))
            f.predict()
        x, P, s = W.snap(f.x), W.snap(f.P), W.snap(f.sigmas)
        f.update(None, *([W.pd('R1', m)] if W.choice('R', [0, 1]) else []))
    none_checks(W, f, x, P)
    W.same('ensemble', f.sigmas, s)


@contract('C04')
def hinfinity_none(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.hinfinity.HInfinityFilter(n, m, W.dim('u', lo=0), gamma=W.scal('gamma', pos=True))
    f.x, f.P = W.vec('x', n, 2), W.pd('P', n)
    x, P = W.snap(f.x), W.snap(f.P)
    f.update(None)
    W.same('state', f.x, x)
    W.same('covariance', f.P, P)
