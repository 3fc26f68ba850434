"""C01  prediction: x = F x + B u,  P = alpha^2 F P F' + Q"""
from vf.harness import contract
from .common import *


def control(W, n, nd):
    """-> (B, u, B u)"""
    k = W.choice('control', ['none', 'mat', 'scalar'])
    if k == 'none':
        return None, None, None
    if k == 'mat':
        c = W.dim('c')
        B = W.mat('B', n, c)
        u = W.vec('u', c, nd)
        return B, u, B @ u
    B = W.vec('B', n, nd)
    u = W.scal('u')
    return B, u, B * u


@contract('C01')
def kf_predict(W):
    e = any_kf(W)
    kf = e.kf
    B, u, Bu = control(W, e.n, e.nd)
    ov = W.choice('override', ['none', 'FQ', 'B', 'Qscalar'])
    F, Q, kw = e.F, e.Q, {}
    if B is not None:
        if ov == 'B':
            kf.B = W.mat('Bold', e.n, 1)
            kw['B'] = B
        else:
            kf.B = B
        kw['u'] = u
    if ov == 'FQ':
        F, Q = W.mat('F1', e.n, e.n), W.psd('Q1', e.n)
        kw.update(F=F, Q=Q)
    if ov == 'Qscalar':
        q = W.scal('q', nonneg=True)
        Q = W.eye(e.n) * q
        kw['Q'] = q
    wx = F @ e.x if Bu is None else F @ e.x + Bu
    wP = e.alpha * e.alpha * (F @ e.P @ F.T) + Q
    gx, gP = kf.get_prediction(**kw)
    W.eq('get_prediction mean', gx, wx)
    W.eq('get_prediction covariance', gP, wP)
    kf.predict(**kw)
    W.eq('predict mean', kf.x, wx)
    W.eq('predict covariance', kf.P, wP)
    W.eq('x_prior', kf.x_prior, wx)
    W.eq('P_prior', kf.P_prior, wP)
    same_model(W, kf, e)
    # a second step uses the filter's own matrices again
    kf.predict()
    W.eq('second predict mean', kf.x, e.F @ wx)
    W.eq('second predict covariance', kf.P, e.alpha * e.alpha * (e.F @ wP @ e.F.T) + e.Q)


@contract('C01')
def kf_predict_B_unset(W):
    """u without B, B without u: no control contribution"""
    e = any_kf(W)
    kf = e.kf
    if W.choice('which', ['u', 'B']) == 'u':
        kf.predict(u=W.vec('u', W.dim('c'), e.nd))
    else:
        kf.B = W.mat('B', e.n, W.dim('c'))
        kf.predict()
    W.eq('mean', kf.x, e.F @ e.x)
    W.eq('covariance', kf.P, e.alpha * e.alpha * (e.F @ e.P @ e.F.T) + e.Q)


@contract('C01')
def kf_predict_steadystate(W):
    e = any_kf(W)
    kf = e.kf
    B, u, Bu = control(W, e.n, e.nd)
    kw = {}
    if B is not None:
        kw['u'] = u
        if W.choice('own', [1, 0]):
            kf.B = B
        else:
            kf.B = W.mat('Bold', e.n, 1)
            kw['B'] = B
    kf.predict_steadystate(**kw)
    wx = e.F @ e.x if Bu is None else e.F @ e.x + Bu
    W.eq('mean', kf.x, wx)
    W.eq('covariance untouched', kf.P, e.P)
    W.eq('x_prior', kf.x_prior, wx)
    W.eq('P_prior', kf.P_prior, e.P)
    same_model(W, kf, e)
    kf.predict()
    W.eq('next predict covariance', kf.P, e.alpha * e.alpha * (e.F @ e.P @ e.F.T) + e.Q)


@contract('C01')
def procedural_predict(W):
    nd = W.choice('nd', [2, 1])
    n = W.dim('n')
    x, P, F, Q = W.vec('x', n, nd), W.pd('P', n), W.mat('F', n, n), W.psd('Q', n)
    B, u, Bu = control(W, n, nd)
    kw = {}
    a = 1
    if W.choice('alpha', [0, 1]):
        a = W.scal('alpha', pos=True)
        kw['alpha'] = a
    if B is not None:
        kw.update(u=u, B=B)
    K = W.mods.kalman
    keep = [W.snap(v) for v in (x, P, F, Q)]
    gx, gP = K.predict(x, P, F, Q, **kw)
    wx = F @ x if Bu is None else F @ x + Bu
    W.eq('mean', gx, wx)
    W.eq('covariance', gP, a * a * (F @ P @ F.T) + Q)
    kw.pop('alpha', None)
    W.eq('steady state mean', K.predict_steadystate(x, F, **kw), wx)
    for nm, v, k in zip('xPFQ', (x, P, F, Q), keep):
        W.same('argument ' + nm, v, k)


@contract('C01')
def procedural_predict_defaults(W):
    """F, Q omitted or scalar"""
    nd = W.choice('nd', [2, 1])
    n = W.dim('n')
    x, P = W.vec('x', n, nd), W.pd('P', n)
    K = W.mods.kalman
    k = W.choice('case', ['none', 'scalarF', 'scalarQ', 'alpha'])
    f, q, a, kw = 1, 0, 1, {}
    if k == 'scalarF':
        f = W.scal('f')
        kw['F'] = f
    if k == 'alpha':
        a = W.scal('a', pos=True)
        kw['alpha'] = a
    gx, gP = K.predict(x, P, **kw)
    W.eq('mean', gx, x * f)
    W.eq('covariance', gP, a * a * f * f * P)
    if k != 'alpha':
        W.eq('steady state mean', K.predict_steadystate(x, **kw), x * f)


@contract('C01')
def procedural_predict_scalar(W):
    """plain numbers for a scalar problem"""
    x, P, F, Q, B, u, a = [W.scal(s) for s in ('x', 'P', 'F', 'Q', 'B', 'u', 'a')]
    K = W.mods.kalman
    gx, gP = K.predict(x, P, F, Q, u, B, a)
    W.eq('mean', gx, F * x + B * u, flat=True)
    W.eq('covariance', gP, a * a * F * P * F + Q, flat=True)
    W.eq('steady state mean', K.predict_steadystate(x, F, u, B), F * x + B * u, flat=True)


def any_ekf(W, cls=None):
    e = E()
    e.nd = W.choice('nd', [2, 1])
    e.n, e.m = W.dim('n'), W.dim('m')
    if cls == 'fading':
        e.alpha = W.scal('alpha', lo=1, hi=3)
        f = W.mods.kalman.FadingKalmanFilter(e.alpha, e.n, e.m)
    else:
        e.alpha = 1
        f = W.mods.kalman.ExtendedKalmanFilter(e.n, e.m)
    e.kf = f
    e.hist = W.choice('hist', ['fresh', 'pu'])
    if e.hist == 'pu':
        nops = 1 if W.symbolic else W.pyrng.randint(1, 4)
        for k in range(nops):
            set_kf(W, e, 'h%d' % k)
            f.predict()
            z = W.vec('hz%d' % k, e.m, e.nd)
            if not W.symbolic and W.pyrng.random() < .3:
                z = None
            if cls == 'fading':
                f.update(z)
            else:
                f.update(z, lambda x: e.H, lambda x: e.H @ x)
    set_kf(W, e, '')
    return e


@contract('C01')
def ekf_predict(W):
    e = any_ekf(W)
    f = e.kf
    B, u, Bu = control(W, e.n, e.nd)
    wx = e.F @ e.x
    if B is not None:
        f.B = B
        wx = wx + Bu
        f.predict(u)
    else:
        f.predict()
    wP = e.F @ e.P @ e.F.T + e.Q
    W.eq('mean', f.x, wx)
    W.eq('covariance', f.P, wP)
    W.eq('x_prior', f.x_prior, wx)
    W.eq('P_prior', f.P_prior, wP)
    W.eq('F', f.F, e.F)
    W.eq('Q', f.Q, e.Q)
    W.eq('R', f.R, e.R)


@contract('C01')
def ekf_predict_nonlinear_x(W):
    """a user override of predict_x is honoured by predict"""
    n, m = W.dim('n'), W.dim('m')
    g = W.func('g', n)
    EKF = W.mods.kalman.ExtendedKalmanFilter

    class Mine(EKF):
        def predict_x(self, u=0):
            self.x = g(self.x)
    f = Mine(n, m)
    x, P, F, Q = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.psd('Q', n)
    f.x, f.P, f.F, f.Q = x, P, F, Q
    f.predict()
    W.eq('mean', f.x, g(x))
    W.eq('covariance', f.P, F @ P @ F.T + Q)
    W.eq('x_prior', f.x_prior, g(x))


@contract('C01')
def fading_predict(W):
    e = any_ekf(W, 'fading')
    f = e.kf
    B, u, Bu = control(W, e.n, e.nd)
    wx = e.F @ e.x
    a = ()
    if B is not None:
        f.B = B
        wx = wx + Bu
        a = (u,)
    wP = e.alpha * e.alpha * (e.F @ e.P @ e.F.T) + e.Q
    gx, gP = f.get_prediction(*a)
    W.eq('get_prediction mean', gx, wx)
    W.eq('get_prediction covariance', gP, wP)
    f.predict(*a)
    W.eq('mean', f.x, wx)
    W.eq('covariance', f.P, wP)
    W.eq('x_prior', f.x_prior, wx)
    W.eq('P_prior', f.P_prior, wP)
    W.eq('F', f.F, e.F)
    W.eq('Q', f.Q, e.Q)
    W.eq('R', f.R, e.R)
    W.eq('H', f.H, e.H)


@contract('C01')
def hinfinity_predict(W):
    """the H-infinity filter: same mean, covariance left to the update"""
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.hinfinity.HInfinityFilter(n, m, W.dim('du', lo=0), gamma=W.scal('gamma', lo=.001, hi=.01))
    nd = 2
    x, P, F, H = W.vec('x', n, nd), W.pd('P', n), W.mat('F', n, n), W.mat('H', m, n)
    if W.choice('hist', [0, 1]):
        f.P, f.F, f.H, f.W, f.Q, f.V = W.pd('P0', n), F, H, W.psd('W', n), W.psd('Q', n), W.pd('V', m)
        f.predict()
        f.update(W.vec('z0', m, nd))
    f.x, f.P, f.F, f.H = W.snap(x), W.snap(P), W.snap(F), W.snap(H)
    B, u, Bu = control(W, n, nd)
    a, want = (), F @ x
    if B is not None:
        f.B = B
        want = want + Bu
        a = (u,)
    W.eq('get_prediction', f.get_prediction(*a), want)
    W.eq('get_prediction changes nothing', f.x, x)
    z = W.vec('z', m, nd)
    W.eq('residual_of', f.residual_of(z), z - H @ x)
    W.eq('measurement_of_state', f.measurement_of_state(x), H @ x)
    f.predict(*a)
    W.eq('mean', f.x, want)
    W.eq('covariance untouched', f.P, P)
    W.eq('F', f.F, F)
