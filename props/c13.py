"""C13  unscented and cubature filters are exact on their transform

User functions (process, measurement, mean, residual, state addition) are
arbitrary: uninterpreted functions in the deductive run.  The sigma point set
and its weights are arbitrary too (any parameters, any number of points)."""
from vf.harness import contract
from .common import *


def split(W, *dims):
    """the one-dimensional cases are explored on paths of their own"""
    if not W.symbolic:
        return dims
    W.c.symones = True
    return tuple(1 if d == 1 else d for d in dims)


class AnyPoints:
    """a sigma point generator returning arbitrary points with arbitrary weights"""

    def __init__(self, W, n):
        self.W, self.n = W, n
        self.N = W.dim('N', lo=2, hi=7)
        self.Wm, self.Wc = W.vec('Wm', self.N, 1), W.vec('Wc', self.N, 1)
        self.calls = []

    def num_sigmas(self):
        return self.N

    def sigma_points(self, x, P):
        S = self.W.mat('SP%d' % len(self.calls), self.N, self.n)
        self.calls.append((self.W.snap(x), self.W.snap(P), self.W.snap(S)))
        return S


def transform(W, S, wm, wc, noise, mean=None, res=None):
    """specification of the unscented transform"""
    x = W.col(wm).T @ S
    x = W.flat(x) if mean is None else mean
    D = W.maprows((lambda s: s - x) if res is None else (lambda s: res(s, x)), S)
    P = D.T @ W.diag(wc) @ D
    return x, (P if noise is None else P + noise), D


def spy_mean(W, name, n):
    mu = W.vec(name, n, 1)
    seen = []

    def f(S, w):
        seen.append((W.snap(S), W.snap(w)))
        return W.snap(mu)
    return f, mu, seen


@contract('C13')
def unscented_transform(W):
    n, N = W.dim('n'), W.dim('N', lo=2, hi=7)
    n, = split(W, n)
    S, wm, wc = W.mat('S', N, n), W.vec('wm', N, 1), W.vec('wc', N, 1)
    noise = W.psd('Q', n) if W.choice('noise', [0, 1]) else None
    kw, mu, res = {}, None, None
    if W.choice('mean', [0, 1]):
        kw['mean_fn'], mu, seen = spy_mean(W, 'mu', n)
    if W.choice('residual', [0, 1]):
        res = kw['residual_fn'] = W.func('r', n)
    S0 = W.snap(S)
    x, P = W.mods.kalman.unscented_transform(S, wm, wc, noise, **kw)
    wx, wP, _ = transform(W, S, wm, wc, noise, mu, res)
    W.eq('mean', x, wx)
    W.eq('covariance', P, wP)
    W.same('points unchanged', S, S0)
    if mu is not None:
        W.eq('mean function called once', len(seen), 1)
        W.eq('with the points', seen[0][0], S)
        W.eq('and the mean weights', seen[0][1], wm)


def generic_ukf(W, opts=()):
    n, m = W.dim('n'), W.dim('m')
    n, m = split(W, n, m)
    pts = AnyPoints(W, n)
    f0, h0 = W.func('f', n), W.func('h', m)
    kw, e = {}, E()
    e.xm = e.zm = e.rx = e.rz = e.add = None
    if 'x_mean' in opts:
        kw['x_mean_fn'], e.xm, e.xseen = spy_mean(W, 'xmu', n)
    if 'z_mean' in opts:
        kw['z_mean_fn'], e.zm, e.zseen = spy_mean(W, 'zmu', m)
    if 'residual_x' in opts:
        e.rx = kw['residual_x'] = W.func('rx', n)
    if 'residual_z' in opts:
        e.rz = kw['residual_z'] = W.func('rz', m)
    if 'state_add' in opts:
        e.add = kw['state_add'] = W.func('add', n)
    e.dt = W.scal('dt', pos=True)
    u = W.mods.kalman.UnscentedKalmanFilter(n, m, e.dt, hx=h0, fx=f0, points=pts, **kw)
    e.f0, e.h0 = f0, h0
    e.x, e.P, e.Q, e.R = W.vec('x', n, 1), W.pd('P', n), W.psd('Q', n), W.pd('R', m)
    u.x, u.P, u.Q, u.R = W.snap(e.x), W.snap(e.P), W.snap(e.Q), W.snap(e.R)
    e.n, e.m, e.pts, e.u = n, m, pts, u
    return e


@contract('C13')
def ukf_predict(W):
    opts = W.choice('custom', [(), ('x_mean',), ('residual_x',), ('x_mean', 'residual_x'), ('z_mean', 'residual_z', 'state_add')])
    e = generic_ukf(W, opts)
    u = e.u
    if W.choice('hist', [0, 1]):
        u.predict()
        u.update(W.vec('z0', e.m, 1))
        u.x, u.P = W.snap(e.x), W.snap(e.P)
        e.pts.calls.clear()
        [s.clear() for s in (getattr(e, 'xseen', []), getattr(e, 'zseen', []))]
    call = W.choice('call', ['plain', 'dt', 'fx', 'args', 'UT'])
    dt, f, args = e.dt, e.f0, {}
    if call == 'plain':
        u.predict()
    elif call == 'dt':
        dt = W.scal('dt2', pos=True)
        u.predict(dt)
    elif call == 'fx':
        f = W.func('f2', e.n)
        u.predict(fx=f)
    elif call == 'UT':
        u.predict(UT=other_ut(W))
    else:
        args = dict(a=W.scal('a'))
        u.predict(**args)
    W.eq('points drawn', len(e.pts.calls) >= 1, True)
    W.eq('from the state', e.pts.calls[0][0], e.x)
    W.eq('and covariance', e.pts.calls[0][1], e.P)
    F = W.maprows(lambda s: f(s, dt, **args), e.pts.calls[0][2])
    x, P, _ = transform(W, F, e.pts.Wm, e.pts.Wc, e.Q, e.xm, e.rx)
    if call == 'UT':
        P = 2 * P
    W.eq('x', u.x, x)
    W.eq('P', u.P, P)
    W.eq('x_prior', u.x_prior, x)
    W.eq('P_prior', u.P_prior, P)
    W.same('Q', u.Q, e.Q)
    W.same('R', u.R, e.R)
    if e.xm is not None:
        W.eq('mean function gets the propagated points', e.xseen[0][0], F)
        W.eq('and the mean weights', e.xseen[0][1], e.pts.Wm)


@contract('C13', weight=2)
def ukf_update(W):
    opts = W.choice('custom', [(), ('z_mean',), ('residual_z',), ('residual_x',), ('state_add',), ('x_mean', 'z_mean', 'residual_x', 'residual_z', 'state_add')])
    e = generic_ukf(W, opts)
    u = e.u
    sf = W.mat('sf', e.pts.N, e.n)
    u.sigmas_f = W.snap(sf)
    call = W.choice('call', ['plain', 'R', 'R scalar', 'hx', 'args', 'UT'])
    z = W.vec('z', e.m, 1)
    h, R, args = e.h0, e.R, {}
    if call == 'plain':
        u.update(z)
    elif call == 'R':
        R = W.pd('R1', e.m)
        u.update(z, R)
    elif call == 'R scalar':
        r = W.scal('r', pos=True)
        R = r * W.eye(e.m)
        u.update(z, r)
    elif call == 'hx':
        h = W.func('h2', e.m)
        u.update(z, hx=h)
    elif call == 'UT':
        u.update(z, UT=other_ut(W))
    else:
        args = dict(a=W.scal('a'))
        u.update(z, **args)
    Hs = W.maprows(lambda s: h(s, **args), sf)
    zp, S, Dz = transform(W, Hs, e.pts.Wm, e.pts.Wc, R, e.zm, e.rz)
    if call == 'UT':
        S = 2 * S
    Dx = W.maprows((lambda s: s - e.x) if e.rx is None else (lambda s: e.rx(s, e.x)), sf)
    y = z - zp if e.rz is None else e.rz(z, zp)
    K = Dx.T @ W.diag(e.pts.Wc) @ Dz @ W.inv(S)
    W.eq('S', u.S, S)
    W.eq('SI', u.SI, W.inv(S))
    W.eq('y', u.y, y)
    W.eq('K', u.K, K)
    W.eq('x', u.x, e.x + K @ y if e.add is None else e.add(e.x, K @ y))
    W.eq('P', u.P, e.P - K @ S @ K.T)
    W.eq('x_post', u.x_post, u.x)
    W.eq('P_post', u.P_post, u.P)
    W.eq('z', u.z, z)
    W.same('R', u.R, e.R)
    if e.zm is not None:
        W.eq('mean function gets the measured points', e.zseen[0][0], Hs)


def linear(W, n, m):
    F, H = W.mat('F', n, n), W.mat('H', m, n)
    return F, H, (lambda x, dt: F @ x), (lambda x: H @ x)


def points_for(W, n):
    K = W.mods.kalman
    c = W.choice('points', ['merwe', 'julier'])
    nk = W.scal('n_plus_kappa', lo=.1, hi=5)
    if c == 'merwe':
        return K.MerweScaledSigmaPoints(n, W.scal('alpha', lo=.05, hi=2), W.scal('beta', lo=-1, hi=4), nk - n)
    return K.JulierSigmaPoints(n, nk - n)


@contract('C13')
def ukf_linear(W):
    """linear models: predict and update equal the Kalman filter's"""
    n, m = W.dim('n'), W.dim('m')
    n, m = split(W, n, m)
    F, H, f, h = linear(W, n, m)
    u = W.mods.kalman.UnscentedKalmanFilter(n, m, W.scal('dt', pos=True), hx=h, fx=f, points=points_for(W, n))
    x, P, Q, R = W.vec('x', n, 1), W.pd('P', n), W.psd('Q', n), W.pd('R', m)
    u.x, u.P, u.Q, u.R = W.snap(x), W.snap(P), W.snap(Q), W.snap(R)
    g = RefKF(W, x, P, F, Q, H, R)
    u.predict(), g.predict()
    W.eq('predicted x', u.x, g.x)
    W.eq('predicted P', u.P, g.P)
    z = W.vec('z', m, 1)
    u.update(z), g.update(z)
    W.eq('S', u.S, g.S)
    W.eq('K', u.K, g.K)
    W.eq('x', u.x, g.x)
    W.eq('P', u.P, g.P)


@contract('C13', sym=False)
def linear_history(W):
    """concrete cross-check over longer histories, all point sets"""
    n, m = W.dim('n'), W.dim('m')
    n, m = split(W, n, m)
    F, H, f, h = linear(W, n, m)
    K = W.mods.kalman
    c = W.choice('filter', ['ukf', 'simplex', 'ckf'])
    if c == 'ckf':
        u = K.CubatureKalmanFilter(n, m, 1., hx=h, fx=f)
    else:
        u = K.UnscentedKalmanFilter(n, m, 1., hx=h, fx=f, points=points_for(W, n) if c == 'ukf' else K.SimplexSigmaPoints(n))
    x, P, Q, R = W.vec('x', n, 1), W.pd('P', n), W.pd('Q', n), W.pd('R', m)
    u.x, u.P, u.Q, u.R = W.snap(x), W.snap(P), W.snap(Q), W.snap(R)
    g = RefKF(W, x, P, F, Q, H, R)
    for i in range(W.pyrng.randint(1, 4)):
        u.predict(), g.predict()
        W.eq('predicted x', u.x, g.x, flat=True, tol=1e-6)
        W.eq('predicted P', u.P, g.P, tol=1e-6)
        if W.pyrng.random() < .8:
            z = W.vec('z', m, 1)
            u.update(z), g.update(z)
            W.eq('x', u.x, g.x, flat=True, tol=1e-6)
            W.eq('P', u.P, g.P, tol=1e-6)


def generic_ckf(W):
    e = E()
    e.n, e.m = n, m = split(W, W.dim('n'), W.dim('m'))
    e.f0, e.h0 = W.func('f', n), W.func('h', m)
    e.dt = W.scal('dt', pos=True)
    e.nd = W.choice('nd', [2, 1])
    e.u = u = W.mods.kalman.CubatureKalmanFilter(n, m, e.dt, hx=e.h0, fx=e.f0)
    e.x, e.P, e.Q, e.R = W.vec('x', n, e.nd), W.pd('P', n), W.psd('Q', n), W.pd('R', m)
    u.x, u.P, u.Q, u.R = W.snap(e.x), W.snap(e.P), W.snap(e.Q), W.snap(e.R)
    return e


def cub(W, S, N, noise):
    w = W.ones(N) / N
    return transform(W, S, w, w, noise)


@contract('C13')
def ckf_predict(W):
    e = generic_ckf(W)
    u = e.u
    sr = W.module('kalman.CubatureKalmanFilter').spherical_radial_sigmas
    if W.choice('hist', [0, 1]):
        u.predict()
        u.update(W.vec('z0', e.m, 1))
        u.x, u.P = W.snap(e.x), W.snap(e.P)
    dt, args = e.dt, ()
    call = W.choice('call', ['plain', 'dt', 'arg', 'args'])
    if call == 'plain':
        u.predict()
    elif call == 'dt':
        dt = W.scal('dt2', pos=True)
        u.predict(dt)
    else:
        a = W.scal('a')
        args = (a,) if call == 'arg' else (a, W.scal('b'))
        u.predict(fx_args=a if call == 'arg' else args)
    F = W.maprows(lambda s: e.f0(s, dt, *args), sr(e.x, e.P))
    x, P, _ = cub(W, F, 2 * e.n, e.Q)
    W.eq('x', W.col(u.x), W.col(x))
    W.eq('P', u.P, P)
    W.eq('x_prior', W.col(u.x_prior), W.col(x))
    W.eq('P_prior', u.P_prior, P)
    W.same('Q', u.Q, e.Q)


@contract('C13')
def ckf_update(W):
    e = generic_ckf(W)
    if e.nd == 1:
        W.done()            # after a prediction the state is a column
    u = e.u
    N = 2 * e.n
    sf = W.mat('sf', N, e.n)
    u.sigmas_f = W.snap(sf)
    z = W.vec('z', e.m, W.choice('znd', [1, 2]))
    R, args = e.R, ()
    call = W.choice('call', ['plain', 'R', 'R scalar', 'arg', 'args'])
    if call == 'plain':
        u.update(z)
    elif call == 'R':
        R = W.pd('R1', e.m)
        u.update(z, R)
    elif call == 'R scalar':
        r = W.scal('r', pos=True)
        R = r * W.eye(e.m)
        u.update(z, r)
    else:
        a = W.scal('a')
        args = (a,) if call == 'arg' else (a, W.scal('b'))
        u.update(z, hx_args=a if call == 'arg' else args)
    Hs = W.maprows(lambda s: e.h0(s, *args), sf)
    zp, S, Dz = cub(W, Hs, N, R)
    Dx = W.maprows(lambda s: s - W.flat(e.x), sf)
    K = Dx.T @ Dz / N @ W.inv(S)
    y = W.col(z) - W.col(zp)
    W.eq('S', u.S, S)
    W.eq('K', u.K, K)
    W.eq('y', W.col(u.y), y)
    W.eq('x', u.x, e.x + K @ y)
    W.eq('P', u.P, e.P - K @ S @ K.T)
    W.eq('x_post', u.x_post, u.x)
    W.eq('P_post', u.P_post, u.P)
    W.eq('z', u.z, z)


@contract('C13')
def ckf_linear(W):
    n, m = W.dim('n'), W.dim('m')
    n, m = split(W, n, m)
    F, H, f, h = linear(W, n, m)
    u = W.mods.kalman.CubatureKalmanFilter(n, m, W.scal('dt', pos=True), hx=h, fx=f)
    x, P, Q, R = W.vec('x', n, W.choice('nd', [1, 2])), W.pd('P', n), W.psd('Q', n), W.pd('R', m)
    u.x, u.P, u.Q, u.R = W.snap(x), W.snap(P), W.snap(Q), W.snap(R)
    g = RefKF(W, W.col(x), P, F, Q, H, R)
    u.predict(), g.predict()
    W.eq('predicted x', W.col(u.x), g.x)
    W.eq('predicted P', u.P, g.P)
    z = W.vec('z', m, 1)
    u.update(z), g.update(W.col(z))
    W.eq('S', u.S, g.S)
    W.eq('K', u.K, g.K)
    W.eq('x', W.col(u.x), g.x)
    W.eq('P', u.P, g.P)
