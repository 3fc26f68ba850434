"""C16  ensemble filter statistics match its ensemble

The process and measurement functions are arbitrary, every noise draw is
arbitrary (recorded, not sampled), the size of the ensemble is symbolic."""
from vf.harness import contract
from .common import *


def split(W, *dims):
    if not W.symbolic:
        return dims
    W.c.symones = True
    return tuple(1 if d == 1 else d for d in dims)


def noise(W, draws, cov, dim, N, tag):
    """the members' noise draws (N rows), drawn from N(0, cov)"""
    rows = []
    for kind, a, k, v in draws:
        if kind != 'multivariate_normal':
            W.done()                 # drawn in some other way: not decided here
        a = dict(zip(('mean', 'cov', 'size'), a))
        a.update(k)
        W.eq(tag + ' draw: zero mean', W.flat(a['mean']), W.zeros(dim))
        W.eq(tag + ' draw: covariance', a['cov'], cov)
        v = W.vstack(v) if getattr(v, 'ndim', 2) == 1 else v
        rows.append(v)
    if not rows:
        W.eq(tag + ': noise drawn', False, True)
        W.done()
    E_ = rows[0] if len(rows) == 1 else W.vstack(*rows)
    W.eq(tag + ' draw: one row per member', E_.shape[0] == N, True)
    return E_


def filt(W, hist=True):
    e = E()
    e.n, e.m = split(W, W.dim('n'), W.dim('m'))
    e.N = W.dim('N', lo=2, hi=9)
    e.f, e.h = W.func('f', e.n), W.func('h', e.m)
    e.dt = W.scal('dt', pos=True)
    e.x0, e.P0 = W.vec('x0', e.n, 1), W.pd('P0', e.n)
    with W.random() as e.init:
        e.u = W.mods.kalman.EnsembleKalmanFilter(W.snap(e.x0), W.snap(e.P0), e.m, e.dt, e.N, e.h, e.f)
    if hist and W.choice('hist', [0, 1]):
        with W.random():
            e.u.predict()
            e.u.update(W.vec('zh', e.m, 1))
    if hist:
        e.X = W.mat('X', e.N, e.n)
        e.x, e.P = W.vec('x', e.n, 1), W.pd('P', e.n)
        e.Q, e.R = W.psd('Q', e.n), W.pd('R', e.m)
        e.u.sigmas, e.u.x, e.u.P, e.u.Q, e.u.R = [W.snap(v) for v in (e.X, e.x, e.P, e.Q, e.R)]
    return e


def stats(W, X, N):
    m = W.flat(X.T @ W.col(W.ones(N)) / N)
    D = X - W.col(W.ones(N)) @ W.col(m).T
    return m, D


@contract('C16')
def construct(W):
    e = filt(W, hist=False)
    u = e.u
    W.eq('x', u.x, e.x0)
    W.eq('P', u.P, e.P0)
    W.eq('x_post', u.x_post, e.x0)
    W.eq('P_prior', u.P_prior, e.P0)
    if len(e.init) == 1 and e.init[0][0] == 'multivariate_normal':
        kind, a, k, v = e.init[0]
        a = dict(zip(('mean', 'cov', 'size'), a))
        a.update(k)
        W.eq('ensemble drawn around the mean', a['mean'], e.x0)
        W.eq('with the covariance', a['cov'], e.P0)
        W.eq('N members', a['size'] == e.N, True)
        W.eq('ensemble', u.sigmas, v)
    y = W.vec('y', e.n, 1)
    C = W.pd('C', e.n)
    with W.random() as d:
        u.initialize(W.snap(y), W.snap(C))
    W.eq('re-initialised x', u.x, y)
    W.eq('re-initialised P', u.P, C)
    if len(d) == 1 and d[0][0] == 'multivariate_normal':
        W.eq('ensemble after initialize', u.sigmas, d[0][3])


@contract('C16')
def predict(W):
    e = filt(W)
    u = e.u
    with W.random() as d:
        u.predict()
    w = noise(W, d, e.Q, e.n, e.N, 'process')
    X = W.maprows(lambda s: e.f(s, e.dt), e.X) + w
    m, D = stats(W, X, e.N)
    W.eq('ensemble', u.sigmas, X)
    W.eq('x', u.x, m)
    W.eq('P', u.P, D.T @ D / (e.N - 1))
    W.eq('x_prior', u.x_prior, m)
    W.eq('P_prior', u.P_prior, D.T @ D / (e.N - 1))
    W.eq('Q', u.Q, e.Q)
    W.eq('R', u.R, e.R)


@contract('C16')
def update(W):
    e = filt(W)
    u = e.u
    # the state estimate before an update is the mean of the ensemble
    xm = stats(W, e.X, e.N)[0]
    if W.choice('x is the ensemble mean', [1, 0]):
        e.x = xm
        u.x = W.snap(xm)
    call = W.choice('call', ['plain', 'R', 'R scalar'])
    R, args = e.R, []
    if call == 'R':
        R = W.pd('R1', e.m)
        args = [W.snap(R)]
    elif call == 'R scalar':
        r = W.scal('r', pos=True)
        R, args = r * W.eye(e.m), [r]
    z = W.vec('z', e.m, 1)
    with W.random() as d:
        u.update(W.snap(z), *args)
    w = noise(W, d, R, e.m, e.N, 'measurement')
    one = W.col(W.ones(e.N))
    H = W.maprows(e.h, e.X)
    zm, Dz = stats(W, H, e.N)
    S = Dz.T @ Dz / (e.N - 1) + R
    K = (e.X - one @ W.col(e.x).T).T @ Dz / (e.N - 1) @ W.inv(S)
    X = e.X + (one @ W.col(z).T + w - H) @ K.T
    W.eq('S', u.S, S)
    W.eq('SI', u.SI, W.inv(S))
    W.eq('K', u.K, K)
    W.eq('ensemble', u.sigmas, X)
    W.eq('x', u.x, stats(W, X, e.N)[0])
    W.eq('P', u.P, e.P - K @ S @ K.T)
    W.eq('x_post', u.x_post, u.x)
    W.eq('P_post', u.P_post, u.P)
    W.eq('z', u.z, z)
    W.eq('R', u.R, e.R)
    W.eq('Q', u.Q, e.Q)


@contract('C16', sym=False)
def history(W):
    """statistics after every step of random histories"""
    e = filt(W)
    u = e.u
    for i in range(W.pyrng.randint(1, 6)):
        x, P, X = W.snap(u.x), W.snap(u.P), W.snap(u.sigmas)
        if W.pyrng.random() < .5:
            with W.random() as d:
                u.predict()
            X = W.maprows(lambda s: e.f(s, e.dt), X) + noise(W, d, e.Q, e.n, e.N, 'process')
            m, D = stats(W, X, e.N)
            W.eq('P', u.P, D.T @ D / (e.N - 1))
        else:
            z = W.vec('z', e.m, 1)
            R, a = e.R, []
            if W.pyrng.random() < .4:
                r = W.scal('r', pos=True)
                R, a = r * W.eye(e.m), [r]
            with W.random() as d:
                u.update(z, *a)
            w = noise(W, d, R, e.m, e.N, 'measurement')
            one = W.col(W.ones(e.N))
            H = W.maprows(e.h, X)
            Dz = stats(W, H, e.N)[1]
            S = Dz.T @ Dz / (e.N - 1) + R
            K = (X - one @ W.col(x).T).T @ Dz / (e.N - 1) @ W.inv(S)
            X = X + (one @ W.col(z).T + w - H) @ K.T
            W.eq('P', u.P, P - K @ S @ K.T)
        W.eq('ensemble', u.sigmas, X)
        W.eq('x', u.x, stats(W, X, e.N)[0])
