"""C02  measurement update is the exact linear-Gaussian posterior"""
from vf.harness import contract
from .common import *
from .c01 import any_ekf


def posterior(W, x, P, H, R, z, y=None):
    """defining formulas (z, x as columns)"""
    S = H @ P @ H.T + R
    SI = W.inv(S)
    K = P @ H.T @ SI
    if y is None:
        y = z - H @ W.col(x)
    return y, S, SI, K, W.col(x) + K @ y, P - K @ H @ P


def check_update(W, f, e, want, z, nd, tag='', zraw=None):
    y, S, SI, K, px, pP = want
    W.eq(tag + 'innovation', f.y, shaped(W, y, nd))
    W.eq(tag + 'S', f.S, S)
    W.eq(tag + 'SI', f.SI, SI)
    W.eq(tag + 'gain', f.K, K)
    W.eq(tag + 'posterior mean', f.x, shaped(W, px, nd))
    W.eq(tag + 'posterior covariance', f.P, pP)
    W.eq(tag + 'x_post', f.x_post, shaped(W, px, nd))
    W.eq(tag + 'P_post', f.P_post, pP)
    W.eq(tag + 'z', f.z, z, flat=True)


@contract('C02', weight=2)
def kf_update(W):
    case = W.choice('case', ['plain', 'R', 'Rscalar', 'H', 'HR', 'scalar_z', 'list'])
    e = any_kf(W, m=1 if case == 'scalar_z' else None, alpha=False, hists=('fresh', 'pu', 'none') if case in ('plain', 'HR') else ('pu',))
    kf = e.kf
    H, R, m, kw = e.H, e.R, e.m, {}
    if case in ('H', 'HR'):
        m = e.m if case == 'HR' else W.dim('m1')
        H = W.mat('H1', m, e.n)
        R = W.pd('R1', m)
        kw['H'] = H
        kw['R'] = R
    elif case == 'R':
        R = W.pd('R1', m)
        kw['R'] = R
    elif case == 'Rscalar':
        r = W.scal('r', pos=True)
        R = W.eye(m) * r
        kw['R'] = r
    if case in ('H', 'HR'):
        z, zc = layout(W, 'z', m, e.nd, ['col' if e.nd == 2 else 'flat'])
    elif case == 'scalar_z':
        z, zc = layout(W, 'z', 1, e.nd, ['scalar'])
    elif case == 'list':
        z, zc = layout(W, 'z', m, e.nd, ['list'] if not W.symbolic else ['flat'])
    else:
        z, zc = layout(W, 'z', m, e.nd)
    want = posterior(W, e.x, e.P, H, R, zc)
    if not kw:
        gx, gP = kf.get_update(z)
        W.eq('get_update mean', gx, shaped(W, want[4], e.nd))
        W.eq('get_update covariance', gP, want[5])
    kf.update(z, **kw)
    check_update(W, kf, e, want, zc, e.nd)
    same_model(W, kf, e)
    # the overrides do not outlive the call
    z2 = shaped(W, W.vec('z2', e.m, 2), e.nd)
    want = posterior(W, want[4], want[5], e.H, e.R, W.col(z2))
    kf.update(z2)
    W.eq('second gain', kf.K, want[3])
    W.eq('second posterior mean', kf.x, shaped(W, want[4], e.nd))
    W.eq('second posterior covariance', kf.P, want[5])


@contract('C02')
def procedural_update(W):
    nd = W.choice('nd', [2, 1])
    n = W.dim('n')
    sc = W.choice('scalar_z', [0, 1])
    m = 1 if sc else W.dim('m')
    x, P, H, R = W.vec('x', n, nd), W.pd('P', n), W.mat('H', m, n), W.pd('R', m)
    z, zc = layout(W, 'z', m, nd, ['scalar'] if sc else None)
    keep = [W.snap(v) for v in (x, P, H, R)]
    y, S, SI, K, px, pP = posterior(W, x, P, H, R, zc)
    KM = W.mods.kalman
    gx, gP = KM.update(x, P, z, R, H)
    W.eq('mean', gx, shaped(W, px, nd))
    W.eq('covariance', gP, pP)
    r = KM.update(x, P, z, R, H, return_all=True)
    W.eq('all: mean', r[0], shaped(W, px, nd))
    W.eq('all: covariance', r[1], pP)
    W.eq('all: innovation', r[2], shaped(W, y, nd))
    W.eq('all: gain', r[3], K)
    W.eq('all: S', r[4], S)
    Kg = W.mat('Kg', n, m)
    W.eq('steady-state mean', KM.update_steadystate(x, z, Kg, H), shaped(W, W.col(x) + Kg @ y, nd))
    for nm, v, k in zip('xPHR', (x, P, H, R), keep):
        W.same('argument ' + nm, v, k)


@contract('C02')
def procedural_update_scalar(W):
    """plain numbers for a one-dimensional problem"""
    x, z = W.scal('x'), W.scal('z')
    P, R = W.scal('P', pos=True), W.scal('R', pos=True)
    KM = W.mods.kalman
    h = 1
    kw = {}
    if W.choice('H', ['default', 'number']) == 'number':
        h = W.scal('h')
        kw['H'] = h
    S = h * P * h + R
    K = P * h / S
    y = z - h * x
    gx, gP = KM.update(x, P, z, R, **kw)
    W.eq('mean', gx, x + K * y, flat=True)
    W.eq('variance', gP, P - K * h * P, flat=True)
    r = KM.update(x, P, z, R, return_all=True, **kw)
    W.eq('all: mean', r[0], x + K * y, flat=True)
    W.eq('all: variance', r[1], P - K * h * P, flat=True)
    W.eq('all: innovation', r[2], y, flat=True)
    W.eq('all: gain', r[3], K, flat=True)
    W.eq('all: S', r[4], S, flat=True)
    g = W.scal('g')
    W.eq('steady-state mean', KM.update_steadystate(x, z, g, **kw), x + g * y, flat=True)


def ekf_model(W, e):
    J, h = W.jac('J', e.m, e.n), W.func('h', e.m)
    ja = ha = ()
    kw = {}
    if W.choice('args', [0, 1]):
        p, q = W.scal('p'), W.scal('q')
        ja, ha = (p,), (q, p)
        kw = dict(args=(p,), hx_args=(q, p))
        if W.choice('tuple', [0, 1]):            # a single argument need not be in a tuple
            ha, kw = (q,), dict(args=p, hx_args=q)
    return J, h, ja, ha, kw


@contract('C02')
def ekf_update(W):
    e = any_ekf(W)
    f = e.kf
    J, h, ja, ha, kw = ekf_model(W, e)
    z = W.vec('z', e.m, e.nd)
    R = e.R
    c = W.choice('case', ['plain', 'R', 'Rscalar', 'residual'])
    hx = h(e.x, *ha)
    y = z - hx
    if c == 'R':
        R = W.pd('R1', e.m)
        kw['R'] = R
    elif c == 'Rscalar':
        r = W.scal('r', pos=True)
        R = W.eye(e.m) * r
        kw['R'] = r
    elif c == 'residual':
        rf = W.func('res', e.m)
        kw['residual'] = lambda a, b: rf(a - b)
        y = rf(z - hx)
    H = J(e.x, *ja)
    want = posterior(W, e.x, e.P, H, R, None, W.col(y))
    f.update(z, J, h, **kw)
    check_update(W, f, e, want, z, e.nd)
    W.eq('R', f.R, e.R)
    W.eq('F', f.F, e.F)
    W.eq('Q', f.Q, e.Q)


@contract('C02')
def ekf_update_scalar_z(W):
    e = E()
    e.n, e.m = W.dim('n'), 1
    e.nd = W.choice('nd', [1, 2])
    f = W.mods.kalman.ExtendedKalmanFilter(e.n, 1)
    e.kf = f
    set_kf(W, e, '')
    J, h, ja, ha, kw = ekf_model(W, e)
    z = W.scal('z')
    want = posterior(W, e.x, e.P, J(e.x, *ja), e.R, None, W.col(z) - W.col(h(e.x, *ha)))
    f.update(z, J, h, **kw)
    check_update(W, f, e, want, z, e.nd)


@contract('C02')
def ekf_predict_update(W):
    e = any_ekf(W)
    f = e.kf
    J, h, ja, ha, kw = ekf_model(W, e)
    z = W.vec('z', e.m, e.nd)
    xp = e.F @ e.x
    if W.choice('u', [0, 1]):
        B, u = W.mat('B', e.n, W.dim('c')), None
        u = W.vec('u', B.shape[1], e.nd)
        f.B = B
        kw['u'] = u
        xp = xp + B @ u
    Pp = e.F @ e.P @ e.F.T + e.Q
    y = W.col(z) - W.col(h(xp, *ha))
    want = posterior(W, xp, Pp, J(xp, *ja), e.R, None, y)
    f.predict_update(z, J, h, **kw)
    check_update(W, f, e, want, z, e.nd)
    W.eq('x_prior', f.x_prior, xp)
    W.eq('P_prior', f.P_prior, Pp)


@contract('C02')
def fading_update(W):
    e = any_ekf(W, 'fading')
    f = e.kf
    z = W.vec('z', e.m, e.nd)
    c = W.choice('case', ['plain', 'R', 'Rscalar'])
    R, kw = e.R, {}
    if c == 'R':
        R = W.pd('R1', e.m)
        kw['R'] = R
    elif c == 'Rscalar':
        r = W.scal('r', pos=True)
        R = W.eye(e.m) * r
        kw['R'] = r
    want = posterior(W, e.x, e.P, e.H, R, W.col(z))
    W.eq('residual_of', f.residual_of(z), shaped(W, want[0], e.nd))
    W.eq('measurement_of_state', f.measurement_of_state(e.x), e.H @ e.x)
    f.update(z, **kw)
    check_update(W, f, e, want, z, e.nd)
    for a in 'FQHR':
        W.eq('model ' + a, getattr(f, a), getattr(e, a))
