"""C09  the square-root filter is equivalent to the Kalman filter"""
from vf.harness import contract
from .common import *


def sqrt_pair(W, n, m, B=None):
    """a square-root filter and the ordinary Kalman recursion on the same arbitrary model"""
    f = W.mods.kalman.SquareRootKalmanFilter(n, m)
    x, P, F, Q, H, R = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.pd('Q', n), W.mat('H', m, n), W.pd('R', m)
    f.x, f.P, f.F, f.Q, f.H, f.R = [W.snap(v) for v in (x, P, F, Q, H, R)]
    if B is not None:
        f.B = W.snap(B)
    g = RefKF(W, x, P, F, Q, H, R, B)
    return f, g, (x, P, F, Q, H, R)


def agree(W, f, g, tag, upd):
    W.eq(tag + ' x', f.x, g.x)
    W.eq(tag + ' P', f.P, g.P)
    W.eq(tag + ' P is its factor squared', f.P, f.P1_2 @ f.P1_2.T)
    if upd:
        W.eq(tag + ' K', f.K, g.K)
        W.eq(tag + ' S', f.S, g.S)
        W.eq(tag + ' SI', f.SI, g.SI)
        W.eq(tag + ' y', f.y, g.y)
        W.eq(tag + ' x_post', f.x_post, g.x)
        W.eq(tag + ' P_post', f.P_post, g.P)
    else:
        W.eq(tag + ' x_prior', f.x_prior, g.x)
        W.eq(tag + ' P_prior', f.P_prior, g.P)


@contract('C09')
def predict_agrees(W):
    n, m = W.dim('n'), W.dim('m')
    ctl = W.choice('control', ['none', 'zero', 'matrix'])
    B = W.mat('B', n, W.dim('c')) if ctl == 'matrix' else None
    f, g, _ = sqrt_pair(W, n, m, B)
    if ctl == 'matrix':
        u = W.vec('u', B.shape[1], 2)
        f.predict(u), g.predict(u)
    elif ctl == 'zero':
        f.predict(0), g.predict()
    else:
        f.predict(), g.predict()
    agree(W, f, g, 'predicted', False)
    W.eq('Q untouched', f.Q, g.Q)
    W.eq('R untouched', f.R, g.R)


@contract('C09')
def update_agrees(W):
    n, m = W.dim('n'), W.dim('m')
    f, g, (x, P, F, Q, H, R) = sqrt_pair(W, n, m)
    z = W.vec('z', m, 2)
    op = W.choice('R2', ['none', 'scalar', 'matrix'])
    if op == 'none':
        f.update(z), g.update(z)
    elif op == 'scalar':
        r = W.scal('r', pos=True)
        f.update(z, r), g.update(z, R=r * r)
    else:
        L = W.inv_mat('L', m)
        f.update(z, L), g.update(z, R=L @ L.T)
    agree(W, f, g, 'updated', True)
    W.eq('R override affects only this call', f.R, R)
    W.eq('Q untouched', f.Q, Q)
    W.eq('z recorded', f.z, z)


@contract('C09', weight=2)
def history_agrees(W):
    """a second (third …) step after any first step: no hidden state left behind"""
    n, m = W.dim('n'), W.dim('m')
    f, g, (x, P, F, Q, H, R) = sqrt_pair(W, n, m)
    if W.symbolic:
        ops = W.choice('ops', ['pp', 'up', 'pu', 'uu', 'Uu', 'nu', 'Upu'])
    else:
        ops = ''.join(W.pyrng.choice('puUn') for _ in range(W.pyrng.randint(1, 6)))
    for i, o in enumerate(ops):
        t = 'step%d' % i
        if o == 'p':
            f.predict(), g.predict()
        elif o == 'n':
            f.update(None), g.update(None)
            W.eq(t + ' P_post', f.P_post, g.P)
        else:
            z = W.vec('z%d' % i, m, 2)
            if o == 'u':
                f.update(z), g.update(z)
            else:
                L = W.inv_mat('L%d' % i, m)
                f.update(z, L), g.update(z, R=L @ L.T)
        agree(W, f, g, t, o in 'uU') if o != 'n' else None
    W.eq('final R', f.R, R)
    W.eq('final Q', f.Q, Q)


@contract('C09')
def read_back(W):
    n, m = W.dim('n'), W.dim('m')
    f, g, (x, P, F, Q, H, R) = sqrt_pair(W, n, m)
    if W.choice('hist', [0, 1]):
        f.predict()
        f.update(W.vec('z', m, 2))
        # after a history the factors are not Cholesky factors any more
    P, Q, R = W.pd('P2', n), W.pd('Q2', n), W.pd('R2', m)
    f.P = P
    W.eq('P read back', f.P, P)
    W.eq('P1_2 squared', f.P1_2 @ f.P1_2.T, P)
    f.Q = Q
    W.eq('Q read back', f.Q, Q)
    W.eq('Q1_2 squared', f.Q1_2 @ f.Q1_2.T, Q)
    f.R = R
    W.eq('R read back', f.R, R)
    W.eq('R1_2 squared', f.R1_2 @ f.R1_2.T, R)
    W.eq('P still', f.P, P)
    W.eq('Q still', f.Q, Q)
    z = W.vec('zq', m, 2)
    W.eq('residual_of', f.residual_of(z), z - f.H @ f.x)
    W.eq('measurement_of_state', f.measurement_of_state(x), f.H @ x)
    # the set model is used by the following steps
    g.x = W.snap(f.x)
    g.P, g.Q, g.R = P, Q, R
    if W.choice('then', ['p', 'u']) == 'p':
        f.predict(), g.predict()
        agree(W, f, g, 'predicted', False)
    else:
        z = W.vec('z9', m, 2)
        f.update(z), g.update(z)
        agree(W, f, g, 'updated', True)


@contract('C09')
def priors_and_posteriors(W):
    """the recorded covariances keep describing the step that produced them"""
    n, m = W.dim('n'), W.dim('m')
    f, g, (x, P, F, Q, H, R) = sqrt_pair(W, n, m)
    f.predict()
    pp = W.snap(f.P)
    W.eq('prior', f.P_prior, pp)
    f.update(W.vec('z', m, 2))
    W.eq('prior after update', f.P_prior, pp)
    po = W.snap(f.P)
    W.eq('posterior', f.P_post, po)
    f.predict()
    W.eq('posterior after predict', f.P_post, po)
    W.eq('prior after predict', f.P_prior, F @ po @ F.T + Q)
