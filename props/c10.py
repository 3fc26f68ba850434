"""C10  the information filter is equivalent to the Kalman filter

Kalman side: the recursion of the contracts proved under C01/C02 (RefKF).
Information side: the real class, started from P_inv = inverse of any pd P."""
from vf.harness import contract
from .common import *


def info_pair(W, n, m, nd, ll=False, B=None):
    f = W.mods.kalman.InformationFilter(n, m, compute_log_likelihood=ll)
    x, P, F, Q, H, R = W.vec('x', n, nd), W.pd('P', n), W.inv_mat('F', n), W.psd('Q', n), W.mat('H', m, n), W.pd('R', m)
    f.x, f.P_inv, f.F, f.Q, f.H, f.R_inv = W.snap(x), W.inv(P), W.snap(F), W.snap(Q), W.snap(H), W.inv(R)
    if B is not None:
        f.B = W.snap(B)
    return f, RefKF(W, x, P, F, Q, H, R, B)


def agree(W, f, g, tag, kind):
    # information form and covariance form are compared through products with the
    # (invertible) information matrix
    Y = f.P_inv
    W.eq(tag + ' P_inv is the inverse of P', Y @ g.P, W.eye(g.P.shape[0]))
    W.eq_left(tag + ' P', Y, f.P, g.P)
    if kind == 'u':
        W.eq_left(tag + ' x', Y, f.x, g.x)
        W.eq_left(tag + ' K', Y, f.K, g.K)
        W.eq(tag + ' y', f.y, g.y)
        W.eq(tag + ' x_post', f.x_post, f.x)
        W.eq(tag + ' P_inv_post', f.P_inv_post, f.P_inv)
    else:
        W.eq(tag + ' x', f.x, g.x)
        W.eq(tag + ' x_prior', f.x_prior, f.x)
        W.eq(tag + ' P_inv_prior', f.P_inv_prior, f.P_inv)


@contract('C10')
def predict_agrees(W):
    n, m = W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    ctl = W.choice('control', ['none', 'matrix'])
    B = W.mat('B', n, W.dim('c')) if ctl == 'matrix' else None
    f, g = info_pair(W, n, m, nd, B=B)
    if ctl == 'matrix':
        u = W.vec('u', B.shape[1], nd)
        f.predict(u), g.predict(u)
    else:
        f.predict(), g.predict()
    agree(W, f, g, 'predicted', 'p')


@contract('C10')
def update_agrees(W):
    n, m = W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    f, g = info_pair(W, n, m, nd, ll=W.choice('ll', [0, 1]))
    z = W.vec('z', m, nd)
    Ri = f.R_inv
    op = W.choice('R_inv', ['none', 'scalar', 'matrix'])
    if op == 'none':
        f.update(z), g.update(z)
    elif op == 'scalar':
        r = W.scal('r', pos=True)
        f.update(z, 1 / r), g.update(z, R=r)
    else:
        R1 = W.pd('R1', m)
        f.update(z, W.inv(R1)), g.update(z, R=R1)
    agree(W, f, g, 'updated', 'u')
    W.eq('R_inv override affects only this call', f.R_inv, W.inv(g.R))
    W.eq('z recorded', f.z, z)
    if f.compute_log_likelihood:
        W.eq('log-likelihood of the innovation', f.log_likelihood, W.logpdf(g.y, g.S))


@contract('C10', weight=2)
def history_agrees(W):
    """any second step after any first step, and the recorded prior/posterior survive"""
    n, m = W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    f, g = info_pair(W, n, m, nd)
    if W.symbolic:
        ops = W.choice('ops', ['pp', 'up', 'pu', 'uu', 'Uu', 'nu'])
    else:
        ops = ''.join(W.pyrng.choice('puUnF') for _ in range(W.pyrng.randint(1, 5)))
    prior = post = None
    for i, o in enumerate(ops):
        t = 'step%d' % i
        if o == 'F':
            g.F = W.inv_mat('F%d' % i, n)
            f.F = W.snap(g.F)
            continue
        if o == 'p':
            f.predict(), g.predict()
            agree(W, f, g, t, 'p')
            prior = W.snap(f.x), W.snap(f.P_inv)
        elif o == 'n':
            f.update(None)
            post = W.snap(f.x), W.snap(f.P_inv)
            W.eq(t + ' x after missing measurement', f.x, g.x)
        else:
            z = W.vec('z%d' % i, m, nd)
            if o == 'u':
                f.update(z), g.update(z)
            else:
                R1 = W.pd('R%d' % i, m)
                f.update(z, W.inv(R1)), g.update(z, R=R1)
            agree(W, f, g, t, 'u')
            post = W.snap(f.x), W.snap(f.P_inv)
        if W.symbolic:
            # the step agrees; continue from an arbitrary state (induction over steps),
            # keeping everything else the step left in the object
            x, P = W.vec('x_%d' % i, n, nd), W.pd('P_%d' % i, n)
            f.x, f.P_inv, g.x, g.P = W.snap(x), W.inv(P), x, P
        if prior:
            W.same(t + ' recorded prior', (f.x_prior, f.P_inv_prior), prior)
        if post:
            W.same(t + ' recorded posterior', (f.x_post, f.P_inv_post), post)


@contract('C10')
def changed_transition(W):
    """setting F takes effect on the next prediction, whatever was used before"""
    n, m = W.dim('n'), W.dim('m')
    f, g = info_pair(W, n, m, 2)
    f.predict(), g.predict()
    F2 = W.inv_mat('F2', n)
    f.F = W.snap(F2)
    W.eq('F read back', f.F, F2)
    # from an arbitrary state again
    P = W.pd('P2', n)
    f.P_inv, g.P = W.inv(P), P
    f.predict(), g.predict(F=F2)
    agree(W, f, g, 'predicted', 'p')
    # the same matrix object, changed in place and assigned again
    F3 = W.inv_mat('F3', n)
    M = f.F
    M[:, :] = F3
    f.F = M
    W.eq('F read back', f.F, F3)
    f.P_inv, g.P = W.inv(P), P
    f.predict(), g.predict(F=F3)
    agree(W, f, g, 'predicted after a change in place', 'p')
