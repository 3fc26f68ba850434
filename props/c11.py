"""C11  sequential, correlated and steady-state updates match the joint update

Sequential updates.  One step: contract `sequential_step` (from an arbitrary
state, block of any size at any place).  Composition: `two_blocks_are_joint`
runs two real block updates and compares with the joint posterior; since the
first block may itself be a joint block of any size, induction over the blocks
gives any partition."""
from vf.harness import contract
from .common import *


def blocks(W, k=2):
    n = W.dim('n')
    ms = [W.dim('m%d' % i) for i in range(k)]
    M = sum(ms)
    if W.symbolic:
        [bool(m == 1) for m in ms]      # case split first: one-element blocks take another branch
    kf = W.mods.kalman.KalmanFilter(dim_x=n, dim_z=M)
    x, P = W.vec('x', n, 2), W.pd('P', n)
    Hs = [W.mat('H%d' % i, m, n) for i, m in enumerate(ms)]
    Rs = [W.pd('R%d' % i, m) for i, m in enumerate(ms)]
    zs = [W.vec('z%d' % i, m, 2) for i, m in enumerate(ms)]
    kf.x, kf.P = W.snap(x), W.snap(P)
    kf.H, kf.R = W.vstack(*Hs), W.block_diag(*Rs)
    return kf, n, ms, x, P, Hs, Rs, zs


@contract('C11')
def sequential_step(W):
    """one block: the state moves to the posterior for that block; the other
    entries of the recorded innovation, gain and measurement are untouched"""
    kf, n, (a, b, c), x, P, Hs, Rs, zs = blocks(W, 3)
    K0, y0, z0 = W.mat('K0', n, a + b + c), W.vec('y0', a + b + c, 2), W.vec('zz', a + b + c, 2)
    kf.K, kf.y, kf.z = W.snap(K0), W.snap(y0), W.snap(z0)
    R, H, kw = Rs[1], Hs[1], {}
    H0, R0 = W.snap(kf.H), W.snap(kf.R)
    o = W.choice('override', ['none', 'R matrix', 'R scalar', 'H', 'both'])
    if o in ('R matrix', 'both'):
        R = kw['R_i'] = W.pd('R9', b)
    if o == 'R scalar':
        r = kw['R_i'] = W.scal('r', pos=True)
        R = r * W.eye(b)
    if o in ('H', 'both'):
        H = kw['H_i'] = W.mat('H9', b, n)
    lay = W.choice('z_layout', ['col', 'flat'])
    z = zs[1]
    kf.update_sequential(a, z if lay == 'col' else W.flat(z), **kw)
    g = RefKF(W, x, P, None, None, H, R)
    g.update(z)
    W.eq('x', kf.x, g.x)
    W.eq('P', kf.P, g.P)
    W.eq('x_post', kf.x_post, g.x)
    W.eq('P_post', kf.P_post, g.P)
    W.eq('K block', kf.K[:, a:a + b], g.K)
    W.eq('y block', kf.y[a:a + b], g.y)
    W.eq('z block', kf.z[a:a + b], z)
    for nm, lo, hi in (('before', 0, a), ('after', a + b, a + b + c)):
        W.eq('K ' + nm, kf.K[:, lo:hi], K0[:, lo:hi])
        W.eq('y ' + nm, kf.y[lo:hi], y0[lo:hi])
        W.eq('z ' + nm, kf.z[lo:hi], z0[lo:hi])
    W.same('H kept', kf.H, H0)
    W.same('R kept', kf.R, R0)


@contract('C11')
def sequential_scalar(W):
    """a scalar measurement component"""
    n = W.dim('n')
    a, c = W.dim('a'), W.dim('c')
    m = a + 1 + c
    kf = W.mods.kalman.KalmanFilter(dim_x=n, dim_z=m)
    x, P, H0, H1, H2 = W.vec('x', n, 2), W.pd('P', n), W.mat('H0', a, n), W.mat('H1', 1, n), W.mat('H2', c, n)
    r, z = W.scal('r', pos=True), W.scal('z')
    kf.x, kf.P, kf.H = W.snap(x), W.snap(P), W.vstack(H0, H1, H2)
    kf.R = W.block_diag(W.pd('R0', a), r * W.eye(1), W.pd('R2', c))
    rr, kw = r, {}
    if W.choice('R_i', [0, 1]):
        rr = kw['R_i'] = W.scal('r9', pos=True)
    kf.update_sequential(a, z, **kw)
    g = RefKF(W, x, P, None, None, H1, rr)
    g.update(z * W.eye(1))
    W.eq('x', kf.x, g.x)
    W.eq('P', kf.P, g.P)
    W.eq('K column', kf.K[:, a:a + 1], g.K)
    W.eq('y entry', kf.y[a:a + 1], g.y)


@contract('C11')
def two_blocks_are_joint(W):
    kf, n, (a, b), x, P, Hs, Rs, zs = blocks(W, 2)
    kf.z = W.vec('z0', a + b, 2)
    order = W.choice('order', [0, 1])
    if order == 0:
        kf.update_sequential(0, zs[0])
        kf.update_sequential(a, zs[1])
    else:
        kf.update_sequential(a, zs[1])
        kf.update_sequential(0, zs[0])
    # joint posterior in information form: Y = P^-1 + H'R^-1 H, Y x' = P^-1 x + H'R^-1 z
    inv = W.inv
    Y = inv(P) + Hs[0].T @ inv(Rs[0]) @ Hs[0] + Hs[1].T @ inv(Rs[1]) @ Hs[1]
    W.eq('joint covariance', Y @ kf.P, W.eye(n))
    W.eq('joint state', Y @ kf.x, inv(P) @ x + Hs[0].T @ inv(Rs[0]) @ zs[0] + Hs[1].T @ inv(Rs[1]) @ zs[1])
    W.eq('z block 0', kf.z[0:a], zs[0])
    W.eq('z block 1', kf.z[a:a + b], zs[1])
    W.eq('x_post', kf.x_post, kf.x)
    W.eq('P_post', kf.P_post, kf.P)


@contract('C11')
def joint_update_information_form(W):
    """lemma 1: the ordinary update, for any H and R, satisfies the information equations"""
    e = any_kf(W, nd=2, alpha=False, hists=('fresh',))
    kf = e.kf
    z = W.vec('z', e.m, 2)
    kf.update(z)
    inv = W.inv
    Y = inv(e.P) + e.H.T @ inv(e.R) @ e.H
    W.eq('joint covariance', Y @ kf.P, W.eye(e.n))
    W.eq('joint state', Y @ kf.x, inv(e.P) @ e.x + e.H.T @ inv(e.R) @ z)


@contract('C11')
def stacked_information_adds(W):
    """lemma 2: for stacked H, z and block-diagonal R the information terms add up"""
    kf, n, (a, b), x, P, Hs, Rs, zs = blocks(W, 2)
    H, R, z = kf.H, kf.R, W.vstack(zs[0], zs[1])
    inv = W.inv
    Ri = W.block_diag(inv(Rs[0]), inv(Rs[1]))
    W.eq('inverse noise', R @ Ri, W.eye(a + b))
    W.eq('information', H.T @ Ri @ H, Hs[0].T @ inv(Rs[0]) @ Hs[0] + Hs[1].T @ inv(Rs[1]) @ Hs[1])
    W.eq('information state', H.T @ Ri @ z, Hs[0].T @ inv(Rs[0]) @ zs[0] + Hs[1].T @ inv(Rs[1]) @ zs[1])


@contract('C11', sym=False)
def any_partition(W):
    """concrete cross-check: random partitions against one joint update"""
    k = W.pyrng.randint(1, 5)
    kf, n, ms, x, P, Hs, Rs, zs = blocks(W, k)
    ref = W.mods.kalman.KalmanFilter(dim_x=n, dim_z=sum(ms))
    ref.x, ref.P, ref.H, ref.R = x, P, kf.H, kf.R
    ref.update(W.vstack(*zs))
    s = 0
    for m, z in zip(ms, zs):
        kf.update_sequential(s, z if m > 1 or W.pyrng.random() < .5 else z.item())
        s += m
    W.eq('x', kf.x, ref.x)
    W.eq('P', kf.P, ref.P)
    W.eq('z', kf.z, ref.z)


@contract('C11')
def correlated_update(W):
    e = any_kf(W, alpha=False, hists=('pu', 'fresh'))
    kf = e.kf
    zero = W.choice('M', ['zero', 'general']) == 'zero'
    M = 0 * W.mat('M', e.n, e.m) if zero else W.mat('M', e.n, e.m)
    if not W.symbolic and not zero:
        # admissible joint covariance [[P, M], [M', R]]: M = P^1/2 C R^1/2 with |C| < 1
        import numpy as np
        C = W.rng.randn(e.n, e.m)
        C /= (np.linalg.norm(C, 2) + .3)
        M = np.linalg.cholesky(e.P) @ C @ np.linalg.cholesky(e.R).T
    kf.M = W.snap(M)
    R, H, kw = e.R, e.H, {}
    o = W.choice('override', ['none', 'R', 'R scalar', 'H'])
    if o == 'R':
        R = kw['R'] = W.pd('R1', e.m)
        if not W.symbolic and not zero:
            R = kw['R'] = e.R * 1.5
    elif o == 'R scalar':
        if not zero and not W.symbolic:
            W.done()
        r = kw['R'] = W.scal('r', pos=True)
        R = r * W.eye(e.m)
    elif o == 'H':
        H = kw['H'] = W.mat('H1', e.m, e.n)
    zarg, zc = layout(W, 'z', e.m, e.nd, ['col', 'flat'])
    kf.update_correlated(zarg, **kw)
    # best linear estimate: cov(x, z) = P H' + M, cov(z) = H P H' + H M + M' H' + R
    xc = W.col(e.x)
    Cxz = e.P @ H.T + M
    S = H @ e.P @ H.T + H @ M + M.T @ H.T + R
    K = Cxz @ W.inv(S)
    y = zc - H @ xc
    W.eq('y', W.col(kf.y), y)
    W.eq('S', kf.S, S)
    W.eq('SI', kf.SI, W.inv(S))
    W.eq('K', kf.K, K)
    W.eq('x', kf.x, shaped(W, xc + K @ y, e.nd))
    W.eq('P', kf.P, e.P - K @ Cxz.T)
    W.eq('x_post', kf.x_post, kf.x)
    W.eq('P_post', kf.P_post, kf.P)
    W.eq('M kept', kf.M, M)
    same_model(W, kf, e)


@contract('C11')
def correlated_reduces_to_ordinary(W):
    e = any_kf(W, alpha=False, hists=('fresh',))
    kf = e.kf
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    kf.update_correlated(z)      # M = 0 by default
    g = RefKF(W, W.col(e.x), e.P, None, None, e.H, e.R)
    g.update(W.col(z))
    W.eq('x', W.col(kf.x), g.x)
    W.eq('P', kf.P, g.P)
    W.eq('K', kf.K, g.K)
    W.eq('S', kf.S, g.S)
    W.eq('y', W.col(kf.y), g.y)


@contract('C11')
def steady_state_update(W):
    e = any_kf(W, alpha=False, hists=('pu', 'fresh'))
    kf = e.kf
    K = W.mat('K', e.n, e.m)
    kf.K = W.snap(K)
    zarg, zc = layout(W, 'z', e.m, e.nd, ['col', 'flat'])
    kf.update_steadystate(zarg)
    y = zc - e.H @ W.col(e.x)
    W.eq('y', W.col(kf.y), y)
    W.eq('x', kf.x, shaped(W, W.col(e.x) + K @ y, e.nd))
    W.same('P unchanged', kf.P, e.P)
    W.same('K unchanged', kf.K, K)
    W.eq('x_post', kf.x_post, kf.x)
    W.same('P_post', kf.P_post, e.P)
    W.eq('z', W.col(kf.z), zc)
    same_model(W, kf, e)


@contract('C11')
def procedural_steady_state_update(W):
    nd = W.choice('nd', [2, 1])
    n, m = W.dim('n'), W.dim('m')
    x, K, H = W.vec('x', n, nd), W.mat('K', n, m), W.mat('H', m, n)
    z = shaped(W, W.vec('z', m, 2), nd)
    r = W.mods.kalman.update_steadystate(x, z, K, H)
    W.eq('x', r, x + K @ (z - H @ x))
