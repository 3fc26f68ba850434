"""C12  sigma points reproduce mean and covariance exactly"""
from vf.harness import contract
from .common import *


def moments(W, S, wm, wc, x, P, N, n):
    """S: N x n points; checks count, weights and first two moments"""
    W.eq('number of points', S.shape[0], N)
    W.eq('point dimension', S.shape[1], n)
    one = W.col(W.ones(N))
    wm = W.col(wm)
    W.eq('weights sum to one', W.scalar(one.T @ wm), 1)
    W.eq('weighted mean', S.T @ wm, W.col(x))
    D = S - one @ W.col(x).T
    W.eq('weighted spread', D.T @ W.diag(wc) @ D, P)


def merwe_par(W, n):
    a = W.scal('alpha', lo=.01, hi=2)
    b = W.scal('beta', lo=-1, hi=4)
    nk = W.scal('n_plus_kappa', lo=.1, hi=5)        # any kappa with n + kappa > 0
    return a, b, nk - n


def root_opts(W, n, scale, custom=False):
    """covariance and square-root method: default, or a custom U with U'U = P"""
    if not custom and W.choice('sqrt', ['default', 'custom']) == 'default':
        return W.pd('P', n), {}, lambda: None
    V = W.inv_mat('V', n)
    P = V.T @ V
    seen = []

    def root(A):
        seen.append(W.snap(A))
        return W.sqrt(scale) * V

    def check():
        W.eq('square root taken once', len(seen), 1)
        W.eq('of the scaled covariance', seen[0], scale * P)
    return P, dict(sqrt_method=root), check


@contract('C12')
def merwe(W):
    n = W.dim('n')
    a, b, k = merwe_par(W, n)
    x = W.vec('x', n, 1)
    P, kw, chk = root_opts(W, n, a * a * (n + k))
    p = W.mods.kalman.MerweScaledSigmaPoints(n, a, b, k, **kw)
    W.eq('advertised number', p.num_sigmas(), 2 * n + 1)
    x0, P0 = W.snap(x), W.snap(P)
    S = p.sigma_points(x, P)
    chk()
    W.same('mean argument unchanged', x, x0)
    W.same('covariance argument unchanged', P, P0)
    moments(W, S, p.Wm, p.Wc, x, P, 2 * n + 1, n)
    lam = a * a * (n + k) - n
    W.eq('Wm centre', p.Wm[0], lam / (n + lam))
    W.eq('Wc centre', p.Wc[0], lam / (n + lam) + 1 - a * a + b)


@contract('C12')
def julier(W):
    n = W.dim('n')
    nk = W.scal('n_plus_kappa', lo=.1, hi=5)
    x = W.vec('x', n, 1)
    P, kw, chk = root_opts(W, n, nk)
    p = W.mods.kalman.JulierSigmaPoints(n, nk - n, **kw)
    W.eq('advertised number', p.num_sigmas(), 2 * n + 1)
    S = p.sigma_points(x, P)
    chk()
    moments(W, S, p.Wm, p.Wc, x, P, 2 * n + 1, n)


@contract('C12')
def cubature(W):
    n = W.dim('n')
    nd = W.choice('nd', [1, 2])
    x, P = W.vec('x', n, nd), W.pd('P', n)
    from_mod = W.mods.kalman.CubatureKalmanFilter
    S = W.module('kalman.CubatureKalmanFilter').spherical_radial_sigmas(x, P)
    w = W.ones(2 * n) / (2 * n)
    moments(W, S, w, w, x, P, 2 * n, n)
    f = from_mod(n, 1, 1., lambda x: x[:1], lambda x, dt: x)
    W.eq('advertised number', f._num_sigmas, 2 * n)


@contract('C12', con=False)
def simplex_any(W):
    """the simplex, for every dimension: the loop that builds it is cut by the invariant
    I I' = (n + 1)/n 1 and I 1 = 0 for the r x (r + 1) matrix I built so far"""
    from vf.loops import GrowLoop
    from vf.ctx import ctx
    from vf.mat import Mat, Algebra
    n = W.dim('n')
    x = W.vec('x', n, 1)
    P, kw, chk = root_opts(W, n, 1)
    p = W.mods.kalman.SimplexSigmaPoints(n, **kw)
    W.eq('advertised number', p.num_sigmas(), n + 1)
    scale = (n + 1) / n

    def laws(M):
        r, c = M.shape
        return [('rows are orthogonal and of equal length', M @ M.T, scale * W.eye(r)), ('rows sum to zero', M @ W.col(W.ones(c)), W.zeros(r, 1))]

    def install(at):
        Al = Algebra.cur()
        Al.add_rule((at.id, at.tid), Mat.eye(at.rows).scale(scale))
        ones = next(iter(Mat.ones_vec(at.cols).terms))
        Al.add_rule((at.id,) + ones, Mat.zero(at.rows, 1))

    def handler(it):
        if ctx().loops:
            return None
        ctx().loop_handler = None
        return GrowLoop(W, it, laws, install)
    if W.choice('dimension', ['one', 'more']) == 'one':
        W.assume(n == 1)
    else:
        W.assume(n >= 2)
        ctx().loop_handler = handler
    try:
        S = p.sigma_points(x, P)
    finally:
        ctx().loop_handler = None
    chk()
    moments(W, S, p.Wm, p.Wc, x, P, n + 1, n)


SIMPLEX_N = 'dimension n = 1..3 (the construction of the simplex is a loop of data-dependent matrix growth)'


@contract('C12', bounded=SIMPLEX_N)
def simplex(W):
    n = W.choice('n', [1, 2, 3] if W.symbolic else [1, 2, 3, 4, 5, 6, 8, 10, 13])
    x = W.vec('x', n, 1)
    P, kw, chk = root_opts(W, n, 1, custom=W.symbolic and n > 4)
    p = W.mods.kalman.SimplexSigmaPoints(n, **kw)
    W.eq('advertised number', p.num_sigmas(), n + 1)
    S = p.sigma_points(x, P)
    chk()
    moments(W, S, p.Wm, p.Wc, x, P, n + 1, n)


@contract('C12')
def scalar_inputs(W):
    """one-dimensional problems given as plain scalars"""
    K = W.mods.kalman
    x, P = W.scal('x'), W.scal('P', pos=True)
    c = W.choice('cls', ['merwe', 'julier', 'simplex'])
    lay = W.choice('inputs', ['both scalar', 'x scalar', 'P scalar'])
    if c == 'merwe':
        a, b, k = merwe_par(W, 1)
        p = K.MerweScaledSigmaPoints(1, a, b, k)
    elif c == 'julier':
        p = K.JulierSigmaPoints(1, W.scal('nk', lo=.1, hi=5) - 1)
    else:
        p = K.SimplexSigmaPoints(1)
    xv, Pm = W.flat(W.col(x)), W.col(P)
    S = p.sigma_points(x if lay != 'P scalar' else xv, P if lay != 'x scalar' else Pm)
    moments(W, S, p.Wm, p.Wc, xv, Pm, p.num_sigmas(), 1)


@contract('C12')
def scalar_covariance(W):
    """a scalar covariance stands for that multiple of the identity"""
    K = W.mods.kalman
    n = W.dim('n')
    x, P = W.vec('x', n, 1), W.scal('P', pos=True)
    if W.choice('cls', ['merwe', 'julier']) == 'merwe':
        a, b, k = merwe_par(W, n)
        p = K.MerweScaledSigmaPoints(n, a, b, k)
    else:
        p = K.JulierSigmaPoints(n, W.scal('nk', lo=.1, hi=5) - n)
    S = p.sigma_points(x, P)
    moments(W, S, p.Wm, p.Wc, x, P * W.eye(n), 2 * n + 1, n)


@contract('C12')
def custom_subtraction(W):
    """points are x (-) (-U_k) and x (-) U_k for the given subtraction"""
    K = W.mods.kalman
    n = W.dim('n')
    x, P = W.vec('x', n, 1), W.pd('P', n)
    g = W.func('g', n)
    sub = lambda a, b: a - b + g(b)
    if W.choice('cls', ['merwe', 'julier']) == 'merwe':
        a, b, k = merwe_par(W, n)
        p, q = K.MerweScaledSigmaPoints(n, a, b, k, subtract=sub), K.MerweScaledSigmaPoints(n, a, b, k)
    else:
        nk = W.scal('nk', lo=.1, hi=5)
        p, q = K.JulierSigmaPoints(n, nk - n, subtract=sub), K.JulierSigmaPoints(n, nk - n)
    S, S0 = p.sigma_points(x, P), q.sigma_points(x, P)
    D = S0 - W.col(W.ones(2 * n + 1)) @ W.col(x).T       # rows 0, U_k, -U_k
    W.eq('first point', S[0], x)
    # each point is x plus the k-th root row corrected by the callback
    W.eq('upper points', S[1:n + 1], S0[1:n + 1] + W.maprows(g, -D[1:n + 1]))
    W.eq('lower points', S[n + 1:], S0[n + 1:] + W.maprows(g, -D[n + 1:]))
    W.eq('weights', p.Wm, q.Wm)


@contract('C12', bounded='dimension n = 1..3')
def custom_subtraction_simplex(W):
    K = W.mods.kalman
    n = W.choice('n', [1, 2, 3] if W.symbolic else [1, 2, 3, 4, 5, 6, 8, 10, 13])
    x, P = W.vec('x', n, 1), W.pd('P', n)
    c = W.mat('C', n, n + 1)
    sub = lambda a, b: a - b + c
    S, S0 = K.SimplexSigmaPoints(n, subtract=sub).sigma_points(x, P), K.SimplexSigmaPoints(n).sigma_points(x, P)
    W.eq('points', S, S0 + c.T)


@contract('C12')
def wrong_size(W):
    K = W.mods.kalman
    n = W.dim('n')
    m = W.dim('m')
    W.assume(m != n)
    c = W.choice('cls', ['merwe', 'julier', 'simplex'])
    p = K.MerweScaledSigmaPoints(n, .5, 2., 1.) if c == 'merwe' else K.JulierSigmaPoints(n, 1.) if c == 'julier' else K.SimplexSigmaPoints(n)
    W.raises('size mismatch', ValueError, lambda: p.sigma_points(W.vec('x', m, 1), W.pd('P', m)))
