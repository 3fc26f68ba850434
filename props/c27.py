"""C27  measurement layouts, constructors, small matrix helpers"""
import numpy as np
from vf.harness import contract
from .common import *
from .c05 import CACHE


def H(W):
    return W.module('common.helpers')


def one_line(W, name, m):
    """m values in any one-row / one-column layout -> (argument, column)"""
    return layout(W, name, m, 2, ['col', 'flat', 'row'])


@contract('C27')
def reshape_accepts(W):
    m = W.dim('m')
    z, c = one_line(W, 'z', m)
    nd = W.choice('ndim', [2, 1])
    z0 = W.snap(z)
    r = W.call('reshape_z', H(W).reshape_z, z, m, nd)
    W.eq('column of values', r, c if nd == 2 else W.flat(c))
    W.eq('argument unchanged', z, z0)


@contract('C27')
def reshape_one(W):
    z, c = layout(W, 'z', 1, 2, ['col', 'flat', 'row', 'scalar', 'list'])
    nd = W.choice('ndim', [2, 1, 0])
    r = W.call('reshape_z', H(W).reshape_z, z, 1, nd)
    if nd == 0:
        W.eq('value', r, W.scalar(c))
    else:
        W.eq('column of values', r, c if nd == 2 else W.flat(c))


def wrong(W, m):
    """a measurement that is not one row or one column of m values"""
    k = W.choice('wrong', ['both', 'rows', 'cols', 'flat', 'scalar', 'three'])
    if k == 'both':
        a, b = W.dim('a', hi=5), W.dim('b', hi=5)
        W.assume(a != m)
        W.assume(b != m)
        return W.mat('z', a, b)
    if k == 'rows':
        return W.mat('z', m, W.dim('b', hi=4) + 1)
    if k == 'cols':
        return W.mat('z', W.dim('a', hi=4) + 1, m)
    if k == 'flat':
        a = W.dim('a', hi=5)
        W.assume(a != m)
        return W.vec('z', a, 1)
    if k == 'scalar':
        W.assume(m > 1)
        return W.scal('z')
    W.assume(m > 1)
    return W.mat('z', m, m) if W.symbolic else W.rng.randn(m, 1, W.pyrng.randint(2, 3))


@contract('C27')
def reshape_rejects(W):
    m = W.dim('m')
    z = wrong(W, m)
    nd = W.choice('ndim', [2, 1, 0])
    z0 = W.snap(z)
    W.raises('any other shape', ValueError, lambda: H(W).reshape_z(z, m, nd))
    W.eq('argument unchanged', z, z0)


KF_METHODS = ['update', 'update_correlated', 'update_steadystate', 'get_update', 'residual_of', 'update H']


def use(kf, op, z, Hm, W=None):
    if op == 'update H':
        return kf.update(z, H=Hm)
    return getattr(kf, op)(z)


@contract('C27', weight=2)
def kf_rejects(W):
    e = any_kf(W, alpha=False, hists=('fresh', 'pu'))
    op = W.choice('op', KF_METHODS)
    z = wrong(W, e.m)
    before = W.state(e.kf)
    Hm = W.mat('Hm', e.m, e.n)
    W.raises('any other shape', ValueError, lambda: use(e.kf, op, z, Hm))
    W.unchanged('estimate untouched', e.kf, before, skip=CACHE)


@contract('C27', weight=2)
def kf_accepts(W):
    """every layout gives what the column gives"""
    e = any_kf(W, alpha=False, hists=('pu',))
    op = W.choice('op', KF_METHODS)
    z, c = layout(W, 'z', e.m, e.nd, ['col', 'flat', 'row'])
    Hm = W.mat('Hm', e.m, e.n)
    ref = W.clone(e.kf)
    a = W.call(op, use, e.kf, op, z, Hm)
    b = use(ref, op, shaped(W, c, e.nd), Hm)
    if op in ('get_update', 'residual_of'):
        W.same('result', a, b, exact=False)
    for k in ('x', 'P', 'y', 'K', 'S', 'z', 'x_post', 'P_post'):
        W.same(k, getattr(e.kf, k), getattr(ref, k), exact=False)


@contract('C27')
def function_forms(W):
    M = W.module('kalman.kalman_filter')
    n, m = W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    x, P, Hm, R = W.vec('x', n, nd), W.pd('P', n), W.mat('H', m, n), W.pd('R', m)
    f = W.choice('f', ['update', 'update_steadystate'])
    K = W.mat('K', n, m)
    call = (lambda z: M.update(x, P, z, R, Hm)) if f == 'update' else (lambda z: M.update_steadystate(x, z, K, Hm))
    sn = [W.snap(v) for v in (x, P, Hm, R)]
    if W.choice('ok', [True, False]):
        z, c = layout(W, 'z', m, nd, ['col', 'flat', 'row'])
        a, b = W.call(f, call, z), call(shaped(W, c, nd))
        W.same('result', a, b, exact=False)
    else:
        z = wrong(W, m)
        W.raises('any other shape', ValueError, lambda: call(z))
    for a, b, w in zip((x, P, Hm, R), sn, 'xPHR'):
        W.eq('argument unchanged ' + w, a, b)


# ------------------------------------------------------------ constructors
@contract('C27')
def constructor_defaults(W):
    M = W.module('kalman')
    n, m = W.dim('n'), W.dim('m')
    kind = W.choice('filter', ['KalmanFilter', 'ExtendedKalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'FadingKalmanFilter'])
    u = W.choice('dim_u', [0, 2])
    c = getattr(M, kind)
    if kind == 'FadingKalmanFilter':
        a = W.choice('alpha', [1, 1.05])
        f = W.call('constructor', c, a, n, m, u)
        W.eq('alpha', f.alpha_sq, a * a)
    else:
        f = W.call('constructor', c, n, m, u) if W.choice('kw', [0, 1]) else W.call('constructor', lambda: c(dim_x=n, dim_z=m, dim_u=u))
    W.ok('dimensions', bool(f.dim_x == n) and bool(f.dim_z == m) and f.dim_u == u)
    I, Im, Z, Zm = W.eye(n), W.eye(m), W.zeros(n, 1), W.zeros(m, 1)
    W.eq('state', f.x, Z)
    W.eq('residual', f.y, Zm)
    if kind == 'InformationFilter':
        W.eq('inverse covariance', f.P_inv, I)
        W.eq('inverse noise', f.R_inv, Im)
        W.eq('measurement', f.z, Zm)
        W.eq('prior', f.P_inv_prior, I)
        W.eq('posterior', f.P_inv_post, I)
    else:
        W.eq('covariance', f.P, I)
        W.eq('measurement noise', f.R, Im)
        W.eq('transition', f.F, I)
        W.all_none('no measurement yet', f.z)
        W.ok('measurement shape', len(f.z.shape) == 2 and bool(f.z.shape[0] == m) and f.z.shape[1] == 1)
        W.eq('prior', f.P_prior, I)
        W.eq('posterior', f.P_post, I)
    W.eq('process noise', f.Q, I)
    W.eq('prior state', f.x_prior, Z)
    W.eq('posterior state', f.x_post, Z)
    if kind != 'ExtendedKalmanFilter':
        W.eq('measurement function', f.H, W.zeros(m, n))
    # the estimate is not shared with its recorded copies
    W.poke(f.x)
    W.eq('prior state own copy', f.x_prior, Z)
    W.eq('posterior state own copy', f.x_post, Z)
    if kind != 'InformationFilter' and kind != 'SquareRootKalmanFilter':
        W.poke(f.P)
        W.eq('prior own copy', f.P_prior, I)
        W.eq('posterior own copy', f.P_post, I)
        W.eq('noise own copy', f.Q, I)


@contract('C27')
def constructor_rejects(W):
    M = W.module('kalman')
    n, m = W.dim('n'), W.dim('m')
    kind = W.choice('filter', ['KalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'FadingKalmanFilter', 'Ensemble', 'MMAE', 'IMM'])
    bad = W.scal('bad', nonneg=True) if W.symbolic else W.pyrng.choice([0, 1, 2, 7])
    if W.symbolic:
        bad = W.dim('bad', lo=0)
    bad = -bad                 # any integer <= 0
    which = W.choice('which', ['x', 'z', 'u'])
    if kind == 'Ensemble':
        args = (lambda: M.EnsembleKalmanFilter(W.vec('x', n, 1), W.pd('P', n), bad if which != 'u' else m, .1, bad if which == 'u' else 4, None, None))
        W.raises('rejected', ValueError, args)
        return
    if kind == 'MMAE':
        f = M.KalmanFilter(n, m)
        W.raises('rejected', ValueError, lambda: W.module('kalman').MMAEFilterBank([f, f], [.5, .5], dim_x=bad))
        W.raises('lengths differ', ValueError, lambda: W.module('kalman').MMAEFilterBank([f, f], [.5, .3, .2], dim_x=n))
        return
    if kind == 'IMM':
        I = W.module('kalman').IMMEstimator
        f, g, h = M.KalmanFilter(n, m), M.KalmanFilter(n, m), M.KalmanFilter(n + W.dim('more'), m)
        odd = W.choice('odd', [0, 1, 2])
        bank = [f, g]
        bank.insert(odd, h)
        W.raises('no filter', ValueError, lambda: I([], [], W.array([[1.]])))
        W.raises('one filter', ValueError, lambda: I([f], [1.], W.array([[1.]])))
        W.raises('different states', ValueError, lambda: I([f, h], [.5, .5], W.array([[.9, .1], [.2, .8]])))
        W.raises('different states', ValueError, lambda: I(bank, [.5, .25, .25], W.array([[.8, .1, .1], [.1, .8, .1], [.1, .1, .8]])))
        I([f, g], [.5, .5], W.array([[.9, .1], [.2, .8]]))
        return
    c = getattr(M, kind)
    d = dict(x=n, z=m, u=0)
    d[which] = bad if which != 'u' else bad - 1
    pre = (1.0,) if kind == 'FadingKalmanFilter' else ()
    exc = AssertionError if kind == 'FadingKalmanFilter' else ValueError
    W.raises('rejected', exc, lambda: c(*pre, dim_x=d['x'], dim_z=d['z'], dim_u=d['u']))


# ------------------------------------------------------------ helpers
@contract('C27', con=False)
def diagonal_inverse_any(W):
    """every size (index-level verification conditions, vf/hoare.py)"""
    import z3
    from vf import hoare as V_
    V = V_.Verifier(W, 'filterpy.common.helpers', 'inv_diagonal')
    n = z3.Int('n')
    e = z3.Function('S', V_.I, V_.I, V_.R)
    S = V_.Arr2(n, n, lambda i, j: e(i, j))
    q = z3.Int('q0')
    V.facts.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), e(q, q) != 0), patterns=[e(q, q)]))
    want = lambda r, c: z3.If(r == c, 1 / e(r, r), z3.RealVal(0))
    regions = {2: [lambda i, env: lambda r, c: z3.And(r == c, r < i), lambda i, env: lambda r, c: r < i],
               1: [lambda i, env: lambda k: k < i]}

    def post(view, ret):
        from vf.ctx import Unsupported
        if not isinstance(ret, V_.Arr2):
            raise Unsupported('returned value')
        f = ret.f
        return [('shape', z3.And(ret.n == n, ret.m == n)), ('inverse of the diagonal', V_.Cells((n, n), lambda r, c: f(r, c) == want(r, c))),
                ('argument unchanged', V_.Cells((n, n), lambda r, c: view.arg(0).f(r, c) == e(r, c))), ('new array', ret is not view.arg(0) and ret.view_of is None)]
    V.run([S], dict(pre=[n >= 1], loops={}, post=post,
                    auto=lambda V, s, names, arrs: V_.fill_loops(V, s, names, arrs, {2: want, 1: lambda k: 1 / e(k, k)}, regions)))


@contract('C27', bounded='sizes 1 to 5')
def diagonal_inverse(W):
    n = W.integer('n', 1, 5 if W.symbolic else 14)
    d = [W.scal('d%d' % i, pos=True) * W.choice('sign', [1, -1]) for i in range(n)]
    full = W.choice('off-diagonal', ['zero', 'any'])
    S = W.diag(W.array(d)) if full == 'zero' else W.mat('S', n, n)
    if full == 'any':
        for i in range(n):
            S[i, i] = d[i]
    S0 = W.snap(S)
    r = W.call('inv_diagonal', H(W).inv_diagonal, S)
    W.ok('new array', r is not S)
    W.eq('inverse of the diagonal', r, W.diag(W.array([1 / v for v in d])), tol=1e-9)
    if full == 'zero':
        W.eq('inverse', S0 @ r, W.eye(n), tol=1e-9)
    W.eq('argument unchanged', S, S0)


@contract('C27')
def diagonal_inverse_rejects(W):
    a, b = W.dim('a'), W.dim('b')
    f = H(W).inv_diagonal
    W.raises('not square', ValueError, lambda: f(W.mat('S', a, a + b)))
    W.raises('not square', ValueError, lambda: f(W.mat('S', a + b, a)))
    W.raises('not a matrix', ValueError, lambda: f(W.vec('S', a, 1)))
    W.raises('not a matrix', ValueError, lambda: f(W.scal('s')))


@contract('C27')
def outer_products(W):
    k, p, q = W.dim('k'), W.dim('p'), W.dim('q')
    A = W.mat('A', k, p)
    f = H(W).outer_product_sum
    form = W.choice('form', ['two', 'one', 'keyword'])
    B = W.mat('B', k, q)
    A0, B0 = W.snap(A), W.snap(B)
    if form == 'one':
        r = W.call('outer_product_sum', f, A)
        W.eq('sum of outer products', r, A0.T @ A0)
    else:
        r = W.call('outer_product_sum', f, A, B) if form == 'two' else W.call('outer_product_sum', lambda: f(A, B=B))
        W.eq('sum of outer products', r, A0.T @ B0)
    W.eq('argument unchanged', A, A0)
    W.eq('argument unchanged', B, B0)


