"""C25  Gaussian algebra is exact"""
import math
from vf.harness import contract
from .common import *


def S(W):
    return W.module('stats')


def two(W):
    e = E()
    e.m1, e.m2 = W.scal('m1'), W.scal('m2')
    e.v1, e.v2 = W.scal('v1', pos=True), W.scal('v2', pos=True)
    return e


def product(W, e, mean, var):
    """(mean, var) are those of the normalised product density"""
    W.eq('precision', var * (1 / e.v1 + 1 / e.v2), 1, tol=1e-9)
    W.eq('mean', mean / var, e.m1 / e.v1 + e.m2 / e.v2, rel=True, tol=1e-7)


@contract('C25')
def multiply(W):
    e = two(W)
    r = W.call('mul', S(W).mul, e.m1, e.v1, e.m2, e.v2)
    W.ok('pair', isinstance(r, tuple) and len(r) == 2)
    product(W, e, r[0], r[1])


@contract('C25')
def multiply_pdf(W):
    e = two(W)
    r = W.call('mul_pdf', S(W).mul_pdf, e.m1, e.v1, e.m2, e.v2)
    W.ok('triple', isinstance(r, tuple) and len(r) == 3)
    mean, var, s = r
    product(W, e, mean, var)
    v = e.v1 + e.v2
    d = e.m1 - e.m2
    W.eq('scale', s, W.exp(-d * d / (2 * v)) / W.sqrt(2 * W.pi * v), rel=True, tol=1e-9)
    # pointwise identity  N(x; m1, v1) N(x; m2, v2) = s N(x; mean, var):
    # the exponents agree at every x and the factors in front agree (squared)
    x = W.scal('x')
    q = lambda m, v: (x - m) * (x - m) / (2 * v)
    W.eq('exponents', q(e.m1, e.v1) + q(e.m2, e.v2), q(mean, var) + d * d / (2 * v), rel=True, tol=1e-6)
    W.eq('factors', v * var, e.v1 * e.v2, rel=True, tol=1e-9)
    if not W.symbolic:
        f = lambda m, v: math.exp(-q(m, v)) / math.sqrt(2 * W.pi * v)
        W.eq('pointwise', f(e.m1, e.v1) * f(e.m2, e.v2), s * f(mean, var), tol=1e-9)


@contract('C25')
def addition(W):
    e = two(W)
    r = W.call('add', S(W).add, e.m1, e.v1, e.m2, e.v2)
    W.ok('pair', isinstance(r, tuple) and len(r) == 2)
    W.eq('mean', r[0], e.m1 + e.m2)
    W.eq('variance', r[1], e.v1 + e.v2)


@contract('C25')
def multivariate_product(W):
    n = W.dim('n')
    kind = W.choice('mean layout', ['flat', 'col'])
    m1, m2 = W.vec('m1', n, 1 if kind == 'flat' else 2), W.vec('m2', n, 1 if kind == 'flat' else 2)
    C1, C2 = W.pd('C1', n), W.pd('C2', n)
    sn = [W.snap(v) for v in (m1, C1, m2, C2)]
    r = W.call('multivariate_multiply', S(W).multivariate_multiply, m1, C1, m2, C2)
    W.ok('pair', isinstance(r, tuple) and len(r) == 2)
    M, C = r
    I1, I2 = W.inv(C1), W.inv(C2)
    # C (C1^-1 + C2^-1) = I,  M = C (C1^-1 m1 + C2^-1 m2)
    W.eq('precision', C @ (I1 + I2), W.eye(n), tol=1e-6)
    W.eq('mean', M, C @ (I1 @ m1 + I2 @ m2), tol=1e-6)
    for a, b, w in zip((m1, C1, m2, C2), sn, ('m1', 'C1', 'm2', 'C2')):
        W.eq('argument unchanged ' + w, a, b)


@contract('C25')
def mahalanobis(W):
    n = W.dim('n')
    lay = W.choice('layout', ['flat', 'col', 'row'])
    x, mean = W.vec('x', n, 1), W.vec('mean', n, 1)
    C = W.pd('C', n)
    put = {'flat': lambda v: v, 'col': W.col, 'row': lambda v: W.col(v).T}[lay]
    C0 = W.snap(C)
    r = W.call('mahalanobis', S(W).mahalanobis, put(x), put(mean), C)
    d = W.col(x) - W.col(mean)
    W.eq('squared distance', r * r, W.scalar(d.T @ W.inv(C0) @ d), tol=1e-7)
    W.ok('non-negative', r >= 0)
    W.eq('cov unchanged', C, C0)


@contract('C25')
def mahalanobis_scalar(W):
    x, m = W.scal('x'), W.scal('m')
    v = W.scal('v', pos=True)
    r = W.call('mahalanobis', S(W).mahalanobis, x, m, v)
    W.eq('squared distance', r * r, (x - m) * (x - m) / v, tol=1e-7)
    W.ok('non-negative', r >= 0)


@contract('C25')
def mahalanobis_rejects(W):
    n, k = W.dim('n', lo=1), W.dim('k', lo=1)
    x, m = W.vec('x', n, 1), W.vec('m', n + k, 1)
    W.raises('length mismatch', ValueError, lambda: S(W).mahalanobis(x, m, W.pd('C', n)))
    W.raises('length mismatch', ValueError, lambda: S(W).mahalanobis(m, x, W.pd('C', n)))


@contract('C25')
def log_density(W):
    n = W.dim('n')
    lay = W.choice('layout', ['flat', 'col', 'row'])
    x = W.vec('x', n, 1)
    C = W.pd('C', n)
    put = {'flat': lambda v: v, 'col': W.col, 'row': lambda v: W.col(v).T}[lay]
    given = W.choice('mean', ['given', 'none'])
    f = S(W).logpdf
    if given == 'given':
        m = W.vec('m', n, 1)
        r = W.call('logpdf', f, put(x), put(m), C)
        d = W.col(x) - W.col(m)
    else:
        r = W.call('logpdf', f, put(x), cov=C)
        d = W.col(x)
    W.eq('log density', r, W.logpdf(d, C), tol=1e-7)


@contract('C25')
def measurement_likelihood(W):
    n, m = W.dim('n'), W.dim('m')
    nd = W.choice('nd', [1, 2])
    z, x = W.vec('z', m, nd), W.vec('x', n, nd)
    P, H, R = W.psd('P', n), W.mat('H', m, n), W.pd('R', m)
    sn = [W.snap(v) for v in (z, x, P, H, R)]
    d = W.col(z) - H @ W.col(x)
    Sm = H @ P @ H.T + R
    which = W.choice('which', ['log', 'plain'])
    r = W.call(which, S(W).log_likelihood if which == 'log' else S(W).likelihood, z, x, P, H, R)
    want = W.logpdf(d, Sm)
    if which == 'plain':
        want = W.exp(want)
        W.eq('likelihood', r, want, tol=1e-7)
    else:
        W.eq('log likelihood', r, want, tol=1e-6)
    for a, b, w in zip((z, x, P, H, R), sn, 'zxPHR'):
        W.eq('argument unchanged ' + w, a, b)


def dens(W, x, m, v):
    return W.exp(-(x - m) * (x - m) / (2 * v)) / W.sqrt(2 * W.pi * v)


@contract('C25')
def gaussian_scalar(W):
    x, m = W.scal('x'), W.scal('m')
    v = W.scal('v', pos=True)
    r = W.call('gaussian', S(W).gaussian, x, m, v, *([W.choice('normed', [True, False])] if W.choice('arg', [0, 1]) else []))
    W.eq('density', r, dens(W, x, m, v), tol=1e-9)


@contract('C25', con=False)
def gaussian_any(W):
    """gaussian on an array of any length: the density at each point, divided by their sum if normed"""
    import z3
    from vf import hoare as H
    V = H.Verifier(W, 'filterpy.stats.stats', 'gaussian')
    N, m, v = z3.Int('N'), z3.Real('mean'), z3.Real('var')
    x = V.array('x', N)
    x0 = x.f
    normed = W.choice('normed', ['default', True, False])
    V.facts += H.real_facts()
    d = H.Arr(N, lambda k: 1 / H.ROOT(2 * H.PI * v) * H.EXP(-(x0(k) - m) * (x0(k) - m) / (2 * v)), 'r')
    S = V.prefix(d)
    seen = []

    def exponents(s, got, k):
        """the exponents are the same number, so the exponentials are"""
        out, todo = [], [got]
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().eq(H.EXP):
                out.append(t.arg(0))
            todo += t.children()
        for e in out:
            w = -(x0(k) - m) * (x0(k) - m) / (2 * v)
            if V.prove(s, 'exponent is -(x - mean)^2 / (2 var)', e == w):
                s.pc.append(H.EXP(e) == H.EXP(w))

    def post(view, ret):
        from vf.ctx import Unsupported
        if not isinstance(ret, H.Arr):
            raise Unsupported('returned value')
        s = view.s
        k = V.fresh('k', H.I)
        t = s.fork()
        t.pc += [k >= 0, k < N]
        out = [('length', ret.n == N), ('argument unchanged', H.Cells((N,), lambda q: view.arg(0).f(q) == x0(q)))]
        if normed is False:
            exponents(t, ret.f(k), k)
            V.prove(t, 'density at each point', ret.f(k) == d.f(k))
            return out
        if len(seen) != 1:
            raise Unsupported('shape of the normalisation')
        a = seen[0]
        exponents(t, a.f(k), k)
        if not V.prove(t, 'density at each point', a.f(k) == d.f(k)):
            return out
        s.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), a.f(k) == d.f(k)), patterns=[x0(k)]))
        P = V.prefix(a)
        V.induct('sum of the densities', s, N, lambda q: z3.And(P(q) == S(q), z3.Implies(q > 0, S(q) > 0), S(0) == 0),
                 lambda q: [V.step(a, q), V.step(d, q), x0(q) == x0(q), a.f(q) == d.f(q), d.f(q) > 0])
        u = s.fork()
        u.pc += [k >= 0, k < N, a.f(k) == d.f(k), P(N) == S(N), S(N) > 0]
        V.prove(u, 'density over the sum of the densities', ret.f(k) * S(N) == d.f(k))
        return out
    k0 = V.fresh('k', H.I)
    V.chain('a density is positive', [v > 0] , [2 * H.PI * v > 0, H.ROOT(2 * H.PI * v) > 0, 1 / H.ROOT(2 * H.PI * v) > 0, d.f(k0) > 0])
    V.run([x, m, v] + ([] if normed == 'default' else [normed]), dict(
        pre=[N >= 1, v > 0, 2 * H.PI * v > 0], loops={}, post=post, on=lambda view, ev, a: seen.append(a.clone()) if ev == 'sum' else None))


@contract('C25', bounded='1 to 4 evaluation points')
def gaussian_points(W):
    k = W.choice('points', [1, 2, 4] if W.symbolic else list(range(1, 13)))
    xs = [W.scal('x%d' % i) for i in range(k)]
    m = W.scal('m')
    v = W.scal('v', pos=True)
    if W.choice('normed', [0, 1]):
        r = W.call('gaussian', S(W).gaussian, W.array(xs), m, v)
        d = [dens(W, x, m, v) for x in xs]
        t = sum(d)
        if not W.symbolic and t < 1e-200:
            return
        for i in range(k):
            W.eq('normalised density %d' % i, r[i] * t, d[i], tol=1e-9)
    else:
        r = W.call('gaussian', S(W).gaussian, W.array(xs), m, v, False)
        for i in range(k):
            W.eq('density %d' % i, r[i], dens(W, xs[i], m, v), tol=1e-9)


@contract('C25')
def multivariate_density(W):
    n = W.dim('n')
    lay = W.choice('layout', ['flat', 'col'])
    x, m = W.vec('x', n, 1), W.vec('m', n, 1)
    ck = W.choice('cov', ['matrix', 'scalar'])
    C = W.pd('C', n) if ck == 'matrix' else W.scal('c', pos=True)
    put = {'flat': lambda v: v, 'col': W.col}[lay]
    r = W.call('multivariate_gaussian', S(W).multivariate_gaussian, put(x), put(m), C)
    if ck == 'scalar':
        C = W.eye(n) * C
    W.eq('density', r, W.exp(W.logpdf(W.col(x) - W.col(m), C)), tol=1e-8)


@contract('C25', bounded='1 to 3 epochs')
def nees(W):
    n = W.dim('n')
    k = W.choice('epochs', [1, 2, 3])
    xs, es = [W.vec('x%d' % i, n, 1) for i in range(k)], [W.vec('e%d' % i, n, 1) for i in range(k)]
    ps = [W.pd('P%d' % i, n) for i in range(k)]
    st = W.choice('stack', ['array', 'column'])
    f = S(W).NEES
    if st == 'array':
        r = W.call('NEES', f, W.array(xs), W.array(es), ps)
    else:
        r = W.call('NEES', f, W.array([W.col(v) for v in xs]), W.array([W.col(v) for v in es]), ps)
    W.ok('one value per epoch', len(r) == k)
    for i in range(k):
        d = W.col(xs[i]) - W.col(es[i])
        W.eq('epoch %d' % i, W.scalar(r[i]), W.scalar(d.T @ W.inv(ps[i]) @ d), tol=1e-7)


@contract('C25', con=False)
def nees_any(W):
    """NEES for any number of epochs: the loop over the epochs is summarised by one arbitrary epoch"""
    from vf.induct import Seq
    from vf.loops import SymSeq
    from vf.snp import unseq
    from vf.ctx import Unsupported
    n, T = W.dim('n'), W.dim('T')
    nd = W.choice('nd', [1, 2])
    xs, es = (Seq(T, lambda nm: W.vec(nm, n, nd), q) for q in 'xe')
    ps = Seq(T, lambda nm: W.pd(nm, n), 'P')
    r = unseq(W.call('NEES', S(W).NEES, xs, es, ps))
    if not isinstance(r, SymSeq):
        raise Unsupported('returned list')
    W.eq('one value per epoch', r._vf_len(), T)
    k = r.lp.k
    d = W.col(xs.at(k)) - W.col(es.at(k))
    W.eq('NEES of an arbitrary epoch', W.scalar(r.v), W.scalar(d.T @ W.inv(ps.at(k)) @ d))


@contract('C25')
def interval_probability(W):
    a, b, m = W.scal('a'), W.scal('b'), W.scal('mu')
    f = S(W).norm_cdf
    kind = W.choice('spread', ['var', 'std', 'both', 'default'])
    v, s = W.scal('v', pos=True), W.scal('s', pos=True)
    args = {'var': (v,), 'std': (), 'both': (v, s), 'default': ()}[kind]
    kw = {'std': s} if kind == 'std' else {}
    p = W.call('norm_cdf', f, (a, b), m, *args, **kw)
    q = W.call('norm_cdf', f, (b, a), m, *args, **kw)
    W.ge('order of the end points', p, q, tol=1e-12)
    W.ge('order of the end points', q, p, tol=1e-12)
    W.ok('non-negative', p >= 0)
    sd = W.sqrt(v) if kind == 'var' else 1 if kind == 'default' else s
    d = W.normcdf((b - m) / sd) - W.normcdf((a - m) / sd)
    W.eq('probability', p * p, d * d, tol=1e-9)
