"""C19  recursive least squares equals the batch polynomial fit

State after n samples: theta = value and derivatives at the last sample.  It is
the batch fit iff the normal equations hold:  sum_i w_i^k (z_i - p(w_i)) = 0 for
k = 0..order, w_i = i - last.  The induction over n is symbolic in n."""
from vf.harness import contract
from .common import *


def moments(n, k):
    """sum of w^k, w = -(n-1) .. 0, as a polynomial in n"""
    m = n - 1
    if k == 0:
        return n
    if k == 1:
        return -m * n / 2
    if k == 2:
        return m * n * (2 * m + 1) / 6
    if k == 3:
        return -(m * n) * (m * n) / 4
    return m * n * (2 * m + 1) * (3 * m * m + 3 * m - 1) / 30


def coefs(theta, dt):
    """polynomial coefficients in w = t / dt"""
    f = [1, 1, 2]
    return [theta[i] * dt ** i / f[i] for i in range(len(theta))]


def rhs(theta, dt, n, order):
    c = coefs(theta, dt)
    return [sum(c[l] * moments(n, k + l) for l in range(order + 1)) for k in range(order + 1)]


def shift(b, z, order):
    """the data moments sum w^k z after one more sample z arrives"""
    r = [b[0] + z]
    if order > 0:
        r.append(b[1] - b[0])
    if order > 1:
        r.append(b[2] - 2 * b[1] + b[0])
    return r


def check(W, f, theta, b, n, order, dt):
    got = rhs(theta, dt, n, order)
    for k in range(order + 1):
        W.eq('normal equation %d' % k, got[k], b[k], rel=True, tol=1e-7)


def ahead(theta, dt):
    """the estimate carried one step ahead"""
    return sum(c for c in coefs(theta, dt))


@contract('C19')
def induction(W):
    o = W.choice('order', [0, 1, 2])
    dt = W.scal('dt', lo=.1, hi=3)
    f = W.mods.leastsq.LeastSquaresFilter(dt, o, W.scal('sigma', pos=True))
    n = W.dim('n', lo=1, hi=40) + o          # more samples than the order
    if not W.symbolic:
        return history(W, f, o, dt, n)
    if W.choice('hist', [0, 1]):
        f.update(W.scal('z0'))
        f.errors()
    theta = [W.scal(t) for t in ('x', 'dx', 'ddx')[:o + 1]]
    f.n = n
    f.x = W.array(theta)
    z = W.scal('z')
    r = f.update(z)
    W.eq('recorded residual', f.y, z - ahead(theta, dt))
    b = shift(rhs(theta, dt, n, o), z, o)
    check(W, f, [f.x[i] for i in range(o + 1)], b, n + 1, o, dt)
    for i in range(o + 1):
        W.eq('returned %d' % i, r[i], f.x[i])
    W.eq('count', f.n, n + 1)


def history(W, f, o, dt, n):
    b = [0.] * (o + 1)
    if W.pyrng.random() < .3:
        f.update(W.scal('z')), f.reset()
    for i in range(n):
        z = W.scal('z%d' % i)
        y = z - ahead([float(t) for t in f.x], dt)
        r = f.update(z)
        W.eq('recorded residual', f.y, y, mag=abs(z) + abs(y))
        b = shift(b, z, o)
        if i >= o:
            check(W, f, [float(f.x[k]) for k in range(o + 1)], b, i + 1, o, dt)
        W.eq('returned', r, f.x)
    W.eq('count', f.n, n)


@contract('C19')
def base(W):
    """the first order + 1 samples are interpolated"""
    o = W.choice('order', [0, 1, 2])
    dt = W.scal('dt', lo=.1, hi=3)
    f = W.mods.leastsq.LeastSquaresFilter(dt, o)
    if W.choice('reset', [0, 1]):
        f.update(W.scal('y0')), f.update(W.scal('y1')), f.errors()
        f.reset()
        W.eq('count after reset', f.n, 0)
        for i in range(o + 1):
            W.eq('state after reset %d' % i, f.x[i], 0)
            W.eq('gain after reset %d' % i, f.K[i], 0)
        W.eq('residual after reset', f.y, 0)
    b = [0] * (o + 1)
    for i in range(o + 1):
        z = W.scal('z%d' % i)
        f.update(z)
        b = shift(b, z, o)
    check(W, f, [f.x[i] for i in range(o + 1)], b, o + 1, o, dt)


@contract('C19')
def errors(W):
    """the reported deviations are sigma times the root of the diagonal of the inverse
    normal matrix (cofactor over determinant), and finite from the start"""
    o = W.choice('order', [0, 1, 2])
    dt, s = W.scal('dt', lo=.1, hi=3), W.scal('sigma', lo=.1, hi=3)
    f = W.mods.leastsq.LeastSquaresFilter(dt, o, s)
    few = W.choice('samples', ['enough', 0, 1, 2])
    if few != 'enough':
        if few > o:
            W.done()
        for i in range(few):
            f.update(W.scal('z%d' % i))
        e, d = f.errors()
        for i in range(o + 1):
            W.eq('error %d before enough samples' % i, e[i], 0)
            W.eq('deviation %d before enough samples' % i, d[i], 0)
        return
    n = W.dim('n', lo=1, hi=40) + o
    if W.symbolic:
        f.n = n
    else:
        for i in range(n):
            f.update(W.scal('z'))
    e, d = f.errors()
    fac = [1, dt, dt * dt / 2]
    M = [[moments(n, k + l) * fac[k] * fac[l] for l in range(o + 1)] for k in range(o + 1)]
    if o == 0:
        pass
    elif o == 1:
        det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
        cof = [M[1][1], M[0][0]]
    else:
        def minor(i):
            a, c = [k for k in range(3) if k != i]
            return M[a][a] * M[c][c] - M[a][c] * M[c][a]
        cof = [minor(i) for i in range(3)]
        det = (M[0][0] * cof[0] - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
               + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
    for i in range(o + 1):
        for nm, v in (('error', e), ('deviation', d)):
            W.ge('%s %d not negative' % (nm, i), v[i], 0)
            if o == 0:
                W.eq('%s %d' % (nm, i), v[i] * v[i] * n, s * s, rel=True)
            else:
                W.eq('%s %d' % (nm, i), v[i] * v[i] * det, s * s * cof[i], rel=True)


@contract('C19')
def limits(W):
    o = W.dim('order', lo=1, hi=9)
    o = -o if W.choice('side', ['low', 'high']) == 'low' else o + 2
    W.raises('order out of range', ValueError, lambda: W.mods.leastsq.LeastSquaresFilter(1., o))
