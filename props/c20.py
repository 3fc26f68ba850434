"""C20  fading-memory polynomial filter is the discounted least-squares fit

Data older than j steps are weighted beta^j.  With w = -j the fit theta of the
infinite past satisfies  sum_j beta^j w^k (z_j - p(w)) = 0, k = 0..order; the
weighted data moments change by one more sample as in `shift`."""
from vf.harness import contract
from .common import *


def m(k, b):
    """sum_j b^j (-j)^k"""
    q = 1 - b
    return [1 / q, -b / q ** 2, b * (1 + b) / q ** 3, -b * (1 + 4 * b + b * b) / q ** 4,
            b * (1 + 11 * b + 11 * b * b + b ** 3) / q ** 5][k]


FAC = [1, 1, 2]


def rhs(theta, dt, beta, o):
    c = [theta[i] * dt ** i / FAC[i] for i in range(o + 1)]
    return [sum(c[l] * m(k + l, beta) for l in range(o + 1)) for k in range(o + 1)]


def shift(b, z, beta, o):
    r = [beta * b[0] + z]
    if o > 0:
        r.append(beta * (b[1] - b[0]))
    if o > 1:
        r.append(beta * (b[2] - 2 * b[1] + b[0]))
    return r


def filt(W, hist=True):
    e = E()
    e.o = W.choice('order', [0, 1, 2])
    e.beta, e.dt = W.scal('beta', lo=.02, hi=.95), W.scal('dt', lo=.1, hi=3)
    if W.symbolic:
        W.assume(e.beta < 1)
    e.s = [W.scal(t) for t in ('x', 'dx', 'ddx')[:e.o + 1]]
    M = W.mods.memory.FadingMemoryFilter
    if hist and W.choice('x0', ['array', 'history']) == 'history':
        e.f = M(W.scal('x00'), e.dt, e.o, e.beta)
        e.f.update(W.scal('z0'))
        e.f.x = W.array(e.s)
    else:
        e.f = M(W.array(e.s), e.dt, e.o, e.beta)
    return e


@contract('C20')
def normal_equations(W):
    e = filt(W)
    f, o = e.f, e.o
    b = rhs(e.s, e.dt, e.beta, o)
    for i in range(1 if W.symbolic else W.pyrng.randint(1, 12)):
        z = W.scal('z%d' % i)
        f.update(z)
        b = shift(b, z, e.beta, o)
        got = rhs([f.x[k] for k in range(o + 1)], e.dt, e.beta, o)
        for k in range(o + 1):
            W.eq('normal equation %d' % k, got[k], b[k], rel=True, tol=1e-6)


@contract('C20')
def exact_target(W):
    """a polynomial of the filter's order: zero residual, exact state (induction step)"""
    e = filt(W)
    s, dt = e.s, e.dt
    t = [[s[0]], [s[0] + s[1] * dt, s[1]] if e.o else 0, [s[0] + s[1] * dt + s[2] * dt * dt / 2, s[1] + s[2] * dt, s[2]] if e.o > 1 else 0][e.o]
    e.f.update(t[0])
    for i in range(e.o + 1):
        W.eq('exact x[%d]' % i, e.f.x[i], t[i], rel=True)


@contract('C20')
def scalar_start(W):
    e = filt(W, hist=False)
    f = W.mods.memory.FadingMemoryFilter(e.s[0], e.dt, e.o, e.beta)
    for i in range(e.o + 1):
        W.eq('x[%d]' % i, f.x[i], e.s[0] if i == 0 else 0)


@contract('C20', sym=False)
def integer_start(W):
    """a start given as integers (the symbolic contracts have no integer arrays)"""
    import numpy as np
    o, beta, dt = W.choice('order', [0, 1, 2]), W.scal('beta', lo=.02, hi=.95), W.scal('dt', lo=.1, hi=3)
    s = np.array([W.pyrng.randint(-5, 5) for _ in range(o + 1)])
    M = W.mods.memory.FadingMemoryFilter
    f, g = M(s, dt, o, beta), M(s.astype(float), dt, o, beta)
    for i in range(3):
        z = W.scal('z%d' % i)
        f.update(z), g.update(z)
        W.eq('state', f.x, g.x)


@contract('C20')
def critical_gains(W):
    """same state as the critically damped g-h / g-h-k filter with theta = beta"""
    e = filt(W)
    if e.o == 0:
        W.done()
    G = W.module('gh.gh_filter')
    g = G.critical_damping_parameters(e.beta, e.o + 1)
    q = {1: G.GHFilter, 2: G.GHKFilter}[e.o](*(e.s + [e.dt] + list(g)))
    z = W.scal('z')
    e.f.update(z)
    q.update(z)
    for i, nm in enumerate(('x', 'dx', 'ddx')[:e.o + 1]):
        W.eq(nm, e.f.x[i], getattr(q, nm), rel=True)


@contract('C20')
def variances(W):
    """P is the diagonal of the stationary covariance of the fit for unit noise: the
    covariance M^-1 M2 M^-1 of the discounted fit (M2: moments of the squared weights)"""
    e = filt(W, hist=False)
    o, b, dt = e.o, e.beta, e.dt
    sc = [dt ** i / FAC[i] for i in range(o + 1)]
    A = W.array([[m(i + j, b) for j in range(o + 1)] for i in range(o + 1)])
    A2 = W.array([[m(i + j, b * b) for j in range(o + 1)] for i in range(o + 1)])
    # columns of the inverse by cofactors: A C = det I
    a = [[m(i + j, b) for j in range(o + 1)] for i in range(o + 1)]
    if o == 0:
        adj, det = [[1]], a[0][0]
    elif o == 1:
        adj, det = [[a[1][1], -a[0][1]], [-a[1][0], a[0][0]]], a[0][0] * a[1][1] - a[0][1] * a[1][0]
    else:
        def cof(i, j):
            r, c = [k for k in range(3) if k != i], [k for k in range(3) if k != j]
            v = a[r[0]][c[0]] * a[r[1]][c[1]] - a[r[0]][c[1]] * a[r[1]][c[0]]
            return v if (i + j) % 2 == 0 else -v
        adj = [[cof(j, i) for j in range(3)] for i in range(3)]
        det = sum(a[0][j] * adj[j][0] for j in range(3))
    P = W.array(adj) @ A2 @ W.array(adj).T
    for i in range(o + 1):
        W.eq('P[%d]' % i, e.f.P[i] * sc[i] * sc[i] * det * det, P[i, i], rel=True, tol=1e-6)
    z = W.scal('z')
    P0 = [e.f.P[i] for i in range(o + 1)]
    e.f.update(z)
    for i in range(o + 1):
        W.eq('P[%d] stays' % i, e.f.P[i], P0[i])


@contract('C20')
def truncation(W):
    """constant lag behind a target with one more polynomial term a t^(order+1)"""
    e = filt(W, hist=False)
    o, dt, b, f = e.o, e.dt, e.beta, e.f
    a = W.scal('a')
    err = [f.e[i] * a for i in range(o + 1)]
    if o == 0:
        true0, true1 = [e.s[0]], [e.s[0] + a * dt]
    elif o == 1:
        x, v = e.s
        true0, true1 = [x, v], [x + v * dt + a * dt * dt, v + 2 * a * dt]
    else:
        x, v, c = e.s
        true0 = [x, v, c]
        true1 = [x + v * dt + c * dt * dt / 2 + a * dt ** 3, v + c * dt + 3 * a * dt * dt, c + 6 * a * dt]
    f.x = W.array([t - r for t, r in zip(true0, err)])
    f.update(true1[0])
    for i in range(o + 1):
        W.eq('lag of term %d persists' % i, true1[i] - f.x[i], err[i], rel=True, tol=1e-7)


@contract('C20')
def limits(W):
    o = W.dim('order', lo=1, hi=9)
    o = -o if W.choice('side', ['low', 'high']) == 'low' else o + 2
    W.raises('order out of range', ValueError, lambda: W.mods.memory.FadingMemoryFilter(0., 1., o, .5))
