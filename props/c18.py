"""C18  g-h family filters follow their defining recurrences"""
from vf.harness import contract
from .common import *


def val(W, name, kind, n):
    """a scalar or vector quantity"""
    return W.scal(name) if kind == 'scalar' else W.vec(name, n, 1)


def gains(W, names, kw):
    """per-call gains: subsets of the names, zero included"""
    which = W.choice('override', ['none', 'all', 'first', 'last', 'zero'])
    use = {'none': [], 'all': names, 'first': names[:1], 'last': names[-1:], 'zero': names}[which]
    return {k: (0 if which == 'zero' else W.scal('o' + k)) for k in use}


def filt(W, order):
    e = E()
    e.n = W.dim('n')
    e.kind = W.choice('kind', ['scalar', 'vector'])
    e.names = ['g', 'h', 'k'][:order + 1]
    e.gain = {k: W.scal(k) for k in e.names}
    e.dt = W.scal('dt', pos=True)
    e.s = [val(W, v, e.kind, e.n) for v in ('x', 'dx', 'ddx')[:order + 1]]
    G = W.module('gh.gh_filter')
    cls = {1: G.GHFilter, 2: G.GHKFilter}[order]
    if W.choice('hist', [0, 1]):
        f = cls(*([val(W, v + '0', e.kind, e.n) for v in ('x', 'dx', 'ddx')[:order + 1]] + [W.scal('dt0', pos=True)] + [e.gain[k] for k in e.names]))
        f.update(val(W, 'z0', e.kind, e.n), g=W.scal('g0'))
        f.dt = e.dt
        f.x, f.dx = W.snap(e.s[0]), W.snap(e.s[1])
        if order == 2:
            f.ddx = W.snap(e.s[2])
    else:
        f = cls(*([W.snap(v) for v in e.s] + [e.dt] + [e.gain[k] for k in e.names]))
    e.f = f
    return e


def step(s, z, dt, g):
    """constant-velocity / constant-acceleration prediction, correction by gain x residual"""
    if len(s) == 1:
        p = list(s)
        y = z - p[0]
        return p, y, [p[0] + g['g'] * y]
    if len(s) == 2:
        p = [s[0] + s[1] * dt, s[1]]
        y = z - p[0]
        return p, y, [p[0] + g['g'] * y, p[1] + g['h'] * y / dt]
    p = [s[0] + s[1] * dt + s[2] * dt * dt / 2, s[1] + s[2] * dt, s[2]]
    y = z - p[0]
    return p, y, [p[0] + g['g'] * y, p[1] + g['h'] * y / dt, p[2] + 2 * g['k'] * y / dt / dt]


def dedicated(W, order):
    e = filt(W, order)
    f = e.f
    z = val(W, 'z', e.kind, e.n)
    ov = gains(W, e.names, {})
    r = f.update(W.snap(z), **ov)
    p, y, s = step(e.s, z, e.dt, dict(e.gain, **ov))
    for nm, v in zip(('x', 'dx', 'ddx'), s):
        W.eq(nm, getattr(f, nm), v)
    for nm, v in zip(('x_prediction', 'dx_prediction', 'ddx_prediction'), p):
        W.eq(nm, getattr(f, nm), v)
    W.eq('residual', f.y, y)
    W.eq('returned x', r[0], s[0])
    W.eq('returned dx', r[1], s[1])
    for k in e.names:
        W.eq('gain %s is kept' % k, getattr(f, k), e.gain[k])
    W.eq('dt is kept', f.dt, e.dt)


@contract('C18')
def gh(W):
    dedicated(W, 1)


@contract('C18')
def ghk(W):
    dedicated(W, 2)


@contract('C18')
def order(W):
    G = W.module('gh.gh_filter')
    o = W.choice('order', [0, 1, 2])
    names = ['g', 'h', 'k'][:o + 1]
    gain = {k: W.scal(k) for k in names}
    dt = W.scal('dt', pos=True)
    s = [W.scal(v) for v in ('x', 'dx', 'ddx')[:o + 1]]
    init = W.choice('x0', ['array', 'scalar'])
    if init == 'scalar':
        s = s[:1] + [0] * o
        f = G.GHFilterOrder(s[0], dt, o, **gain)
    else:
        f = G.GHFilterOrder(W.array(s), dt, o, **gain)
    if W.choice('hist', [0, 1]):
        f.update(W.scal('z0'))
        f.x = W.array(s)
    z = W.scal('z')
    ov = gains(W, names, {})
    f.update(z, **ov)
    p, y, t = step(s, z, dt, dict(gain, **ov))
    W.eq('residual', f.y, y)
    for i in range(o + 1):
        W.eq('x[%d]' % i, f.x[i], t[i])
    for k in names:
        W.eq('gain %s is kept' % k, getattr(f, k), gain[k])
    # the dedicated filter does the same
    if o:
        d = {1: G.GHFilter, 2: G.GHKFilter}[o](*(s + [dt] + [gain[k] for k in names]))
        d.update(z, **ov)
        for i, nm in enumerate(('x', 'dx', 'ddx')[:o + 1]):
            W.eq('dedicated filter ' + nm, f.x[i], getattr(d, nm))


@contract('C18')
def order_limits(W):
    G = W.module('gh.gh_filter')
    o = W.dim('order', lo=1, hi=9)
    o = -o if W.choice('side', ['low', 'high']) == 'low' else o + 2
    W.raises('order out of range', ValueError, lambda: G.GHFilterOrder(0., 1., o, .1, .1, .1))


@contract('C18')
def exact_target(W):
    """a target obeying the motion model: from an exact state the next residual is zero
    and the next state exact (induction step)"""
    G = W.module('gh.gh_filter')
    o = W.choice('order', [1, 2])
    dt = W.scal('dt', pos=True)
    names = ['g', 'h', 'k'][:o + 1]
    gain = [W.scal(k) for k in names]
    n, kind = W.dim('n'), W.choice('kind', ['scalar', 'vector'])
    s = [val(W, v, kind, n) for v in ('x', 'dx', 'ddx')[:o + 1]]
    t = [s[0] + s[1] * dt, s[1]] if o == 1 else [s[0] + s[1] * dt + s[2] * dt * dt / 2, s[1] + s[2] * dt, s[2]]
    f = {1: G.GHFilter, 2: G.GHKFilter}[o](*([W.snap(v) for v in s] + [dt] + gain))
    f.update(W.snap(t[0]))
    W.eq('zero residual', f.y, t[0] * 0)
    for nm, v in zip(('x', 'dx', 'ddx'), t):
        W.eq('exact ' + nm, getattr(f, nm), v)
    if kind == 'scalar':
        q = G.GHFilterOrder(W.array(s), dt, o, *gain)
        q.update(t[0])
        W.eq('zero residual (order filter)', q.y, 0)
        for i in range(o + 1):
            W.eq('exact x[%d] (order filter)' % i, q.x[i], t[i])


@contract('C18')
def gain_design(W):
    G = W.module('gh.gh_filter')
    which = W.choice('formula', ['optimal', 'ls', 'critical2', 'critical3', 'bb', 'bbc'])
    if which == 'optimal':
        g = W.scal('g', lo=.01, hi=.99)
        r = G.optimal_noise_smoothing(g)
        h = (2 * g ** 3 - 4 * g ** 2 + W.sqrt(4 * g ** 6 - 64 * g ** 5 + 64 * g ** 4)) / (8 * (1 - g))
        W.eq('g', r[0], g)
        W.eq('h', r[1], h)
        W.eq('k', r[2], (h * (2 - g) - g ** 2) / g)
    elif which == 'ls':
        n = W.dim('n', lo=1, hi=60) - 1
        g, h = G.least_squares_parameters(n)
        W.eq('g', g, 2 * (2 * n + 1) / ((n + 2) * (n + 1)))
        W.eq('h', h, 6 / ((n + 2) * (n + 1)))
    elif which.startswith('critical'):
        t = W.scal('theta', lo=.001, hi=.999)
        r = G.critical_damping_parameters(t, int(which[-1]))
        if which == 'critical2':
            W.eq('default order', W.array(list(G.critical_damping_parameters(t))), W.array(list(r)))
            want = [1 - t * t, (1 - t) ** 2]
        else:
            want = [1 - t ** 3, 3 * (1 - t * t) * (1 - t) / 2, (1 - t) ** 3 / 2]
        W.eq('number of gains', len(r), len(want))
        for i, v in enumerate(want):
            W.eq('gain %d' % i, r[i], v)
    else:
        g = W.scal('g', lo=.01, hi=.99)
        if which == 'bb':
            r = G.benedict_bornder_constants(g)
            h = g * g / (2 - g)
        else:
            r = G.benedict_bornder_constants(g, True)
            h = 4 * (2 - g * g - 2 * W.sqrt(1 - g * g)) / (5 * g * g)
        W.eq('g', r[0], g)
        W.eq('h', r[1], h)


@contract('C18')
def critical_range(W):
    G = W.module('gh.gh_filter')
    t = W.scal('theta')
    o = W.choice('order', [2, 3])
    side = W.choice('side', ['low', 'high', 'order'])
    if side == 'order':
        W.raises('bad order', ValueError, lambda: G.critical_damping_parameters(.5, W.choice('bad', [0, 1, 4])))
    else:
        t = (-t * t - 1) if side == 'low' else (2 + t * t)
        W.raises('theta out of range', ValueError, lambda: G.critical_damping_parameters(t, o))


@contract('C18')
def least_squares_gains(W):
    """the growing-memory gains make the g-h filter the straight line fit: the residuals'
    normal equations are preserved from n to n + 1 samples"""
    G = W.module('gh.gh_filter')
    n = W.dim('n', lo=1, hi=40) + 1      # samples 0 .. n-1 seen, the n-th arrives
    dt, b, v = W.scal('dt', pos=True), W.scal('x'), W.scal('dx')
    # sums over i < n of z_i and of i z_i that make (b at n-1, v) the least-squares line
    s0 = n * b - v * dt * n * (n - 1) / 2
    i1 = n * (n - 1) / 2
    i2 = (n - 1) * n * (2 * n - 1) / 6
    a = b - v * dt * (n - 1)             # intercept at sample 0
    s0, s1 = a * n + v * dt * i1, a * i1 + v * dt * i2
    z = W.scal('z')
    f = G.GHFilter(b, v, dt, 0., 0.)
    g, h = G.least_squares_parameters(n)
    f.update(z, g, h)
    a2 = f.x - f.dx * dt * n
    j1, j2 = i1 + n, i2 + n * n
    W.eq('first normal equation', a2 * (n + 1) + f.dx * dt * j1, s0 + z, rel=True)
    W.eq('second normal equation', a2 * j1 + f.dx * dt * j2, s1 + n * z, rel=True)


@contract('C18')
def variance_reduction(W):
    """VRF and VRF_prediction are the stationary variances for unit measurement noise:
    they satisfy the Lyapunov equation of the estimation error together with the
    covariances determined by it"""
    G = W.module('gh.gh_filter')
    o = W.choice('order', [1, 2])
    dt = W.scal('dt', lo=.2, hi=3)
    t = W.scal('g', lo=.2, hi=.8)
    if o == 1:
        g, h = t, W.scal('h', lo=.05, hi=.5)
        f = G.GHFilter(0., 0., dt, g, h)
        vx, vd = f.VRF()
        vp = f.VRF_prediction()
        c = h * (2 * g - h) / (dt * g * (4 - 2 * g - h))          # cov(x, dx)
        P = W.array([[vx, c], [c, vd]])
        F = W.array([[1, dt], [0, 1]])
        K = W.array([[g], [h / dt]])
        H = W.array([[1, 0]])
        I = W.array([[1, 0], [0, 1]])
    else:
        h, k = W.scal('h', lo=.05, hi=.5), W.scal('k', lo=.001, hi=.01)
        g = t
        f = G.GHKFilter(0., 0., 0., dt, g, h, k)
        vx, vd, va = f.VRF()
        vp = f.VRF_prediction()
        D = (4 - 2 * g - h) * (g * h + g * k - 2 * k)
        F = W.array([[1, dt, dt * dt / 2], [0, 1, dt], [0, 0, 1]])
        K = W.array([[g], [h / dt], [2 * k / dt / dt]])
        H = W.array([[1, 0, 0]])
        I = W.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        c01 = h * (2 * g - h) * (h - k) / dt / D
        c02 = 2 * k * (2 * g * h + 2 * g * k - h * h + h * k - 4 * k) / dt ** 2 / D
        c12 = 4 * h * k * (h - k) / dt ** 3 / D
        P = W.array([[vx, c01, c02], [c01, vd, c12], [c02, c12, va]])
    A = (I - K @ H) @ F
    W.eq('stationary', A @ P @ A.T + K @ K.T, P, rel=True)
    W.eq('prediction', vp, (F @ P @ F.T)[0, 0], rel=True)


@contract('C18')
def jerk_bias(W):
    """a target of constant jerk: the constant lag of the prediction is bias_error"""
    G = W.module('gh.gh_filter')
    dt, J = W.scal('dt', lo=.2, hi=3), W.scal('J')
    g, h, k = W.scal('g', lo=.2, hi=.8), W.scal('h', lo=.05, hi=.5), W.scal('k', lo=.001, hi=.01)
    r = J * dt ** 3 / (2 * k)
    ea = J * dt / 2 - h * r / dt / dt
    ex = -(1 - g) * r
    ed = (-r - ex + J * dt ** 3 / 6 - ea * dt * dt / 2) / dt
    x, v, a = W.scal('x'), W.scal('dx'), W.scal('ddx')
    f = G.GHKFilter(x + ex, v + ed, a + ea, dt, g, h, k)
    f.update(x + v * dt + a * dt * dt / 2 + J * dt ** 3 / 6)
    W.eq('constant lag', -f.y, f.bias_error(J), rel=True)
    W.eq('x error persists', f.x, x + v * dt + a * dt * dt / 2 + J * dt ** 3 / 6 + ex, rel=True)
    W.eq('dx error persists', f.dx, v + a * dt + J * dt * dt / 2 + ed, rel=True)
    W.eq('ddx error persists', f.ddx, a + J * dt + ea, rel=True)
