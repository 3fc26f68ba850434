"""C22  continuous-to-discrete conversion solves the linear SDE"""
from vf.harness import contract
from .common import *


def system(W):
    e = E()
    e.n = n = W.dim('n')
    e.F = W.mat('F', n, n)
    e.dt = W.choice('dt', [1, 'any'])
    if e.dt == 'any':
        e.dt = W.scal('dt', pos=True)
    if not W.symbolic:
        e.F = e.F / max(1, abs(e.F).sum() * e.dt / 4)
    return e


def mod(W):
    return W.module('common.discretization')


@contract('C22')
def van_loan(W):
    e = system(W)
    p = W.dim('p')
    G = W.mat('G', e.n, p)
    F0, G0 = W.snap(e.F), W.snap(G)
    r = W.call('van_loan', mod(W).van_loan_discretization, e.F, G, e.dt)
    W.ok('pair', isinstance(r, tuple) and len(r) == 2)
    W.eq('transition', r[0], W.expm(e.F * e.dt), tol=1e-6)
    W.eq('noise', r[1], W.vanloan(e.F * e.dt, G @ G.T) * e.dt, tol=1e-6)
    W.eq('F unchanged', e.F, F0)
    W.eq('G unchanged', G, G0)


@contract('C22')
def linear_ode(W):
    e = system(W)
    f = mod(W).linear_ode_discretation
    form = W.choice('given', ['all', 'no L', 'no Q', 'neither'])
    p = W.dim('p') if form == 'all' else e.n
    L = W.mat('L', e.n, p) if form in ('all', 'no Q') else None
    Q = W.choice('Qkind', ['psd', 'any']) if form in ('all', 'no L') else None
    if Q:
        Q = W.psd('Q', p) if Q == 'psd' else W.mat('Q', p, p)
    snaps = [W.snap(v) for v in (e.F, L, Q) if v is not None]
    style = W.choice('style', ['positional', 'keyword'])
    if style == 'positional':
        r = W.call('linear_ode', f, e.F, L, Q, e.dt)
    else:
        r = W.call('linear_ode', f, F=e.F, dt=e.dt, **{k: v for k, v in (('L', L), ('Q', Q)) if v is not None})
    W.ok('pair', isinstance(r, tuple) and len(r) == 2)
    W.eq('transition', r[0], W.expm(e.F * e.dt), tol=1e-6)
    if Q is None:
        W.eq('noise', r[1], W.zeros(e.n, e.n))
    else:
        LQL = Q if L is None else L @ Q @ L.T
        W.eq('noise', r[1], W.vanloan(e.F * e.dt, LQL) * e.dt, tol=1e-6)
    for a, b in zip([v for v in (e.F, L, Q) if v is not None], snaps):
        W.eq('argument unchanged', a, b)


@contract('C22')
def default_dt(W):
    n = W.dim('n')
    F, L, Q = W.mat('F', n, n), W.mat('L', n, n), W.psd('Q', n)
    if not W.symbolic:
        F = F / max(1, abs(F).sum() / 4)
    A, q = W.call('linear_ode', mod(W).linear_ode_discretation, F, L, Q)
    W.eq('transition', A, W.expm(F), tol=1e-6)
    W.eq('noise', q, W.vanloan(F, L @ Q @ L.T), tol=1e-6)


@contract('C22')
def agreement(W):
    e = system(W)
    G = W.mat('G', e.n, W.dim('p'))
    a = mod(W).van_loan_discretization(e.F, G, e.dt)
    b = mod(W).linear_ode_discretation(e.F, G, W.eye(G.shape[1]), e.dt)
    W.eq('same transition', a[0], b[0], tol=1e-6)
    W.eq('same noise', a[1], b[1], tol=1e-6)


@contract('C22')
def runge_kutta(W):
    """y + (k1 + 2 k2 + 2 k3 + k4)/6 for any right-hand side"""
    rk = W.module('common.helpers').runge_kutta4
    kind = W.choice('kind', ['scalar', 'vector'])
    m = 1 if kind == 'scalar' else W.dim('m')
    g = W.func('f', m)
    x, dx = W.scal('x'), W.scal('dx')
    if kind == 'scalar':
        y = W.scal('y')
        calls = []

        def f(y, x):
            calls.append(1)
            return W.scalar(g(W.array([y, x])))
    else:
        y = W.vec('y', m, 1)
        y0 = W.snap(y)

        def f(y, x):
            return g(y, x)
    k1 = dx * f(y, x)
    k2 = dx * f(y + k1 / 2, x + dx / 2)
    k3 = dx * f(y + k2 / 2, x + dx / 2)
    k4 = dx * f(y + k3, x + dx)
    got = W.call('rk4', rk, y, x, dx, f)
    W.eq('rk4', got, y + (k1 + 2 * k2 + 2 * k3 + k4) / 6, rel=True)
    if kind == 'vector':
        W.eq('y unchanged', y, y0)


@contract('C22')
def runge_kutta_order(W):
    """exact for right-hand sides that are cubics in x (Simpson's rule)"""
    rk = W.module('common.helpers').runge_kutta4
    a = [W.scal('a%d' % i) for i in range(4)]
    y, x, dx = W.scal('y'), W.scal('x'), W.scal('dx')
    f = lambda y, x: a[0] + a[1] * x + a[2] * x ** 2 + a[3] * x ** 3
    P = lambda x: a[0] * x + a[1] * x ** 2 / 2 + a[2] * x ** 3 / 3 + a[3] * x ** 4 / 4
    W.eq('exact', rk(y, x, dx, f), y + P(x + dx) - P(x), tol=1e-6)
