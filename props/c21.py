"""C21  kinematic transition and process-noise matrices obey their laws"""
from math import factorial
from vf.harness import contract
from .common import *


def time(W, name):
    return W.choice(name, [1, 0]) if W.choice(name + ' kind', ['any', 'any', 'int']) == 'int' else W.scal(name)


def span(W, name):
    return W.scal(name, pos=True)


def const(W, n):
    return W.scalar(n) if W.symbolic else float(n)


def chain(W, n, t):
    """exp(N t) for the n x n integrator chain (ones on the superdiagonal)"""
    one = const(W, 1)
    return W.array([[t ** (j - i) / const(W, factorial(j - i)) if j > i else one * int(i == j) for j in range(n)] for i in range(n)])


def rows(W, n, f):
    return W.array([[f(i, j) for j in range(n)] for i in range(n)])


def discrete(W, n, dt, var):
    """input-gain vector: the effect over dt of a unit top derivative (dim 3: piecewise
    constant acceleration, dim 4: piecewise constant jerk, dim 2: piecewise constant acceleration)"""
    one = const(W, 1)
    g = {2: [dt ** 2 / const(W, 2), dt], 3: [dt ** 2 / const(W, 2), dt, one],
         4: [dt ** 3 / const(W, 6), dt ** 2 / const(W, 2), dt, one]}[n]
    return rows(W, n, lambda i, j: g[i] * g[j] * var)


def continuous(W, n, dt, q):
    def ent(i, j):
        a, b = n - 1 - i, n - 1 - j
        return q * dt ** (a + b + 1) / const(W, factorial(a) * factorial(b) * (a + b + 1))
    return rows(W, n, ent)


def interleave(W, M, n, b, by_dim):
    """b copies of the n x n matrix M: block diagonal, or ordered by derivative"""
    zero = const(W, 0)
    N = n * b

    def ent(r, c):
        if by_dim:
            return M[r % n, c % n] if r // n == c // n else zero
        return M[r // b, c // b] if r % b == c % b else zero
    return rows(W, N, ent)


def K(W):
    return W.module('common.kinematic').kinematic_state_transition


# ------------------------------------------------------------------ transition
def transition(W, orders):
    o = W.choice('order', orders)
    dt = W.scal('dt')
    F = W.call('transition', K(W), o, dt)
    W.eq('F = exp(chain dt)', F, chain(W, o + 1, dt), rel=True)
    s = W.scal('s')
    W.eq('semigroup', K(W)(o, s + dt), K(W)(o, s) @ F, mag=None if W.symbolic else abs(K(W)(o, s)) @ abs(F), tol=1e-9)
    W.eq('identity at 0', K(W)(o, 0 * dt), W.eye(o + 1))


@contract('C21')
def transition_closed_form(W):
    transition(W, [0, 1, 2])


@contract('C21', con=False)
def transition_any_order(W):
    """F[i, j] = dt**(j - i) / (j - i)! on and above the diagonal, zero below, for every order"""
    import z3
    from vf import hoare as V_
    V = V_.Verifier(W, 'filterpy.common.kinematic', 'kinematic_state_transition')
    o, dt, k = z3.Int('order'), z3.Real('dt'), z3.Int('k?')
    T = z3.Function('T', V_.I, V_.R)           # T(k) = dt**k / k!
    V.facts += V_.power_facts() + [z3.ForAll([k], z3.Implies(k >= 0, T(k) == V_.POW(dt, k) / z3.ToReal(V_.FACT(k))), patterns=[T(k)]),
                                   T(0) == 1, T(1) == dt, T(2) == dt * dt / 2]
    n = o + 1
    want = lambda r, c: z3.If(c >= r, T(c - r), z3.RealVal(0))
    regions = {2: [lambda i, env: lambda r, c: z3.And(r == 0, c < i), lambda i, env: lambda r, c: r <= i, lambda i, env: lambda r, c: r < i,
                   lambda i, env: lambda r, c: c < i] +
               [lambda i, env, v=v: lambda r, c: z3.And(r == env[v], c < i) if V_.is_int(env.get(v)) else z3.BoolVal(False) for v in ('i', 'j', 'n', 'r', 'row', 'k')],
               1: [lambda i, env: lambda q: q < i]}

    def post(view, ret):
        from vf.ctx import Unsupported
        if not isinstance(ret, V_.Arr2):
            raise Unsupported('returned value')
        f = ret.f
        return [('shape', z3.And(ret.n == n, ret.m == n)), ('transition matrix', V_.Cells((n, n), lambda r, c: f(r, c) == want(r, c)))]
    V.run([o, dt], dict(pre=[o >= 0], loops={}, post=post,
                        auto=lambda V, s, names, arrs: V_.fill_loops(V, s, names, arrs, {2: want, 1: T}, regions, scalars=[lambda i: T(i), lambda i: T(i + 1)])))


@contract('C21', bounded='orders 3 to 6')
def transition_general(W):
    transition(W, [3, 4, 5, 6] if W.symbolic else list(range(3, 16)))


@contract('C21')
def transition_integer_dt(W):
    o = W.choice('order', [0, 1, 2, 3, 4])
    dt = W.choice('dt', [1, 2, 0])
    W.eq('integer dt', K(W)(o, dt), chain(W, o + 1, const(W, dt)))


@contract('C21')
def transition_refuses(W):
    o = W.choice('order', [-1, -3, 0.5])
    W.raises('bad order', ValueError, lambda: K(W)(o, W.scal('dt')))


def arranged(W, dims, orders):
    D, o, dz = W.choice('dim', dims), W.choice('order', orders), W.choice('dim_z', [1, 2])
    by = W.choice('order_by_dim', [True, False])
    dt = W.scal('dt')
    kin = W.module('common.kinematic')
    if dz == 1 and by and W.choice('defaults', [0, 1]):
        # one measurement, grouped by dimension, unit time step
        kf = W.call('kinematic_kf', kin.kinematic_kf, D, o)
        W.eq('kf.F', kf.F, interleave(W, chain(W, o + 1, const(W, 1)), o + 1, D, True), rel=True)
        W.ok('dims', kf.dim_x == D * (o + 1) and kf.dim_z == 1)
        return
    kw = {}
    if W.choice('kf given', [0, 1]):
        kw['kf'] = W.mods.kalman.KalmanFilter(dim_x=D * (o + 1), dim_z=dz)
        kw['kf'].F = W.mat('F0', D * (o + 1), D * (o + 1))
    kf = W.call('kinematic_kf', kin.kinematic_kf, D, o, dt=dt, dim_z=dz, order_by_dim=by, **kw)
    if kw:
        W.same('kf returned', kf, kw['kf'])
    W.eq('kf.F', kf.F, interleave(W, chain(W, o + 1, dt), o + 1, D, by), rel=True)
    W.eq('kf.x', kf.x, W.zeros(D * (o + 1), 1))
    W.ok('dims', kf.dim_x == D * (o + 1) and kf.dim_z == dz)


@contract('C21', bounded='dim 1 to 3, order 0 to 3')
def kinematic_filter(W):
    arranged(W, *([1, 2, 3], [0, 1, 2, 3]) if W.symbolic else (list(range(1, 7)), list(range(8))))


@contract('C21')
def kinematic_filter_refuses(W):
    kin = W.module('common.kinematic')
    a = W.choice('bad', [(0, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, 0), (2, 2, -1)])
    W.raises('bad', ValueError, lambda: kin.kinematic_kf(a[0], a[1], dt=W.scal('dt'), dim_z=a[2]))


# ------------------------------------------------------------------ noise
def noise(W, kind):
    D = W.module('common.discretization')
    n = W.choice('dim', [2, 3, 4])
    dt, q = W.scal('dt'), W.scal('q')
    name, spec, f = {'discrete': ('var', discrete, D.Q_discrete_white_noise),
                     'continuous': ('spectral_density', continuous, D.Q_continuous_white_noise)}[kind]
    return n, dt, q, spec, lambda n, dt=None, q=None, **k: f(n, **dict(k, **{a: b for a, b in (('dt', dt), (name, q)) if b is not None}))


def one_block(W, kind):
    n, dt, q, spec, f = noise(W, kind)
    Q = W.call('Q', f, n, dt, q)
    W.eq('definition', Q, spec(W, n, dt, q), rel=True)
    W.eq('symmetric', Q, Q.T)
    c = W.scal('c')
    W.eq('linear', f(n, dt, c * q), c * Q, rel=True)
    one = const(W, 1)
    W.eq('defaults', f(n), spec(W, n, one, one))
    W.eq('default intensity', f(n, dt), spec(W, n, dt, one), rel=True)


@contract('C21')
def discrete_noise(W):
    one_block(W, 'discrete')


@contract('C21')
def continuous_noise(W):
    one_block(W, 'continuous')


def positional(W, kind):
    n, dt, q, spec, f = noise(W, kind)
    D = W.module('common.discretization')
    g = D.Q_discrete_white_noise if kind == 'discrete' else D.Q_continuous_white_noise
    b, by = W.choice('blocks', [1, 2]), W.choice('order_by_dim', [True, False])
    W.eq('positional', g(n, dt, q, b, by), interleave(W, spec(W, n, dt, q), n, b, by), rel=True)


@contract('C21')
def discrete_positional(W):
    positional(W, 'discrete')


@contract('C21')
def continuous_positional(W):
    positional(W, 'continuous')


@contract('C21')
def continuous_additive(W):
    """Q(s+t) = F(t) Q(s) F(t)' + Q(t)"""
    n, t, q, spec, f = noise(W, 'continuous')
    s = W.scal('s')
    F = K(W)(n - 1, t)
    a, b = f(n, s, q), f(n, t, q)
    W.eq('additive', f(n, s + t, q), F @ a @ F.T + b, mag=None if W.symbolic else abs(F) @ abs(a) @ abs(F).T + abs(b), tol=1e-9)
    W.eq('zero', f(n, 0 * t, q), W.zeros(n, n))


@contract('C21')
def discrete_psd(W):
    D = W.module('common.discretization')
    n = W.choice('dim', [2, 3, 4])
    dt, q = W.scal('dt'), W.scal('q', pos=True)
    g = discrete(W, n, dt, const(W, 1))[:, n - 1:n] if n > 2 else W.array([[dt / const(W, 2)], [const(W, 1)]]) * dt
    W.psd_cert('psd', D.Q_discrete_white_noise(n, dt, q), [(g, W.array([[q]]))])


@contract('C21')
def continuous_psd(W):
    """LDL' with L, D from the integral's Gram matrix"""
    D = W.module('common.discretization')
    n = W.choice('dim', [2, 3, 4])
    dt, q = W.scal('dt', pos=True), W.scal('q', pos=True)
    Q = D.Q_continuous_white_noise(n, dt, q)
    if not W.symbolic:
        return W.psd_cert('psd', Q, None)
    M = [[Q[i, j] for j in range(n)] for i in range(n)]
    parts = []
    for k in range(n - 1, -1, -1):
        d = M[k][k]
        col = [M[i][k] / d for i in range(n)]
        parts.append((W.array([[c] for c in col]), W.array([[d]])))
        M = [[M[i][j] - col[i] * d * col[j] for j in range(n)] for i in range(n)]
    W.psd_cert('psd', Q, parts)


def multi(W, kind):
    n, dt, q, spec, f = noise(W, kind)
    b = W.choice('blocks', [2, 3, 4] if W.symbolic else list(range(2, 11)))
    by = W.choice('order_by_dim', [True, False])
    W.eq('arrangement', W.call('Q', f, n, dt, q, block_size=b, order_by_dim=by), interleave(W, spec(W, n, dt, q), n, b, by), rel=True)


class Index:
    """index-level contracts (vf/hoare.py) of the functions that arrange copies of a matrix:
    p states per copy, b copies, any p and b"""

    def __init__(self, W, module, func, modular=()):
        import z3
        from vf import hoare as H
        self.z3, self.H = z3, H
        self.V = H.Verifier(W, module, func, modular=modular)
        self.B = H.Blocks(self.V)

    def by_dim(self, f, p):
        """block diagonal of copies of f (p x p)"""
        D, M = self.H.DIV, self.H.MOD
        return lambda r, c: self.z3.If(D(r, p) == D(c, p), f(M(r, p), M(c, p)), self.z3.RealVal(0))

    def by_derivative(self, f, b):
        D, M = self.H.DIV, self.H.MOD
        return lambda r, c: self.z3.If(M(r, b) == M(c, b), f(D(r, b), D(c, b)), self.z3.RealVal(0))

    def regions(self, p, b):
        """the cells a loop over the blocks has done after i turns"""
        D, z3 = self.H.DIV, self.z3
        return {2: [lambda i, env: lambda r, c: D(r, b) * p + D(c, b) < i, lambda i, env: lambda r, c: D(r, b) < i] +
                [lambda i, env, v=v: lambda r, c: z3.And(D(r, b) == env[v], D(c, b) < i) if self.H.is_int(env.get(v)) else z3.BoolVal(False)
                 for v in ('i', 'j', 'r', 'row', 'k')]}

    def vars(self, env):
        return [v for v in env.values() if self.H.is_int(v) and self.H.is_z(v)]

    def turns(self, p, b):
        B, D, M = self.B, self.H.DIV, self.H.MOD
        return lambda i, env: B.unique(i, p, D(i, p)) + B.below(i, p, p) + B.ends(D(i, p), b, p) + B.ends(M(i, p), b, p) + B.ends(i, b, p) + B.ends(i, p, b) + \
            [h for v in self.vars(env) for h in B.ends(v, b, p)]

    def hints(self, p, b):
        B, D, M = self.B, self.H.DIV, self.H.MOD

        def f(view, r, c):
            out = B.below(r, b, p) + B.below(c, b, p) + B.ends(D(r, b), p, p)
            for x in ([] if view is None or view.i is None else [view.i - 1, view.i]):
                for y in (D(x, p), M(x, p), x):
                    out += B.unique(r, b, y) + B.unique(c, b, y)
                out += B.unique(x, p, D(r, b))
            for v in (self.vars(view.env) if view is not None else []):
                out += B.unique(r, b, v)
            return out
        return f

    def fill(self, target, p, b):
        return lambda V, s, names, arrs: self.H.fill_loops(V, s, names, arrs, target, self.regions(p, b), self.hints(p, b), use=self.turns(p, b))

    def matrix(self, ret):
        from vf.ctx import Unsupported
        if not isinstance(ret, self.H.Arr2):
            raise Unsupported('returned value')
        return ret

    def is_(self, name, ret, n, want, p=None, b=None):
        f = self.matrix(ret).f
        h = self.hints(p, b) if b is not None else None
        return [(name + ' shape', self.z3.And(ret.n == n, ret.m == n)),
                (name, self.H.Cells((n, n), lambda r, c: f(r, c) == want(r, c), hints=h and (lambda r, c: h(None, r, c))))]


@contract('C21', con=False)
def by_derivative_any(W):
    """order_by_derivative: cell (r, c) is Q[r // b, c // b] where r % b = c % b, otherwise zero"""
    X = Index(W, 'filterpy.common.discretization', 'order_by_derivative')
    z3, H = X.z3, X.H
    n, b = z3.Int('dim'), z3.Int('b')
    q = z3.Function('Q', H.I, H.I, H.R)
    want = X.by_derivative(q, b)
    X.V.run([H.Arr2(n, n, lambda i, j: q(i, j)), n, b], dict(
        pre=[n >= 1, b >= 1], loops={}, auto=X.fill({2: want}, n, b),
        post=lambda view, ret: X.is_('state in order of derivatives', ret, n * b, want, n, b) + [
            ('argument unchanged', H.Cells((n, n), lambda r, c: view.arg(0).f(r, c) == q(r, c))),
            ('new array', ret is not view.arg(0) and ret.view_of is None)]))


def blocks_any(W, kind):
    """any number of blocks; order_by_derivative by its contract (by_derivative_any)"""
    name = {'discrete': 'Q_discrete_white_noise', 'continuous': 'Q_continuous_white_noise'}[kind]
    X = Index(W, 'filterpy.common.discretization', name, modular=('order_by_derivative',))
    z3, H = X.z3, X.H
    n = W.choice('dim', [2, 3, 4])
    by = W.choice('order_by_dim', [True, False])
    b, dt, var = z3.Int('b'), z3.Real('dt'), z3.Real('var')

    class Num:                       # the specification's entries as terms of the verifier
        symbolic = True
        scalar = staticmethod(lambda v: z3.RealVal(v))
        array = staticmethod(lambda rows: rows)
    pw = lambda k: H.arith(__import__('ast').Pow(), dt, k)

    def entry(i, j):
        if kind == 'discrete':
            g = {2: [pw(2) / 2, dt], 3: [pw(2) / 2, dt, z3.RealVal(1)], 4: [pw(3) / 6, pw(2) / 2, dt, z3.RealVal(1)]}[n]
            return g[i] * g[j]
        u, v = n - 1 - i, n - 1 - j
        return pw(u + v + 1) / (factorial(u) * factorial(v) * (u + v + 1))

    def cell(i, j):
        out = entry(n - 1, n - 1)
        for u in range(n):
            for v in range(n):
                if (u, v) != (n - 1, n - 1):
                    out = z3.If(z3.And(i == u, j == v), entry(u, v), out)
        return out
    N = z3.IntVal(n)
    want0 = X.by_dim(cell, N) if by else X.by_derivative(cell, b)
    want = lambda r, c: want0(r, c) * var

    def derivative(V, s, args, kw):
        from vf.ctx import Unsupported
        if kw or len(args) != 3 or not isinstance(args[0], H.Arr2):
            raise Unsupported('call')
        Q, d, k = args[0], H.toi(args[1]), H.toi(args[2])
        V.prove(s, 'order_by_derivative: square matrix of dim', z3.And(Q.n == d, Q.m == d, d >= 1, k >= 1))
        f = Q.f
        return H.Arr2(d * k, d * k, X.by_derivative(f, k), 'r')
    X.V.run([n, dt, var, b, by], dict(pre=[b >= 1], loops={}, contracts={'order_by_derivative': derivative},
                                      post=lambda view, ret: X.is_('arrangement', ret, N * b, want, N, b if not by else None)))


@contract('C21', con=False)
def discrete_blocks_any(W):
    blocks_any(W, 'discrete')


@contract('C21', con=False)
def continuous_blocks_any(W):
    blocks_any(W, 'continuous')


@contract('C21', con=False)
def kinematic_filter_any(W):
    """kf.F for every dimension and order; kinematic_state_transition by its contract
    (transition_any_order), the KalmanFilter constructor by its contract (C27)"""
    X = Index(W, 'filterpy.common.kinematic', 'kinematic_kf', modular=('kinematic_state_transition',))
    z3, H, V = X.z3, X.H, X.V
    d, o, m, dt = z3.Int('dim'), z3.Int('order'), z3.Int('dim_z'), z3.Real('dt')
    by, given = W.choice('order_by_dim', [True, False]), W.choice('kf given', [0, 1])
    T = z3.Function('T', H.I, H.R)                      # dt**k / k!
    one = lambda r, c: z3.If(c >= r, T(c - r), z3.RealVal(0))
    p = o + 1
    want = X.by_dim(one, p) if by else X.by_derivative(one, d)

    def transition(V, s, args, kw):
        from vf.ctx import Unsupported
        if kw or len(args) != 2:
            raise Unsupported('call')
        V.prove(s, 'kinematic_state_transition: order and time step', z3.And(H.toi(args[0]) == o, H.toreal(args[1]) == dt))
        return H.Arr2(p, p, one, 'r')

    def filt(nx, nz, tag):
        F, Hm = z3.Function('F' + tag, H.I, H.I, H.R), z3.Function('H' + tag, H.I, H.I, H.R)
        return H.Obj(dim_x=nx, dim_z=nz, F=H.Arr2(nx, nx, lambda i, j: F(i, j)), H=H.Arr2(nz, nx, lambda i, j: Hm(i, j)))

    def make(V, s, args, kw):
        a = dict(zip(('dim_x', 'dim_z'), args), **kw)
        V.prove(s, 'KalmanFilter: dimensions', z3.And(H.toi(a['dim_x']) == d * p, H.toi(a['dim_z']) == m))
        return filt(H.toi(a['dim_x']), H.toi(a['dim_z']), '1')
    kf = filt(d * p, m, '0') if given else None

    def post(view, ret):
        from vf.ctx import Unsupported
        if not isinstance(ret, H.Obj):
            raise Unsupported('returned value')
        out = X.is_('kf.F', ret.attrs['F'], d * p, want, None if by else p, None if by else d)
        if given:
            out.append(('the given filter is returned', ret is view.arg(5)))
        return out

    def auto(V, s, names, arrs):
        if by:
            use = lambda i, env: X.B.ends(i, p, d) + X.B.ends(i, z3.IntVal(1), d) + [p >= 1]
            return H.fill_loops(V, s, names, arrs, {2: want, 'kf.H': None}, X.regions(p, d), use=use)
        return H.fill_loops(V, s, names, arrs, {2: want, 'kf.H': None}, X.regions(p, d), X.hints(p, d),
                            use=lambda i, env: X.turns(p, d)(i, env) + [d * p >= d])
    lem = [d >= 1, p >= 1, d * p >= d]
    X.V.chain('at least one state per dimension', [d >= 1, p >= 1], [d * (p - 1) >= 0, d * p >= d])
    X.V.run([d, o, dt, m, by, kf], dict(pre=[o >= 0, m >= 1] + lem, loops={}, post=post, auto=auto,
                                        contracts={'kinematic_state_transition': transition, 'KalmanFilter': make}))


@contract('C21', bounded='2 to 4 blocks')
def discrete_blocks(W):
    multi(W, 'discrete')


@contract('C21', bounded='2 to 4 blocks')
def continuous_blocks(W):
    multi(W, 'continuous')


@contract('C21', bounded='block sizes 1 to 4, matrix 1x1 to 4x4')
def by_derivative(W):
    top = 5 if W.symbolic else 10
    n, b = W.choice('dim', list(range(1, top))), W.choice('block', list(range(1, top)))
    M = W.mat('M', n, n)
    M0 = W.snap(M)
    f = W.module('common.discretization').order_by_derivative
    W.eq('order_by_derivative', W.call('f', f, M, n, b), interleave(W, M, n, b, False))
    W.eq('argument unchanged', M, M0)


@contract('C21')
def noise_refuses(W):
    D = W.module('common.discretization')
    n = W.choice('dim', [0, 1, 5, 6, -2, 2.5])
    f = W.choice('f', ['Q_discrete_white_noise', 'Q_continuous_white_noise'])
    by = W.choice('by', [True, False])
    W.raises('bad dim', ValueError, lambda: getattr(D, f)(n, dt=W.scal('dt'), order_by_dim=by))
