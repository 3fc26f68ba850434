"""C23  particle resampling: in range, complete, proportionally fair

Deductive part (vf/hoare.py): verification conditions generated from the functions'
own AST, loops cut by the invariants below, for every number of particles N, every
weight vector and every draw (reals).  Concrete part: executed on float weights
including boundary draws and dyadic (exact) weights."""
import math
import numpy as np
from vf.harness import contract
from .common import *

MOD = 'filterpy.monte_carlo.resampling'


def verifier(W, func):
    import z3
    from vf import hoare
    V = hoare.Verifier(W, MOD, func)
    N = z3.Int('N')
    w = V.array('w', N)
    k = z3.FreshInt('q')
    pre = [N >= 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), w.f(k) >= 0), patterns=[w.f(k)])]
    return z3, hoare, V, N, w, pre


def pointer_roles(view, test_name, counter=None):
    """(i, j, indexes, cumulative): the counter of the loop (tested by a while, or the turns of
    a for), the other changed integer, the integer array written, the cumulative sums"""
    from vf.ctx import Unsupported
    from vf.hoare import Arr, is_int
    names, arrs = view.changed
    others = [n for n in names if n != test_name and n in view.env and is_int(view.env[n])]
    cum = [v for v in view.env.values() if isinstance(v, Arr) and getattr(v, 'cum', None) is not None]
    if counter is None and test_name not in names or len(others) != 1 or len(arrs) != 1 or not cum:
        raise Unsupported('loop roles')
    return view[test_name] if counter is None else counter, view[others[0]], view[list(arrs)[0]], cum[0]


def pointer_walk(W, func):
    """stratified and systematic: the two-pointer walk"""
    z3, H, V, N, w, pre = verifier(W, func)
    from vf.ctx import Unsupported
    import ast
    loop = sorted((n for n in ast.walk(V.fn) if isinstance(n, (ast.While, ast.For))), key=lambda n: n._ord)
    if len(loop) > 2 or len(loop) == 2 and (loop[1] not in ast.walk(loop[0]) or not isinstance(loop[1], ast.While)):
        raise Unsupported('loop shape')
    cname = None
    if loop and isinstance(loop[0], ast.While):
        if not isinstance(loop[0].test, ast.Compare) or not isinstance(loop[0].test.left, ast.Name):
            raise Unsupported('loop shape')
        cname = loop[0].test.left.id
    P = V.prefix(w)
    box = {}

    def u(m):
        if len(V.draws) != 1:
            raise Unsupported('number of draws')
        d = V.draws[0]
        return d.f(m) if isinstance(d, H.Arr) else d

    pos = z3.Function('pos', H.I, H.R)        # the specified position (u + m) / N

    def setup():
        m = z3.FreshInt('q')
        V.facts.append(z3.ForAll([m], pos(m) * z3.ToReal(N) == u(m) + z3.ToReal(m), patterns=[pos(m)]))

    def inv(view):
        i, j, idx, cum = pointer_roles(view, cname, view.i if cname is None else None)
        box['i'], box['j'] = i, j
        if 'pos' not in box:
            box['pos'] = True
            setup()
        C = lambda q: P(q + 1)
        m = z3.FreshInt('q')
        at = idx.f(m)
        sel = lambda g: z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < i), g), **H.pat(at))
        q = z3.FreshInt('q')
        same = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), cum.f(q) == P(q + 1)))
        return dict(inv=[('counter in range', z3.And(i >= 0, i <= N)), ('pointer in range', z3.And(j >= 0, j <= N - 1)),
                         ('array lengths', z3.And(idx.n == N, cum.n == N)), ('cumulative weights', same),
                         ('draws below the pointer', z3.Implies(z3.And(j > 0, i < N), pos(i) >= C(j - 1))),
                         ('selected indices up to the pointer', sel(z3.And(at >= 0, at <= j))),
                         ('selected indices: draw below the upper cumulative weight', sel(z3.Implies(at < N - 1, pos(m) < C(at)))),
                         ('selected indices: draw not below the lower cumulative weight', sel(z3.Implies(at > 0, pos(m) >= C(at - 1))))],
                    var=(N - i) + (N - 1 - j) if len(loop) == 1 else N - i)

    def walk(view):
        """the inner loop of a nested walk: the pointer moves, the counter does not"""
        names, arrs = view.changed
        names = [n for n in names if n in view.env]
        if len(names) != 1 or arrs or not H.is_int(view[names[0]]) or cname in names:
            raise Unsupported('loop roles')
        i, j = box['i'] if cname is None else view[cname], view[names[0]]
        return dict(inv=[('pointer in range', z3.And(j >= 0, j <= N - 1)), ('pointer never moves back', j >= box['j']),
                         ('draws below the pointer', z3.Implies(j > 0, pos(i) >= P(j)))], var=N - 1 - j)

    def on(view, event, a):
        if event == 'cumsum' and not loop:
            V.monotone('cumulative weights ascend', view.s, P, N, lambda k: [V.step(w, k), w.f(k) >= 0])

    def post(view, ret):
        if not isinstance(ret, H.Arr) or len(V.draws) != 1:
            raise Unsupported('returned value')
        if 'pos' not in box:
            box['pos'] = True
            setup()
        out = [('exactly N indices', ret.n == N)]
        m, j = z3.Int('m0'), z3.Int('j0')
        at = ret.f(m)
        s = view.s
        s.pc += [m >= 0, m < N, j >= 0, j < N]
        out.append(('indices in range', z3.And(at >= 0, at < N)))
        lo, hi = P(at), P(at + 1)
        out.append(('selected index: draw below its upper cumulative weight', z3.Or(at == N - 1, pos(m) < hi)))
        out.append(('selected index: draw not below its lower cumulative weight', z3.Or(at == 0, pos(m) >= lo)))
        # fairness, weights summing to one
        t = s.fork()
        t.pc.append(P(N) == 1)
        V.monotone('cumulative weights ascend', t, P, N, lambda k: [V.step(w, k), w.f(k) >= 0])
        L, U = z3.ToReal(N) * P(j), z3.ToReal(N) * P(j + 1)
        t.pc += [V.step(w, j), w.f(j) >= 0, P(j) >= 0, P(j) <= P(j + 1), P(j + 1) <= 1, u(m) >= 0, u(m) < 1]
        x = z3.ToReal(m) + u(m)
        inside = z3.And(L <= x, x < U)
        t.pc.append(pos(m) * z3.ToReal(N) == x)
        # the scaled interval
        V.prove(t, 'scaled interval', z3.And((pos(m) >= P(j)) == (x >= L), (pos(m) < P(j + 1)) == (x < U)))
        # position is in [0, 1)
        V.prove(t, 'position below one', z3.And(pos(m) >= 0, pos(m) < 1))
        t1 = t.fork()
        t1.pc += [z3.Or(at == N - 1, pos(m) < hi), z3.Or(at == 0, pos(m) >= lo), at >= 0, at < N]
        V.prove(t1, 'particle j is selected exactly by the draws in its interval', (at == j) == inside)
        Wj = U - L
        if isinstance(V.draws[0], H.Arr):
            a1, b1 = -z3.ToInt(-L), z3.ToInt(U)
            a2, b2 = z3.ToInt(L), -z3.ToInt(-U)
            V.prove(t, 'stratified: every whole stratum inside is selected', z3.Implies(z3.And(m >= a1, m < b1), inside))
            V.prove(t, 'stratified: only strata meeting the interval are selected', z3.Implies(inside, z3.And(m >= a2, m < b2)))
            V.lemma('stratified: count at most two away', [L <= U], z3.And(z3.ToReal(b1 - a1) > Wj - 2, z3.ToReal(b2 - a2) < Wj + 2))
        else:
            v = u(m)
            a, b = -z3.ToInt(v - L), -z3.ToInt(v - U)
            V.prove(t, 'systematic: selected strata are a contiguous run', inside == z3.And(m >= a, m < b))
            V.prove(t, 'systematic: the run lies within 0..N', z3.And(a >= 0, b <= N, a <= b))
            V.lemma('systematic: at least floor(N w), at most one more', [L <= U, v >= 0, v < 1],
                    z3.And(b - a >= z3.ToInt(Wj), b - a <= z3.ToInt(Wj) + 1))
            V.lemma('weight of the interval', [V.step(w, j), j >= 0, j < N], Wj == z3.ToReal(N) * w.f(j))
        return out
    V.run([w], dict(pre=pre, loops={0: inv, 1: walk}, on=on, post=post))


@contract('C23', con=False)
def stratified_vc(W):
    pointer_walk(W, 'stratified_resample')


@contract('C23', con=False)
def systematic_vc(W):
    pointer_walk(W, 'systematic_resample')


@contract('C23', con=False)
def multinomial_vc(W):
    z3, H, V, N, w, pre = verifier(W, 'multinomial_resample')
    from vf.ctx import Unsupported
    P = V.prefix(w)

    def on(view, event, a):
        if event == 'cumsum':
            V.monotone('cumulative weights ascend', view.s, P, N, lambda k: [V.step(w, k), w.f(k) >= 0])

    def post(view, ret):
        if not isinstance(ret, H.Arr) or len(V.draws) != 1 or not isinstance(V.draws[0], H.Arr):
            raise Unsupported('result or draws')
        m = z3.Int('m0')
        at, u = ret.f(m), V.draws[0].f(m)
        s = view.s
        s.pc += [m >= 0, m < N]
        C = lambda q: P(q + 1)
        return [('exactly N indices', ret.n == N), ('one draw per index', V.draws[0].n == N),
                ('indices in range', z3.And(at >= 0, at < N)),
                ('draw not above the upper cumulative weight', u <= C(at)),
                ('draw not below the lower cumulative weight', z3.Or(at == 0, u >= C(at - 1)))]
    V.run([w], dict(pre=pre + [P(N) == 1], loops={}, on=on, post=post))


@contract('C23', con=False)
def residual_vc(W):
    z3, H, V, N, w, pre = verifier(W, 'residual_resample')
    from vf.ctx import Unsupported
    RN = z3.ToReal(N)
    P = V.prefix(w)
    # the specified number of copies, floor(N w_i)
    NW = z3.Function('NW', H.I, H.R)
    q = z3.FreshInt('q')
    V.facts.append(z3.ForAll([q], NW(q) == RN * w.f(q), patterns=[NW(q)]))
    cop = H.Arr(N, lambda k: z3.ToInt(NW(k)), 'i')
    PC = V.prefix(cop)
    frac = lambda k: NW(k) - z3.ToReal(z3.ToInt(NW(k)))
    box = {}

    def stepc(k):
        return [V.step(w, k), V.step(cop, k), w.f(k) >= 0, NW(k) == RN * w.f(k), NW(k) >= 0]

    def prepare(s):
        """lemmas about the sums of weights and copies"""
        k = V.fresh('k', H.I)
        t = s.fork()
        t.pc += [k >= 0, k < N, w.f(k) >= 0]
        V.prove(t, 'scaled weights are non-negative', RN * w.f(k) >= 0)
        a, b = z3.FreshInt('a'), z3.FreshInt('a')
        V.facts.append(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < N), NW(a) >= 0), patterns=[NW(a)]))
        V.monotone('cumulative copies ascend', s, PC, N, stepc)
        V.induct('copies never exceed the scaled cumulative weight', s, N, lambda k: z3.ToReal(PC(k)) <= RN * P(k), stepc)
        V.prove(s, 'at most N copies', PC(N) <= N)

    def counts(view):
        arrs = [v for v in view.env.values() if isinstance(v, H.Arr) and v.kind == 'i' and v.tag is None]
        return arrs

    def filled(idx, k, upto):
        m = z3.FreshInt('q')
        at = idx.f(m)
        return z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < k), z3.And(at >= 0, at < N, at <= upto, PC(at) <= m, m < PC(at + 1))), **H.pat(at))

    def roles(view):
        names, arrs = view.changed
        ints = [n for n in names if n in view.env and H.is_int(view.env[n]) and n not in view.loopvars]
        if len(ints) != 1 or len(arrs) != 1:
            raise Unsupported('loop roles')
        return view[ints[0]], view[list(arrs)[0]]

    def outer(view):
        if 'ready' not in box:
            box['ready'] = True
            prepare(view.s)
        k, idx = roles(view)
        i = view.i
        box['i'] = i
        return dict(inv=[('fill pointer', k == PC(i)), ('array length', idx.n == N), ('copies in place', filled(idx, k, i))],
                    use=[V.step(cop, i)])

    def inner(view):
        k, idx = roles(view)
        i = box['i']
        return dict(inv=[('fill pointer', k == PC(i) + view.i), ('array length', idx.n == N), ('copies in place', filled(idx, k, i))],
                    use=[V.step(cop, i), PC(i + 1) <= PC(N), PC(N) <= N])

    def on(view, event, a):
        s = view.s
        if (event == 'repeat' or event == 'sum' and a.kind == 'i') and 'ready' not in box:
            m = V.fresh('k', H.I)
            t = s.fork()
            t.pc += [m >= 0, m < N, NW(m) == RN * w.f(m)]
            if a.kind != 'i' or not V.prove(t, 'number of copies is floor(N w)', a.f(m) == cop.f(m)):
                raise Unsupported('copies')
            box['ready'] = True
            prepare(s)
            PA = V.prefix(a)
            if not PA.eq(PC):
                V.induct('total copies', s, N, lambda k: PA(k) == PC(k), lambda k: [V.step(a, k), V.step(cop, k), a.f(k) == cop.f(k)])
            return
        if event == 'sum' and a.kind == 'i':
            return
        if event == 'sum':
            m = V.fresh('k', H.I)
            t = s.fork()
            t.pc += [m >= 0, m < N, NW(m) == RN * w.f(m)]
            if not V.prove(t, 'residual weights are the fractional parts', a.f(m) == frac(m)):
                raise Unsupported('residual')
            PR = V.prefix(a)
            box['R'] = PR(N)
            V.induct('sum of the residuals', s, N, lambda k: PR(k) == RN * P(k) - z3.ToReal(PC(k)),
                     lambda k: stepc(k) + [V.step(a, k), a.f(k) == frac(k)])
            V.prove(s, 'total residual is the number of draws', PR(N) == RN - z3.ToReal(PC(N)))
            box['rf'] = a.f
        if event == 'cumsum':
            if 'R' not in box:
                raise Unsupported('residual not normalised')
            R = box['R']
            m = V.fresh('k', H.I)
            s.pc.append(RN * P(N) == RN)
            t = s.fork()
            t.pc += [m >= 0, m < N, R > 0, NW(m) == RN * w.f(m), box['rf'](m) == frac(m), frac(m) >= 0, frac(m) < 1]
            box['q'] = a
            V.prove(t, 'draw probabilities are proportional to the fractional parts', a.f(m) * R == frac(m))
            t.pc.append(a.f(m) * R == frac(m))
            V.prove(t, 'draw probabilities are non-negative', a.f(m) >= 0)
            f = z3.FreshInt('q')
            V.facts.append(z3.ForAll([f], z3.Implies(z3.And(f >= 0, f < N, R > 0), a.f(f) >= 0), **H.pat(a.f(f))))
            PQ = V.prefix(a)
            PR = V.prefix(H.Arr(N, box['rf'], 'r'))
            t = s.fork()
            t.pc.append(R > 0)
            V.induct('draw probabilities: partial sums', t, N, lambda k: PQ(k) * R == PR(k),
                     lambda k: [V.step(a, k), V.step(H.Arr(N, box['rf'], 'r'), k), a.f(k) * R == box['rf'](k)])
            V.prove(t, 'draw probabilities sum to one', PQ(N) == 1)
            V.monotone('cumulative probabilities ascend', t, PQ, N, lambda k: [V.step(a, k), a.f(k) >= 0])
            s.pc += [z3.Implies(R > 0, p) for p in t.pc[len(s.pc):] if not z3.is_quantifier(p) and p is not True and p.decl().name() != '>' ]
            x, y = z3.FreshInt('a'), z3.FreshInt('b')
            s.pc.append(z3.ForAll([x, y], z3.Implies(z3.And(R > 0, x >= 0, x <= y, y <= N), PQ(x) <= PQ(y)), patterns=[z3.MultiPattern(PQ(x), PQ(y))]))

    def post(view, ret):
        if not isinstance(ret, H.Arr) or len(V.draws) != 1 or not isinstance(V.draws[0], H.Arr) or 'q' not in box:
            raise Unsupported('result or draws')
        s = view.s
        m, j = z3.Int('m0'), z3.Int('j0')
        s.pc += [m >= 0, m < N, j >= 0, j < N]
        at = ret.f(m)
        K = PC(N)
        d = V.draws[0]
        Q = V.prefix(box['q'])
        u = d.f(m - K)
        s.pc += stepc(j) + [z3.Implies(m >= K, z3.And(u >= 0, u < 1))]
        R = box['R']
        s.pc += [R == RN - z3.ToReal(K)]
        return [('exactly N indices', ret.n == N), ('one draw per remaining index', d.n == N - K),
                ('indices in range', z3.And(at >= 0, at < N)),
                ('copies come first', z3.Implies(m < K, z3.And(PC(at) <= m, m < PC(at + 1)))),
                ('particle j fills its floor(N w_j) places', z3.Implies(z3.And(m >= PC(j), m < PC(j + 1), PC(j + 1) <= K), at == j)),
                ('number of places is floor(N w_j)', PC(j + 1) - PC(j) == z3.ToInt(RN * w.f(j))),
                ('drawn: not above the upper cumulative probability', z3.Implies(m >= K, u <= Q(at + 1))),
                ('drawn: not below the lower cumulative probability', z3.Implies(m >= K, z3.Or(at == 0, u >= Q(at))))]
    V.run([w], dict(pre=pre + [P(N) == 1], loops={0: outer, 1: inner}, on=on, post=post))


# ---------------------------------------------------------------- concrete
def weights(W):
    """normalised float weights; -> (weights, exact) with exact = all arithmetic exact"""
    r = W.rng
    kind = W.choice('weights', ['random', 'dyadic', 'zeros', 'peaked', 'uniform', 'one', 'tiny', 'rounded', 'near', 'many'])
    N = W.dim('N', 1, 12)
    exact = False
    if kind == 'dyadic':
        N = W.pyrng.choice([1, 2, 4, 8, 16])
        den = W.pyrng.choice([N, 2 * N, 4 * N, 16])
        c = np.bincount(r.randint(0, N, den), minlength=N)
        w = c / den
        exact = True
    elif kind == 'one':
        w = np.zeros(N)
        w[r.randint(N)] = 1.
        exact = N & (N - 1) == 0
    elif kind == 'uniform':
        w = np.ones(N) / N
        exact = N & (N - 1) == 0
    elif kind == 'near' and N > 1:
        # N w_i just below or above whole numbers
        c = np.bincount(r.randint(0, N, N), minlength=N).astype(float)
        e = r.choice([-1., 1.], N) * 10. ** -r.uniform(2, 5.5, N)
        e[c == 0] = np.abs(e[c == 0])
        i = int(np.argmax(c))
        e[i] -= e.sum()
        w = (c + e) / N
        w = w / w.sum()
    else:
        if kind == 'many':
            N = W.pyrng.randint(20, 300)
        w = r.rand(N) + 1e-3
        if kind == 'zeros':
            w *= r.rand(N) < .4
            if w.sum() == 0:
                w[-1] = 1
        elif kind == 'peaked':
            w = w ** 9
        elif kind == 'tiny':
            w[r.randint(N)] *= 1e-14
        w = w / w.sum()
        if kind == 'rounded':
            w = w * (1 + W.pyrng.choice([-1, 1, -3, 3, 0]) * 2.0 ** -52)
    return w, exact


def draws(W):
    """substitutes boundary values for some of the uniform draws"""
    mode = W.choice('draw', ['random', 'zero', 'high', 'dyadic', 'mixed'])
    hi = 1 - 2.0 ** -W.pyrng.choice([53, 40, 40])

    def preset(kind, a, k, v):
        if kind not in ('random', 'rand', 'random_sample', 'uniform') or mode == 'random':
            return v
        sc = np.ndim(v) == 0
        v = np.array(v, dtype=float, ndmin=1)
        for i in range(len(v)):
            m = mode if mode != 'mixed' else W.pyrng.choice(['random', 'zero', 'high', 'dyadic'])
            v[i] = {'random': v[i], 'zero': 0., 'high': hi, 'dyadic': W.pyrng.randint(0, 15) / 16}[m]
        return float(v[0]) if sc else v
    return preset


EPS = 1e-9


def resample(W, name):
    w, exact = weights(W)
    N = len(w)
    form = W.choice('container', ['array', 'list', 'tuple'])
    arg = w.copy() if form == 'array' else list(w) if form == 'list' else tuple(w)
    f = getattr(W.module('monte_carlo.resampling'), name)
    with W.random(draws(W)) as d:
        r = W.call(name, f, arg)
    W.ok('weights unchanged', np.array_equal(np.asarray(arg), w))
    W.ok('exactly N indices', np.ndim(r) == 1 and len(r) == N, '%r' % (r,))
    r = np.asarray(r)
    W.ok('integer indices', np.issubdtype(r.dtype, np.integer))
    W.ok('indices in range', bool(np.all((r >= 0) & (r < N))), '%r for weights %r' % (r, w))
    d = [np.atleast_1d(np.asarray(x[3], dtype=float)) for x in d]
    # a draw within an ulp of one rounds up when a stratum number is added to it
    exact = exact and all(np.all(x <= 1 - 2.0 ** -41) for x in d)
    return w, N, r, d, exact


def interval(W, name, j, v, C, exact, upper_incl):
    """the draw v lies in the cumulative interval of index j"""
    t = 0 if exact else EPS
    N = len(C)
    lo = C[j - 1] if j else -1
    hi = C[j] if j < N - 1 else 2
    if upper_incl:     # (lo, hi]; a draw exactly on the lower boundary only for the first index
        ok = v >= lo - t and v <= hi + t
    else:
        ok = v >= lo - t and (v < hi or v < hi + t)
    W.ok(name, ok, 'index %d for draw %r, cumulative %r' % (j, v, list(C)))


@contract('C23', sym=False, weight=2)
def stratified(W):
    w, N, r, d, exact = resample(W, 'stratified_resample')
    W.ok('draws', len(d) == 1 and len(d[0]) == N)
    pos = (d[0] + np.arange(N)) / N
    C = np.cumsum(w)
    for m in range(N):
        interval(W, 'selected interval', r[m], pos[m], C, exact, False)
    n = np.bincount(r, minlength=N)
    W.ok('count within two', bool(np.all(np.abs(n - N * w) < 2 + EPS)), '%r %r' % (n, N * w))


@contract('C23', sym=False, weight=2)
def systematic(W):
    w, N, r, d, exact = resample(W, 'systematic_resample')
    W.ok('draws', len(d) == 1 and len(d[0]) == 1)
    pos = (d[0][0] + np.arange(N)) / N
    C = np.cumsum(w)
    for m in range(N):
        interval(W, 'selected interval', r[m], pos[m], C, exact, False)
    n = np.bincount(r, minlength=N)
    if exact or np.abs(pos[:, None] - C[None, :]).min() > EPS:
        t = 0 if exact else EPS
        W.ok('at least floor(N w)', bool(np.all(n >= np.floor(N * w - t))), '%r %r' % (n, N * w))
        W.ok('at most floor(N w)+1', bool(np.all(n <= np.floor(N * w + t) + 1)), '%r %r' % (n, N * w))


@contract('C23', sym=False, weight=2)
def multinomial(W):
    w, N, r, d, exact = resample(W, 'multinomial_resample')
    W.ok('draws', len(d) == 1 and len(d[0]) == N)
    C = np.cumsum(w)
    for m in range(N):
        interval(W, 'selected interval', r[m], d[0][m], C, exact, True)


@contract('C23', sym=False, weight=2)
def residual(W):
    w, N, r, d, exact = resample(W, 'residual_resample')
    t = 0 if exact else EPS
    base = np.floor(N * w - t).astype(int)
    n = np.bincount(r, minlength=N)
    W.ok('at least floor(N w)', bool(np.all(n >= base)), '%r %r' % (n, N * w))
    NW = N * w
    if not exact and np.any(np.abs(NW - np.round(NW)) < 1e-6):
        return
    copies = np.floor(NW).astype(int)
    K = int(copies.sum())
    W.ok('copies first', bool(np.all(np.bincount(r[:K], minlength=N) == copies)), '%r %r' % (r, NW))
    W.ok('number of draws', sum(len(x) for x in d) == N - K, '%r' % (d,))
    if K < N:
        fr = NW - copies
        C = np.cumsum(fr / fr.sum())
        for m in range(K, N):
            interval(W, 'drawn in proportion to the fraction', r[m], d[0][m - K], C, False, True)
