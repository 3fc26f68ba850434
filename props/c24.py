"""C24  discrete Bayes filter: Bayes rule, conservation of probability

Deductive part (vf/hoare.py): every belief length, kernel length, offset, belief,
kernel and likelihood (reals); np.roll, scipy.ndimage.shift and convolve by trusted
contracts (index formulas; compared with the real functions in the concrete part)."""
import numpy as np
from vf.harness import contract
from .common import *

MOD = 'filterpy.discrete_bayes.discrete_bayes'


def base(W, func):
    import z3
    from vf import hoare
    V = hoare.Verifier(W, MOD, func)
    return z3, hoare, V, z3.Int('N')


def orig(a):
    g = a.f
    return lambda k: g(k)


@contract('C24', con=False)
def normalize_vc(W):
    z3, H, V, N = base(W, 'normalize')
    p = V.array('p', N)
    p0 = H.Arr(N, orig(p), 'r')
    S = V.prefix(p0)

    def post(view, ret):
        return normalised(V, z3, H, view.s, ret, N, p0.f, p0, 'pdf')
    V.run([p], dict(pre=[N >= 1, S(N) > 0], loops={}, post=post))


def normalised(V, z3, H, s, ret, N, num, numarr, what):
    """ret is num / sum(num): proportional to num with one positive factor, and sums to one"""
    from vf.ctx import Unsupported
    if not isinstance(ret, H.Arr):
        raise Unsupported('returned value')
    S = V.prefix(numarr)
    r = H.Arr(N, orig(ret), 'r')
    PR = V.prefix(r)
    k = z3.Int('k0')
    t = s.fork()
    t.pc += [k >= 0, k < N]
    out = [('length', ret.n == N)]
    V.prove(t, 'each value is %s over its sum' % what, r.f(k) * S(N) == num(k))
    t.pc.append(num(k) >= 0)
    V.prove(t, 'non-negative where %s is' % what, r.f(k) >= 0)
    V.induct('sum of the result', s, N, lambda q: PR(q) * S(N) == S(q),
             lambda q: [V.step(r, q), V.step(numarr, q), r.f(q) * S(N) == num(q)])
    out.append(('result sums to one', PR(N) == 1))
    return out


@contract('C24', con=False)
def update_vc(W):
    z3, H, V, N = base(W, 'update')
    lik, pri = V.array('likelihood', N), V.array('prior', N)
    l0, p0 = orig(lik), orig(pri)
    post = H.Arr(N, lambda k: p0(k) * l0(k), 'r')
    alt = H.Arr(N, lambda k: l0(k) * p0(k), 'r')
    S = V.prefix(post)
    V.alias_prefix(alt, S)

    def after(view, ret):
        from vf.ctx import Unsupported
        s = view.s
        out = normalised(V, z3, H, s, ret, N, post.f, post, 'prior times likelihood')
        k = z3.Int('k1')
        out.append(('likelihood unchanged', lik_now(view, 0).f(k) == l0(k)))
        out.append(('prior unchanged', lik_now(view, 1).f(k) == p0(k)))
        out.append(('result is a new array', ret is not lik_now(view, 0) and ret is not lik_now(view, 1)))
        return out

    def lik_now(view, i):
        return view.arg(i)
    V.run([lik, pri], dict(pre=[N >= 1, S(N) > 0], loops={}, post=after))


@contract('C24', con=False)
def predict_wrap_vc(W):
    z3, H, V, N = base(W, 'predict')
    K, off = z3.Int('K'), z3.Int('offset')
    pdf, ker = V.array('pdf', N), V.array('kernel', K)
    p, w = orig(pdf), orig(ker)
    given = W.choice('mode', ['default', 'wrap'])

    def post(view, ret):
        from vf.ctx import Unsupported
        s = view.s
        convs = getattr(V, 'convs', [])
        if not isinstance(ret, H.Arr) or len(convs) != 1 or convs[0][3] != 'wrap':
            raise Unsupported('shape of predict')
        S, src, kern, mode, cval, step, sh = convs[0]
        c = K / 2
        out = [('length', ret.n == N)]
        # specification: cell i gets kernel[j] * pdf[(i - j + c - offset) mod N]
        m = V.fresh_fn('srcshift', 'i')
        turns = V.fresh_fn('turns', 'i')
        q = z3.FreshInt('q')
        V.facts.append(z3.ForAll([q], z3.And(m(q) >= 0, m(q) < N, m(q) == c - q - off + N * turns(q)), patterns=[m(q)]))
        T = z3.Function('spec', H.I, H.I, H.R)
        V.facts.append(z3.ForAll([q], T(q, 0) == 0, patterns=[T(q, 0)]))
        cell = lambda i, j: p(H.wrapi(i, m(j), N))
        tstep = lambda i, j: z3.Implies(z3.And(j >= 0, j < K), T(i, j + 1) == T(i, j) + w(j) * cell(i, j))
        i = z3.Int('i0')
        s.pc += [i >= 0, i < N]
        # the two shifts compose modulo N
        if len(V.rolls) != 1:
            raise Unsupported('no single shift')
        r = V.rolls[0]
        j = V.fresh('j', H.I)
        t = s.fork()
        t.pc += [j >= 0, j < K]
        comp = lambda q: z3.Or(sh(q) + r == m(q), sh(q) + r == m(q) + N)
        fact = V.residues('the shifts compose', t, sh(j) + r, m(j), sh.turns(j) + V.turns[r.get_id()] - turns(j), N)
        t.pc.append(fact)
        V.prove(t, 'source cell is (i - j + c - offset) mod N', H.wrapi(H.wrapi(i, sh(j), N), r, N) == H.wrapi(i, m(j), N))
        V.induct('cell receives the kernel-weighted shifted belief', s, K, lambda q: S(i, q) == T(i, q),
                 lambda q: [step(i, q), tstep(i, q), z3.substitute(fact, (j, q))])
        out.append(('every cell', ret.f(i) == T(i, K)))
        # non-negativity
        u = s.fork()
        k = z3.FreshInt('q')
        u.pc += [z3.ForAll([k], p(k) >= 0, patterns=[p(k)]), z3.ForAll([k], w(k) >= 0, patterns=[w(k)])]
        V.induct('non-negativity', u, K, lambda q: T(i, q) >= 0, lambda q: [tstep(i, q), cell(i, q) >= 0, w(q) >= 0])
        V.prove(u, 'result non-negative', ret.f(i) >= 0)
        total(V, z3, H, N, K, p, w, m, T, cell)
        out.append(('belief unchanged', view.arg(0).f(z3.Int('k1')) == p(z3.Int('k1'))))
        out.append(('kernel unchanged', view.arg(2).f(z3.Int('k1')) == w(z3.Int('k1'))))
        return out
    args = [pdf, off, ker] + (['wrap'] if given == 'wrap' else [])
    V.run(args, dict(pre=[N >= 1, K >= 1], loops={}, post=post))


def total(V, z3, H, N, K, p, w, m, T, cell):
    """sum over cells of the result = (sum of kernel) * (sum of belief)"""
    s = H.St()
    s.pc = [N >= 1, K >= 1]
    A = H.Arr(N, p, 'r')
    SP = V.prefix(A)
    # cyc(r, n): sum over i < n of p[(i + r) mod N]
    cyc = z3.Function('cyc', H.I, H.I, H.R)
    q = z3.FreshInt('q')
    V.facts.append(z3.ForAll([q], cyc(q, 0) == 0, patterns=[cyc(q, 0)]))
    cst = lambda r, n: cyc(r, n + 1) == cyc(r, n) + p(H.wrapi(n, r, N))
    # one more shift: cyc(r + 1, n) = cyc(r, n + 1) - p[r]     (n < N)
    r = V.fresh('r', H.I)
    t = s.fork()
    t.pc += [r >= 0, r + 1 < N, cst(r, z3.IntVal(0))]
    V.induct('cyclic sums shift', t, N - 1, lambda n: cyc(r + 1, n) == cyc(r, n + 1) - p(r), lambda n: [cst(r + 1, n), cst(r, n + 1)])
    t.pc += [cst(r + 1, N - 1), cyc(r + 1, N - 1) == cyc(r, N) - p(r)]
    V.prove(t, 'cyclic sum does not depend on the shift', cyc(r + 1, N) == cyc(r, N))
    V.induct('cyclic sum of no shift', s, N, lambda n: cyc(0, n) == SP(n), lambda n: [cst(z3.IntVal(0), n), V.step(A, n)])
    V.induct('every cyclic sum is the total belief', s, N - 1, lambda a: cyc(a, N) == SP(N), lambda a: [cyc(a + 1, N) == cyc(a, N), cyc(0, N) == SP(N)])
    # column sums: G(n, j) = sum over i < n of T(i, j)
    G = z3.Function('G', H.I, H.I, H.R)
    V.facts.append(z3.ForAll([q], G(0, q) == 0, patterns=[G(0, q)]))
    gst = lambda n, j: G(n + 1, j) == G(n, j) + T(n, j)
    j = V.fresh('j', H.I)
    t = s.fork()
    t.pc += [j >= 0, j < K, m(j) >= 0, m(j) < N]
    tst = lambda i, jj: T(i, jj + 1) == T(i, jj) + w(jj) * p(H.wrapi(i, m(jj), N))
    V.induct('column sums advance with the kernel', t, N, lambda n: G(n, j + 1) == G(n, j) + w(j) * cyc(m(j), n),
             lambda n: [gst(n, j + 1), gst(n, j), tst(n, j), cst(m(j), n)])
    B = H.Arr(K, w, 'r')
    SK = V.prefix(B)
    V.induct('nothing received from no kernel', s, N, lambda n: G(n, 0) == 0, lambda n: [gst(n, z3.IntVal(0)), T(n, 0) == 0])
    V.induct('total probability', s, K, lambda jj: G(N, jj) == SK(jj) * SP(N),
             lambda jj: [V.step(B, jj), G(N, jj + 1) == G(N, jj) + w(jj) * cyc(m(jj), N), cyc(m(jj), N) == SP(N), G(N, 0) == 0])
    V.prove(s, 'total probability preserved when the kernel sums to one', z3.Implies(SK(K) == 1, G(N, K) == SP(N)))


@contract('C24', con=False)
def predict_constant_vc(W):
    z3, H, V, N = base(W, 'predict')
    K, off, cv = z3.Int('K'), z3.Int('offset'), z3.Real('cval')
    pdf, ker = V.array('pdf', N), V.array('kernel', K)
    p, w = orig(pdf), orig(ker)
    given = W.choice('cval', ['given', 'default'])
    cval = cv if given == 'given' else z3.RealVal(0)

    def post(view, ret):
        from vf.ctx import Unsupported
        s = view.s
        convs = getattr(V, 'convs', [])
        if not isinstance(ret, H.Arr) or len(convs) != 1:
            raise Unsupported('shape of predict')
        S, src, kern, mode, cval_, step, sh = convs[0]
        if mode != 'constant':
            V.prove(s, 'constant mode', False)
            return []
        c = K / 2
        T = z3.Function('spec', H.I, H.I, H.R)
        q = z3.FreshInt('q')
        V.facts.append(z3.ForAll([q], T(q, 0) == 0, patterns=[T(q, 0)]))
        inside = lambda x: z3.And(x >= 0, x < N)
        cell = lambda i, j: z3.If(z3.And(inside(i - j + c), inside(i - j + c - off)), p(i - j + c - off), cval)
        tstep = lambda i, j: z3.Implies(z3.And(j >= 0, j < K), T(i, j + 1) == T(i, j) + w(j) * cell(i, j))
        i = z3.Int('i0')
        s.pc += [i >= 0, i < N]
        V.induct('cell receives the kernel-weighted shifted belief or cval', s, K, lambda q: S(i, q) == T(i, q), lambda q: [step(i, q), tstep(i, q)])
        u = s.fork()
        k = z3.FreshInt('q')
        u.pc += [z3.ForAll([k], p(k) >= 0, patterns=[p(k)]), z3.ForAll([k], w(k) >= 0, patterns=[w(k)]), cval >= 0]
        V.induct('non-negativity', u, K, lambda q: T(i, q) >= 0, lambda q: [tstep(i, q), cell(i, q) >= 0, w(q) >= 0])
        k1 = z3.Int('k1')
        return [('length', ret.n == N), ('every cell', ret.f(i) == T(i, K)),
                ('belief unchanged', view.arg(0).f(k1) == p(k1)), ('kernel unchanged', view.arg(2).f(k1) == w(k1))]
    V.run([pdf, off, ker, 'constant'] + ([cv] if given == 'given' else []), dict(pre=[N >= 1, K >= 1], loops={}, post=post))


# ---------------------------------------------------------------- concrete
def belief(W, n, name='pdf'):
    a = W.rng.rand(n)
    k = W.choice(name, ['random', 'zeros', 'peak', 'unnormalised', 'tiny'])
    if k == 'zeros':
        a *= W.rng.rand(n) < .5
        a[W.rng.randint(n)] += .1
    elif k == 'peak':
        a = np.zeros(n)
        a[W.rng.randint(n)] = 1.
    elif k == 'unnormalised':
        a *= 37
    elif k == 'tiny':
        a *= 1e-12
    if k not in ('unnormalised', 'tiny'):
        a = a / a.sum()
    return a


@contract('C24', sym=False)
def bayes(W):
    m = W.module('discrete_bayes')
    n = W.dim('n', 1, 9)
    a, b = belief(W, n, 'prior'), belief(W, n, 'likelihood')
    if not (a * b).sum() > 0:
        b = b + .01
    if W.choice('likelihood layout', ['array', 'scalar', 'int']) == 'scalar':
        b = .3 * np.ones(n)
        arg = .3
    else:
        arg = b.copy()
        if W.choices['likelihood layout'] == 'int':
            b = np.round(b * 3) + 1
            arg = b.astype(int)
    a0, b0 = a.copy(), np.copy(arg)
    r = W.call('update', m.update, arg, a)
    W.eq('posterior', r, a0 * b / (a0 * b).sum(), tol=1e-12)
    W.ok('sums to one', abs(np.sum(r) - 1) < 1e-9)
    W.ok('prior unchanged', np.array_equal(a, a0))
    W.ok('likelihood unchanged', np.array_equal(arg, b0))
    W.ok('new array', not np.shares_memory(r, a) and not (isinstance(arg, np.ndarray) and np.shares_memory(r, arg)))
    c = belief(W, n, 'any')
    c0 = c.copy()
    r = W.call('normalize', m.normalize, c)
    W.eq('normalized', r, c0 / c0.sum(), tol=1e-12)


@contract('C24', sym=False, weight=2)
def prediction(W):
    m = W.module('discrete_bayes')
    n, K = W.dim('n', 1, 9), W.dim('K', 1, 9)
    pdf = belief(W, n)
    w = belief(W, K, 'kernel')
    off = W.pyrng.choice([0, 1, -1, 2, -2, 3, n - 1, n, n + 1, -n, 2 * n + 1, 7, -11])
    mode = W.choice('mode', ['default', 'wrap', 'constant', 'constant cval'])
    p0, w0 = pdf.copy(), w.copy()
    cval = 0.
    if mode == 'default':
        r = W.call('predict', m.predict, pdf, off, w)
    elif mode == 'wrap':
        r = W.call('predict', m.predict, pdf, off, w, 'wrap')
    elif mode == 'constant':
        r = W.call('predict', m.predict, pdf, off, w, mode='constant')
    else:
        cval = W.rng.rand()
        r = W.call('predict', m.predict, pdf, off, w, 'constant', cval)
    c = K // 2
    if mode in ('default', 'wrap'):
        want = [sum(w0[j] * p0[(i - j + c - off) % n] for j in range(K)) for i in range(n)]
        W.ok('total probability', abs(np.sum(r) - p0.sum() * w0.sum()) <= 1e-9 * max(1e-9, p0.sum() * w0.sum()) + 1e-15, '%r' % (r,))
        W.ok('non-negative', bool(np.all(np.asarray(r) >= 0)))
    else:
        ins = lambda x: 0 <= x < n
        want = [sum(w0[j] * (p0[i - j + c - off] if ins(i - j + c) and ins(i - j + c - off) else cval) for j in range(K)) for i in range(n)]
    W.eq('cells', np.asarray(r), np.array(want), tol=1e-9)
    W.ok('belief unchanged', np.array_equal(pdf, p0))
    W.ok('kernel unchanged', np.array_equal(w, w0))
