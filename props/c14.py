"""C14  IMM keeps a proper mode distribution and a moment-matched estimate

The filters of the bank are arbitrary objects: predict and update leave any
state, covariance and likelihood behind.  The number of filters is bounded,
the dimensions, probabilities, likelihoods and histories are not."""
from vf.harness import contract
from .common import *

BANK = 'number of filters 2..4 (any dimensions, states, probabilities and likelihoods)'


class AnyFilter:
    """an arbitrary filter: every operation leaves an arbitrary result"""

    def __init__(self, W, name, n, nd, log, touch=False):
        self.W, self.name, self.n, self.nd, self.log = W, name, n, nd, log
        self.k = 0
        self.likelihood = 1.
        self.touch = touch
        self.fresh()

    def fresh(self):
        W = self.W
        t = '%s_%d' % (self.name, self.k)
        self.k += 1
        x, P = W.vec('x' + t, self.n, self.nd), W.pd('P' + t, self.n)
        self.x, self.P = x, P
        self.z = None

    def predict(self, u=None, *a, **k):
        self.log.append((self.name, 'predict', self.W.snap(self.x), self.W.snap(self.P), u, a, k))
        self.fresh()

    def update(self, z, *a, **k):
        self.log.append((self.name, 'update', z, a, k))
        self.fresh()
        self.likelihood = self.W.scal('L%s_%d' % (self.name, self.k), pos=True)
        self.z = z


def distribution(W, name, N):
    """N positive numbers, in concrete runs summing to one (in the deductive runs only
    assumed to: the equations hold without)"""
    w = [W.scal('%s%d' % (name, i), pos=True) for i in range(N)]
    if W.symbolic:
        return w
    return [a / sum(w) for a in w]


def bank(W):
    e = E()
    e.N = W.choice('N', [2, 3, 4])
    e.n, e.nd = W.dim('n'), W.choice('nd', [2, 1])
    e.log = []
    e.fs = [AnyFilter(W, 'f%d' % i, e.n, e.nd, e.log) for i in range(e.N)]
    w = [W.scal('w%d' % i, pos=True) for i in range(e.N)]
    e.mu = [a / sum(w) for a in w]
    given = e.mu if W.choice('normalised', [1, 0]) else w
    e.M = [distribution(W, 'M%d' % i, e.N) for i in range(e.N)]
    arg = list(given) if W.choice('mu_kind', ['array', 'list']) == 'list' else W.array(given)
    e.imm = W.mods.kalman.IMMEstimator(e.fs, arg, W.array(e.M))
    return e


def any_bank(W, hists=(0, 1)):
    """a bank in an arbitrary state: any mode probabilities, with the predicted mode
    probabilities and mixing probabilities that belong to them"""
    e = E()
    e.N = W.choice('N', [2, 3, 4])
    e.n, e.nd, e.m = W.dim('n'), W.choice('nd', [2, 1]), W.dim('m')
    e.log = []
    e.fs = [AnyFilter(W, 'f%d' % i, e.n, e.nd, e.log) for i in range(e.N)]
    e.M = [distribution(W, 'M%d' % i, e.N) for i in range(e.N)]
    e.imm = b = W.mods.kalman.IMMEstimator(e.fs, [1. / e.N] * e.N, W.array(e.M))
    if W.choice('hist', list(hists)):
        b.predict()
        b.update(W.vec('zh', e.m, 1))
    mu = e.mu = distribution(W, 'mu', e.N)
    b.mu = W.array(mu)
    b.cbar = W.array(predicted(e, mu))
    b.omega = W.array([[e.M[i][j] * mu[i] / predicted(e, mu)[j] for j in range(e.N)] for i in range(e.N)])
    del e.log[:]
    return e


def predicted(e, mu):
    return [sum(e.M[i][j] * mu[i] for i in range(e.N)) for j in range(e.N)]


def mixture(W, e, w):
    x = sum(f.x * a for f, a in zip(e.fs, w))
    return x, spread(W, e, w, x)


def spread(W, e, w, x):
    P = 0
    for f, a in zip(e.fs, w):
        y = W.col(f.x - x)
        P = P + a * (y @ y.T + f.P)
    return P


def consistent(W, e, mu, tag, mixing=True, total=True):
    """mode probabilities mu, mixing probabilities and reported estimate"""
    b, N = e.imm, e.N
    for i in range(N):
        W.eq('%s: mode probability %d' % (tag, i), b.mu[i], mu[i])
        W.ge('%s: mode probability %d is not negative' % (tag, i), b.mu[i], 0)
    if total:
        W.eq(tag + ': mode probabilities sum to one', sum(b.mu[i] for i in range(N)), 1)
    for j in range(N) if mixing else []:
        c = sum(e.M[i][j] * mu[i] for i in range(N))
        W.eq('%s: predicted mode probability %d' % (tag, j), b.cbar[j], c)
        for i in range(N):
            W.eq('%s: mixing probability %d|%d' % (tag, i, j), b.omega[i, j], e.M[i][j] * mu[i] / c)
        W.eq('%s: mixing probabilities of mode %d sum to one' % (tag, j), sum(b.omega[i, j] for i in range(N)), 1)
    x, P = mixture(W, e, mu)
    W.eq(tag + ': estimate', b.x, x)
    W.eq(tag + ': covariance', b.P, P)


@contract('C14', bounded=BANK)
def construct(W):
    e = bank(W)
    consistent(W, e, e.mu, 'start')
    W.eq('x_prior', e.imm.x_prior, e.imm.x)
    W.eq('P_post', e.imm.P_post, e.imm.P)


@contract('C14', bounded=BANK, weight=2)
def update(W):
    e = any_bank(W)
    z = W.vec('z', e.m, 1)
    e.imm.update(z)
    W.eq('every filter updated once, in order', [(a[0], a[1]) for a in e.log] == [(f.name, 'update') for f in e.fs], True)
    for a in e.log:
        W.eq('with the measurement', a[2], z)
        W.eq('and no overrides', a[3:] == ((), {}), True)
    c = predicted(e, e.mu)
    w = [c[j] * e.fs[j].likelihood for j in range(e.N)]
    mu = [a / sum(w) for a in w]
    for j in range(e.N):
        W.eq('likelihood %d' % j, e.imm.likelihood[j], e.fs[j].likelihood)
    consistent(W, e, mu, 'after update')
    W.eq('x_post', e.imm.x_post, e.imm.x)
    W.eq('P_post', e.imm.P_post, e.imm.P)


@contract('C14', bounded=BANK, weight=2)
def predict(W):
    e = any_bank(W)
    mu = e.mu
    x0 = [W.snap(f.x) for f in e.fs]
    P0 = [W.snap(f.P) for f in e.fs]
    u = W.vec('u', e.m, 1) if W.choice('control', [0, 1]) else None
    e.imm.predict(*([] if u is None else [u]))
    W.eq('every filter predicted once', sorted((a[0], a[1]) for a in e.log) == [(f.name, 'predict') for f in e.fs], True)
    c = predicted(e, mu)
    for j, f in enumerate(e.fs):
        a = [q for q in e.log if q[0] == f.name][0]
        w = [e.M[i][j] * mu[i] / c[j] for i in range(e.N)]
        x = sum(x0[i] * w[i] for i in range(e.N))
        P = 0
        for i in range(e.N):
            y = W.col(x0[i] - x)
            P = P + w[i] * (y @ y.T + P0[i])
        W.eq('filter %d restarts from the mixture mean' % j, a[2], x)
        W.eq('filter %d restarts from the mixture covariance' % j, a[3], P)
        if u is None:
            W.eq('no control', a[4] is None, True)
        else:
            W.eq('control', a[4], u)
    consistent(W, e, mu, 'after predict', total=False)      # they are the given ones
    W.eq('x_prior', e.imm.x_prior, e.imm.x)
    W.eq('P_prior', e.imm.P_prior, e.imm.P)


# ---------------------------------------------------------------- banks of any size
def big_bank(W, hists=(0, 1)):
    """a bank of any number of arbitrary filters with any mode probabilities (the constructor
    accepts any, and its mixing probabilities are proved to belong to them)"""
    e = E()
    e.N = W.dim('N', 2, 6)
    W.assume(e.N >= 2)
    e.n, e.nd, e.m = W.dim('n'), W.choice('nd', [2, 1]), W.dim('m')
    e.fs = W.bank('f', e.N, e.n, e.nd)
    e.w = W.weights('w', e.N)
    e.M = W.posmat('M', e.N, e.N)
    e.imm = W.mods.kalman.IMMEstimator(e.fs, W.snap(e.w), W.snap(e.M))
    e.mu = e.w / W.total(e.w)
    if W.choice('hist', list(hists)):
        e.imm.predict()
        mu = predicted_all(e, e.mu) * new_likelihood(W, e, e.imm.update, W.vec('zh', e.m, 1))
        e.mu = mu / W.total(mu)
    W.forget_runs(e.fs)
    return e


def new_likelihood(W, e, f, *a):
    f(*a)
    return W.family(e.fs).likelihood()


def predicted_all(e, mu):
    return mu @ e.M


def mixing(W, e, mu):
    """column j: the mixing probabilities of target mode j"""
    return W.diag(mu) @ e.M @ W.diag(W.recip(predicted_all(e, mu)))


def consistent_all(W, e, mu, tag, mixing_too=True):
    b = e.imm
    W.eq(tag + ': mode probabilities', b.mu, mu)
    W.nonneg(tag + ': mode probabilities are not negative', b.mu)
    W.eq(tag + ': mode probabilities sum to one', W.total(b.mu), 1)
    if mixing_too:
        c = predicted_all(e, mu)
        W.eq(tag + ': predicted mode probabilities', b.cbar, c)
        W.eq(tag + ': mixing probabilities', b.omega, mixing(W, e, mu))
        W.eq(tag + ': mixing probabilities of every mode sum to one', W.ones(e.N) @ b.omega, W.ones(e.N))
    fam = W.family(e.fs)
    x = fam.mean(mu)
    W.eq(tag + ': estimate', b.x, x)
    W.eq(tag + ': covariance', b.P, fam.spread(mu, x))


@contract('C14')
def construct_any_size(W):
    e = big_bank(W, (0,))
    consistent_all(W, e, e.mu, 'start')
    W.eq('x_prior', e.imm.x_prior, e.imm.x)
    W.eq('P_post', e.imm.P_post, e.imm.P)


@contract('C14')
def update_any_size(W):
    e = big_bank(W)
    z = W.vec('z', e.m, 1)
    e.imm.update(z)
    rs = W.ran(e.fs, 'update')
    W.ok('every filter updated exactly once', rs is not None)
    if rs is None:
        return
    for r in rs:
        W.eq('with the measurement', r.args[0] if r.args else r.kw.get('z'), z)
        W.ok('and no overrides', len(r.args) + len(r.kw) == 1)
    L = W.family(e.fs).likelihood()
    mu = predicted_all(e, e.mu) * L
    mu = mu / W.total(mu)
    W.eq('likelihoods', e.imm.likelihood, L)
    consistent_all(W, e, mu, 'after update')
    W.eq('x_post', e.imm.x_post, e.imm.x)
    W.eq('P_post', e.imm.P_post, e.imm.P)


@contract('C14')
def predict_any_size(W):
    e = big_bank(W)
    fam = W.family(e.fs)
    u = W.vec('u', e.m, 1) if W.choice('control', [0, 1]) else None
    e.imm.predict(*([] if u is None else [u]))
    rs = W.ran(e.fs, 'predict')
    W.ok('every filter predicted exactly once', rs is not None)
    if rs is None:
        return
    om = mixing(W, e, e.mu)
    for r in rs:
        w = om[:, r.k]
        x = fam.mean(w)
        W.eq('the filter restarts from the mixture mean of its mode', r.x, x)
        W.eq('the filter restarts from the mixture covariance of its mode', r.P, fam.spread(w, x))
        got = r.args[0] if r.args else r.kw.get('u')
        if u is None:
            W.ok('no control', got is None)
        else:
            W.eq('control', got, u)
    consistent_all(W, e, e.mu, 'after predict')
    W.eq('x_prior', e.imm.x_prior, e.imm.x)
    W.eq('P_prior', e.imm.P_prior, e.imm.P)


@contract('C14', sym=False)
def real_filters(W):
    """banks of Kalman filters over random histories"""
    N, n, m = W.choice('N', [2, 3, 4]), W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    e = E()
    e.N, e.fs = N, []
    ref = []
    for i in range(N):
        q = E()
        q.n, q.m, q.nd = n, m, nd
        q.kf = W.mods.kalman.KalmanFilter(n, m)
        set_kf(W, q, str(i))
        e.fs.append(q.kf)
        ref.append(RefKF(W, q.x, q.P, q.F, q.Q, q.H, q.R))
    mu = distribution(W, 'mu', N)
    e.M = [distribution(W, 'M%d' % i, N) for i in range(N)]
    e.imm = W.mods.kalman.IMMEstimator(e.fs, W.array(mu), W.array(e.M))
    for k in range(W.pyrng.randint(1, 5)):
        if W.pyrng.random() < .5:
            c = [sum(e.M[i][j] * mu[i] for i in range(N)) for j in range(N)]
            x0, P0 = [r.x for r in ref], [r.P for r in ref]
            for j, r in enumerate(ref):
                w = [e.M[i][j] * mu[i] / c[j] for i in range(N)]
                r.x = sum(x0[i] * w[i] for i in range(N))
                r.P = sum(w[i] * (W.col(x0[i] - r.x) @ W.col(x0[i] - r.x).T + P0[i]) for i in range(N))
                r.predict()
            e.imm.predict()
        else:
            z = W.vec('z', m, nd)
            e.imm.update(z)
            c = [sum(e.M[i][j] * mu[i] for i in range(N)) for j in range(N)]
            for r in ref:
                r.update(z)
            w = [c[j] * max(W.exp(W.logpdf(ref[j].y, ref[j].S)), 2.3e-308) for j in range(N)]
            mu = [a / sum(w) for a in w]
        for f, r in zip(e.fs, ref):
            W.eq('filter state', f.x, r.x)
            W.eq('filter covariance', f.P, r.P)
        consistent(W, e, mu, 'step')
