"""C15  MMAE weights its filters by Bayes' rule and mixes their moments"""
from vf.harness import contract
from .common import *
from .c14 import AnyFilter, distribution, mixture

BANK = 'number of filters 1..4 (any dimensions, states, probabilities and likelihoods)'


def any_bank(W, hists=(0, 1)):
    e = E()
    e.N = W.choice('N', [1, 2, 3, 4])
    e.n, e.nd, e.m = W.dim('n'), W.choice('nd', [2, 1]), W.dim('m')
    e.log = []
    e.fs = [AnyFilter(W, 'f%d' % i, e.n, e.nd, e.log) for i in range(e.N)]
    e.mu = distribution(W, 'p', e.N)
    e.H = W.mat('Hb', e.m, e.n) if W.choice('bank H', [0, 1]) else None
    arg = list(e.mu) if W.choice('p_kind', ['array', 'list']) == 'list' else W.array(e.mu)
    e.bank = b = W.mods.kalman.MMAEFilterBank(e.fs, arg, e.n, *([] if e.H is None else [W.snap(e.H)]))
    if W.choice('hist', list(hists)):
        b.predict()
        b.update(W.vec('zh', e.m, 1))
        b.p = W.array(e.mu)
    del e.log[:]
    return e


@contract('C15', bounded=BANK, weight=2)
def update(W):
    e = any_bank(W)
    b, N = e.bank, e.N
    z = W.vec('z', e.m, W.choice('znd', [1, 2]))
    opt = W.choice('call', ['plain', 'R', 'H', 'RH'])
    R = W.pd('R', e.m) if 'R' in opt else None
    H = W.mat('H', e.m, e.n) if 'H' in opt else None
    kw = {}
    if R is not None:
        kw['R'] = R
    if H is not None:
        kw['H'] = H
    b.update(z, **kw)
    W.eq('every filter updated once', sorted((a[0], a[1]) for a in e.log) == [(f.name, 'update') for f in e.fs], True)
    for a in e.log:
        W.eq('with the measurement', a[2], z)
        got = dict(zip(('R', 'H'), a[3]))
        got.update(a[4])
        for k, v in (('R', R), ('H', e.H if H is None else H)):
            if v is None:
                W.eq('no %s override' % k, got.get(k) is None, True)
            else:
                W.eq('override ' + k, got.get(k), v)
    w = [e.mu[i] * e.fs[i].likelihood for i in range(N)]
    for i in range(N):
        W.eq('probability %d' % i, b.p[i], w[i] / sum(w))
        W.ge('probability %d is not negative' % i, b.p[i], 0)
    W.eq('probabilities sum to one', sum(b.p[i] for i in range(N)), 1)
    x, P = mixture(W, e, [a / sum(w) for a in w])
    W.eq('state', b.x, x)
    W.eq('covariance', b.P, P)
    W.eq('x_post', b.x_post, x)
    W.eq('P_post', b.P_post, P)
    W.eq('z', b.z, z)
    if e.H is not None:
        W.eq('bank H unchanged', b.H, e.H)


@contract('C15', bounded=BANK)
def predict(W):
    e = any_bank(W)
    b = e.bank
    st = [W.snap(v) for v in (b.x, b.P)]
    u = W.vec('u', e.m, 1) if W.choice('control', [0, 1]) else None
    b.predict(*([] if u is None else [u]))
    W.eq('every filter predicted once', sorted((a[0], a[1]) for a in e.log) == [(f.name, 'predict') for f in e.fs], True)
    for a in e.log:
        if u is not None:
            W.eq('with the control', a[4], u)
    for i in range(e.N):
        W.eq('probability %d unchanged' % i, b.p[i], e.mu[i])
    W.eq('x_prior', b.x_prior, st[0])
    W.eq('P_prior', b.P_prior, st[1])


@contract('C15', bounded=BANK)
def caller_probabilities(W):
    """the bank weighs with its own copy of the prior probabilities"""
    n, N = W.dim('n'), W.choice('N', [1, 2, 3])
    fs = [AnyFilter(W, 'f%d' % i, n, 1, []) for i in range(N)]
    p0 = distribution(W, 'p', N)
    p = W.array(p0)
    b = W.mods.kalman.MMAEFilterBank(fs, p, n)
    b.update(W.vec('z', W.dim('m'), 1))
    for i in range(N):
        W.eq('caller keeps %d' % i, p[i], p0[i])


# ---------------------------------------------------------------- banks of any size
def big_bank(W, hists=(0, 1)):
    e = E()
    e.N = W.dim('N', 1, 6)
    e.n, e.nd, e.m = W.dim('n'), W.choice('nd', [2, 1]), W.dim('m')
    e.fs = W.bank('f', e.N, e.n, e.nd)
    e.mu = W.weights('p', e.N)
    e.arg = W.snap(e.mu)
    e.H = W.mat('Hb', e.m, e.n) if W.choice('bank H', [0, 1]) else None
    e.bank = b = W.mods.kalman.MMAEFilterBank(e.fs, e.arg, e.n, *([] if e.H is None else [W.snap(e.H)]))
    if W.choice('hist', list(hists)):
        b.predict()
        b.update(W.vec('zh', e.m, 1))
        e.mu = e.mu * W.family(e.fs).likelihood()
        e.mu = e.mu / W.total(e.mu)
    W.forget_runs(e.fs)
    return e


@contract('C15')
def update_any_size(W):
    e = big_bank(W)
    b = e.bank
    z = W.vec('z', e.m, W.choice('znd', [1, 2]))
    opt = W.choice('call', ['plain', 'R', 'H', 'RH'])
    R = W.pd('R', e.m) if 'R' in opt else None
    H = W.mat('H', e.m, e.n) if 'H' in opt else None
    kw = {}
    if R is not None:
        kw['R'] = R
    if H is not None:
        kw['H'] = H
    before = W.snap(e.arg)
    b.update(z, **kw)
    rs = W.ran(e.fs, 'update')
    W.ok('every filter updated exactly once', rs is not None)
    if rs is None:
        return
    for r in rs:
        got = dict(zip(('z', 'R', 'H'), r.args))
        got.update(r.kw)
        W.eq('with the measurement', got.get('z'), z)
        for k, v in (('R', R), ('H', e.H if H is None else H)):
            if v is None:
                W.ok('no %s override' % k, got.get(k) is None)
            else:
                W.eq('override ' + k, got.get(k), v)
    fam = W.family(e.fs)
    mu = e.mu * fam.likelihood()
    mu = mu / W.total(mu)
    W.eq('probabilities', b.p, mu)
    W.nonneg('probabilities are not negative', b.p)
    W.eq('probabilities sum to one', W.total(b.p), 1)
    x = fam.mean(mu)
    P = fam.spread(mu, x)
    W.eq('state', b.x, x)
    W.eq('covariance', b.P, P)
    W.eq('x_post', b.x_post, x)
    W.eq('P_post', b.P_post, P)
    W.eq('z', b.z, z)
    W.eq('the caller keeps the prior probabilities', e.arg, before)
    if e.H is not None:
        W.eq('bank H unchanged', b.H, e.H)


@contract('C15')
def predict_any_size(W):
    e = big_bank(W)
    b = e.bank
    x, P = W.snap(b.x), W.snap(b.P)
    u = W.vec('u', e.m, 1) if W.choice('control', [0, 1]) else None
    b.predict(*([] if u is None else [u]))
    rs = W.ran(e.fs, 'predict')
    W.ok('every filter predicted exactly once', rs is not None)
    for r in rs or []:
        if u is not None:
            W.eq('with the control', r.args[0] if r.args else r.kw.get('u'), u)
    W.eq('probabilities unchanged', b.p, e.mu)
    W.eq('x_prior', b.x_prior, x)
    W.eq('P_prior', b.P_prior, P)


@contract('C15', sym=False)
def real_filters(W):
    N, n, m = W.choice('N', [1, 2, 3]), W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    e = E()
    e.N, e.fs, ref = N, [], []
    for i in range(N):
        q = E()
        q.n, q.m, q.nd = n, m, nd
        q.kf = W.mods.kalman.KalmanFilter(n, m)
        set_kf(W, q, str(i))
        e.fs.append(q.kf)
        ref.append(RefKF(W, q.x, q.P, q.F, q.Q, q.H, q.R))
    mu = distribution(W, 'p', N)
    if W.pyrng.random() < .2 and N > 1:
        mu = [1.] + [0.] * (N - 1)
    b = W.mods.kalman.MMAEFilterBank(e.fs, list(mu), n)
    for k in range(W.pyrng.randint(1, 6)):
        if W.pyrng.random() < .5:
            b.predict()
            [r.predict() for r in ref]
        else:
            z = W.vec('z', m, nd)
            kw = {}
            if W.pyrng.random() < .3:
                kw['R'] = W.pd('R', m)
            if W.pyrng.random() < .3:
                kw['H'] = W.mat('H', m, n)
            b.update(z, **kw)
            [r.update(z, **kw) for r in ref]
            w = [p * max(W.exp(W.logpdf(r.y, r.S)), 2.3e-308) for p, r in zip(mu, ref)]
            mu = [a / sum(w) for a in w]
            W.eq('probabilities', b.p, W.array(mu))
            x, P = mixture(W, e, mu)
            W.eq('state', b.x, x)
            W.eq('covariance', b.P, P)
    for f, r in zip(e.fs, ref):
        W.eq('filter state', f.x, r.x)
        W.eq('filter covariance', f.P, r.P)
