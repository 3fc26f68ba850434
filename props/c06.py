"""C06  batch filtering = the step-by-step recursion

Every batch routine is verified by induction over the epochs (vf/induct.py): its loop is run
for one generic epoch from an arbitrary filter state and compared with predict / update called
on an identical filter for that epoch; together with the base case and the bookkeeping
(each row written once, as many epochs as measurements) this holds for every batch length."""
from vf.harness import contract
from .common import *
from .c13 import split


def opt_seq(W, name, T, make, given):
    """per-epoch sequence, or None (the filter's own value every epoch)"""
    return W.seq(name, T, make) if given else None


def meas(W, e, T, miss=True):
    def make(t):
        if miss and W.choice('missing ' + t, [False, True]):
            return None
        return shaped(W, W.vec(t, e.m, 2), e.nd)
    return W.seq('z', T, make)


SETS = {'none': '', 'all': 'FQHRBu', 'model': 'FQHR', 'F': 'F', 'Q': 'Q', 'H': 'H', 'R': 'R', 'control': 'Bu', 'u': 'u'}


@contract('C06', weight=3)
def kf_batch(W):
    # the history is irrelevant: the generic epoch starts from an arbitrary state
    e = any_kf(W, hists=('fresh',) if W.symbolic else ('fresh', 'pu'), alpha=False)
    kf = e.kf
    T = W.horizon('T')
    first = W.choice('update_first', [False, True])
    g = W.choice('given', list(SETS))
    if g in ('none', 'all') and W.choice('alpha', [0, 1]):
        kf.alpha = W.scal('alpha', lo=1, hi=4)
    g = SETS[g]
    du = W.dim('du', hi=3)
    if g == 'u':
        kf.B = W.mat('B', e.n, du)
    zs = meas(W, e, T)
    seqs = dict(
        Fs=opt_seq(W, 'F', T, lambda t: W.mat(t, e.n, e.n), 'F' in g),
        Qs=opt_seq(W, 'Q', T, lambda t: W.psd(t, e.n), 'Q' in g),
        Hs=opt_seq(W, 'H', T, lambda t: W.mat(t, e.m, e.n), 'H' in g),
        Rs=opt_seq(W, 'R', T, lambda t: W.pd(t, e.m), 'R' in g),
        Bs=opt_seq(W, 'B', T, lambda t: W.mat(t, e.n, du), 'B' in g),
        us=opt_seq(W, 'u', T, lambda t: W.vec(t, du, e.nd), 'u' in g))
    ref = W.clone(kf)
    ep = W.epochs(T, [kf], [ref], props={'P': ('sym', 'pd')})
    sv = ep.saver(kf, ('x', 'P', 'x_prior', 'x_post'))
    at = lambda s, k: None if seqs[s] is None else seqs[s][k]
    with ep:
        res = W.call('batch_filter', kf.batch_filter, zs, update_first=first, saver=sv, **seqs)
    for k in ep.steps():
        def pred():
            ref.predict(u=at('us', k), B=at('Bs', k), F=at('Fs', k), Q=at('Qs', k))
            W.eq('predicted mean', ep.row(res[2], k), ref.x)
            W.eq('predicted covariance', ep.row(res[3], k), ref.P)

        def upd():
            ref.update(zs[k], R=at('Rs', k), H=at('Hs', k))
            W.eq('mean', ep.row(res[0], k), ref.x)
            W.eq('covariance', ep.row(res[1], k), ref.P)
        (upd(), pred()) if first else (pred(), upd())
        ep.saved(k, sv, {'x': ref.x, 'P': ref.P, 'x_prior': ref.x_prior, 'x_post': ref.x_post})
        ep.after(k)


@contract('C06', weight=2)
def kf_function(W):
    """the procedural batch_filter against the procedural predict / update"""
    M = W.mods.kalman
    n, m, du = W.dim('n'), W.dim('m'), W.dim('du', hi=3)
    nd = W.choice('nd', [2, 1])
    T = W.horizon('T')
    first = W.choice('update_first', [False, True])
    x, P = W.vec('x', n, nd), W.pd('P', n)

    def make(t):
        if W.choice('missing ' + t, [False, True]):
            return None
        return shaped(W, W.vec(t, m, 2), nd)
    zs = W.seq('z', T, make)
    Fs = W.seq('F', T, lambda t: W.mat(t, n, n))
    Qs = W.seq('Q', T, lambda t: W.psd(t, n))
    Hs = W.seq('H', T, lambda t: W.mat(t, m, n))
    Rs = W.seq('R', T, lambda t: W.pd(t, m))
    ctl = W.choice('control', [False, True])
    kw = {}
    if ctl:
        kw = dict(Bs=W.seq('B', T, lambda t: W.mat(t, n, du)), us=W.seq('u', T, lambda t: W.vec(t, du, nd)))
    obj = E()
    obj.mark = 0
    ep = W.epochs(T, carry={'x': x, 'P': P}, props={'P': ('sym', 'pd')})
    sv = ep.saver(obj, ('mark',)) if W.choice('saver', [True, False]) else None
    x0, P0 = W.snap(x), W.snap(P)
    with ep:
        res = W.call('batch_filter', M.batch_filter, x, P, zs, Fs, Qs, Hs, Rs, update_first=first, saver=sv, **kw)
    W.same('argument x unchanged', x, x0)
    W.same('argument P unchanged', P, P0)
    for k in ep.steps():
        s = [ep.state('x'), ep.state('P')]

        def pred():
            if ctl:
                s[:] = M.predict(s[0], s[1], F=Fs[k], Q=Qs[k], u=kw['us'][k], B=kw['Bs'][k])
            else:
                s[:] = M.predict(s[0], s[1], F=Fs[k], Q=Qs[k])
            W.eq('predicted mean', ep.row(res[2], k), s[0])
            W.eq('predicted covariance', ep.row(res[3], k), s[1])

        def upd():
            s[:] = M.update(s[0], s[1], zs[k], R=Rs[k], H=Hs[k])
            W.eq('mean', ep.row(res[0], k), s[0])
            W.eq('covariance', ep.row(res[1], k), s[1])
        (upd(), pred()) if first else (pred(), upd())
        if sv is not None:
            ep.saved(k, sv, {})
        ep.put(k, x=s[0], P=s[1])


@contract('C06')
def fading_batch(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.FadingKalmanFilter(W.scal('alpha', lo=1, hi=2), n, m)
    f.x, f.P, f.F, f.Q, f.H, f.R = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.psd('Q', n), W.mat('H', m, n), W.pd('R', m)
    T = W.horizon('T')
    first = W.choice('update_first', [False, True])
    e = E()
    e.m, e.nd = m, 2
    zs = meas(W, e, T)
    rs = W.choice('Rs', ['none', 'matrices', 'scalars'])
    Rs = {'none': None, 'matrices': W.seq('R', T, lambda t: W.pd(t, m)), 'scalars': W.seq('r', T, lambda t: W.scal(t, pos=True))}[rs]
    ref = W.clone(f)
    ep = W.epochs(T, [f], [ref], props={'P': ('sym', 'pd')})
    with ep:
        res = W.call('batch_filter', f.batch_filter, zs, Rs, first)
    for k in ep.steps():
        def pred():
            ref.predict()
            W.eq('predicted mean', ep.row(res[2], k), ref.x)
            W.eq('predicted covariance', ep.row(res[3], k), ref.P)

        def upd():
            ref.update(zs[k]) if Rs is None else ref.update(zs[k], Rs[k])
            W.eq('mean', ep.row(res[0], k), ref.x)
            W.eq('covariance', ep.row(res[1], k), ref.P)
        (upd(), pred()) if first else (pred(), upd())
        ep.after(k)


@contract('C06')
def hinfinity_batch(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.module('hinfinity').HInfinityFilter(n, m, 0, W.scal('gamma', lo=.001, hi=.05))
    f.x, f.P, f.F, f.Q, f.H = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.psd('Q', n), W.mat('H', m, n)
    f.V, f.W = W.pd('V', m), W.psd('W', n)
    T = W.horizon('T')
    first = W.choice('update_first', [False, True])
    e = E()
    e.m, e.nd = m, 2
    zs = meas(W, e, T)
    ref = W.clone(f)
    ep = W.epochs(T, [f], [ref], props={'P': ('sym', 'pd')})
    sv = ep.saver(f, ('x', 'P'))
    with ep:
        res = W.call('batch_filter', f.batch_filter, zs, first, sv)
    for k in ep.steps():
        def upd():
            ref.update(zs[k])
            if first:
                rows()

        def rows():
            W.eq('mean', ep.row(res[0], k), ref.x)
            W.eq('covariance', ep.row(res[1], k), ref.P)
        if first:
            upd(), ref.predict()
        else:
            ref.predict(), upd(), rows()
        ep.saved(k, sv, {'x': ref.x, 'P': ref.P})
        ep.after(k)


@contract('C06', weight=2)
def ukf_batch(W):
    ukf(W, ['none', 'UT'], True)


@contract('C06')
def ukf_batch_noise(W):
    ukf(W, ['Rs', 'scalar Rs'], not W.symbolic)


@contract('C06')
def ukf_batch_times(W):
    ukf(W, ['dts', 'both'], not W.symbolic)


def ukf(W, given, missing):
    n, m = split(W, W.dim('n', hi=3), W.dim('m', hi=3))
    h0, f0 = W.func('h', m), W.func('f', n)
    f = W.mods.kalman.UnscentedKalmanFilter(n, m, W.scal('dt', pos=True), hx=h0, fx=lambda x, dt: f0(x, dt), points=ukf_points(W, n))
    f.x, f.P, f.Q, f.R = W.vec('x', n, 1), W.pd('P', n), W.pd('Q', n), W.pd('R', m)
    T = W.horizon('T', hi=4)
    e = E()
    e.m, e.nd = m, 1
    zs = meas(W, e, T, missing)
    g = W.choice('given', given)
    kw = {}
    if g in ('Rs', 'both'):
        kw['Rs'] = W.seq('R', T, lambda t: W.pd(t, m))
    if g == 'scalar Rs':
        kw['Rs'] = W.seq('r', T, lambda t: W.scal(t, pos=True))
    if g in ('dts', 'both'):
        kw['dts'] = W.seq('dt', T, lambda t: W.scal(t, pos=True))
    ut = other_ut(W) if g == 'UT' else None
    ref = W.clone(f)
    ep = W.epochs(T, [f], [ref], props={'P': ('sym', 'pd')})
    sv = ep.saver(f, ('x', 'P', 'x_prior', 'x_post'))
    with ep:
        res = W.call('batch_filter', f.batch_filter, zs, UT=ut, saver=sv, **kw)
    for k in ep.steps():
        ref.predict(dt=kw['dts'][k] if 'dts' in kw else None, UT=ut)
        ref.update(zs[k], kw['Rs'][k] if 'Rs' in kw else None, UT=ut)
        W.eq('mean', ep.row(res[0], k), ref.x)
        W.eq('covariance', ep.row(res[1], k), ref.P)
        ep.saved(k, sv, {'x': ref.x, 'P': ref.P, 'x_prior': ref.x_prior, 'x_post': ref.x_post})
        ep.after(k)


@contract('C06')
def gh_batch(W):
    G = W.module('gh')
    order = W.choice('filter', ['gh', 'ghk'])
    v = [W.scal(c) for c in ('x', 'dx', 'ddx')]
    dt, g, h, kk = W.scal('dt', pos=True), W.scal('g'), W.scal('h'), W.scal('k')
    f = G.GHFilter(v[0], v[1], dt, g, h) if order == 'gh' else G.GHKFilter(v[0], v[1], v[2], dt, g, h, kk)
    T = W.horizon('T')
    zs = W.seq('z', T, lambda t: W.scal(t))
    pred = W.choice('save_predictions', [False, True])
    ref = W.clone(f)
    carry = dict(x=v[0], dx=v[1]) if order == 'gh' else dict(x=v[0], dx=v[1], ddx=v[2])
    ep = W.epochs(T, carry=carry)
    sv = ep.saver(f, ('x',)) if order == 'gh' and W.choice('saver', [True, False]) else None
    before = W.state(f)
    with ep:
        res = W.call('batch_filter', f.batch_filter, zs, pred, **({'saver': sv} if sv is not None else {}))
    W.unchanged('filter', f, before)
    rows, ps = res if pred else (res, None)
    W.ok('rows', rows.shape[0] == T + 1 and rows.shape[1] == 2)
    for k in ep.steps():
        for a in carry:
            setattr(ref, a, ep.state(a))
        ref.update(zs[k])
        r = ep.row(rows, k + 1)
        W.eq('estimate', r[0], ref.x)
        W.eq('rate', r[1], ref.dx)
        if pred:
            W.eq('prediction', ep.row(ps, k), ref.x_prediction)
        if sv is not None:
            ep.saved(k, sv, {})
        ep.put(k, **{a: getattr(ref, a) for a in carry})
    r = ep.row(rows, 0)
    W.eq('initial estimate', r[0], v[0])
    W.eq('initial rate', r[1], v[1])
