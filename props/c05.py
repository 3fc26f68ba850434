"""C05  queries are pure; inputs and snapshots are never aliased.

frame conditions: `op` may only rebind the filter's own state; every array the
caller owns or obtained keeps its value, and recorded arrays share storage with
nothing."""
from vf.harness import contract
from .common import *
from .c01 import any_ekf
from .c04 import some_points

CACHE = ('_log_likelihood', '_likelihood', '_mahalanobis')


def frame(W, f, op, owned, obtained=('x', 'P'), recorded=()):
    """owned: name -> array passed in by the caller; obtained: attributes read
    before the call; recorded: attributes that must be independent afterwards"""
    own0 = {k: W.snap(v) for k, v in owned.items()}
    got = {k: getattr(f, k) for k in obtained}
    got0 = {k: W.snap(v) for k, v in got.items()}
    op()
    for k in owned:
        W.same('caller array %s unchanged' % k, owned[k], own0[k])
    for k in got:
        W.same('earlier %s unchanged' % k, got[k], got0[k])
    rec = {k: getattr(f, k) for k in recorded}
    rec0 = {k: W.snap(v) for k, v in rec.items()}
    for k in rec:
        for a in ('x', 'P'):
            if hasattr(f, a):
                W.noalias('%s independent of %s' % (k, a), rec[k], getattr(f, a))
        for o in owned:
            W.noalias('%s independent of argument %s' % (k, o), rec[k], owned[o])
        for k2 in rec:
            if k2 < k:
                W.noalias('%s independent of %s' % (k, k2), rec[k], rec[k2])
    # in-place edits by the caller reach nothing that was recorded
    for a in ('x', 'P', 'P_inv'):
        if a in vars(f):
            W.poke(getattr(f, a))
    for o in owned.values():
        W.poke(o)
    for k in rec:
        W.same('%s survives in-place edits' % k, rec[k], rec0[k])
        W.same('%s still recorded' % k, getattr(f, k), rec0[k], exact=False)


def pure(W, f, q, name, skip=CACHE):
    s = W.state(f)
    q()
    W.unchanged(name + ' is pure', f, s, skip=skip)


@contract('C05')
def kf_frame(W):
    e = any_kf(W, alpha=False, hists=('pu', 'fresh'))
    kf = e.kf
    op = W.choice('op', ['predict', 'predict override', 'update', 'update override', 'steady', 'predict steady', 'correlated', 'sequential'])
    owned = {a: getattr(kf, a) for a in 'xPFQHR'}
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    if op == 'sequential' and e.nd == 1:
        W.done()
    rec = ['x_prior', 'P_prior'] if op.startswith('predict') else ['x_post', 'P_post', 'z']
    if op in ('predict', 'predict steady'):
        if W.choice('control', [0, 1]):
            kf.B = owned['B'] = W.mat('B', e.n, W.dim('c'))
            owned['u'] = W.vec('u', owned['B'].shape[1], e.nd)
            run = lambda: (kf.predict if op == 'predict' else kf.predict_steadystate)(owned['u'])
        else:
            run = kf.predict if op == 'predict' else kf.predict_steadystate
    elif op == 'predict override':
        owned.update(F1=W.mat('F1', e.n, e.n), Q1=W.psd('Q1', e.n), B1=W.mat('B1', e.n, W.dim('c')))
        owned['u'] = W.vec('u', owned['B1'].shape[1], e.nd)
        run = lambda: kf.predict(owned['u'], B=owned['B1'], F=owned['F1'], Q=owned['Q1'])
    else:
        owned['z'] = z
        if op == 'update':
            run = lambda: kf.update(z)
        elif op == 'update override':
            owned.update(H1=W.mat('H1', e.m, e.n), R1=W.pd('R1', e.m))
            run = lambda: kf.update(z, R=owned['R1'], H=owned['H1'])
        elif op == 'steady':
            kf.K = owned['K'] = W.mat('K', e.n, e.m)
            run = lambda: kf.update_steadystate(z)
        elif op == 'sequential':
            kf.y, kf.z = W.vec('y0', e.m, 2), W.vec('zz', e.m, 2)
            run = lambda: kf.update_sequential(0, z)
            rec = ['x_post', 'P_post']
        else:
            kf.M = owned['M'] = W.mat('M', e.n, e.m)
            run = lambda: kf.update_correlated(z)
    keep = {k: getattr(kf, k) for k in ('F', 'Q', 'H', 'R', 'B', 'M')}
    keep0 = {k: W.snap(v) for k, v in keep.items()}

    def go():
        run()
        for k in keep:
            W.same('model %s' % k, getattr(kf, k), keep0[k])
    frame(W, kf, go, owned, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), rec)


@contract('C05')
def kf_recorded_survive(W):
    """recorded values survive later steps"""
    e = any_kf(W, alpha=False, hists=('fresh',))
    kf = e.kf
    kf.predict()
    a = W.snap(kf.x_prior), W.snap(kf.P_prior)
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    kf.update(z)
    W.same('x_prior after update', kf.x_prior, a[0])
    W.same('P_prior after update', kf.P_prior, a[1])
    b = W.snap(kf.x_post), W.snap(kf.P_post), W.snap(kf.z)
    kf.predict()
    W.same('x_post after predict', kf.x_post, b[0])
    W.same('P_post after predict', kf.P_post, b[1])
    W.same('z after predict', kf.z, b[2])


@contract('C05')
def kf_queries(W):
    e = any_kf(W, alpha=True, hists=('pu', 'fresh'))
    kf = e.kf
    if e.hist == 'fresh':
        kf.S = W.pd('S', e.m)
    z = shaped(W, W.vec('z', e.m, 2), e.nd)
    B, u = W.mat('B', e.n, W.dim('c')), None
    u = W.vec('u', B.shape[1], e.nd)
    F1, Q1 = W.mat('F1', e.n, e.n), W.psd('Q1', e.n)
    owned = dict(z=z, B=B, u=u, F1=F1, Q1=Q1, x=e.x)
    own0 = {k: W.snap(v) for k, v in owned.items()}
    q = W.choice('query', ['predict', 'predict override', 'update', 'update none', 'residual', 'measurement', 'll_of', 'attributes'])
    pure(W, kf, {
        'predict': lambda: kf.get_prediction(),
        'predict override': lambda: kf.get_prediction(u, B, F1, Q1),
        'update': lambda: kf.get_update(z),
        'update none': lambda: kf.get_update(None),
        'residual': lambda: kf.residual_of(z),
        'measurement': lambda: kf.measurement_of_state(e.x),
        'll_of': lambda: kf.log_likelihood_of(z),
        'attributes': lambda: (kf.log_likelihood, kf.likelihood, kf.mahalanobis, kf.alpha) if e.hist != 'fresh' else kf.alpha,
    }[q], q)
    for k in owned:
        W.same('argument ' + k, owned[k], own0[k])


@contract('C05')
def procedural_frame(W):
    nd = W.choice('nd', [2, 1])
    n, m = W.dim('n'), W.dim('m')
    a = dict(x=W.vec('x', n, nd), P=W.pd('P', n), F=W.mat('F', n, n), Q=W.psd('Q', n), H=W.mat('H', m, n), R=W.pd('R', m),
             z=shaped(W, W.vec('z', m, 2), nd), K=W.mat('K', n, m))
    a0 = {k: W.snap(v) for k, v in a.items()}
    KM = W.mods.kalman
    r = []
    c = W.choice('fn', ['predict', 'update', 'update all', 'steady', 'predict steady'])
    if c == 'predict':
        r = KM.predict(a['x'], a['P'], a['F'], a['Q'])
    elif c == 'update':
        r = KM.update(a['x'], a['P'], a['z'], a['R'], a['H'])
    elif c == 'update all':
        r = KM.update(a['x'], a['P'], a['z'], a['R'], a['H'], return_all=True)[:5]
    elif c == 'steady':
        r = [KM.update_steadystate(a['x'], a['z'], a['K'], a['H'])]
    else:
        r = [KM.predict_steadystate(a['x'], a['F'])]
    for k in a:
        W.same('argument ' + k, a[k], a0[k])
    for i, v in enumerate(r):
        for k in a:
            W.noalias('result %d vs %s' % (i, k), v, a[k])


@contract('C05')
def ekf_frame(W):
    e = any_ekf(W)
    f = e.kf
    owned = {a: getattr(f, a) for a in 'xPFQR'}
    J, h = W.jac('J', e.m, e.n), W.func('h', e.m)
    z = W.vec('z', e.m, e.nd)
    op = W.choice('op', ['predict', 'update', 'updateR', 'predict_update'])
    rec = ['x_post', 'P_post', 'z']
    if op == 'predict':
        run, rec = f.predict, ['x_prior', 'P_prior']
    else:
        owned['z'] = z
        if op == 'update':
            run = lambda: f.update(z, J, h)
        elif op == 'updateR':
            owned['R1'] = W.pd('R1', e.m)
            run = lambda: f.update(z, J, h, R=owned['R1'])
        else:
            rec += ['x_prior', 'P_prior']
            run = lambda: f.predict_update(z, J, h)

    def go():
        run()
        for a in 'FQR':
            W.same('model %s' % a, getattr(f, a), getattr(e, a))
    frame(W, f, go, owned, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), rec)


@contract('C05')
def fading_frame(W):
    e = any_ekf(W, 'fading')
    f = e.kf
    owned = {a: getattr(f, a) for a in 'xPFQHR'}
    z = W.vec('z', e.m, e.nd)
    op = W.choice('op', ['predict', 'update', 'updateR', 'queries'])
    rec = ['x_post', 'P_post', 'z']
    if op == 'queries':
        if e.hist != 'fresh':
            pure(W, f, lambda: (f.log_likelihood, f.likelihood, f.mahalanobis), 'likelihood')
        z0 = W.snap(z)
        pure(W, f, lambda: (f.get_prediction(), f.residual_of(z), f.measurement_of_state(e.x)), 'queries')
        W.same('argument z', z, z0)
        return
    if op == 'predict':
        run, rec = f.predict, ['x_prior', 'P_prior']
    else:
        owned['z'] = z
        if op == 'update':
            run = lambda: f.update(z)
        else:
            owned['R1'] = W.pd('R1', e.m)
            run = lambda: f.update(z, owned['R1'])

    def go():
        run()
        for a in 'FQHR':
            W.same('model %s' % a, getattr(f, a), getattr(e, a))
    frame(W, f, go, owned, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), rec)


@contract('C05')
def square_root_frame(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.kalman.SquareRootKalmanFilter(n, m)
    x, P, F, Q, H, R = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.pd('Q', n), W.mat('H', m, n), W.pd('R', m)
    f.x, f.P, f.F, f.Q, f.H, f.R = x, P, F, Q, H, R
    hist = W.choice('hist', ['fresh', 'pu'])
    if hist == 'pu':
        f.predict()
        f.update(W.vec('z0', m, 2))
    owned = dict(x=x, P=P, F=F, Q=Q, H=H, R=R)
    z = W.vec('z', m, 2)
    op = W.choice('op', ['predict', 'update', 'updateR', 'queries'])
    if op == 'queries':
        pure(W, f, lambda: (f.residual_of(z), f.measurement_of_state(x), f.P, f.Q, f.R, f.S, f.SI), 'queries')
        return
    F0, H0 = W.snap(F), W.snap(H)
    rec = ['x_post', 'P_post', 'z']
    if op == 'predict':
        run, rec = f.predict, ['x_prior', 'P_prior']
    else:
        owned['z'] = z
        if op == 'update':
            run = lambda: f.update(z)
        else:
            owned['R1'] = W.pd('R1', m)
            run = lambda: f.update(z, owned['R1'])

    def go():
        Q0, R0 = W.snap(f.Q), W.snap(f.R)
        run()
        W.same('model F', f.F, F0)
        W.same('model H', f.H, H0)
        W.same('model Q', f.Q, Q0)
        W.same('model R', f.R, R0)
    frame(W, f, go, owned, ('x', 'P', 'P1_2', 'x_prior', 'P_prior', 'x_post', 'P_post', 'K'), rec)


@contract('C05')
def information_frame(W):
    n, m = W.dim('n'), W.dim('m')
    nd = W.choice('nd', [2, 1])
    f = W.mods.kalman.InformationFilter(n, m, compute_log_likelihood=False)
    x, P, F, Q, H, R = W.vec('x', n, nd), W.pd('Pi', n), W.inv_mat('F', n), W.psd('Q', n), W.mat('H', m, n), W.pd('Ri', m)
    f.x, f.P_inv, f.F, f.Q, f.H, f.R_inv = x, P, F, Q, H, R
    if W.choice('hist', ['fresh', 'pu']) == 'pu':
        f.predict()
        f.update(shaped(W, W.vec('z0', m, 2), nd))
    owned = dict(x=x, P_inv=P, F=F, Q=Q, H=H, R=R)
    z = shaped(W, W.vec('z', m, 2), nd)
    op = W.choice('op', ['predict', 'update', 'updateR', 'query'])
    if op == 'query':
        pure(W, f, lambda: (f.P, f.F), 'queries')
        return
    keep0 = {k: W.snap(getattr(f, k)) for k in ('F', 'Q', 'H', 'R_inv')}
    rec = ['x_post', 'P_inv_post', 'z']
    if op == 'predict':
        run, rec = f.predict, ['x_prior', 'P_inv_prior']
    else:
        owned['z'] = z
        if op == 'update':
            run = lambda: f.update(z)
        else:
            owned['R1'] = W.pd('R1', m)
            run = lambda: f.update(z, owned['R1'])

    def go():
        run()
        for a in keep0:
            W.same('model %s' % a, getattr(f, a), keep0[a])
    frame(W, f, go, owned, ('x', 'P_inv', 'x_prior', 'x_post', 'P_inv_prior', 'P_inv_post'), rec)
    for a in ('x', 'P_inv'):
        for b in ('x_prior', 'x_post', 'P_inv_prior', 'P_inv_post'):
            W.noalias('%s vs %s' % (a, b), getattr(f, a), getattr(f, b))


def sigma_filter(W, cls, n, m):
    f0, h0 = W.func('f', n), W.func('h', m)
    if cls == 'ukf':
        f = W.mods.kalman.UnscentedKalmanFilter(n, m, W.scal('dt', pos=True), hx=h0, fx=lambda x, dt: f0(x, dt), points=W.mods.kalman.JulierSigmaPoints(n, W.scal('ka', lo=.1, hi=3)))
    else:
        f = W.mods.kalman.CubatureKalmanFilter(n, m, W.scal('dt', pos=True), hx=h0, fx=lambda x, dt: f0(x, dt))
    return f


@contract('C05')
def sigma_filter_frame(W):
    n, m = W.dim('n'), W.dim('m')
    cls = W.choice('cls', ['ukf', 'ckf'])
    f = sigma_filter(W, cls, n, m)
    owned = dict(x=W.vec('x', n, 1), P=W.pd('P', n), Q=W.pd('Q', n), R=W.pd('R', m))
    f.x, f.P, f.Q, f.R = owned['x'], owned['P'], owned['Q'], owned['R']
    op = W.choice('op', ['predict', 'update', 'updateR'])
    rec = ['x_prior', 'P_prior']
    z = W.vec('z', m, 1)
    if op == 'predict':
        run = f.predict
    else:
        # any sigma points: the update does not care how they were obtained
        N = f.sigmas_f.shape[0]
        f.sigmas_f = owned['sigmas_f'] = W.mat('sf', N, n)
        if cls == 'ckf':
            f.x = owned['x'] = W.vec('xc', n, 2)
        rec = ['x_post', 'P_post', 'z']
        owned['z'] = z
        if op == 'updateR':
            owned['R1'] = W.pd('R1', m)
            run = lambda: f.update(z, owned['R1'])
        else:
            run = lambda: f.update(z)
    frame(W, f, run, owned, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), rec)


@contract('C05')
def enkf_frame(W):
    n, m, N = W.dim('n'), W.dim('m'), W.dim('N', lo=2, hi=6)
    with W.random():
        x, P = W.vec('x', n, 1), W.pd('P', n)
        f0, h0 = W.func('f', n), W.func('h', m)
        f = W.mods.kalman.EnsembleKalmanFilter(x, P, m, W.scal('dt', pos=True), N, h0, lambda x, dt: f0(x, dt))
        f.Q, f.R = W.pd('Q', n), W.pd('R', m)
        owned = dict(x=x, P=P, Q=f.Q, R=f.R)
        z = W.vec('z', m, 1)
        op = W.choice('op', ['predict', 'update', 'updateR'])
        rec = ['x_prior', 'P_prior']
        if op == 'predict':
            run = f.predict
        else:
            rec = ['x_post', 'P_post', 'z']
            owned['z'] = z
            f.P = W.pd('P1', n)
            if op == 'updateR':
                owned['R1'] = W.pd('R1', m)
                run = lambda: f.update(z, owned['R1'])
            else:
                run = lambda: f.update(z)
        frame(W, f, run, owned, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), rec)


@contract('C05')
def polynomial_filters(W):
    """least squares, order-selectable g-h and fading memory filters: the caller's start and
    every state obtained or returned earlier keep their values"""
    kind, o = W.choice('filter', ['lsq', 'gh', 'fading']), W.choice('order', [0, 1, 2])
    dt = W.scal('dt', lo=.1, hi=3)
    s = W.array([W.scal(t) for t in ('x', 'dx', 'ddx')[:o + 1]])
    s0 = W.snap(s)
    if kind == 'lsq':
        f = W.mods.leastsq.LeastSquaresFilter(dt, o, W.scal('sigma', pos=True))
        f.x = s
        f.n = W.dim('n', lo=0, hi=9) + o
    elif kind == 'gh':
        f = W.mods.gh.GHFilterOrder(s, dt, o, W.scal('g'), W.scal('h'), W.scal('k'))
    else:
        f = W.mods.memory.FadingMemoryFilter(s, dt, o, W.scal('beta', lo=.02, hi=.95))
    for i in range(W.choice('updates before', [0, 1])):
        f.update(W.scal('y%d' % i))
    old, old0 = f.x, W.snap(f.x)
    r = f.update(W.scal('z0'))
    new, new0 = f.x, W.snap(f.x)
    r0 = W.snap(r)
    f.update(W.scal('z1'))
    if kind == 'lsq':
        f.errors()
    W.same('start', s, s0)
    W.same('state obtained before', old, old0)
    W.same('state obtained between', new, new0)
    if kind == 'lsq':
        W.same('estimate returned', r, r0)
        f.reset()
        W.same('estimate returned, after reset', r, r0)


def bank_frame(W, b, op, z, owned, mode):
    if op == 'none':
        run, rec = (lambda: None), ['x_prior', 'P_prior', 'x_post', 'P_post']
    elif op == 'predict':
        run, rec = b.predict, ['x_prior', 'P_prior']
    else:
        run, rec = (lambda: b.update(z)), ['x_post', 'P_post'] + mode
        owned = dict(owned, z=z)
    frame(W, b, run, owned, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), rec)


@contract('C05')
def imm_frame(W):
    from .c14 import big_bank
    e = big_bank(W)
    bank_frame(W, e.imm, W.choice('op', ['none', 'predict', 'update']), W.vec('z', e.m, 1), {}, [])


@contract('C05')
def mmae_frame(W):
    from .c15 import big_bank
    e = big_bank(W)
    op = W.choice('op', ['none', 'predict', 'update'])
    bank_frame(W, e.bank, op, W.vec('z', e.m, 1), {'p': e.arg}, ['z'])


@contract('C05')
def hinfinity_frame(W):
    n, m = W.dim('n'), W.dim('m')
    f = W.mods.hinfinity.HInfinityFilter(n, m, 0, gamma=W.scal('gamma', lo=.001, hi=.01))
    x, P, F, Q, H, w = W.vec('x', n, 2), W.pd('P', n), W.mat('F', n, n), W.psd('Q', n), W.mat('H', m, n), W.psd('W', n)
    V = W.pd('V', m)
    f.x, f.P, f.F, f.Q, f.H, f.W, f.V = x, P, F, Q, H, w, V
    if W.choice('hist', [0, 1]):
        f.predict()
        f.update(W.vec('z0', m, 2))
    owned = dict(x=x, P=P, F=F, Q=Q, H=H, W=w, V=V)
    z = W.vec('z', m, 2)
    op = W.choice('op', ['predict', 'update', 'queries'])
    if op == 'queries':
        pure(W, f, lambda: (f.get_prediction(), f.residual_of(z), f.measurement_of_state(x), f.V), 'queries')
        return
    keep = {k: W.snap(getattr(f, k)) for k in ('F', 'Q', 'H', 'W', 'V')}
    rec = []
    if op == 'predict':
        run = f.predict
    else:
        owned['z'] = z
        run, rec = (lambda: f.update(z)), ['z']

    def go():
        run()
        for k in keep:
            W.same('model %s' % k, getattr(f, k), keep[k])
    frame(W, f, go, owned, ('x', 'P', 'y'), rec)


@contract('C05')
def gh_family_frame(W):
    """g-h and g-h-k filters with vector states: start, returned and obtained states are kept"""
    G = W.module('gh.gh_filter')
    k, n = W.choice('filter', ['gh', 'ghk']), W.dim('n')
    names = ['x', 'dx', 'ddx'][:2 if k == 'gh' else 3]
    s = [W.vec(t, n, 1) for t in names]
    own = [W.snap(v) for v in s]
    g = [W.scal(t) for t in ('g', 'h', 'k')[:len(names)]]
    f = {'gh': G.GHFilter, 'ghk': G.GHKFilter}[k](*(s + [W.scal('dt', pos=True)] + g))
    if W.choice('hist', [0, 1]):
        f.update(W.vec('z0', n, 1))
    old = [getattr(f, t) for t in names]
    old0 = [W.snap(v) for v in old]
    z = W.vec('z', n, 1)
    z0 = W.snap(z)
    r = f.update(z)
    r0 = [W.snap(v) for v in r]
    y, p = f.y, [f.x_prediction, f.dx_prediction]
    y0, p0 = W.snap(y), [W.snap(v) for v in p]
    f.update(W.vec('z1', n, 1))
    for i, t in enumerate(names):
        W.same('start ' + t, s[i], own[i])
        W.same('earlier ' + t, old[i], old0[i])
    for i in range(len(r)):
        W.same('returned %d' % i, r[i], r0[i])
    W.same('measurement', z, z0)
    W.same('earlier residual', y, y0)
    W.same('earlier predictions', p, p0)


@contract('C05')
def fixed_lag_frame(W):
    """one smoothing step: models, caller arrays and the estimate obtained earlier are kept"""
    N = W.lag('N')
    n, m, nd = W.dim('n'), W.dim('m'), W.choice('nd', [2, 1])
    s = W.mods.kalman.FixedLagSmoother(dim_x=n, dim_z=m, N=N)
    k = W.lag('k', hi=7)
    rows = W.tlist('xs', k, lambda t: W.vec(t, n, nd))
    owned = dict(x=W.vec('x', n, nd), P=W.pd('P', n), F=W.mat('F', n, n), H=W.mat('H', m, n), Q=W.psd('Q', n), R=W.pd('R', m))
    for a, v in owned.items():
        setattr(s, a, v)
    s.count, s.xSmooth = k, rows
    z = shaped(W, W.vec('z', m, 2), nd)
    keep = {a: W.snap(getattr(s, a)) for a in ('F', 'H', 'Q', 'R')}

    def go():
        s.smooth(z)
        for a in keep:
            W.same('model %s' % a, getattr(s, a), keep[a])
    frame(W, s, go, dict(owned, z=z), ('x', 'P', 'y', 'S'), [])
