"""Shared pieces of the contract harnesses: arbitrary filter states."""
import numpy as np


def layout(W, name, m, nd, opts=None):
    """a measurement of m values in one of the accepted layouts -> (argument, values as column)"""
    lay = W.choice(name + '_layout', opts or ['col', 'flat', 'row'])
    v = W.vec(name, m, 1)
    c = W.col(v)
    if lay == 'col':
        return c, c
    if lay == 'flat':
        return v, c
    if lay == 'row':
        return c.T, c
    if lay == 'list':
        return [W.scalar(v[i]) for i in range(m)], c
    if lay == 'scalar':
        return W.scalar(v[0]), c
    raise AssertionError(lay)


def shaped(W, v, nd):
    """column values v in the layout of a state with nd axes"""
    return W.col(v) if nd == 2 else W.flat(v)


def kf_history(W, kf, n, m, nd, hist):
    """put the filter through earlier operations (any hidden state they leave is then
    present when the contract is checked)"""
    if W.symbolic:
        ops = {'fresh': [], 'pu': ['p', 'u', 'read'], 'none': ['p', 'u', 'n'], 'uu': ['u', 'read', 'u']}[hist]
    else:
        ops = [W.pyrng.choice(['p', 'u', 'n', 'read', 'uo', 'po', 'ss', 'cor', 'get', 'gp', 'pss'])
               for _ in range(W.pyrng.randint(0, 6))] if hist != 'fresh' else []
    k = 0
    for o in ops:
        k += 1
        t = 'h%d' % k
        if o == 'p':
            kf.predict()
        elif o == 'po':
            kf.predict(F=W.mat(t + 'F', n, n), Q=W.psd(t + 'Q', n))
        elif o == 'u':
            kf.update(shaped(W, W.vec(t + 'z', m, 2), nd))
        elif o == 'uo':
            kf.update(shaped(W, W.vec(t + 'z', m, 2), nd), R=W.pd(t + 'R', m), H=W.mat(t + 'H', m, n))
        elif o == 'n':
            kf.update(None)
        elif o == 'read':
            kf.log_likelihood, kf.likelihood, kf.mahalanobis
        elif o == 'ss':
            kf.update_steadystate(shaped(W, W.vec(t + 'z', m, 2), nd))
        elif o == 'cor':
            kf.M = kf.M * 0
            kf.update_correlated(shaped(W, W.vec(t + 'z', m, 2), nd))
        elif o == 'get':
            kf.get_update(shaped(W, W.vec(t + 'z', m, 2), nd))
        elif o == 'gp':
            kf.get_prediction()
        elif o == 'pss':
            kf.predict_steadystate()


class E:
    """environment record"""
    pass


def any_kf(W, nd=None, hists=('fresh', 'pu'), alpha=True, n=None, m=None, pd=True):
    """a KalmanFilter in an arbitrary state"""
    e = E()
    e.nd = W.choice('nd', [2, 1]) if nd is None else nd
    e.n = W.dim('n') if n is None else n
    e.m = W.dim('m') if m is None else m
    e.hist = W.choice('hist', list(hists))
    kf = W.mods.kalman.KalmanFilter(dim_x=e.n, dim_z=e.m)
    e.kf = kf
    set_kf(W, e, '' if e.hist == 'fresh' else '0', pd)
    if e.hist != 'fresh':
        kf_history(W, kf, e.n, e.m, e.nd, e.hist)
        set_kf(W, e, '', pd)
    e.alpha = 1
    if alpha and W.choice('alpha', [0, 1]):
        a = W.scal('alpha', lo=1, hi=4)
        kf.alpha = a
        e.alpha = a
    return e


def set_kf(W, e, t, pd=True):
    kf = e.kf
    n, m, nd = e.n, e.m, e.nd
    e.x = W.vec('x' + t, n, nd)
    e.P = W.pd('P' + t, n) if pd else W.psd('P' + t, n)
    e.F = W.mat('F' + t, n, n)
    e.Q = W.psd('Q' + t, n)
    e.H = W.mat('H' + t, m, n)
    e.R = W.pd('R' + t, m)
    # every array handed to the filter is kept by the harness as an independent copy
    kf.x, kf.P, kf.F, kf.Q, kf.H, kf.R = [W.snap(v) for v in (e.x, e.P, e.F, e.Q, e.H, e.R)]


MODEL = ('F', 'Q', 'H', 'R', 'B', 'M')


def same_model(W, kf, e, name='model unchanged'):
    for a in ('F', 'Q', 'H', 'R'):
        W.eq('%s %s' % (name, a), getattr(kf, a), getattr(e, a))


class RefKF:
    """the Kalman filter as specified by the contracts proved under C01 and C02
    (callers are checked against these contracts, not against the filter's body)"""

    def __init__(self, W, x, P, F=None, Q=None, H=None, R=None, B=None):
        self.W, self.x, self.P, self.F, self.Q, self.H, self.R, self.B = W, x, P, F, Q, H, R, B

    def predict(self, u=None, F=None, Q=None, B=None):
        F = self.F if F is None else F
        Q = self.Q if Q is None else Q
        B = self.B if B is None else B
        self.x = F @ self.x
        if u is not None and B is not None:
            self.x = self.x + B @ u
        self.P = F @ self.P @ F.T + Q
        self.tame(self.P, self.x)

    def tame(self, *ms):
        """concrete runs: numbers so large that rounding hides the answer are outside the test"""
        if not self.W.symbolic:
            self.W.assume(all(np.all(np.abs(m) < 1e6) for m in ms))

    def update(self, z, R=None, H=None):
        if z is None:
            return
        W = self.W
        R = self.R if R is None else R
        if W.is_scalar(R):
            R = R * W.eye(z.shape[0])
        H = self.H if H is None else H
        self.y = z - H @ self.x
        self.S = H @ self.P @ H.T + R
        if not W.symbolic:
            W.assume(np.linalg.cond(np.atleast_2d(self.S)) < 1e7)
        self.SI = W.inv(self.S)
        self.K = self.P @ H.T @ self.SI
        self.x = self.x + self.K @ self.y
        self.P = self.P - self.K @ H @ self.P


class FnPoints:
    """sigma points as an unknown function of (mean, covariance): equal arguments give
    equal points, nothing else is assumed"""

    def __init__(self, W, n):
        self.W, self.n = W, n
        self.N = W.dim('N', lo=2, hi=7)
        W.c.symones = True
        self.Wm, self.Wc = W.vec('Wm', self.N, 1), W.vec('Wc', self.N, 1)
        self.calls = []

    def __deepcopy__(self, memo):
        return self

    def num_sigmas(self):
        return self.N

    def sigma_points(self, x, P):
        from vf.induct import unchanged, frozen
        for a, b, S in self.calls:
            if unchanged(x, a) and unchanged(P, b):
                return self.W.snap(S)
        S = self.W.mat('SP%d' % len(self.calls), self.N, self.n)
        self.calls.append((frozen(x), frozen(P), self.W.snap(S)))
        return S


def ukf_points(W, n):
    if W.symbolic:
        return FnPoints(W, n)
    M = W.mods.kalman
    if W.choice('points', ['merwe', 'julier']) == 'merwe':
        return M.MerweScaledSigmaPoints(n, alpha=W.scal('al', lo=.3, hi=1), beta=W.scal('be', lo=0, hi=3), kappa=W.scal('ka', lo=.2, hi=2))
    return M.JulierSigmaPoints(n, W.scal('ka', lo=.2, hi=2))


def other_ut(W):
    """another unscented transform: twice the covariance of the usual one"""
    std = W.mods.kalman.unscented_transform

    def ut(*a, **k):
        x, P = std(*a, **k)
        return x, 2 * P
    return ut
