from seeds3 import PRE, KF, UKF, FLS
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k))


seed('c17_lag_start', 'C17', [(FLS, '''        if k >= N:
            PS = P.copy() # smoothed P for step i
            for i in range(N):
                K = dot(PS, HTSI)  # smoothed gain
                PS = dot(PS, F_LH) # smoothed covariance

                si = k-i
                self.xSmooth[si]''', '''        if k > N:
            PS = P.copy() # smoothed P for step i
            for i in range(N):
                K = dot(PS, HTSI)  # smoothed gain
                PS = dot(PS, F_LH) # smoothed covariance

                si = k-i
                self.xSmooth[si]''')],
     'comparing the recursive with the batch form at the first epoch at which the lag is full', 'recursive and batch smoothing differ in the estimates around epoch N', '''
from filterpy.kalman import FixedLagSmoother as F
def mk():
    s = F(2, 1, N=3)
    s.F, s.H, s.Q, s.R, s.P = np.array([[1., .5], [0, 1]]), np.array([[1., 0]]), np.eye(2) * .1, np.eye(1), np.eye(2) * 4
    return s
zs = rng.randn(9)
a, b = mk(), mk()
for z in zs:
    a.smooth(z)
xs, _ = b.smooth_batch([np.array([[z]]) for z in zs], 3)
close(np.array(a.xSmooth).reshape(9, 2), np.array(xs).reshape(9, 2))
''')

seed('c05_imm_post_alias', 'C05', [('filterpy/kalman/IMM.py', '''        self._compute_state_estimate()
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()

    def predict''', '''        self._compute_state_estimate()
        self.x_post = self.x
        self.P_post = self.P.copy()

    def predict''')],
     'editing the estimate of the bank in place after an update', 'the recorded posterior of the bank changes with the estimate', '''
from filterpy.kalman import KalmanFilter, IMMEstimator
k = [KalmanFilter(2, 1), KalmanFilter(2, 1)]
for i in k:
    i.H = np.array([[1., 0]])
b = IMMEstimator(k, [.5, .5], np.array([[.9, .1], [.2, .8]]))
b.predict(), b.update(1.)
r = b.x_post.copy()
b.x[0] += 7
close(b.x_post, r)
''')

seed('c06_ukf_ut_dropped', 'C06', [(UKF, '            self.predict(dt=dt, UT=UT)\n            self.update(z, r, UT=UT)', '            self.predict(dt=dt)\n            self.update(z, r, UT=UT)')],
     'a batch run with a custom unscented transform', 'the custom transform is used for the updates only, so the batch differs from the step-by-step run', '''
from filterpy.kalman import UnscentedKalmanFilter as U, MerweScaledSigmaPoints as S, unscented_transform
def ut(s, Wm, Wc, n=None, m=None, r=None):
    x, P = unscented_transform(s, Wm, Wc, n, m, r)
    return x, P * 1.5
def mk():
    f = U(2, 1, .5, lambda x: x[:1], lambda x, dt: np.array([x[0] + dt * x[1], x[1]]), S(2, .5, 2., 1.))
    return f
f, g = mk(), mk()
zs = [1., 2., 4.]
m, c = f.batch_filter(zs, UT=ut)
for i, z in enumerate(zs):
    g.predict(UT=ut), g.update(z, UT=ut)
    close(m[i], g.x), close(c[i], g.P)
''')

seed('c25_interval_zero_std', 'C25', [('filterpy/stats/stats.py', '''    if std is None:
        std = math.sqrt(var)
    return abs(''', '''    if not std or var != 1:
        std = math.sqrt(var)
    return abs(''')],
     'both a variance and a standard deviation given', 'the variance overrides the given standard deviation', '''
from filterpy.stats import norm_cdf
from scipy.stats import norm
close(norm_cdf((-1., 2.), .3, var=4., std=.5), norm.cdf(2., .3, .5) - norm.cdf(-1., .3, .5))
''')

seed('c21_continuous_four', 'C21', [('filterpy/common/discretization.py', '(dt**7)/252.', '(dt**6)/252.')],
     'four states and a time step other than one', 'the continuous noise matrix is not the integral (wrong power of dt)', '''
from filterpy.common import Q_continuous_white_noise as Q, kinematic_state_transition as K
a, b = 1.5, .7
F = K(3, b)
close(Q(4, a + b), F @ Q(4, a) @ F.T + Q(4, b))
''')

seed('c01_steady_u_zero', 'C01', [(KF, '''        # x = Fx + Bu
        if B is not None and u is not None:
            self.x = dot(self.F, self.x) + dot(B, u)
        else:
            self.x = dot(self.F, self.x)

        # save prior''', '''        # x = Fx + Bu
        if B is not None and u is not None:
            self.x = dot(self.F, self.x) + dot(self.B, u)
        else:
            self.x = dot(self.F, self.x)

        # save prior''')],
     'a steady-state prediction with a control matrix passed to the call that differs from the filter\'s own', 'the control is applied with the wrong matrix', '''
from filterpy.kalman import KalmanFilter
f = KalmanFilter(2, 1, 1)
f.B, B = rng.randn(2, 1), rng.randn(2, 1)
f.F = rng.randn(2, 2)
f.x = rng.randn(2, 1)
x = f.F @ f.x + B * .7
f.predict_steadystate(u=np.array([[.7]]), B=B)
close(f.x, x)
''')
