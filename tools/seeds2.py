SEEDS = []
KF = 'filterpy/kalman/kalman_filter.py'
UKF = 'filterpy/kalman/UKF.py'
FLS = 'filterpy/kalman/fixed_lag_smoother.py'
PRE = 'import warnings; warnings.simplefilter("ignore")\nimport numpy as np\nrng = np.random.RandomState(3)\ndef pd(n):\n    a = rng.randn(n, n)\n    return a @ a.T + np.eye(n)\ndef close(a, b):\n    assert np.allclose(a, b, rtol=1e-8, atol=1e-9), (a, b)\n'


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k))


seed('c06_update_first_Q', 'C06', [(KF, '''                self.predict(u=u, B=B, F=F, Q=Q)
                means_p[i, :] = self.x
                covariances_p[i, :, :] = self.P

                if saver''', '''                self.predict(u=u, B=B, F=F)
                means_p[i, :] = self.x
                covariances_p[i, :, :] = self.P

                if saver''')],
     'batch filtering with update_first and per-epoch process noise', 'the per-epoch Q is dropped in the update-first order', '''
from filterpy.kalman import KalmanFilter
def mk():
    k = KalmanFilter(2, 1)
    k.P = np.diag([3., 2.]); k.F = np.array([[1., .5], [0, 1]]); k.H = np.array([[1., 0]]); k.x = np.array([[1.], [2]])
    return k
zs = [1., 2., 4.]
Qs = [np.eye(2) * q for q in (.1, .5, 2.)]
a, b = mk(), mk()
m, P, mp, Pp = a.batch_filter(zs, Qs=Qs, update_first=True)
for k, z in enumerate(zs):
    b.update(z)
    close(m[k], b.x); close(P[k], b.P)
    b.predict(Q=Qs[k])
    close(mp[k], b.x); close(Pp[k], b.P)
''')

seed('c07_rts_qk', 'C07', [(KF, '''            Pp[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
''', '''            Pp[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k]
''')],
     'per-epoch process noise that is not constant', 'the method pairs the step k -> k+1 with the process noise of epoch k', '''
from filterpy.kalman import KalmanFilter
from filterpy.kalman.kalman_filter import rts_smoother
k = KalmanFilter(2, 1)
F = np.array([[1., .5], [0, 1]])
k.F = F
Xs, Ps = rng.randn(4, 2, 1), np.array([pd(2) for _ in range(4)])
Qs = [np.eye(2) * q for q in (.1, .5, 2., 3.)]
Fs = [F] * 4
a = k.rts_smoother(Xs, Ps, Fs=Fs, Qs=Qs)
x, P = Xs.copy(), Ps.copy()
for i in (2, 1, 0):
    pp = F @ P[i] @ F.T + Qs[i+1]
    K = P[i] @ F.T @ np.linalg.inv(pp)
    x[i] += K @ (x[i+1] - F @ x[i])
    P[i] += K @ (P[i+1] - pp) @ K.T
close(a[0], x); close(a[1], P)
''')

seed('c07_ukf_input_modified', 'C07', [(UKF, '''        # smoother gain
        Ks = zeros((n, dim_x, dim_x))

        num_sigmas = self._num_sigmas

        xs, ps = Xs.copy(), Ps.copy()
''', '''        # smoother gain
        Ks = zeros((n, dim_x, dim_x))

        num_sigmas = self._num_sigmas

        xs, ps = Xs.copy(), Ps[:]
''')],
     'the caller looks at the filtered covariances after smoothing', 'the unscented smoother overwrites the covariances it was given', '''
from filterpy.kalman import UnscentedKalmanFilter, MerweScaledSigmaPoints
F = np.array([[1., .5], [0, 1]])
u = UnscentedKalmanFilter(2, 1, .5, lambda x: x[:1], lambda x, dt: F @ x, MerweScaledSigmaPoints(2, .5, 2., 1.))
u.Q = np.eye(2) * .1
Xs, Ps = u.batch_filter([1., 2., 4., 5.])
w = Ps.copy()
u.rts_smoother(Xs, Ps)
close(Ps, w)
''')

seed('c08_correlated_stale', 'C08', [(KF, """#3#        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None
""", """        self._log_likelihood = None
        self._mahalanobis = None
""")],
     'likelihood read before and after an update_correlated', 'the likelihood of an earlier update is answered after a correlated update', """
from filterpy.kalman import KalmanFilter
k = KalmanFilter(2, 1)
k.H = np.array([[1., 0]]); k.M = np.array([[.1], [0.]])
for z in (1., 5., -3.):
    k.predict(); k.update_correlated(z)
    close(k.likelihood, np.exp(k.log_likelihood))
""")

seed('c08_ekf_cov', 'C08', [('filterpy/kalman/EKF.py', """            self._log_likelihood = logpdf(x=self.y, cov=self.S)
""", """            self._log_likelihood = logpdf(x=self.y, cov=self.S if self.dim_z < 2 else self.R)
""")],
     'an extended filter with more than one measured value', 'the log-likelihood is taken under the measurement noise instead of the innovation covariance', """
from filterpy.kalman import ExtendedKalmanFilter
from scipy.stats import multivariate_normal as mn
e = ExtendedKalmanFilter(3, 2)
e.P = pd(3); e.R = pd(2); e.x = rng.randn(3, 1)
H = rng.randn(2, 3)
e.update(rng.randn(2, 1), lambda x: H, lambda x: H @ x)
close(e.log_likelihood, mn.logpdf(e.y.ravel(), np.zeros(2), e.S))
""")

seed('c17_batch_control', 'C17', [(FLS, '''                x_pre += dot(B, us[k])
''', '''                x_pre += dot(B, us[k - 1])
''')],
     'batch smoothing with control inputs that vary', 'the batch smoother applies the previous control input', '''
from filterpy.kalman import FixedLagSmoother
def mk(N):
    f = FixedLagSmoother(2, 1, N=N)
    f.F = np.array([[1., .5], [0, 1]]); f.H = np.array([[1., .3]]); f.Q = np.eye(2) * .1; f.B = np.array([[.5], [1.]])
    f.x = np.array([[1.], [2]])
    return f
zs = [1., 2., 4., 3., 1., 7.]
us = [np.array([[v]]) for v in (1., 0., -2., 3., 1., .5)]
for N in (1, 2, 3):
    a, b = mk(N), mk(N)
    s, x = a.smooth_batch(zs, N, us)
    for z, u in zip(zs, us):
        b.smooth(z, u)
    close(s, np.array(b.xSmooth))
''')

seed('c17_gain_reuse', 'C17', [(FLS, '''            PS = P.copy() # smoothed P for step i
            for i in range(N):
                K = dot(PS, HTSI)  # smoothed gain
                PS = dot(PS, F_LH) # smoothed covariance
''', '''            PS = P.copy() # smoothed P for step i
            for i in range(N):
                K = dot(PS, HTSI)  # smoothed gain
                PS = dot(P, F_LH) # smoothed covariance
''')],
     'a lag of at least three', 'the recursive smoother does not propagate the cross covariance over the lag', '''
from filterpy.kalman import FixedLagSmoother
def mk(N):
    f = FixedLagSmoother(2, 1, N=N)
    f.F = np.array([[1., .5], [0, 1]]); f.H = np.array([[1., .3]]); f.Q = np.eye(2) * .1
    f.x = np.array([[1.], [2]])
    return f
zs = [1., 2., 4., 3., 1., 7.]
for N in (1, 2, 3, 4):
    a, b = mk(N), mk(N)
    s, x = a.smooth_batch(zs, N)
    for z in zs:
        b.smooth(z)
    close(s, np.array(b.xSmooth))
''')

seed('c19_reset_n', 'C19', [('filterpy/leastsq/least_squares.py', '''        self.n = 0  # nth step in the recursion
        self.x = np.zeros(self._order + 1)
''', '''        self.n = min(getattr(self, 'n', 0), 1) if self._order == 2 else 0  # nth step in the recursion
        self.x = np.zeros(self._order + 1)
''')],
     'reset of an order-2 filter that has been used', 'reset leaves the sample count at one', '''
from filterpy.leastsq import LeastSquaresFilter
f = LeastSquaresFilter(.5, 2, 1.)
g = LeastSquaresFilter(.5, 2, 1.)
for z in (1., 3., 2.):
    f.update(z)
f.reset()
for z in (2., 5., 1., 4.):
    close(f.update(z), g.update(z))
''')

seed('c21_block_noise_scale', 'C21', [('filterpy/common/discretization.py', '''    return order_by_derivative(array(Q), dim, block_size) * spectral_density
''', '''    return order_by_derivative(array(Q) * spectral_density, dim, block_size) * spectral_density
''')],
     'derivative-interleaved continuous white noise with a spectral density other than one', 'the density is applied twice', '''
from filterpy.common import Q_continuous_white_noise
Q = Q_continuous_white_noise(3, .5, 3., block_size=2, order_by_dim=False)
close(Q, np.kron(Q_continuous_white_noise(3, .5, 3.), np.eye(2)))
''')

seed('c22_van_loan_G', 'C22', [('filterpy/common/discretization.py', """    A[0:n,   n:2*n] = G.dot(G.T).dot(dt)
""", """    A[0:n,   n:2*n] = G.dot(G.T).dot(dt) if F.shape[1] < 3 else G.T.dot(G).dot(dt)
""")],
     'three or more states and a noise input that is not symmetric', 'the noise covariance is G\'G instead of GG\'', """
from filterpy.common import linear_ode_discretation, van_loan_discretization
F = rng.randn(3, 3); G = rng.randn(3, 3)
a, q = linear_ode_discretation(F, G, np.eye(3), .3)
s, w = van_loan_discretization(F, G, .3)
close(a, s); close(q, w)
""")

seed('c22_rk4_time', 'C22', [('filterpy/common/helpers.py', """    k3 = dx * f(y + 0.5 * k2, x + 0.5 * dx)
""", """    k3 = dx * f(y + 0.5 * k2, x)
""")],
     'a derivative that depends on the independent variable', 'the third slope is taken at the start of the step', """
from filterpy.common import runge_kutta4
y = runge_kutta4(0., 0., .5, lambda y, x: 5 * x**4)
k = [0., 5 * .25**4, 5 * .25**4, 5 * .5**4]
close(y, .5 * (k[0] + 2 * k[1] + 2 * k[2] + k[3]) / 6)
""")

seed('c23_residual_floor', 'C23', [('filterpy/monte_carlo/resampling.py', '''    num_copies = (np.floor(N*np.asarray(weights))).astype(int)
''', '''    num_copies = (np.floor(N*np.asarray(weights) + 1e-3)).astype(int)
''')],
     'weights whose scaled value lies just below an integer', 'a particle just short of a whole copy gets one, and the remainder becomes negative', '''
from filterpy.monte_carlo import residual_resample
import filterpy.monte_carlo.resampling as r
w = np.array([.25 - 1e-4, .25 + 1e-4, .25 - 1e-4, .25 + 1e-4])
for u in (.1, .4, .6, .9):
    r.random = lambda n, u=u: np.full(n, u)
    i = residual_resample(w)
    c = np.bincount(i, minlength=4)
    # two particles are certain, the other two slots are drawn among the fractional parts
    f = 4 * w - np.floor(4 * w)
    rest = c - np.floor(4 * w).astype(int)
    want = np.searchsorted(np.cumsum(f / f.sum()), u)
    assert (rest >= 0).all() and rest[want] == 2, (u, c)
''')

seed('c23_systematic_shift', 'C23', [('filterpy/monte_carlo/resampling.py', '''#0#    positions = (random() + np.arange(N)) / N
''', '''    positions = ((random() + np.arange(N)) / N) ** (1. + 1e-4)
''')],
     'enough particles for a small distortion of the comb to move an index', 'the comb of systematic resampling is not evenly spaced', '''
from filterpy.monte_carlo import systematic_resample
import filterpy.monte_carlo.resampling as r
N = 50
w = np.full(N, 1. / N)
r.random = lambda *a: 1e-4
assert (systematic_resample(w) == np.arange(N)).all()
''')

seed('c24_shift_cval', 'C24', [('filterpy/discrete_bayes/discrete_bayes.py', '''    return convolve(shift(pdf, offset, cval=cval), kernel,
''', '''    return convolve(shift(pdf, offset), kernel,
''')],
     'constant mode with a non-zero offset and a non-zero cval', 'cells shifted in are filled with zero instead of cval', '''
from filterpy.discrete_bayes import predict
p = predict(np.array([.2, .3, .5, 0., 0.]), 1, np.array([0., 1., 0.]), mode='constant', cval=.7)
close(p, [.7, .2, .3, .5, 0.])
''')

seed('c24_update_inplace', 'C24', [('filterpy/discrete_bayes/discrete_bayes.py', '''    posterior = prior * likelihood
''', '''    posterior = prior
    posterior *= likelihood
''')],
     'the caller keeps using the prior after the update', 'the prior array is overwritten by the posterior', '''
from filterpy.discrete_bayes import update
p = np.array([.2, .3, .5])
w = p.copy()
update(np.array([.9, .1, .4]), p)
close(p, w)
''')

seed('c25_multiply_order', 'C25', [('filterpy/stats/stats.py', '''    M3 = (np.dot(C2, sum_inv).dot(M1) +
''', '''    M3 = (np.dot(sum_inv, C2).dot(M1) +
''')],
     'two covariances that do not commute', 'the product mean uses the factors in the wrong order', '''
from filterpy.stats import multivariate_multiply
c1, c2 = pd(2), pd(2)
m1, m2 = rng.randn(2), rng.randn(2)
m, c = multivariate_multiply(m1, c1, m2, c2)
i1, i2 = np.linalg.inv(c1), np.linalg.inv(c2)
close(c, np.linalg.inv(i1 + i2)); close(m, np.linalg.inv(i1 + i2) @ (i1 @ m1 + i2 @ m2))
''')

seed('c26_copy_states_shallow', 'C26', [('filterpy/common/helpers.py', '''            dst.__dict__[key] = copy.deepcopy(val)
''', '''            dst.__dict__[key] = copy.copy(val)
''')],
     'a filter attribute holding a list of arrays, edited after the copy', 'copied states share their nested arrays with the source', '''
from filterpy.common import copy_states
class A(object):
    pass
a, b = A(), A()
a.h = [np.zeros(2), np.zeros(2)]
b.h = [np.ones(2)]
copy_states(b, a)
a.h[0][0] = 7
close(b.h[0], [0, 0])
''')

seed('c26_saver_reuse', 'C26', [('filterpy/common/helpers.py', '''        v = copy.deepcopy(kf.__dict__)

''', '''        v = {}
        for key, val in kf.__dict__.items():
            last = self._DL[key][-1] if self._DL.get(key) else None
            if isinstance(val, np.ndarray) and isinstance(last, np.ndarray) and np.array_equal(val, last):
                v[key] = last
            else:
                v[key] = copy.copy(val) if isinstance(val, list) else copy.deepcopy(val)

''')],
     'a list-valued attribute whose elements are edited in place between saves', 'recorded lists share their elements with the filter', '''
from filterpy.common import Saver
from filterpy.kalman import FixedLagSmoother
class A(object):
    pass
a = A(); a.hist = [np.zeros(2)]; a.x = np.zeros(2)
s = Saver(a)
s.save()
a.hist[0][0] = 5.
s.save()
close(s.hist[0][0], [0, 0]); close(s.hist[1][0], [5, 0])
''')

seed('c27_reshape_square', 'C27', [('filterpy/common/helpers.py', '''    z = np.atleast_2d(z)
    if z.shape[1] == dim_z:
        z = z.T
''', '''    z = np.atleast_2d(z)
    if z.shape[1] == dim_z:
        z = z.T
    if z.shape[0] > dim_z and dim_z > 1:
        z = z[:dim_z]
''')],
     'a multi-valued measurement with too many values as a column', 'surplus values are dropped instead of raising ValueError', '''
from filterpy.kalman import KalmanFilter
k = KalmanFilter(2, 2)
k.H = np.eye(2)
try:
    k.update(np.array([[1.], [2.], [3.]]))
except ValueError:
    pass
else:
    assert False, 'accepted'
''')

seed('c27_outer_product', 'C27', [('filterpy/common/helpers.py', """    outer = np.einsum("ij,ik->ijk", A, B)
""", """    outer = np.einsum("ij,ik->ijk", A, B if A.shape == B.shape else B[:, :A.shape[1]])
""")],
     'a second array with more columns than the first', 'surplus columns of the second array are dropped', """
from filterpy.common import outer_product_sum
A, B = rng.randn(4, 2), rng.randn(4, 3)
r = outer_product_sum(A, B)
assert r.shape == (2, 3), r.shape
close(r, A.T @ B)
""")
