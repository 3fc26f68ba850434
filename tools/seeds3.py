SEEDS = []
KF = 'filterpy/kalman/kalman_filter.py'
UKF = 'filterpy/kalman/UKF.py'
FLS = 'filterpy/kalman/fixed_lag_smoother.py'
PRE = 'import warnings; warnings.simplefilter("ignore")\nimport numpy as np\nrng = np.random.RandomState(3)\ndef pd(n):\n    a = rng.randn(n, n)\n    return a @ a.T + np.eye(n)\ndef close(a, b):\n    assert np.allclose(a, b, rtol=1e-8, atol=1e-9), (a, b)\n'


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k))


seed('c16_mean_before_noise', 'C16', [('filterpy/kalman/ensemble_kalman_filter.py', '''        e = multivariate_normal(self._mean, self.Q, N)
        self.sigmas += e

        self.x = np.mean(self.sigmas, axis=0)
''', '''        self.x = np.mean(self.sigmas, axis=0)

        e = multivariate_normal(self._mean, self.Q, N)
        self.sigmas += e
''')],
     'process noise whose draws do not average to zero', 'the predicted mean is that of the members before the noise was added, so mean and covariance are not those of the ensemble', '''
from filterpy.kalman import EnsembleKalmanFilter as E
np.random.seed(2)
f = E(np.array([1., 2.]), pd(2), 1, .5, 6, hx=lambda x: x[:1], fx=lambda x, dt: x * 1.1)
f.Q = pd(2)
f.predict()
close(f.x, np.mean(f.sigmas, axis=0))
''')

seed('c19_errors_three_samples', 'C19', [('filterpy/leastsq/least_squares.py', '            if n >= 3:', '            if n > 3:')],
     'order 2 and exactly three measurements', 'errors() reports no error at the first epoch at which it is defined', '''
from filterpy.leastsq import LeastSquaresFilter
f = LeastSquaresFilter(.5, 2, 1.)
for z in (1., 2., 4.):
    f.update(z)
e, s = f.errors()
close(e[2], np.sqrt(6.) * 4)
''')

seed('c20_p33_dt', 'C20', [('filterpy/memory/fading_memory.py', '(1+beta)**5 * dt**4)', '(1+beta)**5 * dt**2)')],
     'order 2, time step other than one', 'the reported variance of the second derivative scales with the wrong power of dt', '''
from filterpy.memory import FadingMemoryFilter
a = FadingMemoryFilter([0., 0., 0.], 1., 2, .6)
b = FadingMemoryFilter([0., 0., 0.], .5, 2, .6)
close(b.P[2], a.P[2] * 16)
''')

seed('c12_simplex_row', 'C12', [('filterpy/kalman/sigma_points.py', '            row[0, -1] = -d / np.sqrt(lambda_ * d * (d + 1))', '            row[0, -1] = -min(d, 7) / np.sqrt(lambda_ * d * (d + 1))')],
     'simplex points in eight or more dimensions', 'the last vertex is too close: mean and covariance of the points are not x and P', '''
from filterpy.kalman import SimplexSigmaPoints as S
n = 9
x, P = rng.randn(n), pd(n)
s = S(n)
p = s.sigma_points(x, P)
close(s.Wm @ p, x)
''')

seed('c15_unnormalised', 'C15', [('filterpy/kalman/mmae.py', '        self.p /= sum(self.p) # normalize', '''        total = sum(self.p)
        if total > 1.e-15:
            self.p /= total # normalize''')],
     'a measurement all models find very unlikely', 'the probabilities no longer sum to one, the estimate collapses towards zero', '''
from filterpy.kalman import KalmanFilter, MMAEFilterBank
def f(q):
    k = KalmanFilter(2, 1); k.F = np.array([[1., 1.], [0, 1]]); k.H = np.array([[1., 0]]); k.Q = q * np.eye(2); k.R *= .1
    return k
b = MMAEFilterBank([f(.01), f(.1)], [.5, .5], 2)
b.predict(); b.update(np.array([[13.]]))
close(sum(b.p), 1.)
''')

seed('c10_same_F_object', 'C10', [('filterpy/kalman/information_filter.py', '''        self._F = value
        self._F_inv = self.inv(self._F)
''', '''        if value is not self._F:
            self._F_inv = self.inv(value)
        self._F = value
''')],
     'the transition matrix changed in place and assigned again', 'the cached inverse stays that of the old matrix', '''
from filterpy.kalman import InformationFilter, KalmanFilter
f, k = InformationFilter(2, 1), KalmanFilter(2, 1)
F = np.array([[1., .5], [0., 1.]])
f.F = F; f.predict()
k.F = F.copy(); k.predict()
F[0, 1] = 2.
f.F = F; f.predict()
k.F = F.copy(); k.predict()
close(np.linalg.inv(f.P_inv), k.P)
''')

seed('c18_gain_persists', 'C18', [('filterpy/gh/gh_filter.py', '''        if h is None:
            h = self.h

        #prediction step
        self.dx_prediction = self.dx
        self.x_prediction  = self.x + (self.dx*self.dt)
''', '''        if h is None:
            h = self.h
        elif g == self.g:
            self.h = h

        #prediction step
        self.dx_prediction = self.dx
        self.x_prediction  = self.x + (self.dx*self.dt)
''')],
     'h overridden without g for one call, then a call without overrides', 'the per-call gain stays in force', '''
from filterpy.gh import GHFilter
f = GHFilter(0., 1., 1., .5, .4)
f.update(1., h=.9)
x, d = f.x, f.dx
f.update(4.)
close(f.dx, d + .4 * (4. - (x + d)))
''')

seed('c21_swap_blocks', 'C21', [('filterpy/common/discretization.py', '        ix, iy = (i // dim) * block_size, (i % dim) * block_size', '        ix, iy = (i % dim) * block_size, (i // dim) * block_size')],
     'a matrix that is not symmetric', 'rows and columns of the rearranged matrix are exchanged', '''
from filterpy.common.discretization import order_by_derivative
M = np.array([[1., 2.], [3., 4.]])
close(order_by_derivative(M, 2, 2), np.kron(M, np.eye(2)))
''')

seed('c25_points_normed_list', 'C25', [('filterpy/stats/stats.py', '        pdf = pdf / sum(pdf)', '        pdf = pdf / max(sum(pdf), 1.)')],
     'evaluation points so far apart, or so wide a Gaussian, that the densities sum to less than one', 'the normalised densities do not sum to one', '''
from filterpy.stats import gaussian
close(sum(gaussian(np.array([1., 2., 3.]), 2., 100.)), 1.)
close(sum(gaussian(np.linspace(-5, 5, 100), 0., 1.)), 1.)
''')

seed('c03_ekf_asymmetric', 'C03', [('filterpy/kalman/EKF.py', '''        I_KH = self._I - dot(self.K, H)
        self.P = dot(I_KH, self.P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)

        # set to None''', '''        I_KH = self._I - dot(self.K, H)
        self.P = 2 * dot(I_KH, self.P) - dot(I_KH, self.P).dot(I_KH.T) - dot(self.K, R).dot(self.K.T) + 0 * R[0, 0]
        self.P[-1, 0] = self.P[-1, 0] if self.dim_z == 1 else 0.

        # set to None''')],
     'extended filter with more than one measurement', 'the covariance is not symmetric any more', '''
from filterpy.kalman import ExtendedKalmanFilter as E
f = E(3, 2)
f.P = pd(3); f.R = pd(2)
A = rng.randn(2, 3)
f.update(rng.randn(2, 1), lambda x: A, lambda x: A @ x)
close(f.P, f.P.T)
''')
