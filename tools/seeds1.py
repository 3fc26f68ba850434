SEEDS = []
KF = 'filterpy/kalman/kalman_filter.py'
PRE = 'import warnings; warnings.simplefilter("ignore")\nimport numpy as np\nrng = np.random.RandomState(3)\ndef pd(n):\n    a = rng.randn(n, n)\n    return a @ a.T + np.eye(n)\ndef close(a, b):\n    assert np.allclose(a, b, rtol=1e-8, atol=1e-9), (a, b)\n'


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k))


seed('c01_get_prediction_alpha', 'C01', [(KF, '''        P = self._alpha_sq * dot(dot(F, self.P), F.T) + Q
''', '''        P = self._alpha_sq * (dot(dot(F, self.P), F.T) + Q)
''')],
     'alpha > 1 and the non-mutating prediction query', 'get_prediction inflates the process noise as well as F P F\'', '''
from filterpy.kalman import KalmanFilter
k = KalmanFilter(2, 1)
k.P = pd(2); k.Q = pd(2); k.F = rng.randn(2, 2); k.alpha = 1.3
x, P = k.get_prediction()
k.predict()
close(P, k.P)
''')

seed('c01_fading_predict_symm', 'C01', [('filterpy/kalman/fading_memory.py', '''        self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
''', '''        self.P = self.alpha_sq * (dot(self.F, self.P).dot(self.F.T) + self.Q)
''')],
     'alpha > 1 with non-zero process noise', 'fading filter predict scales Q by alpha squared', '''
from filterpy.kalman import FadingKalmanFilter
k = FadingKalmanFilter(1.4, 2, 1)
k.P = pd(2); k.Q = pd(2); k.F = rng.randn(2, 2)
w = 1.4**2 * k.F @ k.P @ k.F.T + k.Q
k.predict()
close(k.P, w)
''')

seed('c02_ekf_R_override', 'C02', [('filterpy/kalman/EKF.py', '''        self.P = dot(I_KH, self.P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)

        # set to None to force recompute
        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None

        # save measurement''', '''        self.P = dot(I_KH, self.P).dot(I_KH.T) + dot(self.K, self.R).dot(self.K.T)

        # set to None to force recompute
        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None

        # save measurement''')],
     'an EKF update with a per-call R different from the filter\'s R', 'posterior covariance uses the stored R in the Joseph term', '''
from filterpy.kalman import ExtendedKalmanFilter
k = ExtendedKalmanFilter(2, 1)
H = np.array([[1., .3]])
k.P = pd(2); P = k.P.copy(); k.R = np.array([[2.]])
k.update(np.array([[1.]]), lambda x: H, lambda x: H @ x, R=np.array([[.5]]))
S = H @ P @ H.T + .5
close(k.P, P - P @ H.T @ np.linalg.inv(S) @ H @ P)
''')

seed('c02_get_update_joseph', 'C02', [(KF, '#1#P = dot(dot(I_KH, P), I_KH.T) + dot(dot(K, R), K.T)', 'P = dot(I_KH, P) - dot(dot(K, R), K.T) + dot(dot(K, S), K.T)')],
     'the update query', 'x', '''
''')
SEEDS.pop()

seed('c02_get_update_x_prior', 'C02', [(KF, '''        P = self.P
        x = self.x

        # error (residual) between measurement and prediction''', '''        P = self.P
        x = self.x_prior

        # error (residual) between measurement and prediction''')],
     'get_update called when the state is no longer the recorded prior (after an update or an assignment to x)', 'the update query answers from the recorded prior instead of the current state', '''
from filterpy.kalman import KalmanFilter
k = KalmanFilter(2, 1)
k.H = np.array([[1., .4]])
k.predict(); k.update(2.)
x, P = k.get_update(1.)
k.update(1.)
close(x, k.x); close(P, k.P)
''')

seed('c03_procedural_rts_sym', 'C03', [(KF, '#1#P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)', 'P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k])')],
     'procedural smoother with at least two states', 'smoothed covariances are not symmetric', '''
''')
SEEDS.pop()

seed('c03_rts_transpose', 'C03', [(KF, 'P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)', 'P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k])')],
     'procedural smoother with at least two states', 'smoothed covariances are not symmetric and can exceed the filtered ones', '''
from filterpy.kalman import rts_smoother
n = 5
F = rng.randn(2, 2); Q = pd(2)
Xs = rng.randn(n, 2, 1); Ps = np.array([pd(2) for _ in range(n)])
x, P, K, Pp = rts_smoother(Xs, Ps, [F]*n, [Q]*n)
for p in P:
    close(p, p.T)
''')

seed('c04_ukf_none_post', 'C04', [('filterpy/kalman/UKF.py', '''            self.z = np.array([[None]*self._dim_z]).T
            self.x_post = self.x.copy()
            self.P_post = self.P.copy()
            return''', '''            self.z = np.array([[None]*self._dim_z]).T
            self.x_post = self.x.copy()
            return''')],
     'a missing measurement after a predict that changed the covariance', 'the covariance of a missed epoch is not recorded as the posterior', '''
from filterpy.kalman import UnscentedKalmanFilter as U, MerweScaledSigmaPoints as M
u = U(2, 1, .1, lambda x: x[:1], lambda x, dt: np.array([x[0]+dt*x[1], x[1]]), M(2, .5, 2., 1.))
u.predict(); u.update([1.]); u.predict(); u.update(None)
close(u.P_post, u.P); close(u.x_post, u.x)
''')

seed('c04_cubature_none_x', 'C04', [('filterpy/kalman/ensemble_kalman_filter.py', '''            self.z = array([[None]*self.dim_z]).T
            self.x_post = self.x.copy()
            self.P_post = self.P.copy()
            return''', '''            self.x_post = self.x.copy()
            self.P_post = self.P.copy()
            return''')],
     'a missing measurement following a real one', 'the ensemble filter keeps reporting the old measurement', '''
from filterpy.kalman import EnsembleKalmanFilter as E
np.random.seed(1)
e = E(np.zeros(2), np.eye(2), 1, .1, 10, lambda x: x[:1], lambda x, dt: x)
e.predict(); e.update(np.array([1.])); e.predict(); e.update(None)
assert all(v is None for v in np.ravel(e.z)), e.z
''')

seed('c05_ekf_z_alias', 'C05', [('filterpy/kalman/fading_memory.py', 'self.z = deepcopy(z)', 'self.z = z')],
     'the caller reuses its measurement buffer after the update', 'the recorded measurement is the caller\'s array', '''
from filterpy.kalman import FadingKalmanFilter
k = FadingKalmanFilter(1.1, 2, 1)
k.H = np.array([[1., 0.]])
z = np.array([[3.]])
k.update(z)
z[0, 0] = 99.
assert k.z[0, 0] == 3., k.z
''')

seed('c05_ekf_prior_alias', 'C05', [('filterpy/kalman/EKF.py', '''        self.x_prior = np.copy(self.x)
        self.P_prior = np.copy(self.P)

    @property''', '''        self.x_prior = np.copy(self.x)
        self.P_prior = self.P

    @property''')],
     'an in-place edit of P after predict', 'the recorded prior covariance is the live covariance array', '''
from filterpy.kalman import ExtendedKalmanFilter
k = ExtendedKalmanFilter(2, 1)
k.predict()
p = k.P_prior.copy()
k.P *= 10.
close(k.P_prior, p)
''')

seed('c09_R_factor', 'C09', [('filterpy/kalman/square_root.py', 'self._R1_2 = cholesky(self._R, lower=True)', 'self._R1_2 = cholesky(self._R, lower=False)')],
     'a measurement noise matrix that is not diagonal', 'R reads back as U U\' instead of the value set, and updates use it', '''
from filterpy.kalman import SquareRootKalmanFilter
k = SquareRootKalmanFilter(2, 2)
R = np.array([[2., .7], [.7, 1.]])
k.R = R
close(k.R, R)
''')

seed('c09_M_stale', 'C09', [('filterpy/kalman/square_root.py', 'M[0:dim_z, 0:dim_z] = R2.T', 'M[0:dim_z, 0:dim_z] = R2')],
     'a non-diagonal measurement noise factor', 'update uses L L\' transposed: the innovation covariance has R replaced by L\'L', '''
from filterpy.kalman import SquareRootKalmanFilter
k = SquareRootKalmanFilter(2, 2)
R = np.array([[2., .7], [.7, 1.]])
k.R = R; k.H = np.eye(2)
P = k.P.copy()
k.update(np.array([[1.], [2.]]))
close(k.S, P + R)
''')

seed('c10_info_post', 'C10', [('filterpy/kalman/information_filter.py', '''        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_inv_post = self.P_inv.copy()''', '''        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_inv_post = P_inv.copy()''')],
     'reading the recorded posterior information matrix', 'P_inv_post records the prior information matrix', '''
from filterpy.kalman import InformationFilter
k = InformationFilter(2, 1)
k.F = np.eye(2); k.H = np.array([[1., 0.]])
k.predict(); k.update(1.)
close(k.P_inv_post, k.P_inv)
''')

seed('c11_sequential_R_block', 'C11', [(KF, 'R_i = self.R[start:stop, start:stop]', 'R_i = self.R[:length, :length]')],
     'a second block (start > 0) whose noise differs from the first block\'s', 'every block uses the leading block of R', '''
from filterpy.kalman import KalmanFilter
k = KalmanFilter(2, 2)
k.H = rng.randn(2, 2); k.R = np.diag([1., 9.]); k.P = pd(2)
j = KalmanFilter(2, 2)
j.H, j.R, j.P = k.H.copy(), k.R.copy(), k.P.copy()
k.update_sequential(0, 1.); k.update_sequential(1, 2.)
j.update(np.array([[1.], [2.]]))
close(k.x, j.x); close(k.P, j.P)
''')

seed('c11_correlated_gain', 'C11', [(KF, 'self.P = self.P - dot(self.K, dot(H, self.P) + self.M.T)', 'self.P = self.P - dot(self.K, dot(H, self.P))')],
     'update_correlated with a non-zero cross covariance M', 'posterior covariance ignores the cross covariance', '''
from filterpy.kalman import KalmanFilter
k = KalmanFilter(2, 1)
k.H = np.array([[1., .5]]); k.M = np.array([[.2], [.1]]); k.P = pd(2)
P = k.P.copy(); C = P @ k.H.T + k.M; S = k.H @ P @ k.H.T + k.H @ k.M + k.M.T @ k.H.T + k.R
k.update_correlated(1.)
close(k.P, P - C @ np.linalg.inv(S) @ C.T)
''')

SP = 'filterpy/kalman/sigma_points.py'
seed('c12_merwe_subtract', 'C12', [(SP, '#0#sigmas[n+k+1] = self.subtract(x, U[k])', 'sigmas[n+k+1] = x - U[k]')],
     'a custom subtraction function', 'half of the Merwe points ignore the custom subtraction', '''
from filterpy.kalman import MerweScaledSigmaPoints as M
calls = []
def sub(a, b):
    calls.append(1)
    return np.subtract(a, b)
M(2, .5, 2., 1., subtract=sub).sigma_points(np.zeros(2), np.eye(2))
def wrap(a, b):
    return np.mod(np.subtract(a, b), 4.)
s = M(2, .5, 2., 1., subtract=wrap).sigma_points(np.zeros(2), np.eye(2) * 4)
assert (s >= 0).all(), s
''')

seed('c12_julier_kappa', 'C12', [(SP, '''        sigmas = np.zeros((2*n+1, n))

        # implements U'*U = (n+kappa)*P.''', '''        sigmas = np.zeros((2*n+1, n))

        # implements U'*U = (n+kappa)*P. ''')],
     'x', 'x', '')
SEEDS.pop()

seed('c13_cross_residual', 'C13', [('filterpy/kalman/UKF.py', 'dx = self.residual_x(sigmas_f[i], x)', 'dx = np.subtract(sigmas_f[i], x)')],
     'a custom state residual (e.g. angles)', 'the cross covariance ignores the custom state residual', '''
from filterpy.kalman import UnscentedKalmanFilter as U, MerweScaledSigmaPoints as M
def res(a, b):
    y = a - b
    return 2*np.sin(y)
u = U(1, 1, .1, lambda x: x, lambda x, dt: x, M(1, 1., 2., 2.), residual_x=res)
sf = np.array([[0.], [1.], [2.]]); sh = np.array([[0.], [1.], [-1.]])
w = sum(u.Wc[i]*np.outer(res(sf[i], np.array([.5])), sh[i]) for i in range(3))
close(u.cross_variance(np.array([.5]), np.zeros(1), sf, sh), w)
''')

seed('c13_process_dt', 'C13', [('filterpy/kalman/UKF.py', 'self.compute_process_sigmas(dt, fx, **fx_args)', 'self.compute_process_sigmas(self._dt, fx, **fx_args)')],
     'predict with a per-call time step', 'the per-call dt is ignored', '''
from filterpy.kalman import UnscentedKalmanFilter as U, MerweScaledSigmaPoints as M
u = U(2, 1, .1, lambda x: x[:1], lambda x, dt: np.array([x[0]+dt*x[1], x[1]]), M(2, .5, 2., 1.))
u.x = np.array([0., 1.])
u.predict(dt=5.)
close(u.x[0], 5.)
''')

seed('c14_predict_spread', 'C14', [('filterpy/kalman/IMM.py', '''                y = kf.x - x
                P += wj''', '''                y = kf.x - self.x
                P += wj''')],
     'mixing probabilities different from the mode probabilities', 'mixed covariances use the spread about the overall mean', '''
from filterpy.kalman import KalmanFilter, IMMEstimator
fs = []
for i in range(2):
    k = KalmanFilter(2, 1)
    k.x = rng.randn(2, 1)*3; k.P = pd(2); k.H = np.array([[1., 0.]]); k.Q = np.zeros((2, 2))
    fs.append(k)
m = IMMEstimator(fs, [.7, .3], np.array([[.9, .1], [.4, .6]]))
w = m.omega.T
X = [f.x.copy() for f in fs]; PP = [f.P.copy() for f in fs]
m.predict()
for j in range(2):
    xm = sum(w[j, i]*X[i] for i in range(2))
    P = sum(w[j, i]*(PP[i] + (X[i]-xm) @ (X[i]-xm).T) for i in range(2))
    close(fs[j].P, P)
''')

seed('c14_prior_before', 'C14', [('filterpy/kalman/IMM.py', 'self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]', 'self.omega[i, j] = (self.M[j, i] * self.mu[i]) / self.cbar[j]')],
     'a transition matrix that is not symmetric', 'mixing probabilities use the transposed transition matrix', '''
from filterpy.kalman import KalmanFilter, IMMEstimator
fs = [KalmanFilter(2, 1) for i in range(2)]
m = IMMEstimator(fs, [.7, .3], np.array([[.9, .1], [.4, .6]]))
close(m.omega.sum(axis=0), 1.)
''')

seed('c15_H_dropped', 'C15', [('filterpy/kalman/mmae.py', 'f.update(z, R, H)', 'f.update(z, R)')],
     'update with a per-call H (or a bank-level H)', 'the override is not passed to the filters', '''
from filterpy.kalman import KalmanFilter, MMAEFilterBank
fs = [KalmanFilter(2, 1) for i in range(2)]
for i, f in enumerate(fs):
    f.H = np.array([[1., 0.]])
    f.R *= (i + 1)
b = MMAEFilterBank(fs, [.5, .5], 2)
b.update(1., H=np.array([[0., 1.]]))
close(fs[0].x[0], 0.)
''')

seed('c16_R_override_noise', 'C16', [('filterpy/kalman/ensemble_kalman_filter.py', 'e_r = multivariate_normal(self._mean_z, R, N)', 'e_r = multivariate_normal(self._mean_z, self.R, N)')],
     'a per-call measurement noise override', 'the members are perturbed with the stored noise', '''
from filterpy.kalman import EnsembleKalmanFilter as E
np.random.seed(1)
e = E(np.zeros(2), np.eye(2), 1, .1, 50, lambda x: x[:1], lambda x, dt: x)
e.predict()
e.R = np.array([[1e-12]])
s = e.sigmas.copy()
e.update(np.array([1.]), R=4.)
r = (e.sigmas - s) - (e.K @ (1. - s[:, :1].T)).T
assert np.abs(r).max() > 1e-3, np.abs(r).max()
''')

seed('c18_gh_zero_gain', 'C18', [('filterpy/gh/gh_filter.py', '''#0#        if h is None:
            h = self.h

''', '''        h = h or self.h

''')],
     'a per-call gain of exactly zero', 'a zero override is replaced by the stored gain', '''
from filterpy.gh import GHFilter, GHKFilter
for f, a in ((GHFilter(0., 1., 1., .5, .4), {}), (GHKFilter(0., 1., 0., 1., .5, .4, .1), {'k': 0.})):
    f.update(3., g=0., h=0., **a)
    close(f.dx, 1.)
''')

seed('c19_den_order2', 'C19', [('filterpy/leastsq/least_squares.py', 'x[1] += K[1]*y + x[2]*dt', 'x[1] += K[1]*y + self.x[2]*self.dt*(n > 1)')],
     'x', 'x', '')
SEEDS.pop()

seed('c19_reset_y', 'C19', [('filterpy/leastsq/least_squares.py', '''        self.x = np.zeros(self._order + 1)
        self.K = np.zeros(self._order + 1)
        self.y = 0''', '''        self.x = np.zeros(self._order + 1) if self.n == 0 else self.x
        self.K = np.zeros(self._order + 1)
        self.y = 0''')],
     'x', 'x', '')
SEEDS.pop()


seed('c20_order2_dt', 'C20', [('filterpy/memory/fading_memory.py', 'self.x[2] = ddx + (2*K/(self.dt**2))*residual', 'self.x[2] = ddx + (2*K/self.dt)*residual')],
     'order 2 with a time step other than one', 'the acceleration correction scales with 1/dt', '''
from filterpy.memory import FadingMemoryFilter
from filterpy.gh import GHKFilter, critical_damping_parameters
f = FadingMemoryFilter([0., 0., 0.], .5, 2, .6)
g, h, k = critical_damping_parameters(.6, 3)
q = GHKFilter(0., 0., 0., .5, g, h, k)
for z in (1., 3., 2.):
    f.update(z); q.update(z)
    close(f.x, [q.x, q.dx, q.ddx])
''')
