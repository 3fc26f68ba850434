from seeds3 import PRE, KF, UKF, FLS
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k))


seed('c16_cross_norm', 'C16', [('filterpy/kalman/ensemble_kalman_filter.py', '        self.K = dot(P_xz, self.SI)', '        self.K = dot(P_xz * ((N - 1.) / N), self.SI)')],
     'comparing the gain with the sample moments', 'the gain is too small by (N-1)/N', '''
from filterpy.kalman import EnsembleKalmanFilter as E
f = E(np.zeros(2), np.eye(2), 1, 1., 6, lambda x: x[:1], lambda x, dt: x)
f.predict()
s, x = f.sigmas.copy(), f.x.copy()
h = s[:, :1]
Pzz = (h - h.mean()).T @ (h - h.mean()) / 5 + f.R
Pxz = (s - x).T @ (h - h.mean()) / 5
f.update(np.array([.7]))
close(f.K, Pxz / Pzz)
''')

seed('c07_ukf_filtered_P', 'C07', [(UKF, 'ps[k] += dot(K, ps[k+1] - Pb).dot(K.T)', 'ps[k] += dot(K, Ps[k+1] - Pb).dot(K.T)')],
     'a smoothed sequence of three or more epochs', 'the smoothed covariance is computed from the filtered instead of the smoothed one', '''
from filterpy.kalman import UnscentedKalmanFilter as U, MerweScaledSigmaPoints as M, KalmanFilter as K
F = np.array([[1., .5], [0, 1]])
f = U(2, 1, dt=1., hx=lambda x: x[:1], fx=lambda x, dt: F @ x, points=M(2, .5, 2., 1.))
k = K(2, 1)
k.F, k.H = F, np.array([[1., 0]])
zs = rng.randn(6)
m, P = f.batch_filter(list(zs[:, None]))
k.x = np.zeros(2)
n, Q, _, _ = k.batch_filter(zs)
close(P, Q)
close(f.rts_smoother(m, P)[1], k.rts_smoother(n, Q)[1])
''')

seed('c24_correlate', 'C24', [('filterpy/discrete_bayes/discrete_bayes.py', '''    return convolve(shift(pdf, offset, cval=cval), kernel,
                    cval=cval, mode='constant')''', '''    return correlate(shift(pdf, offset, cval=cval), kernel,
                     cval=cval, mode='constant')'''), ('filterpy/discrete_bayes/discrete_bayes.py', 'import convolve', 'import convolve, correlate')],
     'an asymmetric kernel without wrap-around', 'the kernel is applied mirrored', '''
from filterpy.discrete_bayes import predict
p = np.zeros(9)
p[4] = 1
close(predict(p, 0, np.array([.2, .5, .3]), mode='constant')[3:6], [.2, .5, .3])
''')

seed('c13_mean_needs_residual', 'C13', [('filterpy/kalman/unscented_transform.py', '        if mean_fn is None:', '        if mean_fn is None or residual_fn is np.subtract:')],
     'a mean function without a residual function of its own', 'the custom mean is ignored', '''
from filterpy.kalman import UnscentedKalmanFilter as U, MerweScaledSigmaPoints as M
f = U(2, 1, dt=1., hx=lambda x: x[:1], fx=lambda x, dt: x, points=M(2, .5, 2., 1.), x_mean_fn=lambda s, w: w @ s + 3.)
f.predict()
close(f.x, [3., 3.])
''')

seed('c05_proc_inplace', 'C05', [(KF, '''    # predict new x with residual scaled by the kalman gain
    x = x + dot(K, y)

    # P = (I-KH)P(I-KH)' + KRK'
    KH = dot(K, H)
''', '''    # predict new x with residual scaled by the kalman gain
    if np.ndim(x) == 2:
        x += dot(K, y)
    else:
        x = x + dot(K, y)

    # P = (I-KH)P(I-KH)' + KRK'
    KH = dot(K, H)
''')],
     'keeping the prior passed to the procedural update', "the caller's prior is overwritten", '''
from filterpy.kalman import update
x = np.array([[1.], [2.]])
update(x, np.eye(2), 3., np.eye(1), np.array([[1., 0]]))
close(x, [[1.], [2.]])
''')

seed('c06_fading_update_first', 'C06', [('filterpy/kalman/fading_memory.py', '''                self.update(z, r)
                means[i, :]          = self.x
                covariances[i, :, :] = self.P

                self.predict()''', '''                self.update(z)
                means[i, :]          = self.x
                covariances[i, :, :] = self.P

                self.predict()''')],
     'an update-first batch run with a noise per measurement', 'the given noises are ignored', '''
from filterpy.kalman import FadingKalmanFilter as F
def mk():
    f = F(1.02, 2, 1)
    f.F, f.H = np.array([[1., .5], [0, 1]]), np.array([[1., 0]])
    return f
a, b = mk(), mk()
zs, Rs = rng.randn(4), [np.eye(1) * r for r in (.5, 2., .1, 3.)]
r = a.batch_filter(zs, Rs, update_first=True)
for i in range(4):
    b.update(zs[i], Rs[i])
    close(r[1][i], b.P)
    b.predict()
''')
