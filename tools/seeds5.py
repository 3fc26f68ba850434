from seeds3 import PRE, KF, UKF, FLS
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, **k))


seed('c14_merged_loops', 'C14', [('filterpy/kalman/IMM.py', '''            Ps.append(P)

        #  compute each filter's prior using the mixed initial conditions
        for i, f in enumerate(self.filters):
            # propagate using the mixed state estimate and covariance
            f.x = xs[i].copy()
            f.P = Ps[i].copy()
            f.predict(u)
''', '''            Ps.append(P)

            # propagate using the mixed state estimate and covariance
            f.x = x.copy()
            f.P = P.copy()
            f.predict(u)
''')],
     'a prediction with filters whose estimates differ', 'the second and later filters are mixed from filters that have already been moved', '''
from filterpy.kalman import KalmanFilter, IMMEstimator
k = [KalmanFilter(2, 1) for _ in range(3)]
for i, f in enumerate(k):
    f.x = rng.randn(2, 1)
    f.F = np.eye(2) + rng.randn(2, 2) * .1
    f.P = np.eye(2) * (i + 1)
M = np.array([[.8, .1, .1], [.2, .7, .1], [.3, .3, .4]])
b = IMMEstimator(k, [.2, .3, .5], M)
x0, P0, w = [f.x.copy() for f in k], [f.P.copy() for f in k], b.omega.copy()
b.predict()
for j, f in enumerate(k):
    x = sum(w[i, j] * x0[i] for i in range(3))
    P = sum(w[i, j] * (P0[i] + (x0[i] - x) @ (x0[i] - x).T) for i in range(3))
    close(f.x, f.F @ x)
    close(f.P, f.F @ P @ f.F.T + f.Q)
''')

seed('c15_spread_reference', 'C15', [('filterpy/kalman/mmae.py', '            y = f.x - self.x\n', '            y = f.x - self.x_post\n')],
     'comparing the covariance of the bank with the mixture covariance', 'the spread of the means is taken about the estimate of the previous update', '''
from filterpy.kalman import KalmanFilter, MMAEFilterBank
k = [KalmanFilter(2, 1) for _ in range(2)]
for i, f in enumerate(k):
    f.x, f.H = rng.randn(2, 1), np.array([[1., .3]])
    f.F = np.eye(2) + rng.randn(2, 2) * .1
b = MMAEFilterBank(k, [.4, .6], 2, H=np.array([[1., .3]]))
for z in rng.randn(4):
    b.predict()
    b.update(np.array([[z]]))
    x = sum(p * f.x for p, f in zip(b.p, k))
    close(b.x, x)
    close(b.P, sum(p * (f.P + (f.x - x) @ (f.x - x).T) for p, f in zip(b.p, k)))
''')

seed('c09_Q_factor', 'C09', [('filterpy/kalman/square_root.py', 'np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)', 'np.vstack([dot(self.F, self._P1_2).T, self._Q1_2]))')],
     'process noise with correlated components', 'the factor of the process noise is used transposed', '''
from filterpy.kalman import SquareRootKalmanFilter as S, KalmanFilter as K
f, k = S(2, 1), K(2, 1)
for a in (f, k):
    a.F, a.Q = np.array([[1., .4], [0, 1]]), np.array([[2., .9], [.9, 1.]])
    a.P = np.array([[3., 1.], [1., 2.]])
    a.predict()
close(f.P, k.P)
''')

seed('c02_H_joseph', 'C02', [(KF, '''        # P = (I-KH)P usually seen in the literature.

        I_KH = self._I - dot(self.K, H)
        self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(self.K, R), self.K.T)

        # save measurement and posterior state
        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()

    def predict_steadystate''', '''        # P = (I-KH)P usually seen in the literature.

        I_KH = self._I - dot(self.K, self.H if len(self.K.T) == len(self.H) else H)
        self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(self.K, R), self.K.T)

        # save measurement and posterior state
        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()

    def predict_steadystate''')],
     'an update with a measurement matrix given for that call, of the usual size', 'the covariance is reduced with the stored matrix instead of the given one', '''
from filterpy.kalman import KalmanFilter as K
f = K(2, 1)
f.H, f.P = np.array([[1., 0]]), np.array([[3., 1.], [1., 2.]])
P, H = f.P.copy(), np.array([[.2, 1.5]])
f.update(1.3, H=H)
S = H @ P @ H.T + f.R
close(f.P, P - P @ H.T @ np.linalg.inv(S) @ H @ P)
''')

seed('c06_Bs_shift', 'C06', [(KF, '''            for i, (z, F, Q, H, R, B, u) in enumerate(zip(zs, Fs, Qs, Hs, Rs, Bs, us)):

                self.predict(u=u, B=B, F=F, Q=Q)
                means_p''', '''            for i, (z, F, Q, H, R, B, u) in enumerate(zip(zs, Fs, Qs, Hs, Rs, Bs, us)):

                self.predict(u=u, B=B if u is not None and np.any(u) else Bs[0], F=F, Q=Q if i else self.Q)
                means_p''')],
     'a batch run with a process noise per epoch whose first entry differs from the stored one', 'the first prediction ignores the given process noise', '''
from filterpy.kalman import KalmanFilter as K
def mk():
    f = K(2, 1)
    f.F, f.H = np.array([[1., .4], [0, 1]]), np.array([[1., 0]])
    return f
zs, Qs = rng.randn(4), [np.eye(2) * q for q in (.5, 2., .1, 3.)]
a, b = mk(), mk()
r = a.batch_filter(zs, Qs=Qs)
for i, z in enumerate(zs):
    b.predict(Q=Qs[i])
    close(r[3][i], b.P)
    b.update(z)
    close(r[1][i], b.P)
''')

seed('c10_override_kept', 'C10', [('filterpy/kalman/information_filter.py', '''        elif np.isscalar(R_inv):
            R_inv = eye(self.dim_z) * R_inv

        # rename for readability and a tiny extra bit of speed
''', '''        elif np.isscalar(R_inv):
            R_inv = self.R_inv = eye(self.dim_z) * R_inv

        # rename for readability and a tiny extra bit of speed
''')],
     'a later update without override after an update with a scalar override', 'a per-call noise stays in force', '''
from filterpy.kalman import InformationFilter as I, KalmanFilter as K
f, k = I(2, 1), K(2, 1)
for a in (f, k):
    a.F, a.H = np.array([[1., .4], [0, 1]]), np.array([[1., .2]])
f.P_inv = np.eye(2)
for z, r in ((1., .25), (2., None), (.5, 3.), (1., None)):
    f.predict(), k.predict()
    f.update(np.array([[z]]), R_inv=r), k.update(z, R=None if r is None else 1 / r)
    close(f.x, k.x), close(np.linalg.inv(f.P_inv), k.P)
''')

seed('c26_inherited', 'C26', [('filterpy/common/helpers.py', '''        properties = inspect.getmembers(
            type(kf), lambda o: isinstance(o, property)
        )
''', '''        properties = [
            p for p in vars(type(kf)).items() if isinstance(p[1], property)
        ]
''')],
     'saving a filter whose class inherits from a library filter', 'computed attributes defined by a base class are not recorded', '''
from filterpy.kalman import KalmanFilter as K, SquareRootKalmanFilter as S
from filterpy.common import Saver
class Mine(S):
    pass
f = Mine(2, 1)
f.H = np.array([[1., 0]])
s = Saver(f)
for z in (1., 2.):
    f.predict(), f.update(np.array([[z]])), s.save()
    assert 'P' in s.keys
    close(s.P[-1], f.P)
assert len(s.P) == len(s) == 2
''')

seed('c24_big_offset', 'C24', [('filterpy/discrete_bayes/discrete_bayes.py', 'convolve(np.roll(pdf, offset), kernel', 'convolve(np.concatenate((pdf[-offset:], pdf[:-offset])), kernel')],
     'an offset larger than the number of cells', 'the belief is not shifted around more than once', '''
from filterpy.discrete_bayes import predict
p = np.array([.1, .2, .3, .4])
for o in range(-11, 12):
    close(predict(p, o, np.array([1.])), [p[(i - o) % 4] for i in range(4)])
''')

seed('c01_F_override', 'C01', [(KF, '''        # P = FPF' + Q
        self.P = self._alpha_sq * dot(dot(F, self.P), F.T) + Q
''', '''        # P = FPF' + Q
        self.P = self._alpha_sq * dot(dot(F, self.P), (F if u is None else self.F).T) + Q
''')],
     'a prediction that is given both a control and a transition matrix', 'the covariance is propagated partly with the stored transition', '''
from filterpy.kalman import KalmanFilter as K
f = K(2, 1, dim_u=1)
f.B, f.P = np.array([[1.], [2.]]), np.array([[3., 1.], [1., 2.]])
P, F = f.P.copy(), np.array([[1., .7], [.1, 1.]])
f.predict(u=np.array([[.4]]), F=F)
close(f.P, F @ P @ F.T + f.Q)
''')
