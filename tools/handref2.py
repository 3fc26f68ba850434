"""Hand-written behaviour-preserving rewrites applied to the unparsed source.  handref2.py SRC DST SET"""
import ast, os, shutil, sys
K = 'filterpy/kalman/'
C = [
 # ---- KalmanFilter: helpers extracted, guard clauses, factored expressions
 (K+'kalman_filter.py', """        if B is not None and u is not None:
            self.x = dot(F, self.x) + dot(B, u)
        else:
            self.x = dot(F, self.x)
        self.P = self._alpha_sq * dot(dot(F, self.P), F.T) + Q
        self.x_prior""", """        self.x, self.P = self._propagated(F, Q, B, u)
        self.x_prior"""),
 (K+'kalman_filter.py', """    def predict_steadystate(self, u=None, B=None):""", """    def _propagated(self, F, Q, B, u):
        mean = dot(F, self.x)
        if not (B is None or u is None):
            mean = mean + np.dot(B, u)
        cov = dot(dot(F, self.P), F.T)
        return mean, cov * self._alpha_sq + Q

    def predict_steadystate(self, u=None, B=None):"""),
 (K+'kalman_filter.py', """        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None
        if z is None:
            self.z = np.array([[None] * self.dim_z]).T
            self.x_post = self.x.copy()
            self.P_post = self.P.copy()
            self.y = zeros((self.dim_z, 1))
            return
        if R is None:
            R = self.R
        elif isscalar(R):
            R = eye(self.dim_z) * R
        if H is None:
            z = reshape_z(z, self.dim_z, self.x.ndim)
            H = self.H
        else:
            z = reshape_z(z, shape(H)[0], self.x.ndim)
        self.y = z - dot(H, self.x)
        PHT = dot(self.P, H.T)
        self.S = dot(H, PHT) + R
        self.SI = self.inv(self.S)
        self.K = dot(PHT, self.SI)
        self.x = self.x + dot(self.K, self.y)
        I_KH = self._I - dot(self.K, H)
        self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(self.K, R), self.K.T)
        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()
""", """        self._forget_likelihoods()
        if z is None:
            self._missing()
            return
        H, rows = (self.H, self.dim_z) if H is None else (H, shape(H)[0])
        R = self._noise(R)
        z = reshape_z(z, rows, self.x.ndim)
        self.y = z - H @ self.x
        PHT = self.P @ H.T
        self.S = R + H @ PHT
        self.SI = self.inv(self.S)
        K = PHT @ self.SI
        self.K = K
        self.x = K @ self.y + self.x
        A = self._I - K @ H
        self.P = A @ self.P @ A.T + dot(dot(K, R), K.T)
        self.z = deepcopy(z)
        self._snapshot()

    def _forget_likelihoods(self):
        self._log_likelihood = self._likelihood = self._mahalanobis = None

    def _missing(self):
        self.z = np.array([[None] * self.dim_z]).T
        self._snapshot()
        self.y = zeros((self.dim_z, 1))

    def _snapshot(self):
        self.x_post, self.P_post = self.x.copy(), self.P.copy()

    def _noise(self, R):
        if R is None:
            return self.R
        if isscalar(R):
            return R * eye(self.dim_z)
        return R
"""),
 (K+'kalman_filter.py', """        self.y = z - dot(H, self.x)
        PHT = dot(self.P, H.T)
        self.S = dot(H, PHT) + dot(H, self.M) + dot(self.M.T, H.T) + R
        self.SI = self.inv(self.S)
        self.K = dot(PHT + self.M, self.SI)
        self.x = self.x + dot(self.K, self.y)
        self.P = self.P - dot(self.K, dot(H, self.P) + self.M.T)
""", """        M = self.M
        HM = dot(H, M)
        self.y = z - dot(H, self.x)
        C = dot(self.P, H.T) + M
        self.S = dot(H, C) + HM.T + R
        self.SI = self.inv(self.S)
        self.K = dot(C, self.SI)
        self.x = self.x + dot(self.K, self.y)
        self.P = self.P - (dot(dot(self.K, H), self.P) + dot(self.K, M.T))
"""),
 (K+'kalman_filter.py', """        if length == 1:
            K_i = PHT * (1.0 / S_i)
        else:
            K_i = dot(PHT, linalg.inv(S_i))
""", """        K_i = PHT / S_i if length == 1 else PHT.dot(linalg.inv(S_i))
"""),
 (K+'kalman_filter.py', """        n = len(zs)
        if Fs is None:
            Fs = [self.F] * n
        if Qs is None:
            Qs = [self.Q] * n
        if Hs is None:
            Hs = [self.H] * n
        if Rs is None:
            Rs = [self.R] * n
        if Bs is None:
            Bs = [self.B] * n
        if us is None:
            us = [None] * n
        if self.x.ndim == 1:
            means = zeros((n, self.dim_x))
            means_p = zeros((n, self.dim_x))
        else:
            means = zeros((n, self.dim_x, 1))
            means_p = zeros((n, self.dim_x, 1))
""", """        n = len(zs)

        def each(values, default):
            return [default] * n if values is None else values
        Fs, Qs = each(Fs, self.F), each(Qs, self.Q)
        Hs, Rs = each(Hs, self.H), each(Rs, self.R)
        Bs, us = each(Bs, self.B), each(us, None)
        size = (n, self.dim_x) if self.x.ndim == 1 else (n, self.dim_x, 1)
        means, means_p = zeros(size), zeros(size)
"""),
 (K+'kalman_filter.py', """        for k in range(n - 2, -1, -1):
            Pp[k] = dot(dot(Fs[k + 1], P[k]), Fs[k + 1].T) + Qs[k + 1]
            K[k] = dot(dot(P[k], Fs[k + 1].T), inv(Pp[k]))
            x[k] += dot(K[k], x[k + 1] - dot(Fs[k + 1], x[k]))
            P[k] += dot(dot(K[k], P[k + 1] - Pp[k]), K[k].T)
""", """        for k in reversed(range(n - 1)):
            F = Fs[k + 1]
            PFT = dot(P[k], F.T)
            Pp[k] = dot(F, PFT) + Qs[k + 1]
            G = dot(PFT, inv(Pp[k]))
            K[k] = G
            x[k] = x[k] + dot(G, x[k + 1] - dot(F, x[k]))
            P[k] = P[k] + dot(G, dot(P[k + 1] - Pp[k], G.T))
"""),
 (K+'kalman_filter.py', """    for k in range(n - 2, -1, -1):
        pP[k] = dot(dot(Fs[k + 1], P[k]), Fs[k + 1].T) + Qs[k + 1]
        K[k] = dot(dot(P[k], Fs[k + 1].T), linalg.inv(pP[k]))
        x[k] += dot(K[k], x[k + 1] - dot(Fs[k + 1], x[k]))
        P[k] += dot(dot(K[k], P[k + 1] - pP[k]), K[k].T)
""", """    for i in range(1, n):
        k = n - 1 - i
        F = Fs[k + 1]
        pP[k] = dot(F, dot(P[k], F.T)) + Qs[k + 1]
        K[k] = dot(P[k], dot(F.T, linalg.inv(pP[k])))
        x[k] += K[k] @ (x[k + 1] - dot(F, x[k]))
        P[k] += K[k] @ (P[k + 1] - pP[k]) @ K[k].T
"""),
 (K+'kalman_filter.py', """    if z is None:
        if return_all:
            return (x, P, None, None, None, None)
        return (x, P)
    if H is None:
        H = np.array([1])
    if np.isscalar(H):
        H = np.array([H])
    Hx = np.atleast_1d(dot(H, x))
""", """    if z is None:
        return (x, P, None, None, None, None) if return_all else (x, P)
    if H is None:
        H = 1
    if np.isscalar(H):
        H = np.array([H])
    Hx = np.atleast_1d(dot(H, x))
"""),
 (K+'kalman_filter.py', """        if self._likelihood is None:
            self._likelihood = exp(self.log_likelihood)
            if self._likelihood < sys.float_info.min:
                self._likelihood = sys.float_info.min
""", """        if self._likelihood is None:
            self._likelihood = max(exp(self.log_likelihood), sys.float_info.min)
"""),
 (K+'kalman_filter.py', """            self._mahalanobis = sqrt(float(dot(dot(self.y.T, self.SI), self.y)))
""", """            d2 = dot(self.y.T, dot(self.SI, self.y))
            self._mahalanobis = sqrt(float(d2))
"""),
 (K+'kalman_filter.py', """        if not np.isscalar(value) or value < 1:
            raise ValueError('alpha must be a float greater than 1')
        self._alpha_sq = value ** 2
""", """        if np.isscalar(value) and value >= 1:
            self._alpha_sq = value * value
            return
        raise ValueError('alpha must be a float greater than 1')
"""),
 # ---- EKF
 (K+'EKF.py', """        F = self.F
        B = self.B
        P = self.P
        Q = self.Q
        R = self.R
        x = self.x
        x = dot(F, x) + dot(B, u)
        P = dot(F, P).dot(F.T) + Q
        self.x_prior = np.copy(x)
        self.P_prior = np.copy(P)
        H = HJacobian(x, *args)
        PHT = dot(P, H.T)
        self.S = dot(H, PHT) + R
        self.SI = linalg.inv(self.S)
        self.K = dot(PHT, self.SI)
        self.y = z - Hx(x, *hx_args)
        self.x = x + dot(self.K, self.y)
        I_KH = self._I - dot(self.K, H)
        self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()
        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None
""", """        x = self.F @ self.x + dot(self.B, u)
        P = self.F @ self.P @ self.F.T + self.Q
        self.x_prior, self.P_prior = x.copy(), P.copy()
        H = HJacobian(x, *args)
        predicted = Hx(x, *hx_args)
        self._correct(x, P, z - predicted, H, self.R)
        self.z = deepcopy(z)
        self._store()

    def _correct(self, x, P, y, H, R):
        PHT = dot(P, H.T)
        S = dot(H, PHT) + R
        SI = linalg.inv(S)
        K = dot(PHT, SI)
        I_KH = self._I - dot(K, H)
        self.y, self.S, self.SI, self.K = y, S, SI, K
        self.x = x + dot(K, y)
        self.P = dot(dot(I_KH, P), I_KH.T) + dot(K, dot(R, K.T))

    def _store(self):
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()
        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None
"""),
 (K+'EKF.py', """        H = HJacobian(self.x, *args)
        PHT = dot(self.P, H.T)
        self.S = dot(H, PHT) + R
        self.SI = linalg.inv(self.S)
        self.K = PHT.dot(self.SI)
        hx = Hx(self.x, *hx_args)
        self.y = residual(z, hx)
        self.x = self.x + dot(self.K, self.y)
        I_KH = self._I - dot(self.K, H)
        self.P = dot(I_KH, self.P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
        self._log_likelihood = None
        self._likelihood = None
        self._mahalanobis = None
        self.z = deepcopy(z)
        self.x_post = self.x.copy()
        self.P_post = self.P.copy()
""", """        H = HJacobian(self.x, *args)
        y = residual(z, Hx(self.x, *hx_args))
        self._correct(self.x, self.P, y, H, R)
        self.z = deepcopy(z)
        self._store()
"""),
 # ---- square root
 (K+'square_root.py', """        M[0:dim_z, 0:dim_z] = R2.T
        M[dim_z:, 0:dim_z] = dot(self.H, self._P1_2).T
        M[dim_z:, dim_z:] = self._P1_2.T
        _, r_decomp = qr(M)
""", """        L = self._P1_2
        M[:dim_z, :dim_z] = R2.T
        M[dim_z:, :dim_z] = dot(L.T, self.H.T)
        M[dim_z:, dim_z:] = L.T
        r_decomp = qr(M)[1]
"""),
 (K+'square_root.py', """        _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
        self._P1_2 = P2[:self.dim_x, :self.dim_x].T
""", """        stacked = np.vstack((dot(self.F, self._P1_2).T, self._Q1_2.T))
        P2 = qr(stacked, mode='r')[0]
        self._P1_2 = P2[:self.dim_x].T
"""),
 # ---- information filter
 (K+'information_filter.py', """        if self._no_information:
            self.x = dot(P_inv, x) + dot(H_T, R_inv).dot(z)
            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
""", """        gain = dot(H_T, R_inv)
        information = P_inv + gain.dot(H)
        if self._no_information:
            self.x = dot(P_inv, x) + gain.dot(z)
            self.P_inv = information
"""),
 (K+'information_filter.py', """            self.S = P_inv + dot(H_T, R_inv).dot(H)
            self.K = dot(self.inv(self.S), H_T).dot(R_inv)
            self.x = x + dot(self.K, self.y)
            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
""", """            self.S = information
            self.K = dot(self.inv(information), gain)
            self.x = x + dot(self.K, self.y)
            self.P_inv = information.copy()
"""),
 # ---- fading memory KF
 (K+'fading_memory.py', """        self.x = dot(self.F, self.x) + dot(self.B, u)
        self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
        self.x_prior""", """        self.x, self.P = self.get_prediction(u)
        self.x_prior"""),
 (K+'fading_memory.py', """        n = len(zs)
        if Rs is None:
            Rs = [None] * n
        means = zeros((n, self.dim_x, 1))
        means_p = zeros((n, self.dim_x, 1))
        covariances = zeros((n, self.dim_x, self.dim_x))
        covariances_p = zeros((n, self.dim_x, self.dim_x))
""", """        n, d = len(zs), self.dim_x
        Rs = [None] * n if Rs is None else Rs
        means, means_p = (zeros((n, d, 1)) for _ in range(2))
        covariances, covariances_p = zeros((n, d, d)), zeros((n, d, d))
"""),
]

D = [
 ('filterpy/common/helpers.py', """        if self._skip_private:
            for key in list(v.keys()):
                if key.startswith('_'):
                    del v[key]
        if self._skip_callable:
            for key in list(v.keys()):
                if callable(v[key]):
                    del v[key]
        for ig in self._ignore:
            if ig in v:
                del v[ig]
        for key in list(v.keys()):
            self._DL[key].append(v[key])
""", """        for key, value in v.items():
            if self._skips(key, value):
                continue
            self._DL[key].append(value)
"""),
 ('filterpy/common/helpers.py', """    def __getitem__(self, key):""", """    def _skips(self, key, value):
        if key in self._ignore:
            return True
        if self._skip_private and key[:1] == '_':
            return True
        return self._skip_callable and callable(value)

    def __getitem__(self, key):"""),
 ('filterpy/common/helpers.py', """    k1 = dx * f(y, x)
    k2 = dx * f(y + 0.5 * k1, x + 0.5 * dx)
    k3 = dx * f(y + 0.5 * k2, x + 0.5 * dx)
    k4 = dx * f(y + k3, x + dx)
    return y + (k1 + 2 * k2 + 2 * k3 + k4) / 6.0
""", """    half = dx / 2.0
    mid = x + half
    k1 = f(y, x)
    k2 = f(y + half * k1, mid)
    k3 = f(y + half * k2, mid)
    k4 = f(y + dx * k3, x + dx)
    return y + dx * (k1 + 2.0 * (k2 + k3) + k4) / 6.0
"""),
 ('filterpy/common/helpers.py', """    si = np.zeros(S.shape)
    for i in range(len(S)):
        si[i, i] = 1.0 / S[i, i]
    return si
""", """    return np.diag(1.0 / np.diag(S))
"""),
 ('filterpy/common/helpers.py', """    outer = np.einsum('ij,ik->ijk', A, B)
    return np.sum(outer, axis=0)
""", """    return np.dot(A.T, B)
"""),
 ('filterpy/common/helpers.py', """    v1, v2 = (vars(dst), vars(src))
    k1, k2 = (set(v1.keys()), set(v2.keys()))
    attrs = k2.intersection(k1)
    for key in attrs:
        val = getattr(src, key)
        if type(val).__name__ not in ['method', 'function']:
            dst.__dict__[key] = copy.deepcopy(val)
""", """    mine = vars(dst)
    for key, val in vars(src).items():
        if key not in mine or type(val).__name__ in ('method', 'function'):
            continue
        mine[key] = copy.deepcopy(val)
"""),
 ('filterpy/common/helpers.py', """    if len(different_keys) > 0:
        return different_keys
    else:
        return None
""", """    return different_keys or None
"""),
 ('filterpy/common/discretization.py', """    for i, x in enumerate(Q.ravel()):
        f = eye(block_size) * x
        ix, iy = (i // dim * block_size, i % dim * block_size)
        D[ix:ix + block_size, iy:iy + block_size] = f
    return D
""", """    for i in range(dim):
        for j in range(dim):
            r, c = i * block_size, j * block_size
            D[r:r + block_size, c:c + block_size] = Q[i, j] * eye(block_size)
    return D
"""),
 ('filterpy/common/discretization.py', """    A[0:n, 0:n] = -F.dot(dt)
    A[0:n, n:2 * n] = G.dot(G.T).dot(dt)
    A[n:2 * n, n:2 * n] = F.T.dot(dt)
    B = expm(A)
    sigma = B[n:2 * n, n:2 * n].T
    Q = sigma.dot(B[0:n, n:2 * n])
    return (sigma, Q)
""", """    A[:n, :n] = -F
    A[:n, n:] = G.dot(G.T)
    A[n:, n:] = F.T
    B = expm(A * dt)
    sigma = B[n:, n:].T
    return (sigma, sigma.dot(B[:n, n:]))
"""),
 ('filterpy/common/kinematic.py', """    if order_by_dim:
        for i in range(dim_z):
            for j in range(dim):
                kf.H[i, j * dim_x] = 1.0
    else:
        for i in range(dim_z):
            for j in range(dim):
                kf.H[i, j] = 1.0
    return kf
""", """    step = dim_x if order_by_dim else 1
    for j in range(dim):
        kf.H[:, j * step] = 1.0
    return kf
"""),
 ('filterpy/discrete_bayes/discrete_bayes.py', """    pdf /= sum(np.asarray(pdf, dtype=float))
    return pdf
""", """    total = np.sum(pdf)
    pdf /= total
    return pdf
"""),
 ('filterpy/discrete_bayes/discrete_bayes.py', """    posterior = prior * likelihood
    return normalize(posterior)
""", """    return normalize(likelihood * prior)
"""),
 ('filterpy/leastsq/least_squares.py', """        if self._order == 0:
            K[0] = 1.0 / n
            y = z - x
            x[0] += K[0] * y
        elif self._order == 1:
            K[0] = 2.0 * (2 * n - 1) / (n * (n + 1))
            K[1] = 6.0 / (n * (n + 1) * dt)
            y = z - x[0] - dt * x[1]
            x[0] += K[0] * y + dt * x[1]
            x[1] += K[1] * y
""", """        if self._order == 0:
            K[0] = 1.0 / n
            y = z - x[0]
            x[0] = x[0] + K[0] * y
        elif self._order == 1:
            den = n * (n + 1)
            K[:] = (4 * n - 2.0) / den, 6.0 / (den * dt)
            predicted = x[0] + dt * x[1]
            y = z - predicted
            x[0] = predicted + K[0] * y
            x[1] = x[1] + K[1] * y
"""),
 ('filterpy/monte_carlo/resampling.py', """    k = 0
    for i in range(N):
        for _ in range(num_copies[i]):
            indexes[k] = i
            k += 1
    residual = N * np.asarray(weights) - num_copies
    residual /= sum(residual)
""", """    k = 0
    for i, copies in enumerate(num_copies):
        indexes[k:k + copies] = i
        k += copies
    residual = N * np.asarray(weights) - num_copies
    residual = residual / np.sum(residual)
"""),
 ('filterpy/monte_carlo/resampling.py', """    positions = (random(N) + range(N)) / N
    indexes = np.zeros(N, 'i')
    cumulative_sum = np.cumsum(weights)
    i, j = (0, 0)
    while i < N:
        if j == N - 1 or positions[i] < cumulative_sum[j]:
            indexes[i] = j
            i += 1
        else:
            j += 1
    return indexes
""", """    positions = (random(N) + np.arange(N)) / N
    return _select(positions, weights)


def _select(positions, weights):
    N = len(weights)
    cumulative_sum = np.cumsum(weights)
    indexes = np.zeros(N, 'i')
    j = 0
    for i in range(N):
        while j < N - 1 and positions[i] >= cumulative_sum[j]:
            j += 1
        indexes[i] = j
    return indexes
"""),
 ('filterpy/monte_carlo/resampling.py', """    positions = (random() + np.arange(N)) / N
    indexes = np.zeros(N, 'i')
    cumulative_sum = np.cumsum(weights)
    i, j = (0, 0)
    while i < N:
        if j == N - 1 or positions[i] < cumulative_sum[j]:
            indexes[i] = j
            i += 1
        else:
            j += 1
    return indexes
""", """    return _select((random() + np.arange(N)) / N, weights)
"""),
 ('filterpy/gh/gh_filter.py', """        h_dt = self.h / self.dt
        for i, z in enumerate(data):
            x_est = x + dx * self.dt
            residual = z - x_est
            dx = dx + h_dt * residual
            x = x_est + self.g * residual
            results[i + 1, 0] = x
            results[i + 1, 1] = dx
            if save_predictions:
                predictions[i] = x_est
""", """        dt, g, h = self.dt, self.g, self.h
        for i in range(n):
            x_est = x + dt * dx
            residual = data[i] - x_est
            dx += h * residual / dt
            x = x_est + g * residual
            results[i + 1] = x, dx
            if save_predictions:
                predictions[i] = x_est
"""),
 ('filterpy/gh/gh_filter.py', """        dt = self.dt
        dt_sqr = dt ** 2
        self.ddx_prediction = self.ddx
        self.dx_prediction = self.dx + self.ddx * dt
        self.x_prediction = self.x + self.dx * dt + 0.5 * self.ddx * dt_sqr
        self.y = z - self.x_prediction
        self.ddx = self.ddx_prediction + 2 * k * self.y / dt_sqr
        self.dx = self.dx_prediction + h * self.y / dt
        self.x = self.x_prediction + g * self.y
        return (self.x, self.dx)
""", """        dt = self.dt
        x, dx, ddx = self.x, self.dx, self.ddx
        self.x_prediction = x + dx * dt + 0.5 * ddx * dt ** 2
        self.dx_prediction = dx + dt * ddx
        self.ddx_prediction = ddx
        y = z - self.x_prediction
        self.x = self.x_prediction + g * y
        self.dx = self.dx_prediction + h * y / dt
        self.ddx = ddx + 2 * k * y / dt ** 2
        self.y = y
        return (self.x, self.dx)
"""),
 ('filterpy/gh/gh_filter.py', """        g = self.g
        h = self.h
        den = g * (4 - 2 * g - h)
        vx = (2 * g ** 2 + 2 * h - 3 * g * h) / den
        vdx = 2 * h ** 2 / (self.dt ** 2 * den)
        return (vx, vdx)
""", """        g, h, dt = self.g, self.h, self.dt
        den = g * (4 - 2 * g - h)
        vx = (g * (2 * g - 3 * h) + 2 * h) / den
        return (vx, 2 * (h / dt) ** 2 / den)
"""),
 ('filterpy/stats/stats.py', """    est_err = xs - est_xs
    errs = []
    for x, p in zip(est_err, ps):
        errs.append(np.dot(x.T, linalg.inv(p)).dot(x))
    return errs
""", """    def nees(err, cov):
        return np.dot(err.T, linalg.solve(cov, err))
    return [nees(e, p) for e, p in zip(xs - est_xs, ps)]
"""),
 ('filterpy/stats/stats.py', """    mean = (var1 * mean2 + var2 * mean1) / (var1 + var2)
    var = 1 / (1 / var1 + 1 / var2)
    return (mean, var)
""", """    total = var1 + var2
    w = var1 / total
    return (mean1 + w * (mean2 - mean1), var1 * var2 / total)
"""),
 ('filterpy/stats/stats.py', """    sum_inv = np.linalg.inv(C1 + C2)
    C3 = np.dot(C1, sum_inv).dot(C2)
    M3 = np.dot(C2, sum_inv).dot(M1) + np.dot(C1, sum_inv).dot(M2)
    return (M3, C3)
""", """    K = np.dot(C1, np.linalg.inv(C1 + C2))
    return (M1 + np.dot(K, M2 - M1), np.dot(K, C2))
"""),
 ('filterpy/hinfinity/hinfinity_filter.py', """        HTVI = dot(H.T, V_inv)
        L = linalg.inv(I - gamma * dot(Q, P) + dot(HTVI, H).dot(P))
        PL = dot(P, L)
        K = dot(F, PL).dot(HTVI)
        self.y = z - dot(H, x)
        self.x = self.x + dot(K, self.y)
        self.P = dot(F, PL).dot(F.T) + W
        self.P = (self.P + self.P.T) / 2
""", """        HTVI = dot(H.T, V_inv)
        L = linalg.inv(I - dot(gamma * Q - dot(HTVI, H), P))
        FPL = dot(F, dot(P, L))
        self.y = z - dot(H, x)
        self.x = x + dot(FPL, dot(HTVI, self.y))
        P = dot(FPL, F.T) + W
        self.P = 0.5 * (P + P.T)
"""),
]
SETS = {'C': C, 'D': D}
def apply(src, dst, name):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
    text = {}
    for f, a, b in SETS[name]:
        if f not in text:
            text[f] = ast.unparse(ast.parse(open(os.path.join(src, f)).read())) + '\n'
        n = text[f].count(a)
        if n != 1:
            print('matches %d times in %s:\n%s' % (n, f, a[:200]))
        text[f] = text[f].replace(a, b)
    for f, t in text.items():
        open(os.path.join(dst, f), 'w').write(t)
if __name__ == '__main__':
    apply(*sys.argv[1:4])
