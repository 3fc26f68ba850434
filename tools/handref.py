"""Hand-written behaviour-preserving rewrites. handref.py SRC DST SET   (sets: A, B, C)"""
import os, shutil, sys
K = 'filterpy/kalman/'
A = [
 (K+'IMM.py', """        self.x.fill(0)
        for f, mu in zip(self.filters, self.mu):
            self.x += f.x * mu

        self.P.fill(0)
        for f, mu in zip(self.filters, self.mu):
            y = f.x - self.x
            self.P += mu * (outer(y, y) + f.P)
""", """        self.x, self.P = self._mixture(self.mu)

    def _mixture(self, weights):
        \"\"\" mean and covariance of the bank under the weights\"\"\"
        x = sum(f.x * w for f, w in zip(self.filters, weights))
        P = zeros(self.P.shape)
        for f, w in zip(self.filters, weights):
            y = f.x - x
            P += w * (outer(y, y) + f.P)
        return x, P
"""),
 (K+'IMM.py', """        xs, Ps = [], []
        for i, (f, w) in enumerate(zip(self.filters, self.omega.T)):
            x = zeros(self.x.shape)
            for kf, wj in zip(self.filters, w):
                x += kf.x * wj
            xs.append(x)

            P = zeros(self.P.shape)
            for kf, wj in zip(self.filters, w):
                y = kf.x - x
                P += wj * (outer(y, y) + kf.P)
            Ps.append(P)
""", """        xs, Ps = [], []
        for j in range(self.N):
            x, P = self._mixture(self.omega[:, j])
            xs.append(x)
            Ps.append(P)
"""),
 (K+'mmae.py', """        is_row_vector = (self.filters[0].x.ndim == 1)
        if is_row_vector:
            self.x = np.zeros(self.dim_x)
            for f, p in zip(self.filters, self.p):
                self.x += np.dot(f.x, p)
        else:
            self.x = np.zeros((self.dim_x, 1))
            for f, p in zip(self.filters, self.p):
                self.x += np.dot(f.x, p)
""", """        self.x = np.zeros(self.filters[0].x.shape)
        for f, p in zip(self.filters, self.p):
            self.x = self.x + p * f.x
"""),
 (K+'unscented_transform.py', """        y = sigmas - x[np.newaxis, :]
        P = np.dot(y.T, np.dot(np.diag(Wc), y))
""", """        y = sigmas - x
        P = np.dot(y.T * Wc, y)
"""),
 (K+'unscented_transform.py', """        for k in range(kmax):
            y = residual_fn(sigmas[k], x)
            P += Wc[k] * np.outer(y, y)
""", """        for s, w in zip(sigmas, Wc):
            y = residual_fn(s, x)
            P += w * np.outer(y, y)
"""),
 (K+'UKF.py', """        sigmas_h = []
        for s in self.sigmas_f:
            sigmas_h.append(hx(s, **hx_args))

        self.sigmas_h = np.atleast_2d(sigmas_h)
""", """        self.sigmas_h = np.atleast_2d([hx(s, **hx_args) for s in self.sigmas_f])
"""),
 (K+'UKF.py', """        N = sigmas_f.shape[0]
        for i in range(N):
            dx = self.residual_x(sigmas_f[i], x)
            dz = self.residual_z(sigmas_h[i], z)
            Pxz += self.Wc[i] * outer(dx, dz)
        return Pxz
""", """        for w, sf, sh in zip(self.Wc, sigmas_f, sigmas_h):
            Pxz += w * outer(self.residual_x(sf, x), self.residual_z(sh, z))
        return Pxz
"""),
 (K+'CubatureKalmanFilter.py', """    for k in range(n):
        sigmas[k] = x + U[k]
        sigmas[n+k] = x - U[k]
""", """    for k, row in enumerate(U):
        sigmas[k] = x + row
        sigmas[n + k] = x - row
"""),
 (K+'CubatureKalmanFilter.py', """    for k in range(m):
        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)

    P *= 1 / m
    P += Q
""", """    for X in Xs:
        P += np.outer(X, X) - np.outer(xf, xf)

    P = P / m + Q
"""),
 (K+'ensemble_kalman_filter.py', """        for i in range(N):
            self.sigmas[i] += dot(self.K, z + e_r[i] - sigmas_h[i])
""", """        for i, (e, h) in enumerate(zip(e_r, sigmas_h)):
            self.sigmas[i] = self.sigmas[i] + dot(self.K, z + e - h)
"""),
 (K+'ensemble_kalman_filter.py', """        for i in range(N):
            sigmas_h[i] = self.hx(self.sigmas[i])
""", """        for i, s in enumerate(self.sigmas):
            sigmas_h[i] = self.hx(s)
"""),
 (K+'sigma_points.py', """        for k in range(n):
            # pylint: disable=bad-whitespace
            sigmas[k+1]   = self.subtract(x, -U[k])
            sigmas[n+k+1] = self.subtract(x, U[k])

        return sigmas


    def _compute_weights(self):
        \"\"\" Computes the weights for the scaled unscented Kalman filter.

        \"\"\"

        n = self.n
        lambda_ = self.alpha**2 * (n +self.kappa) - n

        c = .5 / (n + lambda_)
        self.Wc = np.full(2*n + 1, c)
        self.Wm = np.full(2*n + 1, c)
""", """        for k, u in enumerate(U, 1):
            sigmas[k] = self.subtract(x, -u)
            sigmas[n + k] = self.subtract(x, u)

        return sigmas


    def _compute_weights(self):
        n = self.n
        lambda_ = self.alpha**2 * (n +self.kappa) - n

        c = .5 / (n + lambda_)
        self.Wc = np.ones(2*n + 1) * c
        self.Wm = self.Wc.copy()
"""),
]
B = [
 (K+'UKF.py', """        for i, s in enumerate(sigmas):
            self.sigmas_f[i] = fx(s, dt, **fx_args)
""", """        self.sigmas_f = np.array([fx(s, dt, **fx_args) for s in sigmas])
"""),
 (K+'mmae.py', """        for f, p in zip(self.filters, self.p):
            y = f.x - self.x
            self.P += p*(np.outer(y, y) + f.P)
""", """        for i in range(len(self.filters)):
            f = self.filters[i]
            y = f.x - self.x
            self.P += self.p[i] * np.outer(y, y)
            self.P += self.p[i] * f.P
"""),
 (K+'IMM.py', """        self.cbar = dot(self.mu, self.M)
        for i in range(self.N):
            for j in range(self.N):
                self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
""", """        self.cbar = dot(self.mu, self.M)
        for j in range(self.N):
            for i in range(self.N):
                self.omega[i, j] = self.M[i, j] * (self.mu[i] / self.cbar[j])
"""),
 (K+'IMM.py', """        for i, f in enumerate(self.filters):
            # propagate using the mixed state estimate and covariance
            f.x = xs[i].copy()
            f.P = Ps[i].copy()
            f.predict(u)
""", """        for f, x, P in zip(self.filters, xs, Ps):
            # propagate using the mixed state estimate and covariance
            f.x, f.P = x.copy(), P.copy()
            f.predict(u)
"""),
 (K+'IMM.py', """        # update mode probabilities from total probability * likelihood
        self.mu = self.cbar * self.likelihood
        self.mu /= np.sum(self.mu)  # normalize
""", """        # update mode probabilities from total probability * likelihood
        weights = self.cbar * self.likelihood
        total = np.sum(weights)
        self.mu = weights / total
"""),
 (K+'unscented_transform.py', """        y = sigmas - x[np.newaxis, :]
        P = np.dot(y.T, np.dot(np.diag(Wc), y))
""", """        P = np.zeros((n, n))
        for k in range(kmax):
            y = sigmas[k] - x
            P += Wc[k] * np.outer(y, y)
"""),
 (K+'CubatureKalmanFilter.py', """    for k in range(n):
        sigmas[k] = x + U[k]
        sigmas[n+k] = x - U[k]
""", """    sigmas[:n] = x + U
    sigmas[n:] = x - U
"""),
 (K+'CubatureKalmanFilter.py', """    x = sum(Xs, 0)[:, None] / m
    P = np.zeros((n, n))
    xf = x.flatten()
    for k in range(m):
        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)

    P *= 1 / m
    P += Q
""", """    xf = np.mean(Xs, axis=0)
    x = xf.reshape(-1, 1)
    d = Xs - xf
    P = np.dot(d.T, d) / m + Q
"""),
 (K+'ensemble_kalman_filter.py', """        self.P = outer_product_sum(self.sigmas - self.x) / (N - 1)
""", """        d = self.sigmas - self.x
        self.P = np.dot(d.T, d) / (N - 1)
"""),
 (K+'ensemble_kalman_filter.py', """        for i in range(N):
            self.sigmas[i] += dot(self.K, z + e_r[i] - sigmas_h[i])
""", """        innovations = z + e_r - sigmas_h
        self.sigmas += dot(innovations, self.K.T)
"""),
 (K+'sigma_points.py', """        sigmas[0] = x
        for k in range(n):
            # pylint: disable=bad-whitespace
            sigmas[k+1]   = self.subtract(x, -U[k])
            sigmas[n+k+1] = self.subtract(x, U[k])
        return sigmas
""", """        sigmas[0] = x
        for k in range(n):
            sigmas[k+1] = self.subtract(x, -U[k])
        for k in range(n):
            sigmas[n+k+1] = self.subtract(x, U[k])
        return sigmas
"""),
 (K+'fixed_lag_smoother.py', """            xSmooth[k] = x_pre.copy()
""", """            xSmooth[k] = x_pre
"""),
]


def apply(src, dst, edits):
    if os.path.abspath(dst).startswith('/tmp/'):
        shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    for f, a, b in edits:
        p = os.path.join(dst, f)
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        if a not in s:
            print('NOT FOUND', f, a[:90].replace('\n', '|'))
            continue
        s = s.replace(a, b, 1)
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)


if __name__ == '__main__':
    apply(sys.argv[1], sys.argv[2], globals()[sys.argv[3]])
