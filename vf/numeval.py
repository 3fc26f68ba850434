"""Numeric refutation of an undischarged obligation.

Draws random values for the symbols and matrix atoms that satisfy the path
condition and the declared properties, and evaluates both sides of the open
equation.  A clear difference on several draws means the obligation is false
(as opposed to beyond the normaliser)."""
import math
import random
import zlib
import numpy as np
from .sc import Sc, to_sc, Cond
from .mat import Mat
from .ctx import Unsupported


class Give(Exception):
    pass


class Bad(Exception):
    pass


def nexpm(M):
    """Taylor with scaling and squaring (independent of scipy)"""
    if not np.all(np.isfinite(M)):
        raise Bad()
    s = max(0, int(math.ceil(math.log2(max(1e-9, np.abs(M).sum() / .25)))))
    if s > 12:
        raise Bad()
    A = M / 2.0 ** s
    E = T = np.eye(len(M))
    for k in range(1, 20):
        T = T @ A / k
        E = E + T
    for _ in range(s):
        E = E @ E
    return E


def nvanloan(M, W):
    """int_0^1 exp(Ms) W exp(M's) ds by composite Gauss-Legendre quadrature"""
    x, w = np.polynomial.legendre.leggauss(12)
    P = max(1, min(64, int(np.ceil(np.abs(M).sum()))))
    h = 1.0 / P
    Q = np.zeros(W.shape)
    for q, c in zip(x, w):
        E = nexpm(M * (h * (q + 1) / 2))
        Q = Q + h * c / 2 * E @ W @ E.T
    S, Eh = np.zeros(W.shape), nexpm(M * h)
    for _ in range(P):
        S = Q + Eh @ S @ Eh.T
    return S


class Ev:
    def __init__(self, c, rng):
        self.c, self.rng = c, rng
        self.sv, self.av, self.fn = {}, {}, {}
        self.pr = random.Random(int(rng.randint(1 << 30)))
        self.maxdim = 3

    # scalars
    def sc(self, e):
        e = to_sc(e)
        v = self.poly(e.num)
        for k, ex in e.den:
            d = self.poly(dict(k))
            if abs(d) < 1e-9:
                raise Bad()
            v = v / d ** ex
        return v

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for k, e in m:
                b = self.sym(k)
                if e < 0 and abs(b) < 1e-9:
                    raise Bad()
                x *= b ** e
            t += x
        return t

    def sym(self, i):
        if i in self.sv:
            return self.sv[i]
        s = self.c.symtab.syms[i]
        k = s.kind
        if i in self.c.dimsub:
            v = self.sc(self.c.dimsub[i])
        elif k == 'dim' or (k == 'var' and s.integer):
            v = self.pr.randint(1 if s.pos else 0, self.maxdim)
        elif k == 'var':
            v = abs(self.rng.randn()) + (.1 if s.pos else 0) if s.nonneg else self.rng.randn() * 1.5
        elif k == 'root':
            a = self.sc(s.data)
            if a < 0:
                raise Bad()
            v = math.sqrt(a)
        elif k == 'exp':
            v = math.exp(min(50, self.sc(s.data)))
        elif k == 'log':
            a = self.sc(s.data)
            if a <= 0:
                raise Bad()
            v = math.log(a)
        elif k == 'pi':
            v = math.pi
        elif k == 'word':
            v = self.word(s.data)
            if v.shape != (1, 1):
                raise Bad()
            v = float(v[0, 0])
        elif k == 'fn':
            nm = s.data[0]
            if nm == 'logdet':
                sg, v = np.linalg.slogdet(self.mat(s.data[1]))
                if sg <= 0:
                    raise Bad()
            elif nm == 'Phi':
                v = .5 * (1 + math.erf(self.sc(s.data[1][0]) / math.sqrt(2)))
            elif nm == 'log_tiny':
                v = -708.3964185322641
            else:
                raise Give('fn ' + nm)
        else:
            raise Give('sym ' + k)
        if s.pos and not v > 0 or s.nonneg and v < 0:
            raise Bad()
        self.sv[i] = v
        return v

    # matrices
    def dim(self, d):
        v = self.sc(d)
        r = int(round(v))
        if abs(v - r) > 1e-9 or r < 0:
            raise Bad()
        return r

    def mat(self, m):
        r, c = self.dim(m.rows), self.dim(m.cols)
        out = np.zeros((r, c))
        for w, cf in m.terms.items():
            k = self.sc(cf)
            if w == ():
                out = out + k * np.eye(r, c)
            else:
                x = self.word(w)
                if x.shape != (r, c):
                    raise Bad()
                out = out + k * x
        return out

    def word(self, w):
        x = None
        for i in w:
            a = self.atom(i)
            if x is not None and x.shape[1] != a.shape[0]:
                raise Bad()
            x = a if x is None else x @ a
        return x

    def atom(self, i):
        if i in self.av:
            return self.av[i]
        a = self.c.algebra.atoms[i]
        if a.kind.endswith('_t'):
            v = self.atom(a.data.id).T
        else:
            r, c = self.dim(a.rows), self.dim(a.cols)
            k = a.kind
            if k == 'var':
                v = self.rng.randn(r, c)
                if 'psd' in a.props or 'pd' in a.props:
                    v = v @ v.T + (.3 * np.eye(r) if 'pd' in a.props else 0)
                elif a.tid == a.id:
                    v = (v + v.T) / 2
            elif k == 'inv':
                E = self.mat(a.data)
                if r == 0 or abs(np.linalg.det(E)) < 1e-6:
                    raise Bad()
                v = np.linalg.inv(E)
            elif k == 'chol':
                E = self.mat(a.data)
                try:
                    v = np.linalg.cholesky((E + E.T) / 2).T
                except np.linalg.LinAlgError:
                    raise Bad()
            elif k == 'expm':
                v = nexpm(self.mat(a.data))
            elif k == 'vanloan':
                v = nvanloan(self.mat(a.data[0]), self.mat(a.data[1]))
            elif k == 'ones':
                v = np.ones((r, c))
            elif k == 'inj':
                o = self.dim(a.data[0])
                if o + c > r:
                    raise Bad()
                v = np.eye(r)[:, o:o + c]
            elif k == 'diag':
                v = np.diag(self.mat(a.data)[:, 0])
            elif k in ('fapp', 'fmap'):
                nm, X, ex = a.data[:3]
                exs = {q.data[2] for q in self.c.algebra.atoms if q.kind in ('fapp', 'fmap') and q.data[0] == nm}
                if len(exs) > 1:
                    raise Give('callback arguments')
                X = self.mat(X)
                if k == 'fmap':
                    v = np.array([self.app(nm, x, c) for x in X]).reshape(r, c)
                else:
                    v = self.app(nm, X.ravel(), r * c).reshape(r, c)
            else:
                raise Give('atom ' + k)
            if v.shape != (r, c):
                raise Bad()
        self.av[i] = v
        return v

    def app(self, nm, x, m):
        key = (nm, len(x), m)
        if key not in self.fn:
            rr = np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)
            self.fn[key] = (rr.randn(m, len(x)), rr.randn(m, len(x)), rr.randn(m))
        A, B, c = self.fn[key]
        return A @ x + np.sin(B @ x + c)

    def cond(self, c):
        if not isinstance(c, Cond):
            return bool(c)
        if c.kids is not None:
            f = all if c.op == 'and' else any
            return f(self.cond(k) for k in c.kids)
        v = self.sc(c.e)
        return {'==': abs(v) < 1e-9, '!=': abs(v) > 1e-9, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[c.op]


def differs(c, o, seed):
    d = o.detail
    if not isinstance(d, tuple) or d[0] not in ('diff', 'cond') or d[1] is None:
        return None
    if c.loops and any(True for a in (c.algebra.atoms if c.algebra else []) if a.kind in ('gen', 'havoc')):
        pass
    rng = np.random.RandomState(seed)
    valid = diff = 0
    ex = None
    for t in range(400):
        ev = Ev(c, rng)
        ev.maxdim = 3 if t < 200 else 6
        try:
            if not all(ev.cond(q) for q in c.assumps):
                continue
            if d[0] == 'cond':
                valid += 1
                if not ev.cond(d[1]):
                    e = d[1].e
                    if e is None or abs(ev.sc(e)) > 1e-6:
                        diff += 1
                        ex = 'condition %r false' % (d[1],)
            else:
                a, b = d[1], d[2]
                if isinstance(a, Mat):
                    x, y = ev.mat(a), ev.mat(b)
                else:
                    x, y = np.array(ev.sc(a)), np.array(ev.sc(b))
                if x.size == 0:
                    continue
                if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
                    continue
                valid += 1
                s = max(1e-3, np.abs(x).max(), np.abs(y).max())
                if np.abs(x - y).max() > 1e-4 * s:
                    diff += 1
                    ex = dict(got=x.tolist(), want=y.tolist(),
                              values={c.symtab.syms[i].name: v for i, v in list(ev.sv.items())[:20]})
        except (Bad, OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
            continue
        except Give:
            return None
        if valid >= 8:
            break
    if d[0] == 'cond':
        return ex if diff >= 1 else None
    return ex if valid >= 3 and diff >= 2 else None


def dim_model(c):
    """concrete dimensions satisfying the path condition"""
    names = c.choices.get('__dims__') or {}
    if not names:
        return {}
    r, m, tr = c.sat(model=True)
    out = {}
    if m is None:
        return out
    import z3
    for nm, i in names.items():
        if i in c.dimsub:
            v = None
            e = c.dimsub[i]
            if e.is_const():
                v = e.const_val()
            else:
                continue
        elif i in tr.vars:
            v = m.eval(tr.vars[i], model_completion=True)
            v = v.as_fraction() if hasattr(v, 'as_fraction') else v.as_long()
        else:
            continue
        v = int(v)
        if v <= 6:
            out[nm] = v
    return out
