"""The two worlds a contract harness runs in.

SymWorld: /repo's source executed on symbolic values; every W.eq/W.check is a
proof obligation.  ConWorld: the real import of filterpy executed by CPython on
random concrete values; the same statements are run-time checks.  A harness is
written once."""
import importlib
import math
import copy
import random
import sys
import warnings
import numpy as np
from .ctx import ctx, Unsupported, Undecided, Control, Infeasible, Done


class Skip(Exception):
    """this concrete draw is outside the precondition"""


class Fail(Exception):
    def __init__(self, name, msg, soft=False):
        Exception.__init__(self, '%s: %s' % (name, msg))
        self.name, self.msg, self.soft = name, msg, soft


class Obl:
    def __init__(self, name, status, detail='', path=None):
        self.name, self.status, self.detail, self.path = name, status, detail, path


# ====================================================================== concrete
class ConWorld:
    symbolic = False

    def __init__(self, seed, choices=None, dims=None, scale=None):
        self.rng = np.random.RandomState(seed)
        self.pyrng = random.Random(seed)
        self.seed = seed
        self.forced = dict(choices or {})
        self.fdims = dict(dims or {})
        self.choices = {}
        self.dims = {}
        self.checks = 0
        self.log = []
        self.tol = 1e-7
        self.mods = _RealMods()

    # ---- inputs
    def dim(self, name, lo=1, hi=4):
        v = self.fdims.get(name)
        if v is None:
            v = self.pyrng.randint(lo, hi)
            if hi > 3 and self.pyrng.random() < .06:        # now and then a larger one
                v = self.pyrng.randint(hi + 1, 2 * hi + 1)
        v = max(lo, int(v))
        self.dims[name] = v
        return v

    def horizon(self, name='T', lo=1, hi=6):
        """number of epochs"""
        return self.dim(name, lo, hi)

    def lag(self, name='N', lo=0, hi=4):
        """length of a lag"""
        return self.dim(name, lo, hi)

    def seq(self, name, T, make):
        """one element per epoch"""
        return [make('%s%d' % (name, i)) for i in range(T)]

    def tarr(self, name, T, make):
        """array with one row per epoch"""
        return np.array([make('%s%d' % (name, i)) for i in range(T)])

    def tlist(self, name, T, make, indexed=False):
        """list with one element per epoch"""
        return [make(i if indexed else '%s%d' % (name, i)) for i in range(T)]

    def tsnap(self, rows):
        return copy.deepcopy(rows)

    def len(self, rows):
        return len(rows)

    def stale(self):
        return self.rng.randn()

    def rows_within(self, name, rows, old, lo, hi):
        """only rows lo..hi of the list differ from what they were"""
        self.ok(name, all(np.array_equal(rows[i], old[i]) for i in range(min(len(rows), len(old))) if not lo <= i <= hi))

    def epochs(self, T, objs=(), refs=(), carry={}, props={}):
        from .induct import ConEpochs
        return ConEpochs(self, T, objs, refs, carry, props)

    def choice(self, label, options):
        options = list(options)
        if label in self.forced and self.forced[label] in options:
            v = self.forced[label]
        else:
            v = self.pyrng.choice(options)
        self.choices[label] = v
        return v

    def _r(self, *s):
        m = self.pyrng.random()
        a = self.rng.randn(*s) * (1.0 if m < .7 else 10.0 if m < .85 else 0.1)
        if self.pyrng.random() < .2:
            a = np.round(a)
        return a

    def mat(self, name, r, c, integer=False):
        a = self.rng.randn(r, c)
        k = self.pyrng.random()
        if k < .15:
            a = np.round(a * 2)
        elif k < .25:
            a = a * 5
        return a

    def inv_mat(self, name, n):
        while True:
            a = self.rng.randn(n, n) + np.eye(n) * self.pyrng.choice([0, 1, 2])
            if abs(np.linalg.det(a)) > 1e-2 and np.linalg.cond(a) < 200:
                return a

    def sym(self, name, n):
        a = self.rng.randn(n, n)
        return (a + a.T) / 2

    def pd(self, name, n):
        a = self.rng.randn(n, n)
        p = a @ a.T + np.eye(n) * self.pyrng.choice([.1, .5, 1.])
        if self.pyrng.random() < .2:
            p = p * self.pyrng.choice([.1, 10., 100.])
        return (p + p.T) / 2

    def psd(self, name, n):
        k = self.pyrng.random()
        if k < .15:
            return np.zeros((n, n))
        if k < .4 and n > 1:
            a = self.rng.randn(n, n - 1)
            p = a @ a.T
            return (p + p.T) / 2
        return self.pd(name, n)

    def vec(self, name, n, nd=2):
        a = self._r(n)
        return a.reshape(n, 1) if nd == 2 else a

    def scal(self, name, pos=False, nonneg=False, lo=None, hi=None):
        if lo is not None:
            h = hi if hi is not None else lo + 5
            return float(self.pyrng.uniform(lo, h))
        if pos:
            return float(self.pyrng.choice([self.pyrng.uniform(.05, 3), self.pyrng.uniform(.5, 1.5)]))
        if nonneg:
            return float(self.pyrng.choice([0.0, self.pyrng.uniform(0, 3)]))
        return float(self.rng.randn() * self.pyrng.choice([1, 1, 3]))

    def integer(self, name, lo, hi):
        v = self.fdims.get(name)
        if v is None:
            v = self.pyrng.randint(lo, hi)
        self.dims[name] = int(v)
        return int(v)

    def func(self, name, m, nd=1, col=False):
        """an arbitrary nonlinear vector function R^n -> R^m (pure)"""
        A = {}

        def f(x, *args, **kw):
            x = np.asarray(x, float)
            v = x.ravel()
            n = v.size
            if n not in A:
                A[n] = (self.rng.randn(m, n), self.rng.randn(m, n), self.rng.randn(m))
            a, b, c = A[n]
            e = 0.0
            for i, t in enumerate(args):
                e = e + (i + 1.3) * np.sum(np.asarray(t, float))
            for i, k in enumerate(sorted(kw)):
                e = e + (i + 2.1) * np.sum(np.asarray(kw[k], float))
            y = a @ v + np.sin(b @ v + c) + c * e
            return y.reshape(m, 1) if (x.ndim == 2 or col) else y
        f.__name__ = name
        return f

    def jac(self, name, m, n):
        A = {}

        def f(x, *args, **kw):
            v = np.asarray(x, float).ravel()
            if 0 not in A:
                A[0] = (self.rng.randn(m, n), self.rng.randn(m, n))
            a, b = A[0]
            e = sum((i + 1.3) * float(np.sum(t)) for i, t in enumerate(args))
            return a + np.cos(b * v[None, :] + e)
        return f

    def randint(self, lo, hi):
        return self.pyrng.randint(lo, hi)

    # ---- operations
    def inv(self, a):
        a = np.asarray(a, float)
        if a.ndim == 0:
            return 1.0 / a
        return np.linalg.inv(a)

    def eye(self, n):
        return np.eye(n)

    def zeros(self, *sh):
        return np.zeros(sh)

    def ones(self, n):
        return np.ones(n)

    def col(self, v):
        return np.asarray(v, float).reshape(-1, 1)

    def flat(self, v):
        return np.asarray(v, float).ravel()

    def module(self, name):
        import importlib
        return importlib.import_module('filterpy.' + name)

    def array(self, v):
        return np.array(v, dtype=float)

    def maprows(self, f, M):
        return np.array([f(r) for r in M])

    def vstack(self, *a):
        return np.vstack(a)

    def hstack(self, *a):
        return np.hstack(a)

    def expm(self, M):
        from .numeval import nexpm
        return nexpm(np.asarray(M, float))

    def vanloan(self, M, Q):
        from .numeval import nvanloan
        return nvanloan(np.asarray(M, float), np.asarray(Q, float))

    def block_diag(self, *a):
        from scipy.linalg import block_diag
        return block_diag(*a)

    def is_scalar(self, v):
        return np.isscalar(v)

    def scalar(self, v):
        return float(np.asarray(v, float).reshape(-1)[0])

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    pi = math.pi

    def normcdf(self, z):
        return .5 * math.erfc(-z / math.sqrt(2))

    def diag(self, v):
        return np.diag(v)

    def logpdf(self, d, S):
        """Gaussian log density of the innovation d under covariance S"""
        d = np.asarray(d, float).reshape(-1, 1)
        S = np.atleast_2d(np.asarray(S, float))
        q = (d.T @ np.linalg.solve(S, d)).item()
        sgn, ld = np.linalg.slogdet(S)
        return -.5 * (q + d.shape[0] * math.log(2 * math.pi) + ld)

    def rows(self, a):
        return list(a)

    def clone(self, o):
        return copy.deepcopy(o)

    # ---- banks of filters
    def bank(self, name, N, n, nd):
        from .bank import AnyFilter
        return [AnyFilter(self, '%s%d' % (name, i), n, nd) for i in range(N)]

    def ran(self, bank, op):
        from .bank import con_ran
        return con_ran(bank, op)

    def forget_runs(self, bank):
        for f in bank:
            del f.ops[:]

    def family(self, bank):
        from .bank import ConFamily
        return ConFamily(bank)

    def weights(self, name, N):
        """N positive numbers; in concrete runs they sum to one (no obligation needs it)"""
        w = self.rng.rand(N) ** self.pyrng.choice([1, 3]) + 1e-3
        return w / w.sum()

    def posmat(self, name, r, c):
        w = self.rng.rand(r, c) ** self.pyrng.choice([1, 3]) + 1e-3
        return w / w.sum(axis=1, keepdims=True)

    def recip(self, v):
        return 1. / np.asarray(v, float)

    def nonneg(self, name, v):
        self.ok(name, bool(np.all(np.asarray(v) >= 0)))

    def total(self, v):
        return np.sum(v)

    def assume(self, c):
        if not c:
            raise Skip()

    def done(self):
        raise Skip()

    # ---- checks
    def eq(self, name, got, want, flat=False, tol=None, shape=True, rel=False, mag=None):
        self.checks += 1
        tol = tol or self.tol
        try:
            g = np.asarray(got, float)
            w = np.asarray(want, float)
        except (TypeError, ValueError):
            if got is None and want is None:
                return
            raise Fail(name, 'not numeric: got %r want %r' % (got, want))
        if flat:
            g, w = g.ravel(), w.ravel()
        if g.shape != w.shape:
            raise Fail(name, 'shape %s, expected %s' % (g.shape, w.shape))
        if not np.all(np.isfinite(w)):
            raise Skip()
        sc = 0.0 if rel else max(1.0, float(np.max(np.abs(w))) if w.size else 1.0)
        if mag is not None:             # the size, cell by cell, of the terms that were added up
            sc = np.maximum(np.asarray(mag, float), np.abs(w))
        if not (np.all(np.isfinite(g)) and np.allclose(g, w, rtol=tol, atol=tol * sc)):
            # a difference this small can be rounding on an ill-conditioned draw: it counts
            # only when it shows up again and again (see report())
            soft = bool(np.all(np.isfinite(g))) and np.allclose(g, w, rtol=1e-4, atol=1e-4 * sc)
            raise Fail(name, 'got %s expected %s' % (short(g), short(w)), soft)

    def lemma_eq(self, name, a, b, **k):
        return self.eq(name, a, b, **k)

    def eq_left(self, name, A, got, want, **k):
        return self.eq(name, got, want, **k)

    def use(self, name, lhs_factors, rhs):
        pass

    def same(self, name, got, want, exact=True):
        """bit-identical (no arithmetic allowed in between); exact=False for values
        computed twice from the same data: BLAS may round them differently"""
        self.checks += 1
        if not identical(got, want, exact):
            raise Fail(name, 'got %s expected (unchanged) %s' % (short(got), short(want)))

    def ok(self, name, cond, msg=''):
        self.checks += 1
        if not bool(cond):
            raise Fail(name, msg or 'condition is false')

    def ge(self, name, a, b, tol=None):
        self.checks += 1
        if not (a >= b - (tol if tol is not None else self.tol * max(1, abs(b)))):
            raise Fail(name, '%r < %r' % (a, b))

    def psd_cert(self, name, M, parts):
        """M is symmetric psd; parts = [(A, X), ...] with M = sum A X A', X psd"""
        self.checks += 1
        M = np.asarray(M, float)
        sc = max(1.0, np.abs(M).max())
        if not np.allclose(M, M.T, rtol=1e-7, atol=1e-8 * sc):
            raise Fail(name, 'not symmetric: %s' % short(M))
        w = np.linalg.eigvalsh((M + M.T) / 2)
        if w.min() < -1e-7 * sc:
            raise Fail(name, 'negative eigenvalue %g' % w.min())

    def noalias(self, name, a, b):
        self.checks += 1
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
            raise Fail(name, 'arrays share memory')
        if a is b and isinstance(a, (np.ndarray, list)):
            raise Fail(name, 'same object')

    def raises(self, name, exc, f):
        self.checks += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Fail(name, 'raised %s instead of %s' % (type(e).__name__, exc))
        raise Fail(name, 'did not raise %s' % (exc,))

    def call(self, name, f, *a, **k):
        """a call that the property says must not fail"""
        try:
            return f(*a, **k)
        except (Skip, Fail):
            raise
        except Exception as e:
            raise Fail(name, 'raised %s: %s' % (type(e).__name__, e))

    def state(self, obj, skip=()):
        return {k: copy.deepcopy(v) for k, v in vars(obj).items() if k not in skip}

    def unchanged(self, name, obj, snap, skip=()):
        self.checks += 1
        now = vars(obj)
        for k, v in snap.items():
            if k in skip:
                continue
            if k not in now:
                raise Fail(name, 'attribute %s vanished' % k)
            if not identical(now[k], v):
                raise Fail(name, 'attribute %s changed: %s -> %s' % (k, short(v), short(now[k])))
        for k in now:
            if k not in snap and k not in skip:
                if isinstance(now[k], (np.ndarray, float, int)) and not k.startswith('_'):
                    raise Fail(name, 'attribute %s appeared' % k)

    def snap(self, v):
        return copy.deepcopy(v)

    def random(self, preset=None):
        """context manager recording every random draw made inside"""
        return _ConRandom(self, preset)

    def all_none(self, name, v):
        """the value marks a missing measurement"""
        self.checks += 1
        if v is None:
            return
        a = np.asarray(v, dtype=object)
        if a.size == 0 or not all(x is None for x in a.ravel()):
            raise Fail(name, 'not marked missing: %s' % short(v))

    def poke(self, arr):
        """in-place edit of an array the caller owns"""
        if isinstance(arr, np.ndarray) and arr.size and arr.dtype.kind == 'f' and arr.flags.writeable:
            arr += 17.25


def short(v, n=300):
    s = np.array2string(v, precision=10, threshold=50) if isinstance(v, np.ndarray) else repr(v)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def identical(a, b, exact=True):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(identical(x, y, exact) for x, y in zip(a.ravel(), b.ravel()))
        if not exact and a.dtype.kind == b.dtype.kind == 'f' and a.size:
            sc = max(np.nanmax(np.abs(a)), np.nanmax(np.abs(b)), 0) if not np.isnan(a).all() and not np.isnan(b).all() else 0
            if np.isfinite(sc):
                return bool(np.all((np.abs(a - b) <= 1e-12 * sc) | ((a != a) & (b != b))))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k], exact) for k in a)
    if callable(a) and callable(b):
        return a == b or getattr(a, '__name__', 1) == getattr(b, '__name__', 2)
    if hasattr(a, '__dict__') and hasattr(b, '__dict__') and type(a) is type(b):
        return identical(vars(a), vars(b), exact)
    if not exact and isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or a == b or (a != a and b != b)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


RANDOM_NAMES = ('random', 'rand', 'randn', 'uniform', 'multivariate_normal', 'normal', 'random_sample', 'standard_normal', 'choice', 'multinomial')


class _ConRandom:
    """records draws; `preset(kind, a, k, value) -> value` may substitute values"""

    def __init__(self, W, preset):
        self.W, self.preset, self.draws = W, preset, []

    def __enter__(self):
        import scipy.stats
        for m in ('kalman', 'common', 'stats', 'monte_carlo'):
            importlib.import_module('filterpy.' + m)
        self.old = []
        for nm in RANDOM_NAMES:
            f = getattr(np.random, nm)

            def wrap(*a, __f=f, __n=nm, **k):
                v = __f(*a, **k)
                if self.preset is not None:
                    v = self.preset(__n, a, k, v)
                self.draws.append((__n, a, k, copy.deepcopy(v)))
                return v
            self.put(np.random, nm, wrap)
            for mn, mod in list(sys.modules.items()):
                if mn.startswith('filterpy') and mod is not None:
                    for an, av in list(vars(mod).items()):
                        if type(av) is type(f) and av == f:
                            self.put(mod, an, wrap)

        def other(*a, **k):
            raise Skip()
        self.put(np.random, 'default_rng', other)
        for nm in ('RandomState', 'Generator'):
            c = getattr(np.random, nm)
            self.put(np.random, nm, type(nm, (c,), {'__new__': other}))
        return self.draws

    def put(self, o, n, v):
        self.old.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in reversed(self.old):
            setattr(o, n, v)
        return False


class _RealMods:
    def __getattr__(self, n):
        return importlib.import_module('filterpy.' + n)


# ====================================================================== symbolic
class SymWorld:
    symbolic = True

    def __init__(self, c):
        from .load import Loader
        self.c = c
        self.loader = Loader()
        self.mods = _SymMods(self.loader)
        self.obls = []
        self.certified = []
        self.fcache = {}

    # ---- inputs
    def dim(self, name, lo=1, hi=4):
        from .sc import new_sym, Sc
        s = new_sym(name, 'dim', None, pos=(lo >= 1), nonneg=True, integer=True)
        v = Sc.sym(s)
        if lo > 1:
            self.c.assume(v >= lo)
        self.c.choices.setdefault('__dims__', {})[name] = s.id
        return v

    def horizon(self, name='T', lo=1, hi=6):
        T = self.dim(name, lo)
        c = self.c
        if not hasattr(c, 'time_syms'):
            c.time_syms = set()
        c.time_syms.update(T.syms())
        return T

    def lag(self, name='N', lo=0, hi=4):
        N = self.dim(name, lo)
        c = self.c
        if not hasattr(c, 'lagsyms'):
            c.lagsyms = set()
        c.lagsyms.update(N.syms())
        return N

    def seq(self, name, T, make):
        from .induct import Seq
        return Seq(T, make, name)

    def tarr(self, name, T, make):
        from .induct import TimeArr
        from . import snp
        from .induct import Seq, frozen
        proto = make(name + '_')
        rows = Seq(T, make, name)
        return TimeArr(T, snp.shape(proto), lambda idx: frozen(rows.at(idx)), name)

    def tlist(self, name, T, make, indexed=False):
        from .induct import TimeArr, Seq, frozen
        from . import snp
        rows = Seq(T, make, name)
        f = make if indexed else rows.at
        return TimeArr(T, (), lambda idx: frozen(f(idx)), name, islist=True)

    def tsnap(self, rows):
        return None

    def len(self, rows):
        return rows.n if hasattr(rows, '_vf_len') else len(rows)

    def stale(self):
        from .induct import Stale
        return Stale()

    def rows_within(self, name, rows, old, lo, hi):
        from .induct import provably_eq
        from .sc import to_sc
        c = self.c
        if not hasattr(rows, 'dirty'):
            return self._emit(name, 'unproved', 'not the list given')
        bad = [r[0] for r in rows.dirty() if not (c.entailed(to_sc(r[0]) >= lo) is True and c.entailed(to_sc(r[0]) <= hi) is True)
               and not provably_eq(r[0], rows.n - 1)]
        self._emit(name, 'unproved' if bad else 'proved', 'row %r' % bad[0] if bad else None)

    def epochs(self, T, objs=(), refs=(), carry={}, props={}):
        from .induct import SymEpochs
        return SymEpochs(self, T, objs, refs, carry, props)

    def choice(self, label, options):
        return self.c.choose(label, options)

    def _atom(self, name, r, c, sym=False, props=(), kind='var'):
        from .mat import Mat, Algebra, d1
        from .sc import to_sc, Sc, new_sym
        from .arr import dim_out
        r, c = to_sc(r), to_sc(c)
        a = Algebra.cur().atom(name, r, c, kind, None, sym=sym, props=props)
        return Mat.of(a)

    def _conc(self, *ds):
        from .arr import dim_out
        from .sc import to_sc
        return all(isinstance(dim_out(to_sc(d)), int) for d in ds)

    def _ent(self, name, r, c, sym=False):
        from .sc import new_sym, Sc
        from .snp import ONd
        a = np.empty((int(r), int(c)), dtype=object)
        for i in range(int(r)):
            for j in range(int(c)):
                if sym and j < i:
                    a[i, j] = a[j, i]
                else:
                    a[i, j] = Sc.sym(new_sym('%s%d%d' % (name, i, j)))
        return a.view(ONd)

    def mat(self, name, r, c, integer=False):
        from .arr import SymArr
        if self._conc(r, c):
            return self._ent(name, r, c)
        return SymArr(self._atom(name, r, c), 2)

    def inv_mat(self, name, n):
        return self.mat(name, n, n)

    def sym(self, name, n, props=()):
        from .arr import SymArr
        if self._conc(n):
            return self._ent(name, n, n, sym=True)
        return SymArr(self._atom(name, n, n, sym=True, props=props), 2)

    def pd(self, name, n):
        from .arr import SymArr
        from .sc import new_sym, Sc
        if self._conc(n) and int(n) == 1:
            from .snp import array
            return array([[Sc.sym(new_sym(name, pos=True))]])
        return self.sym(name, n, props=('pd', 'psd'))

    def psd(self, name, n):
        return self.sym(name, n, props=('psd',))

    def vec(self, name, n, nd=2):
        from .arr import SymArr
        if self._conc(n):
            a = self._ent(name, n, 1)
            return a if nd == 2 else a[:, 0]
        m = self._atom(name, n, 1)
        return SymArr(m, nd)

    def scal(self, name, pos=False, nonneg=False, lo=None, hi=None):
        from .sc import new_sym, Sc
        s = Sc.sym(new_sym(name, pos=pos or (lo is not None and lo > 0), nonneg=nonneg or (lo is not None and lo >= 0)))
        if lo is not None:
            self.c.assume(s >= lo)
        if hi is not None:
            self.c.assume(s <= hi)
        return s

    def integer(self, name, lo, hi):
        return self.c.choose('int:' + name, range(lo, hi + 1))

    def func(self, name, m, nd=1, col=False):
        from .sym_func import SymFunc
        return SymFunc(name, m, col)

    def jac(self, name, m, n):
        from .sym_func import SymJac
        return SymJac(name, m, n)

    # ---- operations
    def inv(self, a):
        from . import snp
        from .sc import to_sc, ONE
        s = to_sc(a)
        if s is not None and not isinstance(a, np.ndarray):
            return ONE / s
        return snp.inv(a)

    def eye(self, n):
        from . import snp
        return snp.eye(n)

    def zeros(self, *sh):
        from . import snp
        return snp.zeros(sh)

    def ones(self, n):
        from . import snp
        return snp.ones(n)

    def col(self, v):
        from .arr import lift, SymArr, Sc
        from .mat import Mat
        v0 = v
        v = lift(v)
        if isinstance(v, Sc):
            return SymArr(Mat.scalar_mat(v), 2)
        return SymArr(v.flatten().mat, 2)

    def flat(self, v):
        from .arr import lift, SymArr, Sc
        from .mat import Mat
        v = lift(v)
        if isinstance(v, Sc):
            return SymArr(Mat.scalar_mat(v), 1)
        return v.flatten()

    def module(self, name):
        return self.mods._l.load('filterpy.' + name)

    def array(self, v):
        from .snp import array
        return array(v)

    def maprows(self, f, M):
        from .loops import listcomp, SymSeq
        from .snp import array
        r = listcomp(M, f)
        if isinstance(r, SymSeq):
            return r._vf_copy()
        return self.vstack(*[self.col(q).T for q in r])

    def vstack(self, *a):
        from .snp import vstack
        return vstack(a)

    def hstack(self, *a):
        from .snp import hstack
        return hstack(a)

    def expm(self, M):
        """exp(M)"""
        from .snp import _exp_mat
        from .arr import lift, SymArr
        return SymArr(_exp_mat(lift(M).mat), 2)

    def vanloan(self, M, Q):
        """int_0^1 exp(Ms) Q exp(M's) ds"""
        from .snp import _vanloan
        from .arr import lift, SymArr
        return SymArr(_vanloan(lift(M).mat, lift(Q).mat), 2)

    def block_diag(self, *a):
        from .snp import block_diag
        return block_diag(*a)

    def is_scalar(self, v):
        from .sc import Sc
        return isinstance(v, Sc) or np.isscalar(v)

    def scalar(self, v):
        from .snp import msc
        return msc(v)

    def sqrt(self, x):
        from . import sc
        return sc.sqrt(x)

    def exp(self, x):
        from . import sc
        return sc.exp(x)

    def log(self, x):
        from . import sc
        return sc.log(x)

    @property
    def pi(self):
        from .snp import PI
        return PI()

    def normcdf(self, z):
        from .snp import _Norm
        return _Norm.cdf(z)

    def diag(self, v):
        from . import snp
        return snp.diag(v)

    def logpdf(self, d, S):
        from .snp import gauss_logpdf, colmat
        from .arr import lift, Sc, SymArr
        from .mat import Mat
        S = lift(S)
        S = Mat.scalar_mat(S) if isinstance(S, Sc) else S.mat
        return gauss_logpdf(self.col(d).mat, S)

    # ---- banks of filters
    def bank(self, name, N, n, nd):
        from .bank import SymBank
        return SymBank(self, name, N, n, nd)

    def ran(self, bank, op):
        from .bank import sym_ran
        return sym_ran(bank, op)

    def forget_runs(self, bank):
        del bank.log[:]

    def family(self, bank):
        from .bank import SymFamily
        return SymFamily(bank)

    def weights(self, name, N):
        from .mat import Mat, Algebra
        from .arr import SymArr
        from .sc import to_sc, ONE
        a = Algebra.cur().atom(name, to_sc(N), ONE, 'var', props=('pos',))
        return SymArr(Mat.of(a), 1)

    def posmat(self, name, r, c):
        from .mat import Mat, Algebra
        from .arr import SymArr
        from .sc import to_sc
        a = Algebra.cur().atom(name, to_sc(r), to_sc(c), 'var', props=('pos',))
        return SymArr(Mat.of(a), 2)

    def recip(self, v):
        from .bank import recip
        from .arr import SymArr, lift
        return SymArr(recip(lift(v).flatten().mat), 1)

    def nonneg(self, name, v):
        """every entry is non-negative"""
        from .loops import Generic
        from .mat import Mat
        from .arr import lift
        m = lift(v).flatten().mat
        g = Generic(m.rows)
        self.ok(name, (Mat.of(g.gen_atom()).T @ m).scalar() >= 0)

    def total(self, v):
        from . import snp
        return snp.sum_(v)

    def clone(self, o):
        return copy.deepcopy(o)

    def assume(self, cond):
        from .sc import Cond
        if isinstance(cond, Cond):
            if self.c.entailed(cond) is False:
                raise Infeasible('assumption contradicts the path')
        self.c.assume(cond)

    def done(self):
        raise Done()

    # ---- obligations
    def _emit(self, name, status, detail=''):
        self.obls.append(Obl(name, status, detail))

    def eq(self, name, got, want, flat=False, tol=None, shape=True, rel=False, mag=None):
        from .arr import lift, SymArr, Sc, NoneArr, StackArr
        from .mat import Mat, show, deq
        from .sc import to_sc
        if got is None or want is None:
            if got is None and want is None:
                return self._emit(name, 'proved')
            return self._emit(name, 'refuted', 'None versus value')
        if isinstance(got, NoneArr) or isinstance(want, NoneArr):
            if getattr(got, 'partial', False) or getattr(want, 'partial', False):
                raise Unsupported('contents of a partly overwritten None array')
            ok = isinstance(got, NoneArr) and isinstance(want, NoneArr) and self._sheq(got.shape, want.shape)
            return self._emit(name, 'proved' if ok else 'refuted', 'None array')
        if isinstance(got, (list, tuple)) or isinstance(want, (list, tuple)):
            from .snp import array
            got = array(got) if isinstance(got, (list, tuple)) else got
            want = array(want) if isinstance(want, (list, tuple)) else want
        if isinstance(got, StackArr) and isinstance(want, StackArr):
            if len(got) != len(want):
                return self._emit(name, 'refuted', 'lengths differ')
            for i, (a, b) in enumerate(zip(got.items, want.items)):
                self.eq('%s[%d]' % (name, i), a, b, flat=flat)
            return
        if isinstance(got, np.ndarray) and isinstance(want, np.ndarray):
            if not flat and got.shape != want.shape:
                return self._emit(name, 'refuted', 'shape %s vs %s' % (got.shape, want.shape))
            a, b = got.ravel(), want.ravel()
            if a.shape != b.shape:
                return self._emit(name, 'refuted', 'size')
            for i, (x, y) in enumerate(zip(a, b)):
                if x is None or y is None:
                    if x is not y:
                        return self._emit(name, 'refuted', 'None')
                    continue
                if isinstance(x, SymArr) or isinstance(y, SymArr):
                    self.eq('%s[%d]' % (name, i), x, y)
                    continue
                if not self._scz(to_sc(x) - to_sc(y)):
                    return self._emit(name, 'unproved', ('diff', to_sc(x), to_sc(y)))
            return self._emit(name, 'proved')
        try:
            g, w = lift(got), lift(want)
        except TypeError as e:
            return self._emit(name, 'refuted', str(e))
        if isinstance(g, Sc) and isinstance(w, Sc):
            if self._scz(g - w):
                return self._emit(name, 'proved')
            return self._emit(name, 'unproved', ('diff', g, w))
        if isinstance(g, Sc) or isinstance(w, Sc):
            if flat:
                s, a = (g, w) if isinstance(g, Sc) else (w, g)
                if deq(a.mat.rows, 1) and deq(a.mat.cols, 1):
                    if self._scz(a.mat.scalar() - s):
                        return self._emit(name, 'proved')
                    return self._emit(name, 'unproved', ('diff', a.mat.scalar(), s))
            return self._emit(name, 'refuted', 'scalar versus array')
        if flat:
            g, w = g.flatten(), w.flatten()
        if g.nd != w.nd:
            return self._emit(name, 'refuted', 'ndim %d vs %d' % (g.nd, w.nd))
        gm, wm = g.mat, w.mat
        if not (self._sheq(g.shape, w.shape)):
            return self._emit(name, 'refuted', 'shape %r vs %r' % (g.shape, w.shape))
        if self._meq(gm, wm):
            return self._emit(name, 'proved')
        self._emit(name, 'unproved', ('diff', gm, wm))

    def _meq(self, a, b):
        from .mat import Algebra
        if a.equals(b):
            return True
        A = Algebra.cur()
        for _ in range(3):
            n0 = A.nrules
            A.complete(1)
            if a.equals(b):
                return True
            if A.nrules == n0:
                break
        return False

    def _scz(self, d):
        from .mat import Algebra
        if d.is_zero():
            return True
        d = Algebra.cur().renorm_sc(d)
        from .sc import norm
        return norm(d).is_zero()

    def _sheq(self, a, b):
        from .mat import deq
        from .sc import to_sc
        return len(a) == len(b) and all(deq(to_sc(x), to_sc(y)) for x, y in zip(a, b))

    lemma_eq = eq

    def eq_left(self, name, A, got, want, **k):
        """got = want, shown as A got = A want; A must be a matrix the code (or the
        specification) inverts on this path, hence non-singular"""
        from .arr import lift
        from .mat import Algebra
        am = lift(A).mat
        g, w = lift(got), lift(want)
        if not self._invertible(am):
            return self._emit(name, 'unproved', ('cond: factor not known to be invertible', None, None))
        if g.nd != w.nd or not self._sheq(g.shape, w.shape):
            return self._emit(name, 'refuted', 'shape %r vs %r' % (g.shape, w.shape))
        if self._meq(am @ g.mat, am @ w.mat):
            return self._emit(name, 'proved')
        self._emit(name, 'unproved', ('diff', g.mat, w.mat))

    def _invertible(self, m):
        from .mat import Algebra
        A = Algebra.cur()
        from .mat import d1
        if d1(m.rows) and d1(m.cols):
            return True     # the code divides by it
        if not (m.rows is m.cols or self._sheq((m.rows,), (m.cols,))):
            return False
        if len(m.terms) == 1:
            (w, c), = m.terms.items()
            if c.is_const() and c.const_val() != 0 and all(A.atoms[i].props & {'inv', 'pd'} or A.atoms[i].kind in ('inv', 'inv_t') for i in w):
                return True
        n0 = len(A.atoms)
        m.inv()
        return len(A.atoms) == n0      # the same inverse was already taken on this path

    def same(self, name, got, want, exact=True):
        from .arr import SymArr, StackArr, NoneArr
        from .sc import Sc
        if got is want:
            return self._emit(name, 'proved')
        if isinstance(got, (SymArr, Sc, np.ndarray, StackArr, NoneArr)) or isinstance(want, (SymArr, Sc, np.ndarray, StackArr, NoneArr)):
            return self.eq(name, got, want)
        if callable(got) and callable(want):
            return self._emit(name, 'proved' if got == want else 'refuted')
        if isinstance(got, (list, tuple)) and type(got) is type(want):
            if len(got) != len(want):
                return self._emit(name, 'refuted', 'lengths differ')
            for i, (a, b) in enumerate(zip(got, want)):
                self.same('%s[%d]' % (name, i), a, b)
            return self._emit(name, 'proved')
        if isinstance(got, dict) and isinstance(want, dict):
            if set(got) != set(want):
                return self._emit(name, 'refuted', 'keys differ')
            for k in got:
                self.same('%s[%r]' % (name, k), got[k], want[k])
            return
        if type(got) is type(want) and hasattr(got, '__dict__') and not isinstance(got, type) and type(got).__module__.startswith('filterpy'):
            a, b = vars(got), vars(want)
            if set(a) != set(b):
                return self._emit(name, 'refuted', 'attributes differ')
            for k in a:
                self.same('%s.%s' % (name, k), a[k], b[k])
            return
        self._emit(name, 'proved' if identical(got, want) else 'refuted', '%r vs %r' % (got, want))

    def ok(self, name, cond, msg=''):
        from .sc import Cond
        if isinstance(cond, Cond):
            r = self.c.entailed(cond)
            if r is True:
                return self._emit(name, 'proved')
            if r is False:
                return self._emit(name, 'refuted', repr(cond))
            return self._emit(name, 'unproved', ('cond', cond, None))
        self._emit(name, 'proved' if cond else 'refuted', msg)

    def ge(self, name, a, b, tol=None):
        from .sc import to_sc
        self.ok(name, to_sc(a) >= to_sc(b))

    def _known_psd(self, xm):
        """declared psd, identity, or certified by an earlier obligation of this run"""
        from .sc import known_sign
        from .mat import Algebra
        at = Algebra.cur().atoms
        if not xm.terms:
            return True
        ok = True
        for w, c in xm.terms.items():
            if not (c.is_const() and c.const_val() >= 0 or known_sign(c) in (0, 1)):
                ok = False
                break
            if w == ():
                continue
            if len(w) == 1 and at[w[0]].tid == w[0] and ('psd' in at[w[0]].props or 'pd' in at[w[0]].props):
                continue
            ok = False
            break
        if ok:
            return True
        return any(xm._same_shape(m) and xm.equals(m) for m in self.certified)

    def psd_cert(self, name, M, parts):
        """M equals a sum of congruences A X A' of psd X, hence psd (Lean theorem
        `sum_congruences_psd` in /verif/lean)"""
        from .arr import lift
        from .mat import Mat
        from .arr import Sc
        def mm(v):
            v = lift(v)
            return Mat.scalar_mat(v) if isinstance(v, Sc) else v.mat
        m = mm(M)
        tot = Mat.zero(m.rows, m.cols)
        for a, x in parts:
            xm = mm(x)
            if not xm.is_sym():
                return self._emit(name, 'unproved', ('cert: part not symmetric', None, None))
            if not self._known_psd(xm):
                return self._emit(name, 'unproved', ('cert: part not known psd', None, None))
            am = mm(a) if a is not None else Mat.eye(xm.rows)
            tot = tot + am @ xm @ am.T
        if self._meq(m, tot):
            self.certified.append(m)
            return self._emit(name, 'proved')
        self._emit(name, 'unproved', ('diff', m, tot))

    def noalias(self, name, a, b):
        from .arr import SymArr, StackArr
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            return self._emit(name, 'refuted' if np.shares_memory(a, b) else 'proved', 'shared memory')
        if isinstance(a, SymArr) and isinstance(b, SymArr):
            return self._emit(name, 'refuted' if a.root() is b.root() else 'proved', 'shared storage')
        if isinstance(a, StackArr) and isinstance(b, StackArr):
            sh = {id(i.root()) for i in a.items} & {id(i.root()) for i in b.items}
            return self._emit(name, 'refuted' if sh else 'proved', 'shared storage')
        self._emit(name, 'refuted' if (a is b and isinstance(a, list)) else 'proved', 'same object')

    def raises(self, name, exc, f):
        try:
            f()
        except exc as e:
            if isinstance(e, Control):
                raise
            return self._emit(name, 'proved')
        except Control:
            raise
        except Exception as e:
            return self._emit(name, 'refuted', 'raised %s: %s' % (type(e).__name__, e))
        self._emit(name, 'refuted', 'did not raise')

    def call(self, name, f, *a, **k):
        try:
            r = f(*a, **k)
        except Control:
            raise
        except (TypeError, AttributeError) as e:
            # could be a gap of the symbolic library: only the concrete run can confirm it
            raise Unsupported('%s: %s' % (type(e).__name__, e))
        except Exception as e:
            self._emit(name, 'refuted', 'raised %s: %s' % (type(e).__name__, e))
            raise Done()
        self._emit(name, 'proved')
        return r

    def state(self, obj, skip=()):
        d = {}
        for k, v in vars(obj).items():
            if k in skip:
                continue
            d[k] = copy.deepcopy(v) if not callable(v) else v
        return d

    def unchanged(self, name, obj, snap, skip=()):
        now = vars(obj)
        for k, v in snap.items():
            if k in skip:
                continue
            if k not in now:
                self._emit('%s.%s' % (name, k), 'refuted', 'vanished')
                continue
            n0 = len(self.obls)
            self.same('%s.%s' % (name, k), now[k], v)

    def snap(self, v):
        return copy.deepcopy(v) if not callable(v) else v

    def random(self, preset=None):
        return _SymRandom(self)

    def all_none(self, name, v):
        from .arr import NoneArr
        if v is None:
            return self._emit(name, 'proved')
        if isinstance(v, NoneArr):
            return self._emit(name, 'refuted' if v.partial else 'proved', 'partly overwritten')
        if isinstance(v, np.ndarray):
            ok = v.size > 0 and all(x is None for x in v.ravel())
            return self._emit(name, 'proved' if ok else 'refuted', 'holds values')
        self._emit(name, 'refuted', 'holds values')

    def poke(self, arr):
        from .arr import SymArr
        if isinstance(arr, SymArr):
            m = arr.mat
            arr.set_mat(m + self._atom('poke', m.rows, m.cols))
        elif isinstance(arr, np.ndarray) and arr.dtype == object and arr.size:
            from .sc import new_sym, Sc
            for i in np.ndindex(*arr.shape):
                if arr[i] is not None:
                    arr[i] = arr[i] + Sc.sym(new_sym('poke'))


class _SymRandom:
    def __init__(self, W):
        self.W, self.draws = W, []

    def __enter__(self):
        self.W.c.choices['__rand__'] = self.draw
        return self.draws

    def __exit__(self, *a):
        self.W.c.choices.pop('__rand__', None)
        return False

    def draw(self, kind, *a, **k):
        from .arr import lift, SymArr
        W = self.W
        t = 'rnd%d' % len(self.draws)
        if kind == 'multivariate_normal':
            mean = k.get('mean', a[0] if a else None)
            cov = k.get('cov', a[1] if len(a) > 1 else None)
            size = k.get('size', a[2] if len(a) > 2 else None)
            d = lift(mean).shape[0]
            if size is None:
                v = W.vec(t, d, 1)
            else:
                v = W.mat(t, size, d)
            self.draws.append((kind, (mean, cov, size), {}, W.snap(v)))
            return v
        if kind in ('random', 'random_sample', 'rand'):
            size = k.get('size', a[0] if a else None)
            if isinstance(size, tuple):
                if len(size) != 1:
                    raise Unsupported('random shape')
                size = size[0]

            def one(i):
                s = W.scal('%s_%s' % (t, i), nonneg=True)
                W.c.assume(s < 1)
                return s
            if size is None:
                v = one('')
            else:
                from .snp import array
                v = array([one(i) for i in range(int(size))]) if int(size) else np.zeros(0)
            self.draws.append((kind, (size,), {}, W.snap(v)))
            return v
        raise Unsupported('random source ' + kind)


class _SymMods:
    def __init__(self, loader):
        self._l = loader

    def __getattr__(self, n):
        return self._l.load('filterpy.' + n)
