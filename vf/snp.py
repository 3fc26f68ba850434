"""Contracts of the numpy / scipy / math primitives the verified code calls.

Every function here is a *trusted contract* on a dependency: it says what the
library function returns, exactly, over the reals.  Anything not listed raises
Unsupported (no verdict) instead of guessing."""
import builtins
import math as _math
import types
import numpy as np
from .ctx import ctx, Unsupported
from . import sc as S
from .sc import Sc, to_sc, ZERO, ONE, dim_resolve, Cond
from .mat import Mat, Algebra, d1, deq, chol as mat_chol, raise_linalg
from .arr import (SymArr, StackArr, NoneArr, SymList, lift, dim_out, force_eq, dot as arr_dot,
                  outer as arr_outer, as_scalar, binop, fit, mat_of_nd)

TRUSTED = set()


class ONd(np.ndarray):
    """object ndarray whose matrix product understands SymArr"""

    def dot(self, o):
        return dot(self, o)

    def __deepcopy__(self, memo):
        if any(isinstance(e, (SymArr, list, dict)) for e in self.flat):
            r = np.empty(self.shape, dtype=object).view(ONd)
            import copy
            for i, e in enumerate(self.flat):
                r.flat[i] = copy.deepcopy(e, memo)
            return r
        return self.copy()

    def _as_sc(self):
        return self.flat[0] if self.ndim == 0 else None

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def fill(self, v):
        self[...] = v

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.ndim and v.size == 1 and not isinstance(self[k], np.ndarray):
            v = v.flat[0]            # numpy stores the only element
        np.ndarray.__setitem__(self, k, v)

    def _inplace(self, o, f, g):
        if not isinstance(o, SymArr):
            return f(self, o)
        r = g(lift(self), o)
        if tuple(r.shape) != self.shape:
            raise ValueError('non-broadcastable output operand')
        for i in np.ndindex(*self.shape):
            np.ndarray.__setitem__(self, i, to_sc(r[i if len(i) > 1 else i[0]]))
        return self

    def __iadd__(self, o):
        return self._inplace(o, np.ndarray.__iadd__, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, np.ndarray.__isub__, lambda a, b: a - b)

    def astype(self, *a, **k):
        return self.copy()

    def sum(self, axis=None, **k):
        r = np.sum(np.asarray(self), axis=axis)
        return r.view(ONd) if isinstance(r, np.ndarray) else r


def ond(a):
    if isinstance(a, ONd):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            b = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                b[i] = to_sc(a[i]) if not isinstance(a[i], (str, bytes)) else a[i]
            a = b
        return a.view(ONd)
    return a


def trusted(name):
    TRUSTED.add(name)


def is_sym(*args):
    for a in args:
        if isinstance(a, (SymArr, StackArr, NoneArr, SymList)):
            return True
        if isinstance(a, (list, tuple)) and is_sym(*a):
            return True
    return False


def norm_shape(sh):
    if isinstance(sh, (list, tuple)):
        return tuple(dim_out(to_sc(s)) for s in sh)
    return (dim_out(to_sc(sh)),)


def all_int(sh):
    return all(isinstance(s, (int, np.integer)) for s in sh)


def full_like_shape(sh, v):
    sh = norm_shape(sh)
    v = to_sc(v)
    if getattr(ctx(), 'time_syms', None):
        from .induct import is_time, time_zeros
        if len(sh) >= 1 and is_time(sh[0]):
            return time_zeros(sh, v)
    if all_int(sh) and not (ctx().symones and len(sh) in (1, 2) and all(s == 1 for s in sh)):
        for s in sh:
            if s < 0:
                raise ValueError('negative dimensions are not allowed')
        a = np.empty(sh, dtype=object)
        a[...] = v
        return a.view(ONd)
    for s in sh:
        if isinstance(s, Sc):
            if bool(s < 0):
                raise ValueError('negative dimensions are not allowed')
    if len(sh) == 1:
        return SymArr(Mat.ones_vec(sh[0]).scale(v) if v.num else Mat.zero(sh[0], 1), 1)
    if len(sh) == 2:
        return SymArr(Mat.ones(*sh).scale(v) if v.num else Mat.zero(*sh), 2)
    if isinstance(sh[0], (int, np.integer)):
        return StackArr([full_like_shape(sh[1:], v) for _ in range(sh[0])])
    raise Unsupported('array of symbolic length and rank %d' % len(sh))


def zeros(shape, dtype=None, *a, **k):
    return full_like_shape(shape, 0)


def ones(shape, dtype=None, *a, **k):
    return full_like_shape(shape, 1)


def empty(shape, dtype=None, *a, **k):
    return full_like_shape(shape, 0)


def full(shape, v, *a, **k):
    return full_like_shape(shape, as_scalar(v))


def eye(n, m=None, *a, **k):
    if m is not None:
        p, q = dim_out(to_sc(n)), dim_out(to_sc(m))
        if isinstance(p, (int, np.integer)) and isinstance(q, (int, np.integer)):
            a = full_like_shape((p, q), 0)
            for i in range(min(p, q)):
                a[i, i] = ONE
            return a
        if ctx().entailed(to_sc(n).__eq__(to_sc(m))) is not True:
            # a rectangular identity: nothing is assumed about its entries
            at = Algebra.cur().atom('eye#%d' % len(Algebra.cur().atoms), to_sc(n), to_sc(m), 'eyerect')
            return SymArr(Mat.of(at), 2)
    n = dim_out(to_sc(n))
    if isinstance(n, (int, np.integer)):
        a = full_like_shape((n, n), 0)
        for i in range(n):
            a[i, i] = ONE
        return a
    return SymArr(Mat.eye(n), 2)


def zeros_like(a, *aa, **k):
    return full_like_shape(shape(a), 0)


def ones_like(a, *aa, **k):
    return full_like_shape(shape(a), 1)


def shape(a):
    a = unseq(a)
    if isinstance(a, (SymArr, StackArr, NoneArr)):
        return a.shape
    if isinstance(a, Sc):
        return ()
    if hasattr(a, 'shape') and not isinstance(a, np.ndarray):
        return a.shape
    if isinstance(a, (list, tuple)) and is_sym(a):
        return array(a).shape
    if isinstance(a, (list, tuple)):
        return array(a).shape
    return np.shape(a)


def ndim(a):
    return builtins.len(shape(a))


def size(a, axis=None):
    sh = shape(a)
    if axis is not None:
        if isinstance(a, (list, tuple)):
            return builtins.len(a)
        return sh[axis]
    r = ONE
    for s in sh:
        r = r * to_sc(s)
    return dim_out(r)


def isscalar(a):
    if isinstance(a, Sc):
        return True
    if isinstance(a, (SymArr, StackArr, NoneArr, SymList)):
        return False
    return np.isscalar(a)


def unseq(o):
    """list grown in a summarised loop -> its symbolic sequence"""
    if type(o) is list:
        for e in o:
            if type(e).__name__ == 'SeqMarker':
                if builtins.len(o) != 1:
                    raise Unsupported('list grown around a symbolic loop')
                return e.seq
    return o


def array(o, dtype=None, copy=True, ndmin=0, **k):
    o = unseq(o)
    if isinstance(o, (SymArr, StackArr, NoneArr)):
        return o.copy()
    if hasattr(o, '_vf_copy'):
        return o._vf_copy()
    if isinstance(o, SymList):
        if o.proto[0] is None:
            return NoneArr((o.n,))
        p = lift(o.proto[0])
        if isinstance(p, Sc):
            return full_like_shape((o.n,), p)
        raise Unsupported('array of replicated arrays')
    if isinstance(o, Sc):
        a = np.empty((), dtype=object)
        a[()] = o
        return a.view(ONd)
    if isinstance(o, (list, tuple)):
        if any(isinstance(e, SymList) for e in o):
            if all(isinstance(e, SymList) and e.proto[0] is None for e in o):
                return NoneArr((builtins.len(o), o[0].n))
            raise Unsupported('array of symbolic lists')
        if any(hasattr(e, '_vf_copy') for e in o):
            raise Unsupported('array of sequences')
        if any(isinstance(e, SymArr) for e in o):
            es = [lift(e) for e in o]
            if all(isinstance(e, SymArr) and e.nd == 1 and e.mat.rows.is_const() for e in es) or \
               all(isinstance(e, Sc) or (isinstance(e, SymArr) and d1(e.mat.rows) and d1(e.mat.cols) and e.nd == 1) for e in es) and False:
                pass
            else:
                if all(isinstance(e, SymArr) for e in es):
                    if builtins.len(es) == 1 and es[0].nd == 1:
                        return SymArr(es[0].mat.T, 2)
                    return StackArr([e.copy() for e in es])
                raise Unsupported('ragged array')
        a = np.array([np.asarray(e) if isinstance(e, (np.ndarray, SymArr)) else e for e in o], dtype=object)
        return ond(a)
    if isinstance(o, np.ndarray):
        return ond(o.copy())
    if o is None:
        return np.array(None, dtype=object)
    a = np.array(o)
    if a.dtype.kind in 'biuf':
        return ond(a)
    return a


def asarray(o, dtype=None, *a, **k):
    o = unseq(o)
    if isinstance(o, (SymArr, StackArr, NoneArr)) or isinstance(o, np.ndarray):
        return o
    if hasattr(o, '_vf_copy'):
        return o
    return array(o)


def copy(a, *aa, **k):
    return array(a)


def atleast_1d(a):
    if isinstance(a, (SymArr, StackArr, NoneArr)):
        return a
    if to_sc(a) is not None and not isinstance(a, np.ndarray):
        return array([a])
    r = asarray(a)
    return ond(np.atleast_1d(r))


def atleast_2d(a):
    a = unseq(a)
    if hasattr(a, '_vf_rows'):
        return a._vf_rows()
    if isinstance(a, list) and is_sym(a):
        a = array(a)
    if isinstance(a, StackArr):
        # list of 1-D rows -> matrix (concrete number of rows)
        if all(i.nd == 1 for i in a.items):
            n = builtins.len(a.items)
            m = Mat.zero(n, a.items[0].mat.rows)
            for j, it in enumerate(a.items):
                m = m + Mat.basis(n, j) @ it.mat.T
            return SymArr(m, 2)
        raise Unsupported('atleast_2d of a stack')
    if isinstance(a, SymArr):
        if a.nd == 2:
            return a
        return SymArr(None, 2, lambda: a.mat.T, lambda v: a.set_mat(v.T), a)
    if isinstance(a, NoneArr):
        return a if a.ndim == 2 else NoneArr((1,) + a.shape)
    r = asarray(a)
    return ond(np.atleast_2d(r))


def dot(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.ndim == 0:
            return ond(a.item() * b) if b.ndim else a.item() * b.item()
        if b.ndim == 0:
            return ond(a * b.item())
        r = np.dot(np.asarray(a), np.asarray(b))
        return ond(r) if isinstance(r, np.ndarray) else r
    if is_sym(a, b) or hasattr(a, '_vf_copy') or hasattr(b, '_vf_copy'):
        return arr_dot(a, b)
    sa, sb = to_sc(a), to_sc(b)
    if sa is not None and sb is not None:
        return sa * sb
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return dot(a, b)
    if a is None or b is None:
        raise TypeError("unsupported operand type(s) for *: 'NoneType'")
    return ond(np.asarray(a, dtype=object) * np.asarray(b, dtype=object)) if not (sa is None and sb is None) else arr_dot(a, b)


def outer(a, b):
    if is_sym(a, b):
        return arr_outer(a, b)
    return ond(np.outer(ond(asarray(a)), ond(asarray(b))))


def _ew(op):
    def f(a, b, *r, **k):
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(b, (list, tuple)):
            b = array(b)
        if a is None or b is None:
            raise TypeError('unsupported operand')
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        return a / b
    return f


add = _ew('add')
subtract = _ew('sub')
multiply = _ew('mul')
divide = _ew('div')


def transpose(a, *r):
    return a.T


def diag(v, k=0):
    if not (isinstance(k, int) and k == 0):
        raise Unsupported('off-diagonal diag')
    if isinstance(v, (list, tuple)):
        v = array(v)
    if isinstance(v, SymArr):
        if v.nd == 1:
            return SymArr(Mat.diag_of(v.mat), 2)
        raise Unsupported('diag of a matrix')
    return ond(np.diag(np.asarray(v)))


def reshape(a, shp, *r, **k):
    if isinstance(a, SymArr):
        return a.reshape(shp)
    s = to_sc(a)
    if s is not None and not isinstance(a, np.ndarray):
        a = array([s])
    a = asarray(a)
    shp = norm_shape(shp)
    if isinstance(a, np.ndarray) and not all_int(shp):
        return lift(a).reshape(shp)
    return ond(a.reshape(shp)) if isinstance(a, np.ndarray) else a.reshape(shp)


def ravel(a):
    return a.ravel() if hasattr(a, 'ravel') else asarray(a).ravel()


def squeeze(a, *r):
    return a.squeeze()


def sum_(a, axis=None, **k):
    if hasattr(a, '_vf_sum'):
        return a._vf_sum(axis)
    if isinstance(a, SymArr):
        return a.sum(axis)
    if isinstance(a, StackArr):
        if axis == 0:
            t = a.items[0].copy()
            for i in a.items[1:]:
                t = t + i
            return t
        raise Unsupported('sum of a stack')
    if isinstance(a, (list, tuple)):
        a = array(a)
        if isinstance(a, (SymArr, StackArr)):
            return sum_(a, axis)
    if isinstance(a, Sc):
        return a
    r = np.sum(np.asarray(a), axis=axis)
    return ond(r) if isinstance(r, np.ndarray) else r


def mean(a, axis=None, **k):
    if isinstance(a, SymArr):
        return a.mean(axis)
    if isinstance(a, (list, tuple)):
        a = array(a)
    n = a.size if axis is None else a.shape[axis]
    s = np.sum(np.asarray(a), axis=axis)
    r = s / to_sc(n)
    return ond(r) if isinstance(r, np.ndarray) else r


def hstack(seq):
    return concatenate(list(seq), axis=1 if ndim(list(seq)[0]) > 1 else 0)


def vstack(seq):
    seq = [atleast_2d(s) for s in seq]
    return concatenate(seq, axis=0)


def concatenate(seq, axis=0, **k):
    seq = list(seq)
    if not is_sym(seq):
        return ond(np.concatenate([np.asarray(asarray(s)) for s in seq], axis=axis))
    arrs = [lift(s) for s in seq]
    if axis in (1, -1) and arrs[0].nd == 2:
        return concatenate([a.T for a in arrs], 0).T.copy()
    tot = ZERO
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = tot + a.mat.rows
    partition(tot, [(o, a.mat.rows) for o, a in zip(offs, arrs)])
    m = Mat.zero(tot, arrs[0].mat.cols)
    for o, a in zip(offs, arrs):
        m = m + Mat.inj(tot, o, a.mat.rows) @ a.mat
    return SymArr(m, arrs[0].nd)


def partition(tot, parts):
    """register sum_i J_i J_i' = I for consecutive blocks covering [0, tot)"""
    A = Algebra.cur()
    if builtins.len(parts) < 2:
        return
    Js = [Mat.inj(tot, o, l) for o, l in parts]
    I = Mat.eye(tot)
    last = Js[-1]
    (w, c), = last.terms.items()
    key = ('partition', to_sc(tot).key(), tuple((to_sc(o).key(), to_sc(l).key()) for o, l in parts))
    if key in A.by_key:
        return
    A.by_key[key] = True
    if builtins.len(w) != 1:
        return
    rhs = I
    for J in Js[:-1]:
        rhs = rhs - J @ J.T
    lhs = (w[0], A.atoms[w[0]].tid)
    A.add_rule(lhs, rhs)
    if not deq(to_sc(tot), ONE):
        o = Mat.ones_vec(tot)
        s = Mat.zero(tot, 1)
        for J, (off, l) in zip(Js, parts):
            s = s + J @ Mat.ones_vec(l)
        A.ones_split = getattr(A, 'ones_split', {}) if False else {}


class _LazyOuter:
    """einsum('ij,ik->ijk'): only its sum over axis 0 is representable"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _vf_sum(self, axis):
        if axis == 0:
            return dot(self.a.T, self.b)
        raise Unsupported('einsum axis')

    def sum(self, axis=None):
        return self._vf_sum(axis)


def einsum(sub, *ops, **k):
    if not is_sym(*ops):
        r = np.einsum(sub, *[np.asarray(o) for o in ops])
        return ond(r) if isinstance(r, np.ndarray) else r
    sub = sub.replace(' ', '')
    if builtins.len(ops) == 2 and '->' in sub:
        ins, out = sub.split('->')
        a, b = ins.split(',')
        if builtins.len(a) == 2 and builtins.len(b) == 2:
            common = set(a) & set(b)
            if builtins.len(common) == 1:
                c = common.pop()
                A = ops[0] if a[1] == c else ops[0].T
                B = ops[1] if b[0] == c else ops[1].T
                ra = a.replace(c, '')
                rb = b.replace(c, '')
                if out == ra + rb:
                    return dot(A, B)
                if out == rb + ra:
                    return dot(A, B).T
                if out == c + ra + rb:
                    return _LazyOuter(A.T, B)
                if out == c + rb + ra:
                    return _LazyOuter(B, A.T)
    raise Unsupported('einsum ' + sub)


def _elementwise(f, name):
    def g(a, *r, **k):
        if isinstance(a, Sc) or isinstance(a, (int, float, np.generic)):
            return f(to_sc(a))
        if isinstance(a, np.ndarray):
            if a.ndim == 0:
                return f(to_sc(a.item()))
            b = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                b[i] = f(to_sc(a[i]))
            return b.view(ONd)
        if isinstance(a, SymArr):
            m = a.mat
            if d1(m.rows) and d1(m.cols):
                return SymArr(Mat.scalar_mat(f(m.scalar())), a.nd)
        if isinstance(a, (list, tuple)):
            return g(array(a))
        raise Unsupported('elementwise ' + name)
    g.__name__ = name
    return g


def _abs(x):
    return builtins.abs(x)


def _npsqrt(x):
    if x.is_const() and x.const_val() < 0:
        raise Unsupported('sqrt of negative (nan)')
    return S.sqrt(x)


sqrt = _elementwise(_npsqrt, 'sqrt')
exp = _elementwise(S.exp, 'exp')
log = _elementwise(S.log, 'log')
absolute = _elementwise(_abs, 'abs')
square = _elementwise(lambda x: x * x, 'square')
isnan = _elementwise(lambda x: False, 'isnan')


def cumsum(a, *r, **k):
    a = asarray(a)
    if isinstance(a, SymArr):
        raise Unsupported('cumsum')
    return ond(np.cumsum(np.asarray(a), *r, **k))


def trace(a, *r):
    if isinstance(a, SymArr):
        raise Unsupported('trace')
    return np.trace(np.asarray(a))


def allclose(a, b, **k):
    from .world import arr_equal
    raise Unsupported('allclose')


# ------------------------------------------------------------------ linalg
def _obj_inv(a):
    n = a.shape[0]
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise_linalg('must be square')
    if n == 1:
        d = to_sc(a[0, 0])
        if d.is_zero():
            raise_linalg('Singular matrix')
        return ond(np.array([[ONE / d]], dtype=object))
    if n > 6:
        raise Unsupported('large concrete inverse')
    det = _det(a)
    if det.is_zero():
        raise_linalg('Singular matrix')
    inv = ONE / det
    b = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [[to_sc(a[r, c]) for c in range(n) if c != i] for r in range(n) if r != j]
            v = _detl(minor)
            if (i + j) % 2:
                v = -v
            b[i, j] = v * inv
    return b.view(ONd)


def _det(a):
    return _detl([[to_sc(x) for x in row] for row in a])


def _detl(m):
    n = builtins.len(m)
    if n == 0:
        return ONE
    if n == 1:
        return m[0][0]
    tot = ZERO
    for j in range(n):
        if not m[0][j].num:
            continue
        v = m[0][j] * _detl([r[:j] + r[j + 1:] for r in m[1:]])
        tot = tot + v if j % 2 == 0 else tot - v
    return tot


def inv(a, *r, **k):
    trusted('inv: X with E X = X E = I (requires E square and invertible)')
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray):
        if a.ndim != 2:
            raise_linalg('must be two-dimensional')
        return _obj_inv(a)
    if isinstance(a, SymArr):
        if a.nd != 2:
            raise_linalg('must be two-dimensional')
        m = a.mat
        if not force_eq(m.rows, m.cols):
            raise_linalg('must be square')
        return SymArr(m.inv(), 2)
    if to_sc(a) is not None:
        raise_linalg('0-dimensional array given')
    raise Unsupported('inv')


def pinv(a, *r, **k):
    trusted('pinv: equals inv on square invertible matrices (requires full rank)')
    return inv(a)


def det(a):
    if isinstance(a, SymArr):
        if d1(a.mat.rows):
            return a.mat.scalar()
        raise Unsupported('det')
    return _det(asarray(a))


def _obj_chol(a, lower):
    n = a.shape[0]
    if n > 4:
        raise Unsupported('large concrete cholesky')
    L = full_like_shape((n, n), 0)
    for j in range(n):
        s = to_sc(a[j, j])
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = S.sqrt(s)
        for i in range(j + 1, n):
            t = to_sc(a[i, j])
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return L if lower else ond(L.T)


def sp_cholesky(a, lower=False, *r, **k):
    trusted("cholesky: triangular U with U'U = E (lower: LL' = E) (requires E symmetric positive definite)")
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray):
        if a.ndim != 2:
            raise ValueError('expected square matrix')
        return _obj_chol(a, lower)
    if isinstance(a, SymArr):
        return SymArr(mat_chol(a.mat, bool(lower)), 2)
    raise ValueError('expected square matrix')


def np_cholesky(a):
    return sp_cholesky(a, lower=True)


def multi_dot(arrays):
    out = None
    for a in arrays:
        out = a if out is None else dot(out, a)
    return out


def np_qr(a, mode='reduced'):
    if mode not in ('reduced', 'complete', 'r'):
        raise Unsupported('qr mode')
    q = qr(a, mode='full' if mode == 'complete' else 'economic')
    return q[1] if mode == 'r' else q


def qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    if pivoting or mode not in ('full', 'r', 'economic'):
        raise Unsupported('qr mode')
    if mode == 'r':
        return (qr(a)[1],)
    if mode == 'economic':
        R = qr(a)[1]
        if not R.square:
            R = R[:a.mat.cols, :]
        return (QFactor(), R)
    trusted("qr: R upper triangular with R'R = M'M (Q orthogonal, not modelled)")
    if isinstance(a, SymArr) and a.nd == 2:
        A = Algebra.cur()
        G = (a.mat.T @ a.mat).renorm()
        key = ('qr', a.mat.key())
        at = A.by_key.get(key)
        if at is None:
            at = A.atom('R%d' % builtins.len(A.atoms), a.mat.rows, a.mat.cols, 'qr', (a.mat, G), key=key)
        return (QFactor(), QrR(at, a.mat.rows, a.mat.cols, G))
    raise Unsupported('qr of a concrete matrix')


class QFactor:
    pass


class QrR(SymArr):
    """upper-triangular factor; slicing introduces its blocks with R'R = G"""

    def __init__(self, at, rows, cols, G):
        SymArr.__init__(self, Mat.of(at), 2)
        self.at, self.G = at, G
        self.square = deq(rows, cols)

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            idx = (idx, slice(None))
        if isinstance(idx, tuple) and builtins.len(idx) == 2 and all(isinstance(i, slice) for i in idx):
            m = Mat.of(self.at)
            cut = None
            for s, n in zip(idx, (m.rows, m.cols)):
                for v in (s.start, s.stop):
                    if v is not None and not to_sc(v).is_zero() and not deq(to_sc(v), n):
                        v = to_sc(v)
                        if cut is not None and not deq(cut, v):
                            raise Unsupported('qr: two cuts')
                        cut = v
            if cut is not None:
                self._split(cut)
        return SymArr.__getitem__(self, idx)

    def _split(self, cut):
        A = Algebra.cur()
        at = self.at
        key = ('qrsplit', at.id)
        if key in A.by_key:
            return
        A.by_key[key] = True
        N, C = at.rows, at.cols
        G = self.G
        if deq(cut, C):
            # R (N x C), N > C: R = J0 R00 (rows below C are zero)
            J0 = Mat.inj(N, 0, C)
            a = A.atom('R00_%d' % at.id, C, C, 'qrb', at, props=('upper',))
            A.setw(a, G)
            A.setw(at, G)
            at.weight += 2
            A.atoms[at.tid].weight = at.weight
            A.add_rule((at.id,), J0 @ Mat.of(a))
            A.add_rule((a.tid, a.id), G)
        elif self.square:
            l1 = C - cut
            partition(N, [(ZERO, cut), (cut, l1)])
            J0, J1 = Mat.inj(N, 0, cut), Mat.inj(N, cut, l1)
            a = A.atom('R00_%d' % at.id, cut, cut, 'qrb', at, props=('upper',))
            b = A.atom('R01_%d' % at.id, cut, l1, 'qrb', at)
            c = A.atom('R11_%d' % at.id, l1, l1, 'qrb', at, props=('upper',))
            g00, g01, g11 = (J0.T @ G @ J0).renorm(), (J0.T @ G @ J1).renorm(), (J1.T @ G @ J1).renorm()
            A.setw(a, g00)
            A.setw(c, g11)
            A.setw(b, g11)
            c.weight += 1
            A.atoms[c.tid].weight = c.weight
            at.weight = a.weight + b.weight + c.weight + 2
            A.atoms[at.tid].weight = at.weight
            A.add_rule((at.id,), J0 @ Mat.of(a) @ J0.T + J0 @ Mat.of(b) @ J1.T + J1 @ Mat.of(c) @ J1.T)
            A.add_rule((a.tid, a.id), J0.T @ G @ J0)
            A.add_rule((a.tid, b.id), J0.T @ G @ J1)
            A.add_rule((c.tid, c.id), J1.T @ G @ J1 - Mat.of(b).T @ Mat.of(b))
        else:
            raise Unsupported('qr shape')
        A.wcache.clear()

    @property
    def mat(self):
        return Mat.of(self.at)


def _exp_mat(M):
    """exp(M): one atom per {M, -M, M', -M'}; exp(-M) = inv(exp M), exp(M') = exp(M)'"""
    A = Algebra.cur()
    M = M.renorm()
    if not M.terms:
        return Mat.eye(M.rows)
    for f, g in ((M, lambda e: e), (M.T, lambda e: e.T), (-M, lambda e: e.inv()), (-M.T, lambda e: e.inv().T)):
        a = A.by_key.get(('expm', f.renorm().key()))
        if a is not None:
            return g(Mat.of(a))
    a = A.atom('expm%d' % builtins.len(A.atoms), M.rows, M.cols, 'expm', M, key=('expm', M.key()), sym=M.is_sym())
    return Mat.of(a)


def _vanloan(M, W):
    """J(M, W) = int_0^1 exp(Ms) W exp(M's) ds (linear in W; J(-M, W) = exp(-M) J(M, W) exp(-M'))"""
    A = Algebra.cur()
    M, W = M.renorm(), W.renorm()
    if not W.terms:
        return W
    k = W.terms[sorted(W.terms)[0]]
    W = W.scale(ONE / k).renorm()
    a = A.by_key.get(('vanloan', M.key(), W.key()))
    if a is not None:
        return Mat.of(a).scale(k)
    a = A.by_key.get(('vanloan', (-M).renorm().key(), W.key()))
    if a is not None:
        E = _exp_mat(M)
        return (E @ Mat.of(a) @ E.T).scale(k)
    a = A.atom('vanloan%d' % builtins.len(A.atoms), M.rows, M.cols, 'vanloan', (M, W), key=('vanloan', M.key(), W.key()), sym=W.is_sym())
    return Mat.of(a).scale(k)


def expm(a):
    trusted("expm: exp(M') = exp(M)', exp(M) exp(-M) = I; Van Loan: exp [[M, W], [0, -M']] = [[exp M, J exp(-M')], [0, exp(-M')]] with J = int_0^1 exp(Ms) W exp(M's) ds")
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray):
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise ValueError('expected square array')
        if a.shape[0] == 1:
            return ond(np.array([[S.exp(to_sc(a[0, 0]))]], dtype=object))
        raise Unsupported('expm of a concrete matrix')
    if not isinstance(a, SymArr) or a.nd != 2:
        raise Unsupported('expm')
    m = a.mat
    if not force_eq(m.rows, m.cols):
        raise ValueError('expected square array')
    two = to_sc(2)
    h = m.rows / two
    if any(isinstance(c, int) or getattr(c, 'denominator', 1) == 1 for c in h.num.values()) and all(getattr(c, 'denominator', 1) == 1 for c in h.num.values()) and not h.den:
        partition(m.rows, [(ZERO, h), (h, h)])
        J0, J1 = Mat.inj(m.rows, 0, h), Mat.inj(m.rows, h, h)
        b = [[(p.T @ m @ q).renorm() for q in (J0, J1)] for p in (J0, J1)]
        if not b[1][0].terms and not (b[1][1] + b[0][0].T).renorm().terms:
            E = _exp_mat(b[0][0])
            D = E.inv().T
            r = J0 @ E @ J0.T + J0 @ (_vanloan(b[0][0], b[0][1]) @ D) @ J1.T + J1 @ D @ J1.T
            return SymArr(r.renorm(), 2)
        if not b[1][0].terms and not b[0][1].terms:
            r = J0 @ _exp_mat(b[0][0]) @ J0.T + J1 @ _exp_mat(b[1][1]) @ J1.T
            return SymArr(r.renorm(), 2)
    return SymArr(_exp_mat(m), 2)


def block_diag(*ms):
    ms = [asarray(m) for m in ms]
    if is_sym(ms):
        arrs = [lift(m) for m in ms]
        mats = [Mat.scalar_mat(a) if isinstance(a, Sc) else a.mat for a in arrs]
        ro = co = ZERO
        rp, cp = [], []
        for m in mats:
            rp.append((ro, m.rows))
            cp.append((co, m.cols))
            ro, co = ro + m.rows, co + m.cols
        partition(ro, rp)
        partition(co, cp)
        out = Mat.zero(ro, co)
        for m, (a, la), (b, lb) in zip(mats, rp, cp):
            out = out + Mat.inj(ro, a, la) @ m @ Mat.inj(co, b, lb).T
        return SymArr(out, 2)
    r = builtins.sum(np.atleast_2d(m).shape[0] for m in ms)
    c = builtins.sum(np.atleast_2d(m).shape[1] for m in ms)
    out = full_like_shape((r, c), 0)
    i = j = 0
    for m in ms:
        m = np.atleast_2d(np.asarray(m))
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return out


# ------------------------------------------------- functions that only move entries
def moves(name):
    """numpy's own function on arrays whose entries are all explicit"""
    def f(a, *rest, **k):
        a = unseq(a)
        if is_sym(a, *rest, *k.values()) or hasattr(a, '_vf_copy'):
            raise Unsupported('numpy.%s of symbolic arrays' % name)
        if isinstance(a, (list, tuple)):
            a = [np.asarray(asarray(x)) if np.ndim(x) else x for x in a] if name in ('stack', 'column_stack', 'dstack') else asarray(a)
        rest = [np.asarray(asarray(x)) if isinstance(x, (list, tuple, np.ndarray)) and name in ('kron', 'append') else x for x in rest]
        rest = [int(x.const_val()) if isinstance(x, Sc) and x.is_const() else x for x in rest]
        if builtins.any(isinstance(x, Sc) for x in rest) and name != 'kron':
            raise Unsupported('numpy.%s with a symbolic size' % name)
        return ond(getattr(np, name)(np.asarray(a) if isinstance(a, np.ndarray) else a, *rest, **k))
    f.__name__ = name
    return f


def column_stack(seq):
    seq = list(seq)
    return hstack([q.reshape(-1, 1) if ndim(q) == 1 else q for q in [asarray(a) for a in seq]])


def block(rows):
    if not (isinstance(rows, list) and rows and builtins.all(isinstance(r, list) for r in rows)):
        raise Unsupported('numpy.block')
    if builtins.any(ndim(a) != 2 for r in rows for a in r):
        raise Unsupported('numpy.block')
    return vstack([hstack(r) for r in rows])


def expand_dims(a, axis):
    a = asarray(a)
    if ndim(a) != 1 or axis not in (0, 1, -1):
        raise Unsupported('numpy.expand_dims')
    return a.reshape(1, -1) if axis == 0 else a.reshape(-1, 1)


# ------------------------------------------------------------------ Gaussian
LOG2PI = None


def gauss_logpdf(d, cov):
    """-1/2 (d' C^-1 d + n log 2 pi + log det C), d column Mat"""
    cov = cov.renorm()
    q = (d.T @ cov.inv() @ d).scalar()
    n = dim_resolve(cov.rows)
    ld = logdet(cov)
    l2p = S.log(2 * PI())
    return (q + n * l2p + ld) * S.frac(-0.5)


def logdet(cov):
    """log |det| of a square Mat"""
    cov = cov.renorm()
    if d1(dim_resolve(cov.rows)):
        return S.log(cov.scalar())
    return Sc.sym(S.new_sym('logdet', 'fn', ('logdet', cov), key=('logdet', cov.key())))


def slogdet(a):
    trusted('numpy.linalg.slogdet(C)[1] = log det C (C positive definite)')
    if not is_sym(a):
        return np.linalg.slogdet(a)
    a = lift(a)
    if a.nd != 2 or not deq(a.mat.rows, a.mat.cols):
        raise_linalg('must be square')
    return (ONE, logdet(a.mat))


def solve(a, b, *r, **k):
    if r or k:
        raise Unsupported('solve options')
    if not is_sym(a, b):
        return np.linalg.solve(a, b)
    return dot(inv(a), b)


def PI():
    return Sc.sym(S.new_sym('pi', 'pi', None, pos=True, key=('pi',)))


def colmat(v):
    v = lift(v)
    if isinstance(v, Sc):
        return Mat.scalar_mat(v)
    if v.nd == 1:
        return v.mat
    m = v.mat
    if d1(m.cols):
        return m
    if d1(m.rows):
        return m.T
    raise Unsupported('not a vector')


def mvn_logpdf(x, mean=None, cov=1, allow_singular=False):
    trusted('scipy.stats.multivariate_normal.logpdf: the Gaussian log-density formula (positive definite covariance)')
    c = lift(cov)
    C = Mat.scalar_mat(c) if isinstance(c, Sc) else (c.mat if c.nd == 2 else Mat.diag_of(c.mat))
    xv = lift(x)
    if isinstance(xv, SymArr) and xv.nd == 2:
        # scipy: last axis is the component axis
        if force_eq(xv.mat.rows, 1):
            xm = xv.mat.T
        else:
            raise Unsupported('batched logpdf')
        shape1 = True
    else:
        xm = Mat.scalar_mat(xv) if isinstance(xv, Sc) else xv.mat
        shape1 = False
    if mean is None:
        d = xm
    else:
        mm = colmat(mean)
        d = expand_v(xm, C.rows) - expand_v(mm, C.rows)
    d = expand_v(d, C.rows)
    return gauss_logpdf(d, C)


def expand_v(m, n):
    if not deq(m.rows, n):
        if not force_eq(m.rows, n):
            if force_eq(m.rows, 1):
                return Mat.ones_vec(n) @ m
            raise ValueError('operands could not be broadcast together')
    return m


class _MVN:
    @staticmethod
    def logpdf(x, mean=None, cov=1, allow_singular=False):
        return mvn_logpdf(x, mean, cov, allow_singular)

    @staticmethod
    def pdf(x, mean=None, cov=1, allow_singular=False):
        return S.exp(mvn_logpdf(x, mean, cov, allow_singular))

    def __getattr__(self, n):
        raise Unsupported('multivariate_normal.' + n)


class _Norm:
    @staticmethod
    def cdf(x, loc=0, scale=1):
        trusted('scipy.stats.norm.cdf(x, m, s) = Phi((x - m)/s)')
        z = S.canon((to_sc(x) - to_sc(loc)) / to_sc(scale))
        return S.ufn('Phi', [z])

    def __getattr__(self, n):
        raise Unsupported('norm.' + n)


# ------------------------------------------------------------------ modules
class ProxyModule(types.ModuleType):
    def __init__(self, name, table, real=None):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(table)
        self.__dict__['_vf_real'] = real

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = self.__dict__.get('_vf_real')
        if real is not None and not hasattr(real, n):
            raise AttributeError(n)
        full = self.__name__ + '.' + n

        def missing(*a, **k):
            raise Unsupported('no contract for ' + full)
        missing.__name__ = n
        if real is not None:
            rv = getattr(real, n)
            if isinstance(rv, type) and n in ('ndarray', 'generic', 'number', 'integer', 'floating', 'float64', 'int64', 'bool_'):
                return rv
            if isinstance(rv, types.ModuleType):
                return ProxyModule(full, {}, rv)
            if isinstance(rv, (int, float, str)):
                return rv
        self.__dict__[n] = missing
        return missing


def _rand(kind):
    def f(*a, **k):
        h = ctx().choices.get('__rand__')
        if h is None:
            raise Unsupported('random source not modelled here: ' + kind)
        return h(kind, *a, **k)
    return f


def build_modules():
    import scipy, scipy.linalg, scipy.stats
    linalg_np = ProxyModule('numpy.linalg', dict(inv=inv, pinv=pinv, cholesky=np_cholesky, qr=np_qr, multi_dot=multi_dot, det=det, solve=solve, slogdet=slogdet,
                                                 LinAlgError=np.linalg.LinAlgError), np.linalg)
    random_np = ProxyModule('numpy.random', dict((k, _rand(k)) for k in
                            ('random', 'rand', 'randn', 'uniform', 'multivariate_normal', 'normal', 'random_sample', 'choice', 'multinomial')), np.random)
    nptab = dict(zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=eye, zeros_like=zeros_like,
                 ones_like=ones_like, shape=shape, ndim=ndim, size=size, isscalar=isscalar, array=array,
                 asarray=asarray, asanyarray=asarray, copy=copy, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
                 dot=dot, matmul=dot, outer=outer, add=add, subtract=subtract, multiply=multiply, divide=divide,
                 true_divide=divide, transpose=transpose, diag=diag, reshape=reshape, ravel=ravel, squeeze=squeeze,
                 sum=sum_, mean=mean, hstack=hstack, vstack=vstack, concatenate=concatenate, einsum=einsum,
                 sqrt=sqrt, exp=exp, log=log, abs=absolute, absolute=absolute, square=square, isnan=isnan,
                 cumsum=cumsum, trace=trace, newaxis=None, linalg=linalg_np, random=random_np, pi=None,
                 float64=float, inf=float('inf'), ndarray=np.ndarray, r_=_RC(0), c_=_RC(1),
                 inner=dot, average=None, allclose=allclose)
    nptab['float'] = float
    for q in ('kron', 'tile', 'repeat', 'roll', 'flip', 'append', 'stack', 'tril', 'triu', 'swapaxes'):
        nptab[q] = moves(q)
    nptab.update(column_stack=column_stack, block=block, expand_dims=expand_dims, negative=lambda a: -asarray(a),
                 empty_like=zeros_like, full_like=lambda a, v, *r, **k: full_like_shape(shape(a), as_scalar(v)))
    del nptab['average'], nptab['pi']
    np_mod = NpModule('numpy', nptab, np)
    sp_linalg = ProxyModule('scipy.linalg', dict(inv=inv, pinv=pinv, cholesky=sp_cholesky, qr=qr, det=det, solve=solve, expm=expm,
                                                 block_diag=block_diag, LinAlgError=np.linalg.LinAlgError), scipy.linalg)
    sp_stats = ProxyModule('scipy.stats', dict(multivariate_normal=_MVN(), norm=_Norm()), scipy.stats)
    import scipy.sparse
    sp_sparse = ProxyModule('scipy.sparse', dict(issparse=lambda a: False), scipy.sparse)
    sp = ProxyModule('scipy', dict(linalg=sp_linalg, stats=sp_stats, sparse=sp_sparse), scipy)
    mtab = dict(sqrt=lambda x: msqrt(x), exp=lambda x: S.exp(msc(x)), log=lambda x: mlog(x),
                factorial=mfactorial, isnan=lambda x: False, floor=mfloor, pow=lambda a, b: to_sc(a) ** to_sc(b),
                fabs=lambda x: builtins.abs(msc(x)))
    m = MathModule('math', mtab, _math)
    return {'numpy': np_mod, 'numpy.linalg': linalg_np, 'numpy.random': random_np, 'scipy': sp,
            'scipy.linalg': sp_linalg, 'scipy.sparse': sp_sparse, 'scipy.stats': sp_stats, 'math': m}


class NpModule(ProxyModule):
    def __getattr__(self, n):
        if n == 'pi':
            return PI()
        return ProxyModule.__getattr__(self, n)


class MathModule(ProxyModule):
    def __getattr__(self, n):
        if n == 'pi':
            return PI()
        if n == 'e':
            return S.exp(ONE)
        return ProxyModule.__getattr__(self, n)


class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, items):
        if not isinstance(items, tuple):
            items = (items,)
        if is_sym(*items):
            arrs = [lift(i) for i in items if not isinstance(i, (str, slice))]
            if builtins.len(arrs) != builtins.len(items):
                raise Unsupported('r_/c_')
            if self.axis == 1:
                return concatenate([a if a.nd == 2 else a.reshape(-1, 1) for a in arrs], axis=1)
            if builtins.len({a.nd for a in arrs}) > 1:
                raise Unsupported('r_/c_')
            return concatenate(arrs, axis=0)
        f = np.r_ if self.axis == 0 else np.c_
        return ond(f[tuple(np.asarray(asarray(i)) for i in items)])


def msc(x):
    s = to_sc(x)
    if s is None:
        if isinstance(x, SymArr):
            m = x.mat
            if force_eq(m.rows, 1) and force_eq(m.cols, 1):
                return m.scalar()
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if isinstance(x, np.ndarray) and x.size == 1:
            return to_sc(x.reshape(-1)[0])
        raise TypeError('must be real number')
    return s


def msqrt(x):
    x = msc(x)
    if x.is_const() and x.const_val() < 0:
        raise ValueError('math domain error')
    return S.sqrt(x)


def mlog(x):
    if isinstance(x, float) and 0 < x < 1e-300:
        return Sc.sym(S.new_sym('log_tiny', 'fn', ('log_tiny', repr(x)), key=('log_tiny', repr(x))))
    x = msc(x)
    if x.is_const() and 0 < x.const_val() < 1e-300:
        return Sc.sym(S.new_sym('log_tiny', 'fn', ('log_tiny',), key=('log_tiny', x.key())))
    return S.log(x)


def mfactorial(x):
    return _math.factorial(int(to_sc(x)))


def mfloor(x):
    x = to_sc(x)
    if x.is_const():
        return _math.floor(x.const_val())
    raise Unsupported('floor')
