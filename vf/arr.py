"""Mutable ndarray look-alikes over symbolic dimensions (real aliasing and
in-place semantics; 1-D arrays are stored as a column)."""
from .ctx import ctx, Unsupported
from .sc import Sc, to_sc, ZERO, ONE, dim_resolve, Cond, conj, disj
from .mat import Mat, d1, deq, Algebra
import builtins
import numpy as np


def dim_out(d):
    d = dim_resolve(d)
    if d.is_const() and isinstance(d.const_val(), int):
        return d.const_val()
    return d


def force_eq(a, b):
    """decide a == b on this path (may fork)"""
    r = dim_resolve(a).__eq__(dim_resolve(b))
    return r if isinstance(r, bool) else bool(r)


class Buf:
    __slots__ = ('val', 'ser', '__weakref__')
    serial = [0]

    def __init__(self, val):
        self.val = val
        self.ser = Buf.serial[0]
        Buf.serial[0] += 1


class SymArr:
    """n-dim (1 or 2) array with symbolic shape"""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, mat, nd=2, getter=None, setter=None, base=None):
        self.nd = nd
        self._get = getter
        self._set = setter
        self.base = base
        self.buf = Buf(mat) if getter is None else None

    # ---- storage
    @property
    def mat(self):
        return self.buf.val if self._get is None else self._get()

    def set_mat(self, m):
        if self._get is None:
            log_write(self.buf)
            self.buf.val = m
        else:
            if self._set is None:
                raise Unsupported('write to read-only view')
            self._set(m)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    # ---- shape
    @property
    def shape(self):
        m = self.mat
        if self.nd == 1:
            return (dim_out(m.rows),)
        return (dim_out(m.rows), dim_out(m.cols))

    @property
    def ndim(self):
        return self.nd

    @property
    def size(self):
        m = self.mat
        return dim_out(m.rows * m.cols)

    @property
    def dtype(self):
        return np.dtype(float)

    def __len__(self):
        r = dim_resolve(self.mat.rows)
        if r.is_const():
            return r.const_val()
        raise Unsupported('len() of symbolic array')

    # ---- views
    @property
    def T(self):
        if self.nd == 1:
            return self
        return SymArr(None, 2, lambda: self.mat.T, lambda m: self.set_mat(m.T), self)

    def transpose(self, *a):
        return self.T

    def copy(self, *a, **k):
        return SymArr(self.mat, self.nd)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymArr(self.mat, self.nd)

    def astype(self, *a, **k):
        return self.copy()

    def flatten(self, *a):
        m = self.mat
        if self.nd == 1:
            return self.copy()
        if force_eq(m.cols, 1):
            return SymArr(retype(m, m.rows, ONE), 1)
        if force_eq(m.rows, 1):
            return SymArr(retype(m, ONE, m.cols).T, 1)
        raise Unsupported('flatten of a matrix')

    def ravel(self, *a):
        m = self.mat
        if self.nd == 1:
            return self
        if force_eq(m.cols, 1):
            return SymArr(None, 1, lambda: retype(self.mat, self.mat.rows, ONE), lambda v: self.set_mat(v), self)
        if force_eq(m.rows, 1):
            return SymArr(None, 1, lambda: self.mat.T, lambda v: self.set_mat(v.T), self)
        raise Unsupported('ravel of a matrix')

    def squeeze(self, *a):
        if self.nd == 1:
            return self
        return self.ravel()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(to_sc(s) for s in shape)
        m = self.mat
        n = m.rows * m.cols
        neg = [i for i, s in enumerate(shape) if s.is_const() and s.const_val() == -1]
        if neg:
            other = ONE
            for i, s in enumerate(shape):
                if i != neg[0]:
                    other = other * s
            sh = list(shape)
            sh[neg[0]] = n / other
            shape = tuple(sh)
        tot = ONE
        for s in shape:
            tot = tot * s
        if not force_eq(tot, n):
            raise ValueError('cannot reshape array of size %r into shape %r' % (n, shape))
        if len(shape) == 1:
            return self.ravel()
        if len(shape) == 2:
            r, c = shape
            if self.nd == 2 and deq(r, m.rows) and deq(c, m.cols):
                return self[:, :]
            if force_eq(c, 1):
                v = self.ravel()
                return SymArr(None, 2, lambda: v.mat, lambda x: v.set_mat(x), v)
            if force_eq(r, 1):
                v = self.ravel()
                return SymArr(None, 2, lambda: v.mat.T, lambda x: v.set_mat(x.T), v)
            if force_eq(r, m.rows):
                return self[:, :]
        raise Unsupported('reshape')

    def view(self):
        return SymArr(None, self.nd, lambda: self.mat, lambda m: self.set_mat(m), self)

    # ---- indexing
    def _norm_index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        out = []
        for i in idx:
            if i is Ellipsis:
                continue
            out.append(i)
        return out

    def _index(self, idx):
        """-> (getter, setter, result ndim, is_scalar)"""
        axes = self._norm_index(idx)
        nreal = len([a for a in axes if a is not None])
        if nreal > self.nd:
            raise IndexError('too many indices for array')
        while len([a for a in axes if a is not None]) < self.nd:
            axes.append(slice(None))
        m = self.mat
        dims = [m.rows] if self.nd == 1 else [m.rows, m.cols]
        sel = []
        out_axes = []
        d = 0
        for a in axes:
            if a is None:
                out_axes.append('new')
                continue
            n = dims[d]
            if isinstance(a, slice):
                J = slice_block(a, n)
                sel.append(J)
                out_axes.append(d)
            elif isinstance(a, (int, np.integer, Sc)):
                i = to_sc(a)
                check_index(i, n)
                if i.is_const() and i.const_val() < 0:
                    i = i + n
                sel.append(Mat.basis(n, i))
            else:
                raise Unsupported('fancy indexing')
            d += 1
        real_axes = [a for a in out_axes if a != 'new']
        news = len(out_axes) - len(real_axes)
        if self.nd == 1:
            L = sel[0]

            def get():
                return lmul(L, self.mat)

            def put(v):
                self.set_mat(block_write(self.mat, L, None, v))
            if not real_axes:
                return get, put, 0
            if news == 0:
                return get, put, 1
            if news == 1:
                if out_axes[0] == 'new':
                    return (lambda: get().T), (lambda v: put(v.T)), 2
                return get, put, 2
            raise Unsupported('indexing')
        L, R = sel

        def get():
            return rmul(lmul(L, self.mat), R)

        def put(v):
            self.set_mat(block_write(self.mat, L, R, v))
        if news:
            if len(real_axes) == 1 and news == 1:
                col = (lambda: get()) if real_axes == [0] else (lambda: get().T)
                pcol = put if real_axes == [0] else (lambda v: put(v.T))
                if out_axes[0] == 'new':
                    return (lambda: col().T), (lambda v: pcol(v.T)), 2
                return col, pcol, 2
            raise Unsupported('newaxis on 2-D')
        if len(real_axes) == 2:
            return get, put, 2
        if real_axes == [0]:
            return get, put, 1
        if real_axes == [1]:
            return (lambda: get().T), (lambda v: put(v.T)), 1
        return get, put, 0

    def __getitem__(self, idx):
        if isinstance(idx, Cond) or isinstance(idx, (list, np.ndarray, SymArr)):
            raise Unsupported('fancy indexing')
        get, put, nd = self._index(idx)
        if nd == 0:
            return get().scalar()
        return SymArr(None, nd, get, put, self)

    def __setitem__(self, idx, v):
        get, put, nd = self._index(idx)
        cur = get()
        if nd == 0:
            put(Mat.scalar_mat(as_scalar(v)))
            return
        put(fit(v, cur.rows, cur.cols, nd))

    def __iter__(self):
        n = dim_resolve(self.mat.rows)
        if not n.is_const():
            raise Unsupported('iteration over a symbolic array outside a verified loop')
        return iter([self[i] for i in range(n.const_val())])

    # ---- arithmetic
    def _bin(self, o, f, rev=False):
        return binop(self, o, f, rev)

    def __add__(self, o):
        return binop(self, o, 'add')

    __radd__ = __add__

    def __sub__(self, o):
        return binop(self, o, 'sub')

    def __rsub__(self, o):
        return binop(-self, o, 'add')

    def __neg__(self):
        return SymArr(-self.mat, self.nd)

    def __pos__(self):
        return self.copy()

    def __mul__(self, o):
        return binop(self, o, 'mul')

    __rmul__ = __mul__

    def __truediv__(self, o):
        return binop(self, o, 'div')

    def __rtruediv__(self, o):
        m = self.mat
        if force_eq(m.rows, 1) and force_eq(m.cols, 1):
            s = Mat.scalar_mat(to_sc(o) / m.scalar())
            return SymArr(s, self.nd)
        if not ctx().divcheck and isinstance(lift(o), Sc) and (d1(m.cols) or d1(m.rows)):
            from .bank import recip
            v = recip(m if d1(m.cols) else m.T).scale(to_sc(o))
            return SymArr(v if d1(m.cols) else v.T, self.nd)
        raise Unsupported('elementwise reciprocal')

    def __pow__(self, e):
        m = self.mat
        if force_eq(m.rows, 1) and force_eq(m.cols, 1):
            return SymArr(Mat.scalar_mat(m.scalar() ** e), self.nd)
        raise Unsupported('elementwise power')

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def dot(self, o):
        return dot(self, o)

    def _inplace(self, o, f):
        r = binop(self, o, f)
        if r.nd != self.nd:
            raise ValueError('non-broadcastable output operand')
        a, b = self.mat, r.mat
        if not (force_eq(a.rows, b.rows) and force_eq(a.cols, b.cols)):
            raise ValueError('non-broadcastable output operand')
        self.set_mat(b)
        return self

    def __iadd__(self, o):
        return self._inplace(o, 'add')

    def __isub__(self, o):
        return self._inplace(o, 'sub')

    def __imul__(self, o):
        return self._inplace(o, 'mul')

    def __itruediv__(self, o):
        return self._inplace(o, 'div')

    def fill(self, v):
        m = self.mat
        self.set_mat(Mat.ones(m.rows, m.cols).scale(to_sc(v)))

    def sum(self, axis=None, **k):
        m = self.mat
        if self.nd == 1:
            return (Mat.ones_vec(m.rows).T @ m).scalar()
        if axis is None:
            return (Mat.ones_vec(m.rows).T @ m @ Mat.ones_vec(m.cols)).scalar()
        if axis == 0:
            return SymArr((Mat.ones_vec(m.rows).T @ m).T, 1)
        if axis in (1, -1):
            return SymArr(m @ Mat.ones_vec(m.cols), 1)
        raise Unsupported('sum axis')

    def mean(self, axis=None, **k):
        m = self.mat
        n = m.rows * m.cols if axis is None or self.nd == 1 else (m.rows if axis == 0 else m.cols)
        return self.sum(axis) / n

    def item(self, *a):
        m = self.mat
        if force_eq(m.rows, 1) and force_eq(m.cols, 1):
            return m.scalar()
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def _as_sc(self):
        return None

    def __float__(self):
        raise Unsupported('float() of symbolic array')

    def _cmp(self, o):
        m = self.mat
        if d1(m.rows) and d1(m.cols):
            return m.scalar(), to_sc(as_scalar(o))
        raise Unsupported('elementwise comparison')

    def __eq__(self, o):
        if o is None:
            return False
        a, b = self._cmp(o)
        return a == b

    def __ne__(self, o):
        if o is None:
            return True
        a, b = self._cmp(o)
        return a != b

    def __lt__(self, o):
        a, b = self._cmp(o)
        return a < b

    def __gt__(self, o):
        a, b = self._cmp(o)
        return a > b

    def __le__(self, o):
        a, b = self._cmp(o)
        return a <= b

    def __ge__(self, o):
        a, b = self._cmp(o)
        return a >= b

    __hash__ = object.__hash__

    def __bool__(self):
        m = self.mat
        if d1(m.rows) and d1(m.cols):
            return bool(m.scalar() != 0)
        if force_eq(m.rows, 1) and force_eq(m.cols, 1):
            return bool(m.scalar() != 0)
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def any(self, *a, **k):
        raise Unsupported('any')

    def all(self, *a, **k):
        raise Unsupported('all')

    def tolist(self):
        raise Unsupported('tolist')

    def __repr__(self):
        from .mat import show
        return 'SymArr%dd%s' % (self.nd, show(self.mat))


WRITE_LOG = []


def unlog(lg):
    WRITE_LOG[:] = [x for x in WRITE_LOG if x is not lg]


def log_write(buf):
    for lg in WRITE_LOG:
        if id(buf) not in lg:
            lg[id(buf)] = (buf, buf.val)


def retype(m, r, c):
    return m


def lmul(L, m):
    return m if L is None else L.T @ m


def rmul(m, R):
    return m if R is None else m @ R


def block_write(m, L, R, v):
    """m with the (L,R) block replaced by v"""
    if L is None and R is None:
        return v
    old = rmul(lmul(L, m), R)
    d = v - old
    if L is not None:
        d = L @ d
    if R is not None:
        d = d @ R.T
    return m + d


def slice_block(s, n):
    """None for the full range, else an injection block"""
    if s.start is None and s.stop is None and s.step is None:
        return None
    if s.step is not None and not (to_sc(s.step) - ONE).is_zero():
        raise Unsupported('strided slice')

    def clamp(v, default):
        if v is None:
            return default
        v = dim_resolve(to_sc(v))
        if bool(v < 0):
            v = v + n
            if bool(v < 0):
                v = ZERO
        if bool(v > n):
            v = dim_resolve(n)
        return v
    a = clamp(s.start, ZERO)
    b = clamp(s.stop, dim_resolve(n))
    ln = dim_resolve(b - a)
    if bool(ln <= 0):
        raise Unsupported('empty slice')
    if ln.is_const() and (ln - ONE).is_zero() and False:
        return Mat.basis(n, a)
    if deq(ln, n):
        return None
    return Mat.inj(n, a, ln)


def check_index(i, n):
    """bounds obligation of a[i]: raises IndexError on the path where it is violated"""
    n = dim_resolve(n)
    i = dim_resolve(i)
    ok = bool(i < n)
    if ok:
        ok = bool(i >= -n)
    if not ok:
        raise IndexError('index out of bounds')


def as_scalar(v):
    s = to_sc(v)
    if s is not None:
        return s
    if isinstance(v, SymArr):
        return v.item()
    if isinstance(v, np.ndarray) and v.size == 1:
        return to_sc(v.reshape(-1)[0])
    raise ValueError('setting an array element with a sequence.')


def lift(v):
    """anything array-like -> SymArr, or Sc for scalars"""
    if isinstance(v, SymArr):
        return v
    s = to_sc(v)
    if s is not None:
        return s
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return to_sc(v.item())
        if v.ndim > 2:
            raise Unsupported('3-D array in matrix algebra')
        return SymArr(mat_of_nd(v), v.ndim)
    if isinstance(v, (list, tuple)):
        from .snp import array
        return lift(array(v))
    if isinstance(v, SymList):
        from .snp import array
        return array(v)
    if v is None:
        raise TypeError("unsupported operand type(s): 'NoneType'")
    if isinstance(v, NoneArr):
        raise TypeError("unsupported operand type(s): 'NoneType'")
    raise Unsupported('lift %r' % type(v))


def mat_of_nd(a):
    b = a.reshape(-1, 1) if a.ndim == 1 else a
    r, c = b.shape
    m = Mat.zero(r, c)
    if r == 0 or c == 0:
        return m
    for i in range(r):
        for j in range(c):
            if b[i, j] is None:
                raise TypeError("unsupported operand type(s): 'NoneType'")
            x = to_sc(b[i, j])
            if x.num:
                m = m + (Mat.basis(r, i) @ Mat.basis(c, j).T).scale(x)
    if r == c and r > 1:
        # recognise multiples of the identity
        d = to_sc(b[0, 0])
        if all((to_sc(b[i, j]) - (d if i == j else ZERO)).is_zero() for i in range(r) for j in range(c)):
            return Mat.eye(r).scale(d)
    return m


def fit(v, r, c, nd):
    """broadcast v to an (r,c) target (target ndim nd) for assignment"""
    v = lift(v)
    if isinstance(v, Sc):
        return Mat.ones(r, c).scale(v)
    m = v.mat
    if v.nd == 1 and nd == 2:
        m = m.T
    elif v.nd == 2 and nd == 1:
        # numpy: (1,n) -> (n,) allowed, (n,1) -> (n,) only if n == 1
        if not force_eq(m.rows, 1):
            raise ValueError('could not broadcast input array')
        m = m.T
    return expand(m, r, c)


def expand(m, r, c):
    if not deq(m.rows, r):
        if d1(m.rows) or (not d1(r) and force_eq(m.rows, 1)):
            m = Mat.ones_vec(r) @ m
        elif not force_eq(m.rows, r):
            raise ValueError('could not broadcast input array')
    if not deq(m.cols, c):
        if d1(m.cols) or (not d1(c) and force_eq(m.cols, 1)):
            m = m @ Mat.ones_vec(c).T
        elif not force_eq(m.cols, c):
            raise ValueError('could not broadcast input array')
    return m


def bdim(a, b):
    """broadcast two dims -> result dim (forks only when needed)"""
    if deq(a, b):
        return a
    if d1(a):
        return b
    if d1(b):
        return a
    if force_eq(a, b):
        return a
    if force_eq(a, 1):
        return b
    if force_eq(b, 1):
        return a
    raise ValueError('operands could not be broadcast together')


def binop(a, b, op, rev=False):
    if isinstance(b, StackArr):
        return NotImplemented
    b = lift(b)
    if isinstance(b, Sc):
        if op == 'mul':
            return SymArr(a.mat.scale(b), a.nd)
        if op == 'div':
            if ctx().divcheck and bool(b == 0):
                raise Unsupported('array division by zero')
            return SymArr(a.mat.scale(ONE / b), a.nd)
        if not b.num:
            return SymArr(a.mat, a.nd)
        m = a.mat
        one = Mat.ones(m.rows, m.cols).scale(b)
        return SymArr(m + one if op == 'add' else m - one, a.nd)
    nd = max(a.nd, b.nd)
    ma, mb = a.mat, b.mat
    if a.nd == 1 and nd == 2:
        ma = ma.T
    if b.nd == 1 and nd == 2:
        mb = mb.T
    r, c = bdim(ma.rows, mb.rows), bdim(ma.cols, mb.cols)
    if op in ('add', 'sub'):
        ma, mb = expand(ma, r, c), expand(mb, r, c)
        return SymArr(ma + mb if op == 'add' else ma - mb, nd)
    if op == 'mul':
        if d1(mb.rows) and d1(mb.cols):
            return SymArr(expand(ma.scale(mb.scalar()), r, c), nd)
        if d1(ma.rows) and d1(ma.cols):
            return SymArr(expand(mb.scale(ma.scalar()), r, c), nd)
        # column scaling / row scaling by a vector: diag products
        if d1(ma.cols):
            return SymArr(Mat.diag_of(ma) @ expand(mb, r, c), nd)
        if d1(mb.cols):
            return SymArr(Mat.diag_of(mb) @ expand(ma, r, c), nd)
        if d1(ma.rows):
            return SymArr(expand(mb, r, c) @ Mat.diag_of(ma.T), nd)
        if d1(mb.rows):
            return SymArr(expand(ma, r, c) @ Mat.diag_of(mb.T), nd)
        raise Unsupported('elementwise product of matrices')
    if op == 'div':
        if d1(mb.rows) and d1(mb.cols):
            return SymArr(expand(ma.scale(ONE / mb.scalar()), r, c), nd)
        if (d1(mb.cols) or d1(mb.rows)) and not ctx().divcheck:
            from .bank import recip
            if d1(mb.cols):
                return SymArr(Mat.diag_of(recip(mb)) @ expand(ma, r, c), nd)
            return SymArr(expand(ma, r, c) @ Mat.diag_of(recip(mb.T)), nd)
        raise Unsupported('elementwise quotient')
    raise Unsupported(op)


def dot(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a * b
    if isinstance(a, Sc):
        return SymArr(b.mat.scale(a), b.nd)
    if isinstance(b, Sc):
        return SymArr(a.mat.scale(b), a.nd)
    ma, mb = a.mat, b.mat
    if a.nd == 1:
        ma = ma.T
    if not deq(ma.cols, mb.rows):
        if not force_eq(ma.cols, mb.rows):
            raise ValueError('shapes not aligned')
    r = ma @ mb
    if a.nd == 1 and b.nd == 1:
        return r.scalar()
    if a.nd == 1:
        return SymArr(r.T, 1)
    if b.nd == 1:
        return SymArr(r, 1)
    return SymArr(r, 2)


def outer(a, b):
    a, b = lift(a), lift(b)

    def col(v):
        if isinstance(v, Sc):
            return Mat.scalar_mat(v)
        if v.nd == 1:
            return v.mat
        return v.flatten().mat
    return SymArr(col(a) @ col(b).T, 2)


class NoneArr:
    """array full of None (shape only)"""

    def __init__(self, shape):
        self.shape = tuple(dim_out(to_sc(s)) for s in shape)
        self.partial = False     # some entries overwritten (contents not tracked)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def T(self):
        return NoneArr(self.shape[::-1])

    def copy(self):
        r = NoneArr(self.shape)
        r.partial = self.partial
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, i):
        if self.partial:
            raise Unsupported('read of a partly overwritten None array')
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice):
            return NoneArr(self.shape[:1])
        return None

    def __setitem__(self, i, v):
        self.partial = True

    def __repr__(self):
        return 'NoneArr%r' % (self.shape,)


class SymList:
    """[v] * n for symbolic n"""

    def __init__(self, proto, n):
        self.proto, self.n = list(proto), n
        if len(self.proto) != 1:
            raise Unsupported('replicated list')

    def __len__(self):
        raise Unsupported('len of symbolic list')

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of symbolic list')
        return self.proto[0]


class StackArr:
    """array whose leading axis is a concrete number of (symbolic) slots"""
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, items):
        self.items = list(items)          # SymArr each (own storage)

    @property
    def shape(self):
        if not self.items:
            return (0,)
        return (len(self.items),) + tuple(self.items[0].shape)

    @property
    def ndim(self):
        return 1 + self.items[0].nd

    @property
    def size(self):
        n = len(self.items)
        return self.items[0].size * n

    def __len__(self):
        return len(self.items)

    def copy(self):
        return StackArr([i.copy() for i in self.items])

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __iter__(self):
        return iter([i.view() for i in self.items])

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        i = idx[0]
        if isinstance(i, slice):
            sub = StackArr.__new__(StackArr)
            sub.items = [x.view() for x in self.items[i]]
            if len(idx) == 1 or all(isinstance(j, slice) and j == slice(None) for j in idx[1:]):
                return sub
            sub.items = [x[tuple(idx[1:])] for x in sub.items]
            return sub
        i = to_sc(i).__index__()
        it = self.items[i]
        rest = tuple(idx[1:])
        if not rest:
            return it.view()
        return it[rest]

    def __setitem__(self, idx, v):
        if not isinstance(idx, tuple):
            idx = (idx,)
        i = idx[0]
        if isinstance(i, slice):
            its = self.items[i]
            if isinstance(v, StackArr):
                for a, b in zip(its, v.items):
                    a[tuple(idx[1:]) or (Ellipsis,)] = b
            else:
                for a in its:
                    a[tuple(idx[1:]) or (Ellipsis,)] = v
            return
        i = to_sc(i).__index__()
        self.items[i][tuple(idx[1:]) or (Ellipsis,)] = v

    def _map(self, o, f):
        if isinstance(o, StackArr):
            if len(o) != len(self):
                raise Unsupported('stack broadcast')
            return StackArr([f(a, b) for a, b in zip(self.items, o.items)])
        return StackArr([f(a, o) for a in self.items])

    def __add__(self, o):
        return self._map(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._map(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._map(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._map(o, lambda a, b: a / b)

    def __iadd__(self, o):
        r = self + o
        for a, b in zip(self.items, r.items):
            a.set_mat(b.mat)
        return self

    def __itruediv__(self, o):
        r = self / o
        for a, b in zip(self.items, r.items):
            a.set_mat(b.mat)
        return self

    def __repr__(self):
        return 'Stack%r' % (self.items,)
