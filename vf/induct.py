"""Induction over a symbolic number of epochs.

The loop over the epochs of a batch routine is executed for ONE generic epoch, from a state
in which everything the loop changes has been replaced by fresh unknowns (the induction
hypothesis says only: the filter's attributes / the carried local variables hold *some*
state, the rows written by earlier epochs hold *some* values).  The harness then checks the
induction step: started from the same unknown state, the one-epoch specification reaches the
same state and produces the same rows.  Together with the base case (the state at loop entry is
the state the routine was called with) and the bookkeeping obligations checked here
(every row is written by exactly one epoch; as many epochs as rows) this gives the
equality of whole batches of every length.

Frame: whatever the generic epoch changes must be among the locations that were replaced
by unknowns; otherwise there is no verdict (Unsupported)."""
import copy
import numpy as np
from .ctx import ctx, Unsupported
from .sc import Sc, to_sc, ZERO, ONE, new_sym, dim_resolve, Cond
from .mat import Mat, Algebra
from . import arr as A
from .loops import sym_count, Poison, Unbound, UNBOUND, MISSING


class Stale(Poison):
    """value left over from an earlier epoch that nothing may depend on"""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return '<stale>'


def provably_eq(a, b):
    return ctx().entailed(dim_resolve(to_sc(a)).__eq__(dim_resolve(to_sc(b)))) is True


def provably_ne(a, b):
    return ctx().entailed(dim_resolve(to_sc(a)).__eq__(dim_resolve(to_sc(b)))) is False


def unsat(*conds):
    cs = []
    for c in conds:
        if isinstance(c, bool):
            if not c:
                return True
            continue
        cs.append(c)
    return not ctx().sat(cs)


def fresh_like(v, name, props=()):
    """an unknown of the same kind and shape"""
    if isinstance(v, A.SymArr):
        m = v.mat
        r, c = dim_resolve(m.rows), dim_resolve(m.cols)
        a = Algebra.cur().atom('%s#%d' % (name, len(Algebra.cur().atoms)), r, c, 'var', None, sym='sym' in props, props=tuple(p for p in props if p != 'sym'))
        return A.SymArr(Mat.of(a), v.nd)
    if isinstance(v, np.ndarray) and v.dtype == object and all(to_sc(e) is not None for e in v.flat):
        out = v.copy()
        for i in np.ndindex(v.shape):
            out[i] = Sc.sym(new_sym('%s#%d' % (name, len(ctx().symtab.syms)), 'var'))
        if 'sym' in props and v.ndim == 2:
            for i in range(v.shape[0]):
                for j in range(i):
                    out[i, j] = out[j, i]
        return out
    if not isinstance(v, bool) and to_sc(v) is not None:
        return Sc.sym(new_sym('%s#%d' % (name, len(ctx().symtab.syms)), 'var'))
    return None


def frozen(v):
    if isinstance(v, A.SymArr):
        return A.SymArr(v.mat, v.nd)
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def unchanged(v, w):
    """v (now) has the content of the frozen w"""
    if isinstance(v, A.SymArr) and isinstance(w, A.SymArr):
        if v.nd != w.nd:
            return False
        return v.mat is w.mat or v.mat.renorm().key() == w.mat.renorm().key()
    if isinstance(v, np.ndarray) and isinstance(w, np.ndarray):
        return v.shape == w.shape and all(a is b or same_sc(a, b) for a, b in zip(v.flat, w.flat))
    return v is w or same_sc(v, w)


def same_sc(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    a, b = to_sc(a), to_sc(b)
    return a is not None and b is not None and (dim_resolve(a) - dim_resolve(b)).is_zero()


def same_shape(a, b):
    if isinstance(a, A.SymArr) and isinstance(b, A.SymArr):
        return a.nd == b.nd and all(provably_eq(p, q) for p, q in zip(a.shape, b.shape))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape
    if isinstance(a, (A.SymArr, np.ndarray)) and isinstance(b, (A.SymArr, np.ndarray)):
        return len(a.shape) == len(b.shape) and all(provably_eq(p, q) for p, q in zip(a.shape, b.shape))
    return not isinstance(a, (bool, A.SymArr, np.ndarray)) and not isinstance(b, (bool, A.SymArr, np.ndarray)) \
        and to_sc(a) is not None and to_sc(b) is not None


# ------------------------------------------------------------------ arrays over epochs
class TimeArr:
    """array (or list) whose first axis is the epochs; rows are materialised on use"""
    __array_ufunc__ = None

    def __init__(self, n, rowshape, init, name='rows', islist=False):
        self.n, self.rowshape, self.init, self.name, self.islist = to_sc(n), tuple(rowshape), init, name, islist
        self.rows = []           # [index, value, content when materialised, set explicitly]
        self.entry = None        # rows at the entry of the active loop (second pass)
        self.closed = None       # finished loop that wrote this array
        self.writes = None       # indices written by the generic epoch
        self.active = None
        self.reads, self.cur = [], []
        c = ctx()
        if not hasattr(c, 'timearrs'):
            c.timearrs = []
        c.timearrs.append(self)

    def _vf_len(self):
        return self.n

    def __len__(self):
        raise Unsupported('len of an epoch array')

    def __iter__(self):
        raise Unsupported('iteration over an epoch array outside a verified loop')

    def __bool__(self):
        raise ValueError('truth value of an array is ambiguous')

    @property
    def shape(self):
        return (A.dim_out(self.n),) + self.rowshape

    @property
    def ndim(self):
        return 1 + len(self.rowshape)

    dtype = np.dtype(float)

    # ---- rows
    def _find(self, rows, idx):
        for r in reversed(rows):
            if A.force_eq(r[0], idx):
                return r
        return None

    def _make(self, idx):
        v = self.init(idx)
        return v

    def _entry_value(self, idx):
        r = self._find(self.entry, idx)
        return frozen(r[1]) if r is not None else self._make(idx)

    def _row(self, idx):
        idx = dim_resolve(to_sc(idx))
        r = self._find(self.rows, idx)
        if r is not None:
            lb = getattr(ctx(), 'lagbound', None)
            if lb and any(i in lb for i in idx.syms()):
                r[0] = idx                # equal on this path only: keep the name with the turn
            self.reads.append(r)
            return r
        if self.active is not None and self.active.phase == 2:
            if self.active.unwritten(self, idx):
                v = self._entry_value(idx)
            else:
                v = frozen(self._cur(idx))
        elif self.closed is not None:
            if self.closed.never_writes(self, idx):
                v = self._entry_value(idx)
            else:
                raise Unsupported('row of an epoch array after the loop')
        else:
            v = self._make(idx)
        r = [idx, v, frozen(v), False]
        self.rows.append(r)
        self.reads.append(r)
        return r

    def _cur(self, idx):
        """what the earlier epochs left in row idx"""
        for i, v in self.cur:
            if provably_eq(i, idx):
                return v
        v = self._fresh(idx, 'cur')
        self.cur.append((idx, v))
        return v

    def _fresh(self, idx, tag):
        proto = zeros_row(self.rowshape)
        return fresh_like(proto, '%s_%s' % (self.name, tag))

    def _norm(self, i):
        i = dim_resolve(to_sc(i))
        c = ctx()
        if c.entailed(i >= 0) is True:
            if c.entailed(i < self.n) is not True:
                if not bool(i < self.n):
                    raise IndexError('index out of bounds')
            return i
        if c.entailed(i < 0) is True:
            j = dim_resolve(i + self.n)
            if not bool(j >= 0):
                raise IndexError('index out of bounds')
            return j
        if bool(i >= 0):
            return self._norm(i)
        return self._norm(i)

    def __getitem__(self, key):
        if isinstance(key, slice) or (isinstance(key, tuple) and isinstance(key[0], slice)):
            raise Unsupported('slice of an epoch array')
        if not isinstance(key, tuple):
            key = (key,)
        row = self._row(self._norm(key[0]))[1]
        rest = key[1:]
        if not rest or not self.rowshape:
            return row
        if all(k == slice(None) for k in rest if isinstance(k, slice)) and all(isinstance(k, slice) for k in rest):
            return row
        return row[rest if len(rest) > 1 else rest[0]]

    def __setitem__(self, key, v):
        if isinstance(key, slice) or (isinstance(key, tuple) and isinstance(key[0], slice)):
            raise Unsupported('slice of an epoch array')
        if not isinstance(key, tuple):
            key = (key,)
        r = self._row(self._norm(key[0]))
        rest = key[1:]
        r[3] = True
        if self.islist:
            r[1] = v
            return
        if not self.rowshape:
            s = to_sc(v) if not isinstance(v, (A.SymArr, np.ndarray)) else None
            if s is None:
                from . import snp
                if int(np.prod([1 if d == 1 else 2 for d in snp.shape(v)] or [1])) != 1 or len(snp.shape(v)):
                    raise Unsupported('array stored in a scalar row')
            r[1] = s
            return
        if not rest:
            rest = (slice(None),)
        row = r[1]
        if all(isinstance(k, slice) and k == slice(None) for k in rest):
            rest = (slice(None),)
        row[rest if len(rest) > 1 else rest[0]] = v

    def append(self, v):
        if not self.islist:
            raise AttributeError('append')
        self.rows.append([dim_resolve(self.n), v, None, True])
        self.n = self.n + 1

    def copy(self):
        if self.active is not None or self.closed is not None:
            raise Unsupported('copy of an epoch array in use')
        rows = [[r[0], frozen(r[1]), frozen(r[1]), False] for r in self.rows]
        src = self.init
        t = TimeArr(self.n, self.rowshape, lambda idx: frozen(src(idx)), self.name + "'", self.islist)
        t.rows = rows
        return t

    def __deepcopy__(self, memo):
        return self.copy()

    def dirty(self):
        return [r for r in self.rows if r[3] or not unchanged(r[1], r[2])]

    def __getattr__(self, k):
        raise Unsupported('epoch array .%s' % k)


def zeros_row(shape):
    from . import snp
    if not shape:
        return ZERO
    return snp.zeros(tuple(shape))


def is_time(d):
    ts = getattr(ctx(), 'time_syms', None)
    if not ts:
        return False
    s = to_sc(d)
    return s is not None and any(i in ts for i in dim_resolve(s).syms())


def time_zeros(sh, v):
    from . import snp
    return TimeArr(sh[0], sh[1:], lambda idx: snp.full_like_shape(tuple(sh[1:]), v) if len(sh) > 1 else to_sc(v), 'buf')


class Seq:
    """list of symbolic length: element(idx) is made once per distinct index"""

    def __init__(self, n, make, name):
        self.n, self.make, self.name, self.memo = to_sc(n), make, name, []

    def _vf_len(self):
        return self.n

    def at(self, idx):
        idx = dim_resolve(to_sc(idx))
        for i, v in self.memo:
            if A.force_eq(i, idx):
                return v
        v = self.make('%s%d' % (self.name, len(self.memo)))
        self.memo.append((idx, v))
        return v

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('slice of a sequence')
        k = dim_resolve(to_sc(k))
        c = ctx()
        if c.entailed(k >= 0) is False:
            k = dim_resolve(k + self.n)
        elif c.entailed(k >= 0) is None:
            raise Unsupported('sign of a sequence index')
        if c.entailed(k < self.n) is not True:
            if not bool(k < self.n):
                raise IndexError('list index out of range')
        return frozen(self.at(k))

    def __iter__(self):
        raise Unsupported('symbolic sequence iterated outside a verified loop')

    def __deepcopy__(self, memo):
        return self

    def _both(self, o, f):
        """element by element with another sequence of the same length (a stacked array)"""
        if not isinstance(o, Seq):
            return NotImplemented
        if not A.force_eq(self.n, o.n):
            raise Unsupported('sequences of different lengths')
        r = Seq(self.n, None, self.name)
        r.at = lambda idx: f(self.at(idx), o.at(idx))
        return r

    def __sub__(self, o):
        return self._both(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._both(o, lambda a, b: a + b)


# ------------------------------------------------------------------ the loop
class Induction:
    """with Induction(objs, carry): call the batch routine; afterwards ask about the step"""

    def __init__(self, objs, carry=(), props=None, hook=None):
        self.objs = list(objs)
        self.carry = dict(carry)
        self.props = props or {}
        self.loop = None
        self.hook = hook or (lambda phase: None)
        self.empty = False
        self.finished = False

    def __enter__(self):
        c = ctx()
        if getattr(c, 'loop_handler', None) is not None:
            raise Unsupported('nested inductions')
        c.loop_handler = self.handler
        self.initial = [self.state(o) for o in self.objs]
        self.active = False
        return self

    def __exit__(self, et, ev, tb):
        ctx().loop_handler = None
        return False

    def state(self, o):
        return {k: frozen(v) for k, v in vars(o).items()}

    def handler(self, it):
        if self.active:
            return None
        if self.loop is not None:
            raise Unsupported('second loop over the epochs')
        n, item = sym_count(it)
        if not is_time(n):
            return None
        if not bool(n >= 1):
            self.empty = True
            self.loop = EmptyLoop()
            return self.loop
        self.loop = InductLoop(self, n, item)
        return self.loop


class EmptyLoop:
    symbolic = False

    def __iter__(self):
        return iter(())


class InductLoop:
    symbolic = True

    def __init__(self, ind, n, item):
        self.ind, self.n, self.item = ind, dim_resolve(n), item
        c = ctx()
        self.ks = new_sym('k%d' % len(c.symtab.syms), 'var', None, nonneg=True, integer=True)
        self.k = Sc.sym(self.ks)
        c.nosub.add(self.ks.id)
        c.assume(self.k >= 0)
        c.assume(self.k < self.n)
        self.phase = 0

    def __iter__(self):
        self.ind.active = True
        try:
            it = self.item(self.k)
            self.value = it
            yield it
            yield it
            self.done = True
        finally:
            self.ind.active = False
    done = False

    # -- first pass: from the entry state, to find out what one epoch changes
    def enter(self, loc, names):
        ind = self.ind
        if self.phase == 0:
            self.phase = 1
            ind.hook(1)
            self.names = names
            self.pre = {n: (MISSING if isinstance(loc.get(n), (Poison, Unbound)) else loc.get(n, MISSING)) for n in names}
            self.prefrozen = {n: frozen(v) for n, v in self.pre.items()}
            self.mark = A.Buf.serial[0]
            self.attrs = [dict(vars(o)) for o in ind.objs]
            ind.entry = [ind.state(o) for o in ind.objs]
            self.arrs = list(getattr(ctx(), 'timearrs', []))
            for a in self.arrs:
                a.saved = [[r[0], r[1], frozen(r[1])] for r in a.rows]
                a.saven = a.n
                a.active = self
                a.rows = [[r[0], frozen(r[1]), frozen(r[1]), False] for r in a.rows]
            self.conc = []
            seen = set()
            for v in list(loc.values()) + [q for o in list(loc.values()) + list(ind.objs) for q in getattr(o, '__dict__', {}).values()]:
                if isinstance(v, np.ndarray) and id(v) not in seen:
                    seen.add(id(v))
                    self.conc.append((v, v.copy()))
            self.lists = [(v, len(v)) for v in loc.values() if type(v) is list]
            self.log = {}
            A.WRITE_LOG.append(self.log)
            return [self.pre[n] if self.pre[n] is not MISSING else UNBOUND for n in names]
        return self.second(loc, names)

    def second(self, loc, names):
        ind = self.ind
        A.unlog(self.log)
        self.phase = 2
        post = {n: loc.get(n, MISSING) for n in names}
        for l, k in self.lists:
            if len(l) != k:
                raise Unsupported('list mutated by the epochs loop')
        # what changed
        bufs = {i: (b, old) for i, (b, old) in self.log.items() if b.ser < self.mark}
        chg_attr = []
        for o, a0 in zip(ind.objs, self.attrs):
            now = vars(o)
            ch = {}
            for k in set(a0) | set(now):
                v0, v1 = a0.get(k, MISSING), now.get(k, MISSING)
                if v0 is MISSING or v1 is MISSING:
                    raise Unsupported('attribute %s appears or vanishes' % k)
                if v0 is not v1 and not (type(v0) is type(v1) and not isinstance(v0, (A.SymArr, np.ndarray)) and same_sc(v0, v1)):
                    ch[k] = v1
            chg_attr.append(ch)
        self.conc_changed = []
        for v, old in self.conc:
            if not unchanged(v, old):
                self.conc_changed.append((v, old))
        for a in self.arrs:
            if a.n is not a.saven:
                raise Unsupported('epoch list grows')
            d = a.dirty()
            a.writes = [r[0] for r in d]
            a.pass1 = a.rows
        # restore the entry state
        for i, (b, old) in bufs.items():
            b.val = old
        for v, old in self.conc_changed:
            v[...] = old
        for o, a0 in zip(ind.objs, self.attrs):
            for k, v in a0.items():
                if vars(o)[k] is not v:
                    setattr(o, k, v)
        # now the unknown state of a generic epoch
        for i, (b, old) in bufs.items():
            sym = [k for o in ind.objs for k, v in vars(o).items() if isinstance(v, A.SymArr) and v.root().buf is b]
            nm = sym[0] if sym else 'buf'
            b.val = fresh_like(A.SymArr(old, 2), nm, ind.props.get(nm, ())).mat
        for v, old in self.conc_changed:
            v[...] = fresh_like(v, 'buf')
        self.bufs, self.havoc = bufs, []
        odd = []
        ind.pre = []
        for o, ch in zip(ind.objs, chg_attr):
            for k, v1 in sorted(ch.items()):
                v0 = vars(o)[k]
                if v0 is not None and v1 is not None and same_shape(v0, v1):
                    h = fresh_like(v0, k, ind.props.get(k, ()))
                    if h is not None:
                        setattr(o, k, h)
                        continue
                odd.append((o, k, v0 is None or v1 is None))
        if odd:
            none = any(q for _, _, q in odd) and ctx().choose('loop caches', ['none', 'stale']) == 'none'
            for o, k, q in odd:
                setattr(o, k, None if q and none else Stale())
        self.chg_attr = chg_attr
        # locals carried from epoch to epoch
        out = []
        ind.carried = {}
        assoc = {}
        for n in names:
            v0, v1 = self.pre[n], post[n]
            if v0 is MISSING:
                out.append(UNBOUND)
                continue
            if v1 is v0 or (v1 is not MISSING and not isinstance(v1, Poison) and not isinstance(v0, (A.SymArr, np.ndarray)) and type(v0) is type(v1) and same_sc(v0, v1)):
                out.append(v0)
                continue
            key = None
            for c, w in ind.carry.items():
                if same_shape(v0, w) and unchanged(self.prefrozen[n], w):
                    key = c
                    break
            if key is None or v1 is MISSING or not same_shape(v0, v1):
                out.append(Stale())
                self.havoc.append(n)
                continue
            if key not in assoc:
                assoc[key] = fresh_like(v0, key, ind.props.get(key, ()))
            ind.carried.setdefault(key, []).append(n)
            self.havoc.append(n)
            out.append(frozen(assoc[key]))
        ind.assoc = {k: frozen(v) for k, v in assoc.items()}
        self.out = dict(zip(names, out))
        ind.pre = [ind.state(o) for o in ind.objs]
        for a in self.arrs:
            a.entry = [[i, v] for i, v, f in a.saved]
            for (i, v, f) in a.saved:
                if not unchanged(v, f):
                    raise Unsupported('row of an epoch array aliased')
            a.rows = []
            if not a.writes:
                a.rows = [[i, v, frozen(v), False] for i, v, f in a.saved]
        self.attrs2 = [dict(vars(o)) for o in ind.objs]
        self.conc2 = [(v, v.copy()) for v, _ in self.conc if not any(v is w for w, _ in self.conc_changed)]
        self.log2 = {}
        A.WRITE_LOG.append(self.log2)
        ind.hook(2)
        return out

    def exit(self, loc, names):
        ind = self.ind
        if not self.done:
            raise Unsupported('early exit from the epochs loop')
        A.unlog(self.log2)
        for i, (b, old) in self.log2.items():
            if b.ser < self.mark and i not in self.bufs:
                raise Unsupported('frame: the generic epoch writes an array the first did not')
        for v, old in self.conc2:
            if not unchanged(v, old):
                raise Unsupported('frame: array written in the generic epoch only')
        for o, a2, ch in zip(ind.objs, self.attrs2, self.chg_attr):
            for k, v in vars(o).items():
                if k not in a2 or (a2[k] is not v and k not in ch and not same_sc(a2[k], v)):
                    raise Unsupported('frame: attribute %s' % k)
        for n in names:
            if self.pre[n] is not MISSING and n not in self.havoc and loc.get(n) is not self.out[n] and not same_sc(loc.get(n), self.out[n]):
                raise Unsupported('frame: local %s' % n)
        ind.post = [ind.state(o) for o in ind.objs]
        ind.postloc = {k: [frozen(loc[n]) for n in ns] for k, ns in ind.carried.items()}
        for a in self.arrs:
            d = [r[0] for r in a.dirty()]
            for i in d:
                if not any(provably_eq(i, j) for j in a.writes):
                    raise Unsupported('frame: row of an epoch array')
            if not a.writes:
                a.active = None
                continue
            a.writes = d
            a.postrows = [[r[0], frozen(r[1])] for r in a.rows]
            a.active, a.closed = None, self
        # after the loop everything it changed is unknown
        for i, (b, old) in self.bufs.items():
            b.val = fresh_like(A.SymArr(old, 2), 'end').mat
        for v, _ in self.conc_changed:
            v[...] = fresh_like(v, 'end')
        for o, ch in zip(ind.objs, self.chg_attr):
            for k in ch:
                setattr(o, k, Stale())
        ind.finished = True
        ind.hook(3)
        return [Stale() if (n in self.havoc or self.pre[n] is MISSING) else self.pre[n] for n in names]

    # -- rows
    def _at(self, idx, j):
        from .sc import subst
        return dim_resolve(subst(to_sc(idx), {self.ks.id: j}))

    def _other(self):
        s = new_sym('j%d' % len(ctx().symtab.syms), 'var', None, nonneg=True, integer=True)
        return Sc.sym(s)

    def unwritten(self, a, idx):
        """idx is not written by an earlier epoch"""
        from .lag import rename
        j = self._other()
        for f in a.writes:
            f, cs, _ = rename(f)
            e = self._at(f, j).__eq__(dim_resolve(to_sc(idx)))
            if e is True or (not isinstance(e, bool) and not unsat(j < self.k, e, *cs)):
                return bool(self.k == 0)      # the very first epoch is a case of its own
        return True

    def never_writes(self, a, idx):
        from .lag import rename
        j = self._other()
        for f in a.writes:
            f, cs, _ = rename(f)
            e = self._at(f, j).__eq__(dim_resolve(to_sc(idx)))
            if e is True or (not isinstance(e, bool) and not unsat(j < self.n, e, *cs)):
                return False
        return True

    def once(self, a):
        """no row is written by two epochs"""
        from .lag import rename
        j = self._other()
        for f in a.writes:
            if rename(f)[1]:
                return False
            for g in a.writes:
                e = self._at(f, j).__eq__(dim_resolve(g))
                if e is True or (not isinstance(e, bool) and not (unsat(j < self.k, e) and unsat(j > self.k, j < self.n, e))):
                    return False
        return True


# ------------------------------------------------------------------ harness side
class SaverStub:
    """stands for the user's saver: records the filter's state whenever it is called"""

    def __init__(self, ep, obj, keys):
        self.ep, self.obj, self.keys, self.calls = ep, obj, keys, []

    def save(self):
        self.calls.append((self.ep.phase, {k: frozen(getattr(self.obj, k)) for k in self.keys}))

    def __deepcopy__(self, memo):
        return self


class SymEpochs:
    def __init__(self, W, T, objs, refs, carry, props):
        self.W, self.T, self.refs = W, T, list(refs)
        self.phase = 0
        self.ind = Induction(objs, {k: frozen(v) for k, v in carry.items()}, props, self._hook)
        self.objs = list(objs)

    def _hook(self, p):
        self.phase = p

    def __enter__(self):
        self.ind.__enter__()
        return self

    def __exit__(self, *a):
        return self.ind.__exit__(*a)

    def saver(self, obj, keys):
        return SaverStub(self, obj, keys)

    def steps(self, count=None, index=None):
        """the generic epoch (at most one turn); the bookkeeping obligations of the induction"""
        W, ind = self.W, self.ind
        count = self.T if count is None else count
        if ind.loop is None:
            raise Unsupported('no loop over the epochs found')
        if ind.empty:
            W.ok('every epoch is processed', unsat(to_sc(count) >= 1))
            return
        if not ind.finished:
            raise Unsupported('the loop over the epochs was left early')
        W.ok('every epoch is processed', provably_eq(ind.loop.n, count))
        for o0, o1 in zip(ind.initial, ind.entry):
            for k in o0:
                if k not in o1 or not (unchanged(o1[k], o0[k]) or o1[k] is o0[k]):
                    W.same('state at the first epoch.%s' % k, o1.get(k), o0[k])
        W._emit('state at the first epoch', 'proved')
        for r, pre in zip(self.refs, ind.pre):
            for k, v in pre.items():
                if vars(r).get(k) is not v:
                    setattr(r, k, frozen(v))
        k = ind.loop.k
        yield (dim_resolve(to_sc(index(k))) if index else k)

    def state(self, key):
        ind = self.ind
        if key not in ind.assoc:
            raise Unsupported('state %s is not carried by one variable' % key)
        return frozen(ind.assoc[key])

    def put(self, k, **kw):
        for key, v in kw.items():
            if key not in self.ind.postloc:
                raise Unsupported('state %s is not carried by one variable' % key)
            for w in self.ind.postloc[key]:
                self.W.eq('next state ' + key, w, v)

    def row(self, arr, idx):
        W = self.W
        if not isinstance(arr, TimeArr):
            raise Unsupported('result is not an array over the epochs')
        W.ok('one row per epoch', provably_eq(arr.n, self.T) or provably_eq(arr.n, to_sc(self.T) + 1))
        if arr.closed is not None:
            W.ok('rows are written once', self.ind.loop.once(arr))
            for i, v in arr.postrows:
                if provably_eq(i, idx):
                    return frozen(v)
        return frozen(arr[idx])

    def prev(self, arr, idx):
        """row idx before the generic epoch"""
        if arr.closed is not None:
            for i, v in arr.postrows:
                if provably_eq(i, idx):
                    if any(provably_eq(i, w) for w in arr.writes):
                        raise Unsupported('row written by the epoch itself')
                    return frozen(v)
        return frozen(arr[idx])

    def before(self, arr, idx):
        """row idx of an array the loop writes, before the generic epoch"""
        return frozen(arr._cur(dim_resolve(to_sc(idx))))

    def same_rows(self, name, arr, want):
        """the generic epoch leaves the same rows in arr as the list `want` received"""
        W = self.W
        if arr.closed is None:
            raise Unsupported('array not written by the loop')
        a = [[i, v] for i, v in arr.postrows if any(provably_eq(i, w) for w in arr.writes)]
        b = [[r[0], r[1]] for r in want.dirty()]
        for i, v in b:
            vs = [w for j, w in a if provably_eq(i, j)]
            W.ok(name + ': same rows written', len(vs) == 1)
            if isinstance(v, Stale) and vs and isinstance(vs[0], Stale):
                continue                          # another turn of the inner loop decides this row
            if isinstance(v, Stale) or any(isinstance(w, Stale) for w in vs):
                raise Unsupported('row decided by another turn')
            for w in vs:
                W.eq(name, w, v)
        W.ok(name + ': no other row written', all(any(provably_eq(i, j) for j, _ in b) for i, _ in a))

    def kept(self, name, arr, was):
        """an array over the epochs that the routine was given is as it was"""
        W = self.W
        if arr.closed is not None:
            return W._emit(name + ' unchanged', 'unproved', 'written by the loop')
        for i, v, f, w in arr.rows:
            W.eq(name + ' unchanged', v, arr.init(i))
        W._emit(name + ' unchanged', 'proved')

    def after(self, k, skip=()):
        W = self.W
        for r, post in zip(self.refs, self.ind.post):
            for a, v in post.items():
                if a in skip:
                    continue
                w = getattr(r, a) if not a.startswith('__') else v
                if isinstance(v, Stale) and isinstance(w, Stale):
                    continue
                if isinstance(v, Stale) or isinstance(w, Stale):
                    W._emit('state after the epoch.%s' % a, 'unproved', 'set by one of the two only')
                    continue
                if v is w:
                    continue
                W.same('state after the epoch.%s' % a, v, w)

    def saved(self, k, stub, want):
        W = self.W
        calls = [c for c in stub.calls if c[0] == 2]
        W.ok('saver called once per epoch', len(calls) == 1 and not any(c[0] in (0, 3) for c in stub.calls))
        if len(calls) == 1:
            for a, v in want.items():
                W.eq('saved ' + a, calls[0][1][a], v)


class ConEpochs:
    def __init__(self, W, T, objs, refs, carry, props):
        self.W, self.T, self.objs, self.refs = W, T, list(objs), list(refs)
        self.st = {k: copy.deepcopy(v) for k, v in carry.items()}
        self.phase = 0
        self.ends = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def saver(self, obj, keys):
        s = SaverStub(self, obj, keys)
        s.save = lambda: s.calls.append((0, {k: copy.deepcopy(getattr(obj, k)) for k in keys}))
        return s

    def steps(self, count=None, index=None):
        self.count = self.T if count is None else count
        for k in range(self.count):
            self.k = k
            yield index(k) if index else k

    def state(self, key):
        return copy.deepcopy(self.st[key])

    def put(self, k, **kw):
        for a, v in kw.items():
            self.st[a] = copy.deepcopy(v)

    def row(self, arr, idx):
        self.W.ok('one row per epoch', len(arr) in (self.T, self.T + 1))
        return arr[idx]

    def prev(self, arr, idx):
        return arr[idx]

    def kept(self, name, arr, was):
        self.W.same(name + ' unchanged', arr, was)

    def after(self, k, skip=()):
        if self.k == self.count - 1:
            for o, r in zip(self.objs, self.refs):
                for a in vars(o):
                    if a in skip:
                        continue
                    x, y = getattr(o, a), getattr(r, a)
                    num = all(isinstance(v, (float, int, np.ndarray, np.number)) and not (isinstance(v, np.ndarray) and v.dtype == object) for v in (x, y))
                    (self.W.eq if num else self.W.same)('final state.%s' % a, x, y)

    def saved(self, k, stub, want):
        W = self.W
        W.ok('saver called once per epoch', len(stub.calls) == self.count)
        for a, v in want.items():
            W.eq('saved ' + a, stub.calls[self.k][1][a], v)
