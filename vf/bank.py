"""Banks of arbitrary filters with a symbolic number of members.

Member k of a bank is a function of k: its state is column k of an unknown matrix, its
covariance is an unknown family P(e_k) that is linear in the unit vector (so that
sum_k w_k P_k = P(w) for every weight vector w), its likelihood entry k of an unknown
positive vector.  Running a member replaces all of it by new unknowns: nothing is assumed
about what a filter does.  A loop over the members is summarised like every other loop
(loops.py); here it is checked that a loop that changes members touches only its own member.
"""
from .ctx import ctx, Unsupported
from .sc import Sc, to_sc, ONE, dim_resolve
from .mat import Mat, Algebra, d1
from . import arr as A


class Fam:
    """an unknown linear map from N-vectors to symmetric n x n matrices"""

    def __init__(self, name, N, n):
        self.name, self.N, self.n = name, N, n
        self.id = id(self)

    def __call__(self, v):
        Al = Algebra.cur()
        v = v.renorm()
        out = Mat.zero(self.n, self.n)
        for w, c in v.terms.items():
            a = Al.atom('%s[%s]' % (self.name, '.'.join(Al.atoms[i].name for i in w)), self.n, self.n, 'fam',
                        (self, Mat(v.rows, ONE, {w: ONE})), sym=True, key=('fam', self.id, w, v.rows.key() if not w else None))
            out = out + Mat.of(a).scale(c)
        return out


class SymBank:
    def __init__(self, W, name, N, n, nd):
        self.W, self.name, self.N, self.n, self.nd = W, name, to_sc(N), to_sc(n), nd
        self.ver = {'x': 0, 'P': 0, 'likelihood': 0}
        self.explicit = {}
        self.ops = 0
        self.log = []
        self.fam = {}
        self.z = None
        self.begin(None)
        c = ctx()
        if not hasattr(c, 'banks'):
            c.banks = []
        c.banks.append(self)

    # ---- list protocol
    def _vf_len(self):
        return self.N

    def __len__(self):
        raise Unsupported('len of a bank')

    def __iter__(self):
        raise Unsupported('iteration of a bank')

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a bank')
        i = to_sc(i)
        if i.is_const() and i.const_val() < 0:
            i = self.N + i
        i = dim_resolve(i)
        e = self.elems.get(i.key())
        if e is None:
            c = ctx()
            if not (bool(i >= 0) and bool(i < self.N)):
                raise IndexError('list index out of range')
            e = self.elems[i.key()] = Member(self, i)
        return e

    # ---- passes
    def begin(self, main):
        self.elems = {}
        self.main = main
        self.others = False

    def commit(self):
        changed = [e for e in self.elems.values() if e._changed()]
        main, others = self.main, self.others
        elems = self.elems
        self.begin(None)
        if not changed:
            return
        if len(changed) != 1 or main is None or changed[0]._k.key() != main.key():
            raise Unsupported('a loop changes members other than its own')
        if others:
            raise Unsupported('a loop changes its member and reads others')
        e = changed[0]
        self.ver = dict(e._ver)
        self.explicit = {}
        for a, (obj, val) in e._val.items():
            if a in e._written or not _unread(obj, val):
                self.explicit[a] = (e._k, obj.copy() if isinstance(obj, A.SymArr) else obj)
        # written but never replaced by a run: remains explicit
        for a, v in e._keep.items():
            self.explicit.setdefault(a, v)
        self.log.append((e._k, list(e._ops)))
        if e._z:
            self.z = e._z[-1]

    # ---- values
    def mat(self, attr, ver=None):
        """the family of an attribute as a function of a weight vector"""
        if attr in self.explicit and ver is None:
            raise Unsupported('member attribute was set explicitly')
        v = self.ver[attr] if ver is None else ver
        key = (attr, v)
        if key not in self.fam:
            Al = Algebra.cur()
            nm = '%s_%s%d' % (attr, self.name, v)
            if attr == 'x':
                self.fam[key] = Mat.of(Al.atom(nm, self.n, self.N, 'var'))
            elif attr == 'P':
                self.fam[key] = Fam(nm, self.N, self.n)
            elif v == 0:
                self.fam[key] = Mat.ones_vec(self.N)
            else:
                self.fam[key] = Mat.of(Al.atom(nm, self.N, ONE, 'var', props=('pos',)))
        return self.fam[key]

    def value(self, attr, k, ver):
        f = self.mat(attr, ver)
        e = Mat.basis(self.N, k)
        if attr == 'x':
            return A.SymArr(f @ e, self.nd)
        if attr == 'P':
            return A.SymArr(f(e), 2)
        return (e.T @ f).scalar()


def _unread(obj, val):
    return not isinstance(obj, A.SymArr) or obj.mat.equals(val)


class Member(object):
    def __init__(self, bank, k):
        d = self.__dict__
        d['_bank'], d['_k'] = bank, k
        d['_ver'] = dict(bank.ver)
        d['_val'] = {}          # attr -> (object handed out, its value then)
        d['_written'] = set()
        d['_keep'] = dict(bank.explicit)
        d['_ops'] = []
        d['_z'] = []

    def _changed(self):
        return bool(self._ops or self._written or any(not _unread(o, v) for o, v in self._val.values()))

    def _touch(self):
        b = self._bank
        if b.main is not None and b.main.key() != self._k.key():
            b.others = True

    def __getattr__(self, a):
        b = self.__dict__['_bank']
        if a not in b.ver and a not in ('z',):
            raise AttributeError(a)
        self._touch()
        if a == 'z':
            return self._z[-1] if self._z else b.z
        if a in self._val:
            return self._val[a][0]
        if a in self._keep:
            k, v = self._keep[a]
            if k.key() != self._k.key():
                raise Unsupported('member attribute was set explicitly')
            o = v.copy() if isinstance(v, A.SymArr) else v
        else:
            o = b.value(a, self._k, self._ver[a])
        self._val[a] = (o, o.mat if isinstance(o, A.SymArr) else o)
        return o

    def __setattr__(self, a, v):
        b = self._bank
        if a not in b.ver:
            raise Unsupported('member attribute ' + a)
        v = v if isinstance(v, A.SymArr) else A.lift(v)
        self._written.add(a)
        self._keep.pop(a, None)
        self._val[a] = (v, v.mat if isinstance(v, A.SymArr) else v)

    def _run(self, op, args, kw):
        W = self._bank.W
        self._touch()
        if self._bank.main is None or self._bank.main.key() != self._k.key():
            raise Unsupported('a member is run outside the loop over the bank')
        self._ops.append((op, W.snap(self.x), W.snap(self.P), args, kw))
        for a in ('x', 'P') + (('likelihood',) if op == 'update' else ()):
            self._ver[a] += 1
            self._val.pop(a, None)
            self._keep.pop(a, None)
            self._written.discard(a)
        if op == 'update':
            self._z.append(args[0] if args else kw.get('z'))

    def predict(self, *a, **k):
        self._run('predict', a, k)

    def update(self, *a, **k):
        self._run('update', a, k)


def pooled_generic(n):
    """loops over banks at the same depth share their index: both run over all members, and
    nothing but sequences of elements keeps the index after a loop"""
    from .loops import Generic
    c = ctx()
    n = dim_resolve(to_sc(n))
    pool = c.__dict__.setdefault('gpool', {})
    key = (len(c.loops), n.key())
    g = pool.get(key)
    if g is None or g in c.loops:
        g = pool[key] = Generic(n)
    return g


def recip(v):
    """entrywise reciprocal of a column without zero entries: e_k' recip(v) = 1 / (e_k' v)"""
    Al = Algebra.cur()
    v = v.renorm()
    if not v.terms:
        raise Unsupported('reciprocal of zero')
    w0 = max(v.terms, key=Al.wkey)
    c = v.terms[w0]
    if len(v.terms) == 1 and w0 == () or (len(v.terms) == 1 and Al.atoms[w0[0]].kind == 'ones'):
        return Mat(v.rows, v.cols, {w0: ONE / c})
    u = v.scale(ONE / c)
    if len(u.terms) == 1 and len(w0) == 1 and Al.atoms[w0[0]].kind == 'recip':
        return Al.atoms[w0[0]].data.scale(ONE / c)
    key = ('recip', u.key())
    a = Al.by_key.get(key)
    if a is None:
        pos = len(u.terms) == 1 and positive_word(w0)
        a = Al.atom('1/v%d' % len(Al.atoms), v.rows, ONE, 'recip', u, key=key, props=('pos',) if pos else ())
        if len(u.terms) == 1:
            one = Mat.ones_vec(v.rows)
            (dw, _), = Mat.diag_of(u).terms.items()
            (dr, _), = Mat.diag_of(Mat(v.rows, ONE, {(a.id,): ONE})).terms.items()
            Al.add_rule(dw + (a.id,), one)
            Al.add_rule(dr + w0, one)
            Al.add_rule(dw + dr, Mat.eye(v.rows))
            Al.add_rule(dr + dw, Mat.eye(v.rows))
    return Mat(v.rows, v.cols, {(a.id,): ONE / c})


def positive_word(w):
    """is every entry of this product positive?  (entrywise positive factors, positive
    diagonals, ones; a unit vector only at an end, next to a full factor)"""
    at = Algebra.cur().atoms
    full = False
    for i, x in enumerate(w):
        a = at[x]
        if a.kind.endswith('_t'):
            a = a.data
        if a.kind == 'diag':
            (dw, dc), = a.data.terms.items()
            if not positive_word(dw):
                return False
        elif a.kind in ('gen', 'inj') and d1(a.cols) and i in (0, len(w) - 1):
            pass
        elif a.kind == 'ones' or 'pos' in a.props:
            full = True
        else:
            return False
    return full


# ---------------------------------------------------------------- what harnesses use
class Record:
    def __init__(self, k, op, x, P, args, kw):
        self.k, self.op, self.x, self.P, self.args, self.kw = k, op, x, P, args, kw


def sym_ran(bank, op):
    """the call records of the generic member if every member ran exactly once, by `op`; else None"""
    if len(bank.log) != 1 or [o[0] for o in bank.log[0][1]] != [op]:
        return None
    k, ((_, x, P, args, kw),) = bank.log[0]
    return [Record(k, op, x, P, args, kw)]


class SymFamily:
    def __init__(self, bank):
        self.bank, self.X, self.P = bank, bank.mat('x'), bank.mat('P')
        self.L = bank.mat('likelihood')

    def mean(self, w):
        return A.SymArr(self.X @ A.lift(w).flatten().mat, self.bank.nd)

    def spread(self, w, x):
        """sum_k w_k ((x_k - x)(x_k - x)' + P_k)"""
        w = A.lift(w).flatten().mat
        x = A.lift(x).flatten().mat
        X = self.X
        Xw = X @ w
        t = (Mat.ones_vec(self.bank.N).T @ w).scalar()
        return A.SymArr(self.P(w) + X @ Mat.diag_of(w) @ X.T - Xw @ x.T - x @ Xw.T + (x @ x.T).scale(t), 2)

    def likelihood(self):
        return A.SymArr(self.L, 1)


class AnyFilter:
    """an arbitrary filter (concrete runs): every operation leaves an arbitrary result"""

    def __init__(self, W, name, n, nd):
        self.W, self.name, self.n, self.nd = W, name, n, nd
        self.ops = []
        self.k = 0
        self.likelihood = 1.
        self.fresh()

    def fresh(self):
        t = '%s_%d' % (self.name, self.k)
        self.k += 1
        self.x, self.P = self.W.vec('x' + t, self.n, self.nd), self.W.pd('P' + t, self.n)
        self.z = None

    def predict(self, *a, **k):
        self.ops.append(('predict', self.W.snap(self.x), self.W.snap(self.P), a, k))
        self.fresh()

    def update(self, *a, **k):
        self.ops.append(('update', self.W.snap(self.x), self.W.snap(self.P), a, k))
        self.fresh()
        self.likelihood = self.W.scal('L%s_%d' % (self.name, self.k), pos=True)
        self.z = a[0] if a else k.get('z')


def con_ran(bank, op):
    out = []
    for k, f in enumerate(bank):
        if [o[0] for o in f.ops] != [op]:
            return None
        out.append(Record(k, *f.ops[0]))
    return out


class ConFamily:
    def __init__(self, bank):
        import numpy as np
        self.x = [np.array(f.x) for f in bank]
        self.P = [np.array(f.P) for f in bank]
        self.L = np.array([f.likelihood for f in bank])

    def mean(self, w):
        return sum(x * a for x, a in zip(self.x, w))

    def spread(self, w, x):
        import numpy as np
        t = 0
        for xk, Pk, a in zip(self.x, self.P, w):
            y = np.reshape(xk - x, (-1, 1))
            t = t + a * (y @ y.T + Pk)
        return t

    def likelihood(self):
        return self.L
