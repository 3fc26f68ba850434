"""Noncommutative matrix algebra over symbolic dimensions.

A `Mat` is a finite linear combination (coefficients `Sc`) of words of typed
matrix atoms.  Words are kept in normal form with respect to a rewrite system
generated from the *contracts* of the linear-algebra primitives the program
calls (inv, cholesky, ...).  Equal normal forms => equal for every dimension
and every real value (the rewrite rules are consequences of the contracts)."""
from .ctx import ctx, Unsupported, STATS
from .sc import Sc, to_sc, ZERO, ONE, new_sym, dim_resolve, known_sign, canon, sqrt as sc_sqrt


class Atom:
    __slots__ = ('id', 'name', 'rows', 'cols', 'kind', 'data', 'tid', 'props', 'weight')

    def __init__(self, id, name, rows, cols, kind, data, props):
        self.id, self.name, self.rows, self.cols = id, name, rows, cols
        self.kind, self.data, self.props = kind, data, props
        self.tid = None
        self.weight = 1.0


def deq(a, b):
    """dimension equality known to hold on this path (no forking)"""
    a, b = dim_resolve(a), dim_resolve(b)
    return (a - b).is_zero()


def d1(a):
    a = dim_resolve(a)
    return a.is_const() and a.const_val() == 1


class Algebra:
    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.rules = {}          # first atom id -> list of (lhs, rhs_terms)
        self.nrules = 0
        self.version = 0
        self.wcache = {}
        self.paircache = {}
        self.completed = 0

    @staticmethod
    def cur():
        c = ctx()
        if c.algebra is None:
            c.algebra = Algebra()
        return c.algebra

    def dims_changed(self):
        self.version += 1
        self.wcache.clear()
        self.paircache.clear()

    def atom(self, name, rows, cols, kind='var', data=None, sym=False, key=None, props=()):
        if key is not None and key in self.by_key:
            return self.by_key[key]
        a = Atom(len(self.atoms), name, rows, cols, kind, data, set(props))
        self.atoms.append(a)
        if sym:
            a.tid = a.id
        else:
            b = Atom(len(self.atoms), name + "'", cols, rows, kind + '_t', a, set(props))
            self.atoms.append(b)
            a.tid, b.tid = b.id, a.id
        if key is not None:
            self.by_key[key] = a
        return a

    def wkey(self, w):
        """rewrite order: total weight, then length, then ids"""
        at = self.atoms
        return (sum(at[i].weight for i in w), len(w), w)

    def setw(self, a, E):
        """weight of a factor a with a'a = E: heavier than half of E's heaviest word"""
        m = max([self.wkey(w)[0] for w in E.terms] or [0])
        a.weight = m / 2 + .5
        if a.tid != a.id:
            self.atoms[a.tid].weight = a.weight

    def wt(self, w):
        at = self.atoms
        return tuple(at[i].tid for i in reversed(w))

    def add_rule(self, lhs, rhs):
        """lhs word -> rhs Mat (and the transposed rule)"""
        self._add(lhs, rhs)
        tl = self.wt(lhs)
        if tl != lhs:
            self._add(tl, rhs.T)

    def _add(self, lhs, rhs):
        lst = self.rules.setdefault(lhs[0], [])
        for l, r in lst:
            if l == lhs:
                return
        lst.append((lhs, rhs))
        self.nrules += 1
        self.version += 1
        self.wcache.clear()

    def find(self, w):
        for i in range(len(w)):
            for lhs, rhs in self.rules.get(w[i], ()):
                n = len(lhs)
                if w[i:i + n] == lhs:
                    return i, n, rhs
            if i + 1 < len(w):
                a, b = self.atoms[w[i]], self.atoms[w[i + 1]]
                if a.kind in SPECIAL and b.kind in SPECIAL:
                    r = self.pair(a, b)
                    if r is not None:
                        return i, 2, r
        return None

    def pair(self, a, b):
        """built-in products of structural atoms (unit blocks, ones, diagonals)"""
        key = (a.id, b.id)
        if key in self.paircache:
            return self.paircache[key]
        r = self._pair(a, b)
        self.paircache[key] = r
        if r is not None and not (a.kind == b.kind == 'diag'):
            self.paircache[(b.tid, a.tid)] = r.T
        return r

    def _pair(self, a, b):
        ka, kb = a.kind, b.kind
        if ka == 'ones_t' and kb == 'ones':
            return Mat.scalar_mat(dim_resolve(a.cols))
        if ka == 'inj_t' and kb == 'ones':
            return Mat.ones_vec(a.rows)
        if ka == 'ones_t' and kb == 'inj':
            return Mat.ones_vec(b.cols).T
        if ka == 'gen_t' and kb == 'ones':
            return Mat.eye(1)
        if ka == 'ones_t' and kb == 'gen':
            return Mat.eye(1)
        if ka == 'gen_t' and kb == 'gen' and a.data is b:
            return Mat.eye(1)
        if ka == 'inj' and kb == 'inj':
            return Mat.inj(a.rows, a.data[0] + b.data[0], b.cols)
        if ka == 'inj_t' and kb == 'inj_t':
            return self._pair_t(a, b)
        if ka == 'inj_t' and kb == 'inj':
            A, B = a.data, b
            o1, l1, o2, l2 = A.data[0], A.cols, B.data[0], B.cols
            if (o1 - o2).is_zero() and (l1 - l2).is_zero():
                return Mat.eye(l1)
            c = ctx()

            def ent(x):
                return x if isinstance(x, bool) else c.entailed(x)
            if ent(o1 + l1 <= o2) or ent(o2 + l2 <= o1):
                return Mat.zero(l1, l2)
            if ent(o1 <= o2) and ent(o2 + l2 <= o1 + l1):      # block 2 inside block 1
                return Mat.inj(l1, o2 - o1, l2)
            if ent(o2 <= o1) and ent(o1 + l1 <= o2 + l2):
                return Mat.inj(l2, o1 - o2, l1).T
            return None
        if ka == 'diag' and kb == 'ones':
            return a.data
        if ka == 'ones_t' and kb == 'diag':
            return b.data.T
        if ka == 'diag' and kb == 'diag':
            if self.diag_key(a) > self.diag_key(b):      # diagonals commute
                return Mat(a.rows, b.cols, {(b.id, a.id): ONE})
            return None
        if ka == 'diag' and kb == 'gen':
            e = Mat.of(b)
            return e.scale((a.data.T @ e).scalar())
        if ka == 'gen_t' and kb == 'diag':
            return self._pair(b, a.data).T
        if ka == 'gen_t' and kb == 'recip':
            return Mat.scalar_mat(ONE / (b.data.T @ Mat.of(a.data)).scalar())
        if ka == 'recip_t' and kb == 'gen':
            return Mat.scalar_mat(ONE / (a.data.data.T @ Mat.of(b)).scalar())
        return None

    def _pair_t(self, a, b):
        # J1' J2' = (J2 J1)'
        return Mat.inj(b.data.rows, a.data.data[0] + b.data.data[0], a.data.cols).T

    def nf_word(self, w, rows, cols):
        """normal form of a word as a dict word -> Sc"""
        r = self.wcache.get((w, rows.key() if not w else None))
        if r is not None:
            return r
        r = self._nf_word(w, rows, cols)
        self.wcache[(w, rows.key() if not w else None)] = r
        return r

    def _nf_word(self, w, rows, cols):
        at = self.atoms
        # collapse atoms whose dims became 1x1 (scalars)
        hit = self.find(w)
        if hit is not None:
            i, n, rhs = hit
            out = {}
            pre, post = w[:i], w[i + n:]
            for mid, c in rhs.terms.items():
                for w2, c2 in self.nf_word(pre + mid + post, rows, cols).items():
                    acc(out, w2, c * c2)
            return out
        # pull out scalar (1x1) segments
        bd = []
        if d1(rows):
            bd.append(0)
        for i in range(1, len(w)):
            if d1(at[w[i]].rows):
                bd.append(i)
        if len(w) > 0 and d1(cols):
            bd.append(len(w))
        if len(bd) >= 2:
            coef = ONE
            for a, b in zip(bd, bd[1:]):
                coef = coef * self.scalar_word(w[a:b])
            rest = w[:bd[0]] + w[bd[-1]:]
            if rest and rest != w and bd[-1] - bd[0] > 0:
                out = {}
                for w2, c2 in self.nf_word(rest, rows, cols).items():
                    acc(out, w2, coef * c2)
                return out
            return {rest: coef}
        if bd and len(bd) == 1:
            # A diag(a) v = A diag(v) a for columns a, v: order them
            a, b = self._order_diag(w[:bd[0]]), w[bd[0]:]
            if b:
                b = self.sort_groups(self.wt(self._order_diag(self.wt(b))))
            if a + b != w:
                return self.nf_word(a + b, rows, cols)
        return {w: ONE}

    def diag_key(self, a):
        """order of diagonals: a reciprocal next to what it inverts"""
        (w, _), = a.data.terms.items()
        if len(w) == 1 and self.atoms[w[0]].kind == 'recip' and len(self.atoms[w[0]].data.terms) == 1:
            d = self.by_key.get(('diag', a.rows.key(), next(iter(self.atoms[w[0]].data.terms))))
            if d is not None:
                return (d.id, 1)
        return (a.id, 0)

    def gen_key(self, w):
        """words with a loop index stay outside of diagonals"""
        return (any(self.atoms[i].kind in ('gen', 'gen_t') for i in w), w)

    def sort_groups(self, w):
        """neighbouring diagonals in their order"""
        at = self.atoms
        w = list(w)
        i = 0
        while i < len(w):
            j = i
            while j < len(w) and at[w[j]].kind == 'diag':
                j += 1
            w[i:j] = sorted(w[i:j], key=lambda x: self.diag_key(at[x]))
            i = max(j, i + 1)
        return tuple(w)

    def _order_diag(self, w):
        """diag(a) v = diag(v) a for columns a, v: one order"""
        at = self.atoms
        i = 0
        while i < len(w) and at[w[i]].kind != 'diag':
            i += 1
        if i >= len(w) - 1:
            return w
        j = i
        while j + 1 < len(w) and at[w[j + 1]].kind == 'diag':
            j += 1
        if j == len(w) - 1:
            return w
        ws = [self._order_diag(w[j + 1:])]
        for x in w[i:j + 1]:
            (aw, _), = at[x].data.terms.items()
            ws.append(aw)
        new = sorted(ws, key=self.gen_key)
        rows = at[w[i]].rows
        mid = ()
        for aw in new[:-1]:
            (dw, _), = Mat.diag_of(Mat(rows, ONE, {aw: ONE})).terms.items()
            mid += dw
        mid = tuple(sorted(mid, key=lambda x: self.diag_key(at[x])))
        return w[:i] + mid + new[-1]

    def _scalar_forms(self, w):
        """u' diag(a) .. v with any two of the vectors at the ends, for every group of diagonals"""
        at = self.atoms
        n = len(w)
        i = 0
        while i < n:
            if at[w[i]].kind != 'diag':
                i += 1
                continue
            j = i
            while j + 1 < n and at[w[j + 1]].kind == 'diag':
                j += 1
            if 0 < i and j < n - 1:
                ws = [self.wt(w[:i]), w[j + 1:]]
                for x in w[i:j + 1]:
                    (aw, _), = at[x].data.terms.items()
                    ws.append(aw)
                rows = at[w[i]].rows
                for p in range(len(ws)):
                    for q in range(p):
                        mid = ()
                        for r in range(len(ws)):
                            if r not in (p, q):
                                (dw, _), = Mat.diag_of(Mat(rows, ONE, {ws[r]: ONE})).terms.items()
                                mid += dw
                        yield self.wt(ws[q]) + tuple(sorted(mid, key=lambda x: self.diag_key(at[x]))) + ws[p]
            i = j + 1

    def scalar_word(self, w):
        at = self.atoms
        if len(w) == 1:
            a = at[w[0]]
            if a.kind.endswith('_t'):
                a = a.data
            if a.kind == 'inv':
                return ONE / a.data.scalar()
            if a.kind == 'ones':
                return ONE
            if a.kind in ('inj', 'gen'):
                return ONE
            if a.kind == 'chol':
                return sc_sqrt(a.data.scalar())
            if a.kind == 'ent':       # 1x1 atom standing for a scalar expression
                return a.data
            w = (a.id,)
        if any(at[x].kind == 'diag' for x in w):
            # symmetric in the vectors around a diagonal: the least of the equal forms
            seen, todo = {w}, [w]
            while todo and len(seen) < 150:
                for f in self._scalar_forms(todo.pop()):
                    if f not in seen:
                        seen.add(f)
                        todo.append(f)

            def cost(f):
                f = min(self.sort_groups(f), self.sort_groups(self.wt(f)))
                return (sum(self.gen_key(next(iter(at[x].data.terms)))[0] for x in f if at[x].kind == 'diag'), f)
            w = min(seen, key=cost)
        t = self.sort_groups(self.wt(w))
        w = min(self.sort_groups(w), t)
        from .bank import positive_word
        s = new_sym('.'.join(at[i].name for i in w), 'word', w, pos=positive_word(w), key=('word', w))
        return Sc.sym(s)

    def renorm_sc(self, e):
        """re-normalise the matrix words hidden inside scalar symbols"""
        syms = ctx().symtab.syms
        ds = ctx().dimsub
        if ds and any(i in ds for i in e.syms()):
            from .sc import subst
            e = subst(e, ds)
        ids = [i for i in e.syms() if syms[i].kind in ('word',)]
        sub = {}
        at = self.atoms
        for i in ids:
            w = syms[i].data
            r, c = at[w[0]].rows, at[w[-1]].cols
            t = self.nf_word(w, r, c)
            v = ZERO
            for w2, cf in t.items():
                if w2 == ():
                    v = v + cf
                else:
                    raise Unsupported('scalar word did not scalarise')
            if not (v - Sc.sym(syms[i])).is_zero():
                sub[i] = v
        if sub:
            from .sc import subst
            e = subst(e, sub)
        return e

    # ---- bounded noncommutative completion
    def complete(self, rounds=1, limit=400):
        for _ in range(rounds):
            rules = [(l, r) for lst in self.rules.values() for l, r in lst]
            new = []
            for l1, r1 in rules:
                for l2, r2 in rules:
                    for k in range(1, min(len(l1), len(l2))):
                        if l1[-k:] == l2[:k]:
                            a = r1.mul_word_right(l2[k:])
                            b = r2.mul_word_left(l1[:-k])
                            d = (a - b).renorm()
                            if d.terms:
                                new.append(d)
            added = 0
            for d in new:
                d = d.renorm()
                if not d.terms:
                    continue
                if self.orient(d):
                    added += 1
                if self.nrules > limit:
                    return
            self.completed += 1
            if not added:
                return

    def orient(self, d, second=False):
        """d == 0: use it as a rewrite rule for its largest word"""
        ws = sorted((w for w in d.terms), key=self.wkey, reverse=True)
        lw = ws[0]
        if len(lw) < 1:
            return False
        c = d.terms[lw]
        if not (c.is_const() or known_sign(c) is not None):
            return False
        rest = Mat(d.rows, d.cols, {w: v for w, v in d.terms.items() if w != lw})
        self._add(lw, rest.scale(-(ONE / c)))
        if not second:
            dt = d.T
            lt = max(dt.terms, key=self.wkey)
            if self.wt(lt) != lw or lt != lw:
                dt = dt.renorm()
                if dt.terms:
                    self.orient(dt, True)
        return True


SPECIAL = {'inj', 'inj_t', 'ones', 'ones_t', 'gen', 'gen_t', 'diag', 'recip', 'recip_t'}


def acc(d, k, v):
    o = d.get(k)
    if o is not None:
        v = o + v
    if v.num:
        d[k] = v
    elif o is not None:
        del d[k]


class Mat:
    __slots__ = ('rows', 'cols', 'terms')

    def __init__(self, rows, cols, terms):
        self.rows, self.cols, self.terms = rows, cols, terms

    # --- constructors
    @staticmethod
    def zero(r, c):
        return Mat(to_sc(r), to_sc(c), {})

    @staticmethod
    def eye(n):
        return Mat(to_sc(n), to_sc(n), {(): ONE})

    @staticmethod
    def of(atom):
        return Mat(atom.rows, atom.cols, {(atom.id,): ONE}).renorm()

    @staticmethod
    def ones_vec(n):
        n = to_sc(n)
        if d1(n):
            return Mat.eye(1)
        a = Algebra.cur().atom('1', n, ONE, 'ones', key=('ones', dim_resolve(n).key()))
        return Mat.of(a)

    @staticmethod
    def ones(r, c):
        return Mat.ones_vec(r) @ Mat.ones_vec(c).T

    @staticmethod
    def inj(n, off, ln):
        """n x ln block of the identity starting at row off: J'X selects rows off..off+ln"""
        n, off, ln = to_sc(n), to_sc(off), to_sc(ln)
        n, off, ln = dim_resolve(n), dim_resolve(off), dim_resolve(ln)
        if (n - ln).is_zero():
            return Mat.eye(n)
        nm = 'J[%r:+%r]' % (off, ln) if not (ln - ONE).is_zero() else 'e%r' % off
        a = Algebra.cur().atom(nm, n, ln, 'inj', (off,), key=('inj', n.key(), off.key(), ln.key()))
        return Mat.of(a)

    @staticmethod
    def basis(n, i):
        """unit vector; for a loop-generic index the range block is split off: e_{o+k} = J e_k"""
        n, i = dim_resolve(to_sc(n)), dim_resolve(to_sc(i))
        if d1(n):
            return Mat.eye(1)
        for lp in list(reversed(ctx().loops)) + list(getattr(ctx(), 'gpool', {}).values()):
            k = lp.ksym
            if k is not None and k.id in i.syms():
                off = i - Sc.sym(k)
                if k.id in off.syms():
                    break
                e = Mat.of(lp.gen_atom())
                return Mat.inj(n, off, lp.n) @ e
        return Mat.inj(n, i, ONE)

    @staticmethod
    def diag_of(v):
        """diag(v) for a column Mat v (linear in v)"""
        A = Algebra.cur()
        out = Mat.zero(v.rows, v.rows)
        v = v.renorm()
        for w, c in v.terms.items():
            if w == ():
                out = out + Mat.eye(v.rows).scale(c)
                continue
            a = A.atoms[w[0]]
            if len(w) == 1 and a.kind == 'ones':
                out = out + Mat.eye(v.rows).scale(c)
            elif a.kind == 'diag' and len(w) > 1:
                out = out + (Mat.of(a) @ Mat.diag_of(Mat(v.rows, ONE, {w[1:]: ONE}))).scale(c)
            elif a.kind == 'inj' and d1(a.cols) and len(w) == 1:
                J = Mat.of(a)
                out = out + (J @ J.T).scale(c)
            elif a.kind == 'inj' and len(w) > 1:
                J = Mat.of(a)
                inner = Mat(a.cols, v.cols, {w[1:]: ONE})
                out = out + (J @ Mat.diag_of(inner) @ J.T).scale(c)
            else:
                key = ('diag', v.rows.key(), w)
                d = A.by_key.get(key)
                if d is None:
                    d = A.atom('diag(%s)' % '.'.join(A.atoms[i].name for i in w), v.rows, v.rows, 'diag',
                               Mat(v.rows, ONE, {w: ONE}), sym=True, key=key)
                out = out + Mat.of(d).scale(c)
        return out

    @staticmethod
    def scalar_mat(s):
        s = to_sc(s)
        return Mat(ONE, ONE, {(): s} if s.num else {})

    def is_zero(self):
        return not self.terms

    def copy(self):
        return Mat(self.rows, self.cols, dict(self.terms))

    # --- algebra
    def _same_shape(self, o):
        return deq(self.rows, o.rows) and deq(self.cols, o.cols)

    def _same(self, o):
        if not (deq(self.rows, o.rows) and deq(self.cols, o.cols)):
            raise ValueError('operands could not be broadcast together (%s,%s) (%s,%s)'
                             % (self.rows, self.cols, o.rows, o.cols))

    def __add__(self, o):
        self._same(o)
        t = dict(self.terms)
        for w, c in o.terms.items():
            acc(t, w, c)
        return Mat(self.rows, self.cols, t)

    def __neg__(self):
        return Mat(self.rows, self.cols, {w: -c for w, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, s):
        s = to_sc(s)
        t = {}
        for w, c in self.terms.items():
            v = c * s
            if v.num:
                t[w] = v
        return Mat(self.rows, self.cols, t)

    def __matmul__(self, o):
        if not deq(self.cols, o.rows):
            raise ValueError('shapes (%s,%s) and (%s,%s) not aligned' % (self.rows, self.cols, o.rows, o.cols))
        A = Algebra.cur()
        t = {}
        if len(self.terms) * len(o.terms) > 20000:
            raise Unsupported('matrix expression too large')
        for w1, c1 in self.terms.items():
            for w2, c2 in o.terms.items():
                c = c1 * c2
                for w, k in A.nf_word(w1 + w2, self.rows, o.cols).items():
                    acc(t, w, c * k)
        return Mat(self.rows, o.cols, t)

    def mul_word_right(self, w):
        at = Algebra.cur().atoms
        if not w:
            return self
        return self @ Mat(at[w[0]].rows, at[w[-1]].cols, {w: ONE})

    def mul_word_left(self, w):
        at = Algebra.cur().atoms
        if not w:
            return self
        return Mat(at[w[0]].rows, at[w[-1]].cols, {w: ONE}) @ self

    @property
    def T(self):
        A = Algebra.cur()
        t = {}
        for w, c in self.terms.items():
            acc(t, A.wt(w), c)
        return Mat(self.cols, self.rows, t)

    def renorm(self):
        A = Algebra.cur()
        t = {}
        for w, c in self.terms.items():
            c = A.renorm_sc(c)
            for w2, k in A.nf_word(w, self.rows, self.cols).items():
                k = A.renorm_sc(k)
                acc(t, w2, c * k)
        return Mat(self.rows, self.cols, t)

    def nf_zero(self):
        m = self.renorm()
        return all(c.is_zero() for c in m.terms.values())

    def equals(self, o):
        STATS['nf_eq'] += 1
        if not (deq(self.rows, o.rows) and deq(self.cols, o.cols)):
            return False
        return (self - o).nf_zero()

    def key(self):
        m = self.renorm()
        return (dim_resolve(m.rows).key(), dim_resolve(m.cols).key(),
                tuple(sorted((w, c.key()) for w, c in m.terms.items())))

    def is_sym(self):
        return deq(self.rows, self.cols) and (self - self.T).nf_zero()

    def scalar(self):
        """value of a 1x1 matrix"""
        m = self.renorm()
        v = ZERO
        for w, c in m.terms.items():
            if w != ():
                raise Unsupported('not a 1x1 matrix')
            v = v + c
        return v

    def trace_scalar(self):
        raise Unsupported('trace')

    # --- contracts of numpy.linalg / scipy.linalg
    def inv(self):
        """contract of inv: requires E square invertible; ensures E X = X E = I"""
        if not deq(self.rows, self.cols):
            raise_linalg('Last 2 dimensions of the array must be square')
        A = Algebra.cur()
        E = self.renorm()
        if d1(self.rows):
            s = E.scalar()
            if s.is_zero():
                raise_linalg('Singular matrix')
            return Mat.scalar_mat(ONE / s)
        if not E.terms:
            raise_linalg('Singular matrix')
        if len(E.terms) == 1:
            (w, c), = E.terms.items()
            if w == ():
                return Mat(self.rows, self.cols, {(): ONE / c})
            at = A.atoms
            if all(deq(at[i].rows, at[i].cols) for i in w):
                out = Mat.eye(self.rows).scale(ONE / c)
                for i in reversed(w):
                    out = out @ _inv_atom(at[i])
                return out
        return _inv_general(E)


def raise_linalg(msg):
    import numpy as np
    raise np.linalg.LinAlgError(msg)


def _inv_atom(a):
    A = Algebra.cur()
    base, t = (a.data, True) if a.kind.endswith('_t') else (a, False)
    if base.kind == 'inv':
        m = base.data
        return m.T if t else m
    if 'diag' in base.props and base.kind == 'diag':
        pass
    m = _inv_general(Mat.of(base))
    return m.T if t else m


def _inv_general(E):
    A = Algebra.cur()
    # normalise scale by the coefficient of the largest word with known-nonzero coefficient
    ws = sorted(E.terms, key=A.wkey, reverse=True)
    lw = None
    for w in ws:
        c = E.terms[w]
        if w != () and (c.is_const() or known_sign(c) is not None):
            lw = w
            break
    scale = ONE
    if lw is not None:
        scale = E.terms[lw]
        E = E.scale(ONE / scale)
    sym = E.is_sym()
    trans = False
    if not sym:
        ET = E.T.renorm()
        if ET.key() < E.key():
            # choose the canonical one of E, E'
            m = _inv_general(E.T)
            return m.T.scale(ONE / scale)
    key = ('inv', E.key())
    a = A.by_key.get(key)
    if a is None:
        a = A.atom('inv(%d)' % len(A.atoms), E.rows, E.cols, 'inv', E, sym=sym, key=key)
        ctx().notes.append('inv')
        if lw is not None:
            rest = Mat(E.rows, E.cols, {w: v for w, v in E.terms.items() if w != lw})
            X = Mat(E.rows, E.cols, {(a.id,): ONE})
            I = Mat.eye(E.rows)
            if lw == max(E.terms, key=A.wkey):
                for d in (raw_mul(a.id, E, True) - I, raw_mul(a.id, E, False) - I):
                    d = d.renorm()
                    if d.terms:
                        A.orient(d)
            else:
                A.add_rule((a.id,) + lw, I - X @ rest)
                A.add_rule(lw + (a.id,), I - rest @ X)
    return Mat.of(a).scale(ONE / scale)


def raw_mul(i, E, left):
    """X E (or E X) without normalisation"""
    return Mat(E.rows, E.cols, {((i,) + w if left else w + (i,)): c for w, c in E.terms.items()})


def chol(E, lower):
    """contract of cholesky: E symmetric positive definite; ensures U'U = E (upper) / LL' = E"""
    A = Algebra.cur()
    E = E.renorm()
    if d1(E.rows):
        s = E.scalar()
        return Mat.scalar_mat(sc_sqrt(s))
    if len(E.terms) == 1 and () in E.terms:
        return Mat.eye(E.rows).scale(sc_sqrt(E.terms[()]))
    c = ONE
    ws = sorted(E.terms, key=lambda w: (len(w), w), reverse=True)
    k = E.terms[ws[0]]
    if k.is_const() and k.const_val() > 0 or known_sign(k) == 1:
        c = k
        E = E.scale(ONE / k)
    key = ('chol', E.key())
    a = A.by_key.get(key)
    if a is None:
        a = A.atom('chol(%d)' % len(A.atoms), E.rows, E.cols, 'chol', E, key=key, props=('upper',))
        A.setw(a, E)
        A.add_rule((a.tid, a.id), E)
    U = Mat.of(a).scale(sc_sqrt(c))
    return U.T if lower else U


def show(m, limit=600):
    at = Algebra.cur().atoms
    out = []
    for w, c in sorted(m.terms.items(), key=lambda t: (len(t[0]), t[0])):
        ws = '.'.join(at[i].name for i in w) or 'I'
        out.append(ws if (c.is_const() and c.const_val() == 1) else '(%r)*%s' % (c, ws))
    s = ' + '.join(out) or '0'
    return '[%rx%r] ' % (m.rows, m.cols) + (s if len(s) < limit else s[:limit] + '...')
