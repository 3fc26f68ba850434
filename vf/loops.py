"""Loop contracts: loops over symbolic ranges are replaced by their summary.

Soundness: the body is executed once for a *generic* iteration index k with
every loop-carried location havocked to a fresh atom.  The summary is accepted
only if each carried location changes by an increment that does not mention any
havocked value (independent accumulation), or by writing disjoint rows; the
total effect is then the exact sum over k, computed with the identity
sum_k e_k e_k' = I.  Anything else is Unsupported (no verdict)."""
import numpy as np
from .ctx import ctx, Unsupported
from .sc import Sc, to_sc, ZERO, ONE, new_sym, dim_resolve, Cond
from .mat import Mat, Algebra, d1, deq, acc
from . import arr as A


def is_symbolic_iterable(x):
    from .load import SymRange, SymEnum, SymZip, SymRev
    if type(x) is list:
        from .snp import unseq
        x = unseq(x)
    if isinstance(x, (SymRange, SymEnum, SymZip, SymRev, A.SymList, SymSeq)):
        return True
    if isinstance(x, A.SymArr):
        return not dim_resolve(x.mat.rows).is_const()
    return hasattr(x, '_vf_len') and not dim_resolve(to_sc(x._vf_len())).is_const()


def sym_count(x):
    """(count, item(k)) of a symbolic iterable"""
    if type(x) is list:
        from .snp import unseq
        x = unseq(x)
    from .load import SymRange, SymEnum, SymZip, SymRev
    if isinstance(x, SymRange):
        if x.step == 1:
            return dim_resolve(x.hi - x.lo), (lambda k: A.dim_out(x.lo + k))
        n = dim_resolve(x.lo - x.hi)
        return n, (lambda k: A.dim_out(x.lo - k))
    if isinstance(x, SymEnum):
        n, f = sym_count(x.it)
        return n, (lambda k: (A.dim_out(k + x.start), f(k)))
    if isinstance(x, SymZip):
        parts = []
        n = None
        for it in x.its:
            if is_symbolic_iterable(it):
                m, f = sym_count(it)
                if n is None:
                    n = m
                elif not A.force_eq(m, n):
                    raise Unsupported('zip of different lengths')
                parts.append(f)
            else:
                raise Unsupported('zip of symbolic and concrete')
        return n, (lambda k: tuple(f(k) for f in parts))
    if isinstance(x, SymRev):
        n, f = sym_count(x.it)
        return n, (lambda k: f(dim_resolve(to_sc(n - 1 - k))))
    if isinstance(x, A.SymList):
        return x.n, (lambda k: x.proto[0])
    if isinstance(x, A.SymArr):
        return dim_resolve(x.mat.rows), (lambda k: x[k])
    if hasattr(x, '_vf_len'):
        return dim_resolve(to_sc(x._vf_len())), (lambda k: x[k])
    raise Unsupported('iteration')


class PlainLoop:
    symbolic = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class Poison:
    """value of a loop temporary after the loop: any use is undecided"""

    def _bad(self, *a, **k):
        raise Unsupported('use of a loop temporary after the loop')
    __getattr__ = __add__ = __radd__ = __mul__ = __rmul__ = __call__ = __getitem__ = __iter__ = __bool__ = __eq__ = _bad
    __hash__ = None


def lib_object(o):
    return hasattr(o, '__dict__') and not isinstance(o, type) and type(o).__module__.startswith('filterpy')


class Unbound:
    def _bad(self, *a, **k):
        raise UnboundLocalError('local variable referenced before assignment')
    __getattr__ = __add__ = __radd__ = __mul__ = __rmul__ = __call__ = __getitem__ = __iter__ = __bool__ = _bad


def make_loop(it):
    if is_symbolic_iterable(it):
        c = ctx()
        if getattr(c, 'lagsyms', None):
            from .lag import lag_handler
            h = lag_handler(it)
            if h is not None:
                return h
        if getattr(c, 'loop_handler', None) is not None:
            h = c.loop_handler(it)
            if h is not None:
                return h
        return GenLoop(it)
    if isinstance(it, (A.SymArr, A.StackArr)) or True:
        return PlainLoop(it)


def listcomp(it, f):
    if not is_symbolic_iterable(it):
        return [f(x) for x in it]
    n, item = sym_count(it)
    if getattr(ctx(), 'banks', None):
        from .bank import pooled_generic
        lp = pooled_generic(n)
    else:
        lp = Generic(n)
    lp.push()
    try:
        v = f(item(lp.k))
    finally:
        lp.pop()
    return SymSeq(n, lp, v)


class Generic:
    """a generic iteration index 0 <= k < n with unit vector e_k"""

    def __init__(self, n):
        self.n = dim_resolve(to_sc(n))
        self.ksym = new_sym('k%d' % len(ctx().symtab.syms), 'var', None, nonneg=True, integer=True)
        self.k = Sc.sym(self.ksym)
        self._atom = None
        c = ctx()
        c.assume(self.k >= 0)
        c.assume(self.k < self.n)

    def gen_atom(self):
        if self._atom is None:
            self._atom = Algebra.cur().atom('ek', self.n, ONE, 'gen', self)
        return self._atom

    def push(self):
        ctx().loops.append(self)

    def pop(self):
        ctx().loops.remove(self)


def sum_over(lp, m):
    """sum_{k<n} m(k) for a Mat depending on the generic index"""
    Al = Algebra.cur()
    g = lp.gen_atom()
    m = m.renorm()
    if hidden_index(lp, g, m):
        raise Unsupported('loop sum: index inside an opaque term')
    out = Mat.zero(m.rows, m.cols)
    for w, c in m.terms.items():
        out = out + _sum_word(lp, g, w, c, m.rows, m.cols)
    return out


def _mentions(lp, g, e):
    """does scalar e depend on the loop index?"""
    Al = Algebra.cur()
    syms = ctx().symtab.syms
    for i in e.syms():
        s = syms[i]
        if i == lp.ksym.id:
            return True
        if s.kind == 'word':
            if any(x in (g.id, g.tid) or fam_at(g, Al.atoms[x]) for x in s.data):
                return True
        elif s.kind in ('root', 'exp', 'log') and _mentions(lp, g, s.data):
            return True
        elif s.kind == 'fn' and isinstance(s.data, tuple):
            for a in s.data[1:]:
                if isinstance(a, tuple) and any(isinstance(t, Sc) and _mentions(lp, g, t) for t in a):
                    return True
                if isinstance(a, Mat) and mat_mentions(lp, g, a):
                    return True
    return False


def mat_mentions(lp, g, m):
    for w, c in m.terms.items():
        if g.id in w or g.tid in w or _mentions(lp, g, c) or any(fam_at(g, Algebra.cur().atoms[x]) for x in w):
            return True
    return False


def deps(a):
    """(atom ids, scalar symbol ids) an atom is built from, itself included"""
    if a.kind.endswith('_t') and isinstance(a.data, type(a)):
        a = a.data
    memo = ctx().zcache.setdefault('deps', {})
    r = memo.get(a.id)
    if r is None:
        r = memo[a.id] = ({a.id, a.tid}, set())
        if a.kind != 'gen':
            _deps_of(a.data, r)
        for d in (a.rows, a.cols):
            _deps_of(d, r)
    return r


def _deps_of(x, r):
    from .mat import Atom
    if isinstance(x, Atom):
        q = deps(x)
        r[0].update(q[0]), r[1].update(q[1])
    elif isinstance(x, Mat):
        at = Algebra.cur().atoms
        for w, c in x.terms.items():
            for i in w:
                _deps_of(at[i], r)
            _deps_of(c, r)
    elif isinstance(x, Sc):
        syms = ctx().symtab.syms
        for i in x.syms():
            if i in r[1]:
                continue
            r[1].add(i)
            sy = syms[i]
            if sy.kind == 'word':
                at = Algebra.cur().atoms
                for j in sy.data:
                    _deps_of(at[j], r)
            else:
                _deps_of(sy.data, r)
    elif isinstance(x, A.SymArr):
        _deps_of(x.mat, r)
    elif isinstance(x, dict):
        for v in x.values():
            _deps_of(v, r)
    elif isinstance(x, (tuple, list)):
        for v in x:
            _deps_of(v, r)
    elif isinstance(x, np.ndarray) and x.dtype == object:
        for v in x.ravel():
            _deps_of(v, r)
    elif hasattr(x, 'e') and isinstance(getattr(x, 'e', None), Sc):
        _deps_of(x.e, r)


def hidden_index(lp, g, m):
    """does m depend on the loop index inside an opaque atom (inverse, factor,
    callback application ...)?"""
    at = Algebra.cur().atoms
    for w, c in m.terms.items():
        r = (set(), set())
        for i in w:
            if i not in (g.id, g.tid) and not fam_at(g, at[i]):
                _deps_of(at[i], r)
        for i in c.syms():
            sy = ctx().symtab.syms[i]
            if sy.kind == 'word':
                for j in sy.data:
                    if j not in (g.id, g.tid) and not fam_at(g, at[j]):
                        _deps_of(at[j], r)
        if g.id in r[0] or g.tid in r[0] or lp.ksym.id in r[1]:
            return True
    return False


def fam_at(g, a):
    """a family member P(U e_k) at the loop index, U free of it"""
    if a.kind.endswith('_t'):
        a = a.data
    if a.kind != 'fam':
        return False
    (w, _), = a.data[1].terms.items()
    if not w or w[-1] != g.id:
        return False
    r = (set(), set())
    for i in w[:-1]:
        _deps_of(Algebra.cur().atoms[i], r)
    return not (g.id in r[0] or g.tid in r[0])


def _sum_fam(lp, g, w, i, vs, rows, cols):
    """sum_k prod(v_k) A P(U e_k) B = A P(U diag(v..) 1) B"""
    at = Algebra.cur().atoms
    if any(j != i and (x in (g.id, g.tid) or fam_at(g, at[x])) for j, x in enumerate(w)):
        raise Unsupported('loop sum: index occurs next to a family')
    F, v = at[w[i]].data[:2]
    (u, _), = v.terms.items()
    D = Mat.ones_vec(lp.n)
    for q in vs:
        D = Mat.diag_of(q) @ D
    return head(w[:i], rows, F.n) @ F(head(u[:-1], v.rows, lp.n) @ D) @ tail(w[i + 1:], F.n, cols)


def _index_vec(lp, g, p):
    """a polynomial linear in scalar words v' e_k -> the column v with v' e_k = p"""
    syms = ctx().symtab.syms
    out = Mat.zero(lp.n, ONE)
    for m, cf in p.items():
        v, rest = None, {}
        for s, e in m:
            sy = syms[s]
            if _mentions(lp, g, Sc({((s, 1),): 1})):
                if v is not None or sy.kind != 'word' or e != 1:
                    return None
                v = _vec_of(lp, g, sy.data)
                if v is None:
                    return None
            else:
                rest[s] = e
        out = out + (Mat.ones_vec(lp.n) if v is None else v).scale(Sc({tuple(sorted(rest.items())): cf}))
    return out


def _sum_word(lp, g, w, c, rows, cols):
    Al = Algebra.cur()
    fams = [i for i, x in enumerate(w) if fam_at(g, Al.atoms[x])]
    if fams and not _mentions(lp, g, c):
        return _sum_fam(lp, g, w, fams[0], [], rows, cols).scale(c)
    pos = [i for i, x in enumerate(w) if x in (g.id, g.tid)]
    dep = _mentions(lp, g, c)
    I = Mat(rows, cols, {w: ONE})
    if not dep:
        if not pos:
            return I.scale(c * lp.n)
        if len(pos) == 1:
            i = pos[0]
            one = Mat.ones_vec(lp.n)
            mid = one if w[i] == g.id else one.T
            return word_mat(w[:i], rows, None, mid).scale(c) @ tail(w[i + 1:], mid.cols, cols)
        if len(pos) == 2 and pos[1] == pos[0] + 1 and w[pos[0]] == g.id and w[pos[1]] == g.tid:
            left, right = w[:pos[0]], w[pos[1] + 1:]
            return (head(left, rows, lp.n) @ tail(right, lp.n, cols)).scale(c)
        if len(pos) == 2:
            # u'e_k ... e_k' v split elsewhere: A e_k B e_k' C with B not adjacent
            raise Unsupported('loop sum: index occurs twice, not adjacent')
        raise Unsupported('loop sum: index occurs more than twice')
    # coefficient depends on k: expand it as polynomial in scalar words (v' e_k)
    den, recs = [], []
    for k, e in c.den:
        if _mentions(lp, g, Sc({(): 1}, ((k, e),))):
            v = _index_vec(lp, g, dict(k))
            if v is None:
                raise Unsupported('loop sum: index in a denominator')
            from .bank import recip
            recs += [recip(v)] * e
        else:
            den.append((k, e))
    den = tuple(den)
    syms = ctx().symtab.syms
    out = Mat.zero(rows, cols)
    for m, cf in c.num.items():
        words, rest = [], {}
        vs = list(recs)
        for s, e in m:
            sy = syms[s]
            if _mentions(lp, g, Sc({((s, 1),): 1})):
                if sy.kind != 'word':
                    raise Unsupported('loop sum: nonlinear in the index')
                if e < 0:
                    v = _vec_of(lp, g, sy.data)
                    if v is None:
                        raise Unsupported('loop sum: index in a denominator')
                    from .bank import recip
                    vs += [recip(v)] * -e
                else:
                    words += [sy.data] * e
            else:
                rest[s] = e
        base = Sc({tuple(sorted(rest.items())): cf}, den)
        out = out + _sum_words(lp, g, words, w, rows, cols, vs).scale(base)
    return out


def _vec_of(lp, g, w):
    """a 1x1 word containing e_k exactly once -> column v with word = v' e_k"""
    Al = Algebra.cur()
    pos = [i for i, x in enumerate(w) if x in (g.id, g.tid)]
    if len(pos) == 1:
        i = pos[0]
        if w[i] == g.id and i == len(w) - 1:
            return head(w[:-1], ONE, lp.n).T
        if w[i] == g.tid and i == 0:
            return tail(w[1:], lp.n, ONE)
    return None


def _sum_words(lp, g, words, w, rows, cols, given=()):
    """sum_k prod(scalar words) prod(e_k' given) * w"""
    at = Algebra.cur().atoms
    fw = [(n, i) for n, x in enumerate(words) for i, y in enumerate(x) if fam_at(g, at[y])]
    if len(fw) > 1:
        raise Unsupported('loop sum: index pattern')
    if fw:
        # a scalar made of a family member: it takes the place of the word
        x = words[fw[0][0]]
        if any(y in (g.id, g.tid) or fam_at(g, at[y]) for y in w):
            raise Unsupported('loop sum: index pattern')
        vs = [_vec_of(lp, g, y) for n, y in enumerate(words) if n != fw[0][0]]
        if any(v is None for v in vs):
            raise Unsupported('loop sum: index pattern')
        s = _sum_fam(lp, g, x, fw[0][1], vs + list(given), ONE, ONE).scalar()
        return Mat(rows, cols, {w: ONE}).scale(s)
    pos = [i for i, x in enumerate(w) if x in (g.id, g.tid)]
    vs = list(given)
    for x in words:
        v = _vec_of(lp, g, x)
        if v is None:
            # word with two occurrences  a' e_k ... e_k' b : split into two vectors if adjacent
            p = [i for i, y in enumerate(x) if y in (g.id, g.tid)]
            if len(p) == 2 and p[1] == p[0] + 1 and x[p[0]] == g.id:
                vs.append(head(x[:p[0]], ONE, lp.n).T)
                vs.append(tail(x[p[1] + 1:], lp.n, ONE))
                continue
            raise Unsupported('loop sum: index pattern')
        vs.append(v)
    fw = [i for i, x in enumerate(w) if fam_at(g, at[x])]
    if fw:
        return _sum_fam(lp, g, w, fw[0], vs, rows, cols)
    # product of diag(v_i): represent sum_k  (prod v_ik) L e_k e_k' R
    D = Mat.eye(lp.n)
    for v in vs:
        D = D @ Mat.diag_of(v)
    one = Mat.ones_vec(lp.n)
    if not pos:
        s = (one.T @ D @ one).scalar()
        return Mat(rows, cols, {w: ONE}).scale(s)
    if len(pos) == 1:
        i = pos[0]
        if w[i] == g.id:
            return head(w[:i], rows, lp.n) @ (D @ one) @ tail(w[i + 1:], ONE, cols)
        return head(w[:i], rows, ONE) @ (one.T @ D) @ tail(w[i + 1:], lp.n, cols)
    if len(pos) == 2 and pos[1] == pos[0] + 1 and w[pos[0]] == g.id and w[pos[1]] == g.tid:
        return head(w[:pos[0]], rows, lp.n) @ D @ tail(w[pos[1] + 1:], lp.n, cols)
    raise Unsupported('loop sum: index pattern')


def head(w, rows, mid):
    if not w:
        return Mat.eye(rows)
    at = Algebra.cur().atoms
    return Mat(rows, at[w[-1]].cols, {w: ONE}).renorm()


def tail(w, mid, cols):
    if not w:
        return Mat.eye(cols)
    at = Algebra.cur().atoms
    return Mat(at[w[0]].rows, cols, {w: ONE}).renorm()


def word_mat(w, rows, _, mid):
    return head(w, rows, mid.rows) @ mid


class SymSeq:
    """list of symbolic length whose generic element is known"""

    def __init__(self, n, lp, v, post=()):
        self.n, self.lp, self.v = n, lp, v

    def _vf_len(self):
        return self.n

    def __len__(self):
        raise Unsupported('len of symbolic sequence')

    def __iter__(self):
        raise Unsupported('iteration of symbolic sequence')

    def rows_mat(self):
        v = A.lift(self.v)
        g = self.lp.gen_atom()
        e = Mat(g.rows, ONE, {(g.id,): ONE})
        if isinstance(v, Sc):
            return sum_over(self.lp, e.scale(v)), 0
        row = v.mat.T if v.nd == 1 else v.mat
        if v.nd == 2 and not d1(row.rows):
            raise Unsupported('sequence of matrices')
        return sum_over(self.lp, e @ row), 1

    def _vf_rows(self):
        m, k = self.rows_mat()
        if k == 0:
            return A.SymArr(m.T, 2)
        return A.SymArr(m, 2)

    def _vf_copy(self):
        m, k = self.rows_mat()
        return A.SymArr(m, 1 if k == 0 else 2)

    def __getitem__(self, i):
        if to_sc(i) is not None and to_sc(i).key() == self.lp.k.key():
            return self.v
        return self._vf_copy()[i]


class GenLoop:
    """for-loop over a symbolic range, summarised (independent iterations)"""
    symbolic = True

    def __init__(self, it):
        self.n, self.item = sym_count(it)
        c = ctx()
        if not bool(self.n >= 1):
            raise Unsupported('possibly empty symbolic loop')
        self.banks = getattr(c, 'banks', [])
        self.outer = not c.loops
        if self.banks:
            from .bank import pooled_generic
            self.g = pooled_generic(self.n)
        else:
            self.g = Generic(self.n)
        self.phase = 0
        self.done = False

    def __iter__(self):
        self.g.push()
        try:
            for _ in range(2):
                if self.outer:
                    for b in self.banks:
                        b.begin(self.g.k)
                yield self.item(self.g.k)
            self.done = True
        finally:
            self.g.pop()

    def enter(self, loc, names):
        if self.phase == 0:
            self.phase = 1
            self.names = names
            self.pre = {n: (MISSING if isinstance(loc.get(n), (Poison, Unbound)) else loc.get(n, MISSING)) for n in names}
            self.lists = {n: (v, len(v)) for n, v in loc.items() if type(v) is list}
            for v in list(loc.values()):
                if lib_object(v):
                    self.lists.update({(id(v), a): (q, len(q)) for a, q in v.__dict__.items() if type(q) is list})
            self.conc = []
            for v in list(loc.values()) + [q for o in loc.values() for q in getattr(o, '__dict__', {}).values()]:
                if isinstance(v, np.ndarray):
                    self.conc.append((v, list(v.flat)))
            # attributes of the library's own objects are rebound like names
            self.objs = {}
            for v in list(loc.values()):
                for o in [v] + list(getattr(v, '__dict__', {}).values() if lib_object(v) else ()):
                    if lib_object(o):
                        self.objs[id(o)] = (o, dict(o.__dict__))
            self.log = {}
            A.WRITE_LOG.append(self.log)
            self.npath = len(ctx().trace)
            return [self.pre[n] if self.pre[n] is not MISSING else UNBOUND for n in names]
        # second pass: restore, havoc what the first pass changed
        A.unlog(self.log)
        self.phase = 2
        post = {n: loc.get(n, MISSING) for n in names}
        self.grown = []
        for n, (l, k) in self.lists.items():
            if len(l) != k:
                if len(l) != k + 1 or k != 0:
                    raise Unsupported('list mutated in a symbolic loop')
                self.grown.append((n, l))
                del l[k:]
        self.bufs = []
        for bid, (buf, old) in self.log.items():
            self.bufs.append((buf, old))
            buf.val = old
        Al = Algebra.cur()
        self.hav = []
        self.havlocals = {}
        self.havmat = {}
        out = []
        hb = {}
        for buf, old in self.bufs:
            a = Al.atom('hv%d' % len(Al.atoms), old.rows, old.cols, 'havoc')
            hb[id(buf)] = Mat(old.rows, old.cols, {(a.id,): ONE})
            self.hav.append(a)
        for n in names:
            out.append(self._havoc(n, self.pre[n], post[n], hb))
        self.attrs = []
        for oid, (o, d0) in self.objs.items():
            for at in list(o.__dict__):
                v1 = o.__dict__[at]
                if at not in d0:
                    del o.__dict__[at]
                    self.attrs.append((o, at, MISSING))
                elif v1 is not d0[at]:
                    self.attrs.append((o, at, d0[at]))
                    o.__dict__[at] = self._havoc((oid, at), d0[at], v1, hb)
            if set(d0) - set(o.__dict__):
                raise Unsupported('loop deletes an attribute')
        for buf, old in self.bufs:
            buf.val = hb[id(buf)]
        self.hb = hb
        self.log2 = {}
        A.WRITE_LOG.append(self.log2)
        return out

    def _havoc(self, n, v0, v1, hb):
        """value of n (a name or an attribute) at the start of an arbitrary turn"""
        Al = Algebra.cur()
        if v0 is MISSING:
            return UNBOUND
        if v0 is v1:
            return v0
        if v1 is MISSING or isinstance(v1, Poison):
            self.havlocals[n] = (v0, v0)
            return v0
        if isinstance(v1, A.SymArr) and isinstance(v0, A.SymArr):
            if v0.nd != v1.nd:
                raise Unsupported('loop changes the rank of %s' % (n,))
            m0 = v0.mat
            if id(v0.root().buf) in hb and v0.base is None:
                return v0
            a = Al.atom('hv%d' % len(Al.atoms), m0.rows, m0.cols, 'havoc')
            self.hav.append(a)
            h = A.SymArr(Mat(m0.rows, m0.cols, {(a.id,): ONE}), v0.nd)
            self.havmat[n] = h.mat
            self.havlocals[n] = (v0, h)
            return h
        if to_sc(v0) is not None and isinstance(v1, A.SymArr):
            # x = 0 ; x = x + vec : accumulator starting at a scalar zero
            if not to_sc(v0).is_zero():
                raise Unsupported('accumulator type changes')
            m0 = v1.mat
            a = Al.atom('hv%d' % len(Al.atoms), m0.rows, m0.cols, 'havoc')
            self.hav.append(a)
            h = A.SymArr(Mat(m0.rows, m0.cols, {(a.id,): ONE}), v1.nd)
            self.havmat[n] = h.mat
            self.havlocals[n] = (A.SymArr(Mat.zero(m0.rows, m0.cols), v1.nd), h)
            return h
        if to_sc(v0) is not None and to_sc(v1) is not None:
            s = new_sym('hv%d' % len(ctx().symtab.syms), 'havoc')
            self.havlocals[n] = (to_sc(v0), Sc.sym(s))
            return Sc.sym(s)
        self.havlocals[n] = (v0, v0)
        return v0

    def _final(self, n, v1, havids, g):
        """value of n after the loop, from its value at the end of an arbitrary turn"""
        v0, h = self.havlocals[n]
        if isinstance(h, Sc):
            if to_sc(v1) is None:
                return Poison()
            d = to_sc(v1) - h
            if self._schav(d, havids):
                return Poison()
            return v0 + sum_over(self.g, Mat.scalar_mat(d)).scalar()
        if isinstance(h, A.SymArr):
            if not isinstance(v1, A.SymArr):
                return Poison()
            try:
                # h itself may have been updated in place: compare with its content at entry
                m = self._summarise(v1.mat, self.havmat[n], v0.mat, havids, g)
                return A.SymArr(m, v0.nd)
            except Unsupported:
                ctx().pending = None
                return Poison()
        return v0 if v1 is v0 else Poison()

    def exit(self, loc, names):
        if not self.done:
            raise Unsupported('break/early exit in a symbolic loop')
        if self.outer:
            for b in self.banks:
                b.commit()
        A.unlog(self.log2)
        for v, old in self.conc:
            if any(a is not b for a, b in zip(v.flat, old)):
                raise Unsupported('plain array written in a symbolic loop')
        g = self.g.gen_atom()
        known = {id(b) for b, _ in self.bufs}
        for bid, (buf, old) in self.log2.items():
            if bid not in known and any(buf is x for x, _ in self.bufs) is False:
                # buffers created inside the body are temporaries
                pass
        Al = Algebra.cur()
        havids = set()
        for a in self.hav:
            havids.add(a.id)
            havids.add(a.tid)
        for buf, old in self.bufs:
            new = self._summarise(buf.val, self.hb[id(buf)], old, havids, g)
            buf.val = new
        seqs = []
        for n, l in self.grown:
            if len(l) != 1:
                raise Unsupported('list mutated in a symbolic loop')
            v = l[0]
            seqs.append((l, SymSeq(self.n, self.g, v)))
            del l[:]
        out = []
        grown = {n for n, _ in self.grown}
        for n in names:
            if n in self.havlocals:
                out.append(self._final(n, loc[n], havids, g))
            elif self.pre[n] is not MISSING and loc.get(n) is self.pre[n]:
                out.append(self.pre[n])
            else:
                out.append(Poison())
        for o, at, v0 in self.attrs:
            v1 = o.__dict__.get(at, MISSING)
            if v0 is MISSING or v1 is MISSING:
                o.__dict__[at] = Poison()
            elif (id(o), at) in self.havlocals:
                o.__dict__[at] = self._final((id(o), at), v1, havids, g)
            elif v1 is not v0:
                o.__dict__[at] = Poison()
        seen = {(id(o), at) for o, at, _ in self.attrs}
        for oid, (o, d0) in self.objs.items():
            for at, v1 in list(o.__dict__.items()):
                if (oid, at) not in seen and d0.get(at, MISSING) is not v1:
                    o.__dict__[at] = Poison()
        # lists that grew are replaced through their holder: rebind in-place content
        for l, q in seqs:
            l.append(SeqMarker(q))
        return out

    def _summarise(self, post, hv, old, havids, g):
        try:
            return self._summarise_rows(post, hv, old, havids, g)
        except Unsupported:
            if d1(old.cols) or d1(old.rows):
                raise
            ctx().pending = None
            try:
                return self._summarise_rows(post.T, hv.T, old.T, havids, g).T      # column writes
            except Unsupported:
                ctx().pending = None
                return self._summarise_element(post, hv, old, havids, g)

    def _summarise_element(self, post, hv, old, havids, g):
        """one entry per turn: post = hv - a a' hv b b' + a v b' with one of a, b the index"""
        d = (post - hv).renorm()
        (hw, _), = hv.terms.items()
        h = hw[0]
        Al = Algebra.cur()
        at = Al.atoms
        ht = at[h].tid
        syms = ctx().symtab.syms
        kill = None
        new = {}
        for w, c in d.terms.items():
            for i in c.syms():
                sy = syms[i]
                if sy.kind != 'word' or not (h in sy.data or ht in sy.data):
                    continue
                q = sy.data if h in sy.data else Al.wt(sy.data)
                k = q.index(h)
                le, ri = q[:k], q[k + 1:]
                lin = {m: v for m, v in c.num.items() if any(x == i for x, _ in m)}
                a, b = Al.wt(le), Al.wt(ri)
                if kill is not None or w != a + b or c.den or list(lin) != [((i, 1),)] or not (to_sc(lin[((i, 1),)]) + ONE).is_zero():
                    raise Unsupported('loop iterations are not independent')
                kill = (a, b)
                c = c + Sc.sym(sy)
            if not c.is_zero():
                acc(new, w, c)
        new = Mat(d.rows, d.cols, new)
        if kill is None or self._has(new, havids):
            raise Unsupported('loop iterations are not independent')
        a, b = kill
        L, R = Mat(old.rows, old.rows, {a + Al.wt(a): ONE}), Mat(old.cols, old.cols, {Al.wt(b) + b: ONE})
        if not (L @ new @ R - new).nf_zero():
            raise Unsupported('loop iterations are not independent')
        if self._is_proj(Al.wt(b) + b, g) and g.id not in a:
            J = head(Al.wt(b)[:-1], old.cols, self.n)
            return old - L @ old @ (J @ J.T) + sum_over(self.g, new)
        if self._is_proj(a + Al.wt(a), g) and g.tid not in b:
            J = head(a[:-1], old.rows, self.n)
            return old - (J @ J.T) @ old @ R + sum_over(self.g, new)
        raise Unsupported('loop iterations are not independent')

    def _summarise_rows(self, post, hv, old, havids, g):
        post = post.renorm()
        d = (post - hv).renorm()
        if d1(old.cols):
            d = self._unscalar(d, hv, havids)
        if not self._has(d, havids):
            return old + sum_over(self.g, d)
        # row writes: post = hv - L e e' L' hv + L e v'
        # find blocks J with J e e' J' hv
        res = Mat.zero(old.rows, old.cols)
        fresh = {}
        kill = []
        (hw, _), = hv.terms.items()
        h = hw[0]
        at = Algebra.cur().atoms
        for w, c in d.terms.items():
            if w[-1:] == (h,) and (c + ONE).is_zero() and self._is_proj(w[:-1], g):
                kill.append(w[:-1])
            else:
                fresh[w] = c
        # row k may read its own previous content: no other iteration writes it
        Jk = {self._proj_left(kw, g) for kw in kill}
        sub = {}
        for w, c in fresh.items():
            m = self._own_row(w, c, d, h, old, havids, g, Jk)
            for w2, c2 in m.terms.items():
                acc(sub, w2, c2)
        fresh = sub
        new = Mat(d.rows, d.cols, fresh)
        # every fresh write must live in a killed row
        tot = old
        rowsum = Mat.zero(old.rows, old.cols)
        check = new
        for kw in kill:
            P = Mat(old.rows, old.rows, {kw: ONE})
            part = P @ new
            check = check - part
            J = kw[:len(kw) // 2 - 1] if False else self._proj_left(kw, g)
            Jm = head(J, old.rows, self.n)
            # rows J e_k for distinct k are disjoint: kill the whole block J J'
            tot = tot - Jm @ (Jm.T @ tot)
            rowsum = rowsum + sum_over(self.g, part)
        if not check.nf_zero():
            raise Unsupported('loop row writes overlap')
        # blocks of different kills must be disjoint
        Js = [head(self._proj_left(kw, g), old.rows, self.n) for kw in kill]
        for i in range(len(Js)):
            for j in range(i):
                if not (Js[i].T @ Js[j]).nf_zero():
                    raise Unsupported('loop row blocks overlap')
        return tot + rowsum

    def _own_row(self, w, c, d, h, old, havids, g, Jk):
        """term c*w with reads of row k of the havocked buffer replaced by reads of the
        buffer before the loop; Unsupported for any other dependence"""
        at = Algebra.cur()
        if not (self._wordhav(w, havids) or self._schav(c, havids)):
            return Mat(d.rows, d.cols, {w: c})
        for a in havids - {h, at.atoms[h].tid}:
            if self._wordhav(w, {a}) or self._schav(c, {a}):
                raise Unsupported('loop iterations are not independent')
        if len(Jk) != 1:
            raise Unsupported('loop iterations are not independent')
        J, = Jk
        res = self._subst_word(w, d.rows, d.cols, h, old, havids, g, J)
        return res.scale(self._subst_sc(c, h, old, havids, g, J))

    def _wordhav(self, w, havids):
        r = (set(), set())
        at = Algebra.cur().atoms
        for x in w:
            _deps_of(at[x], r)
        return bool(r[0] & havids)

    def _subst_word(self, w, rows, cols, h, old, havids, g, J, strip=False):
        at = Algebra.cur()
        bad = Unsupported
        out = Mat.eye(Algebra.cur().atoms[g.tid].cols) if strip else Mat.eye(rows)
        read = (g.tid,) + at.wt(J)          # e_k' J'
        ht = at.atoms[h].tid
        for i, x in enumerate(w):
            a = at.atoms[x]
            if strip and i == 0:
                continue                  # the index row e_k' only marks the row that is read
            m = Mat(a.rows, a.cols, {(x,): ONE})
            if x == h:
                if w[max(0, i - len(read)):i] != read:
                    raise bad('loop iterations are not independent')
                m = old
            elif x == ht:
                if w[i + 1:i + 1 + len(read)] != at.wt(read):
                    raise bad('loop iterations are not independent')
                m = old.T
            elif self._wordhav((x,), havids):
                base = a.data if a.kind.endswith('_t') else a
                if base.kind != 'fmap' or (w[i - 1] != g.tid if base is a else w[i + 1:i + 2] != (g.id,)) or (base is a and i == 0):
                    raise bad('loop iterations are not independent')
                nm, Y, ex = base.data[:3]
                if any(self._schav(k, havids) for k in Y.terms.values()):
                    raise bad('loop iterations are not independent')
                Z = Mat.zero(Y.rows, Y.cols)
                for yw, yc in Y.terms.items():
                    if self._wordhav(yw, havids):
                        Z = Z + self._subst_word((g.tid,) + yw, ONE, Y.cols, h, old, havids, g, J, strip=True).scale(yc)
                    else:
                        Z = Z + Mat(Y.rows, Y.cols, {yw: yc})
                Z = Z.renorm()
                key = ('fmap', nm, Z.key(), ex)
                q = at.by_key.get(key)
                if q is None:
                    q = at.atom('%s(%d)' % (nm, len(at.atoms)), base.rows, base.cols, 'fmap', (nm, Z, ex) + tuple(base.data[3:]), key=key)
                m = Mat.of(q) if base is a else Mat.of(q).T
            out = out @ m
        return out

    def _subst_sc(self, c, h, old, havids, g, J):
        if not self._schav(c, havids):
            return c
        syms = ctx().symtab.syms
        from .sc import subst
        sub = {}
        for i in c.syms():
            s = syms[i]
            if not self._schav(Sc.sym(s), havids):
                continue
            if s.kind != 'word':
                raise Unsupported('loop iterations are not independent')
            sub[i] = self._subst_word(s.data, ONE, ONE, h, old, havids, g, J).scalar()
        return subst(c, sub)

    def _unscalar(self, d, hv, havids):
        """column buffers: the scalar word e'h is put back into matrix form"""
        syms = ctx().symtab.syms
        (hw, _), = hv.terms.items()
        h = hw[0]
        at = Algebra.cur().atoms
        out = {}
        for w, c in d.terms.items():
            for i in c.syms():
                s = syms[i]
                if s.kind != 'word' or len(s.data) < 2 or h not in (s.data[-1], at[s.data[0]].tid):
                    continue
                q = s.data if s.data[-1] == h else Algebra.cur().wt(s.data)
                k = c.num.get(((i, 1),))
                if k is None or c.den:
                    continue
                acc(out, tuple(w) + tuple(q), to_sc(k))
                c = c - Sc({((i, 1),): k})
            acc(out, w, c)
        return Mat(d.rows, d.cols, {w: c for w, c in out.items() if not c.is_zero()})

    def _is_proj(self, w, g):
        at = Algebra.cur()
        if len(w) % 2:
            return False
        k = len(w) // 2
        if w[k - 1] != g.id or w[k] != g.tid:
            return False
        return at.wt(w[:k]) == w[k:] and all(at.atoms[x].kind == 'inj' for x in w[:k - 1])

    def _proj_left(self, w, g):
        return w[:len(w) // 2 - 1]

    def _schav(self, c, havids):
        r = (set(), set())
        _deps_of(c, r)
        syms = ctx().symtab.syms
        return bool(r[0] & havids) or any(syms[i].kind == 'havoc' for i in r[1])

    def _has(self, m, havids):
        r = (set(), set())
        _deps_of(m, r)
        syms = ctx().symtab.syms
        return bool(r[0] & havids) or any(syms[i].kind == 'havoc' for i in r[1])


class GrowLoop:
    """A loop in which one matrix grows by a row and a column a turn (r x (r + g) at the start of
    a turn, r counted up from its value at entry), cut by an invariant about that matrix:
    laws(M) -> [(name, value, specified value)], install(atom): the same laws as rewrite rules.
    The invariant is an obligation at entry and after the body, an assumption at the start of the
    (arbitrary) turn and after the loop."""
    symbolic = True

    def __init__(self, W, it, laws, install):
        self.W, self.laws, self.install = W, laws, install
        self.n, self.item = sym_count(it)
        c = ctx()
        self.ks = new_sym('k%d' % len(c.symtab.syms), 'var', None, nonneg=True, integer=True)
        self.k = Sc.sym(self.ks)
        c.nosub.add(self.ks.id)
        c.assume(self.k >= 0)
        c.assume(self.k < self.n)
        self.done = False

    def __iter__(self):
        yield self.item(self.k)
        self.done = True

    def _fresh(self, k):
        at = Algebra.cur().atom('grow%d' % len(Algebra.cur().atoms), dim_resolve(self.r0 + k), dim_resolve(self.c0 + k), 'var')
        self.install(at)
        return A.SymArr(Mat.of(at), 2)

    def _check(self, when, v):
        for n, a, b in self.laws(v):
            k = len(self.W.obls)
            self.W.eq('loop invariant %s: %s' % (when, n), a, b)
            if any(o.status != 'proved' for o in self.W.obls[k:]):
                # another construction may be right for another reason: no verdict, not a violation
                del self.W.obls[k:]
                raise Unsupported('loop invariant %s: %s not established' % (when, n))

    def enter(self, loc, names):
        if self.done:
            raise Unsupported('loop protocol')
        out, mats = [], []
        for n in names:
            v = loc.get(n, MISSING)
            if isinstance(v, (Poison, Unbound)) or v is MISSING:
                out.append(UNBOUND)
            elif getattr(v, 'ndim', 0) == 2:
                mats.append(n)
                out.append(v)
            else:
                out.append(Poison())
        if len(mats) != 1:
            raise Unsupported('which matrix grows')
        self.name = mats[0]
        v = loc[self.name]
        self.r0, self.c0 = (dim_resolve(to_sc(q)) for q in v.shape)
        self._check('on entry', v)
        self.conc = [(q, list(q.flat)) for q in loc.values() if isinstance(q, np.ndarray)]
        self.mark = A.Buf.serial[0]
        out[names.index(self.name)] = self._fresh(self.k)
        self.log = {}
        A.WRITE_LOG.append(self.log)
        return out

    def exit(self, loc, names):
        A.unlog(self.log)
        if not self.done:
            raise Unsupported('early exit')
        for i, (b, old) in self.log.items():
            if b.ser < self.mark:
                raise Unsupported('frame: array written in the loop')
        for v, old in self.conc:
            if any(a is not b for a, b in zip(v.flat, old)):
                raise Unsupported('frame: plain array written in the loop')
        v = loc[self.name]
        if getattr(v, 'ndim', 0) != 2:
            raise Unsupported('grown matrix')
        for q, want in zip(v.shape, (self.r0 + self.k + 1, self.c0 + self.k + 1)):
            if not A.force_eq(to_sc(q), want):
                raise Unsupported('growth of the matrix')
        self._check('preserved', v)
        out = [Poison() if loc.get(n) is not MISSING else UNBOUND for n in names]
        out[names.index(self.name)] = self._fresh(self.n)
        return out


class SeqMarker:
    def __init__(self, seq):
        self.seq = seq


MISSING = object()
UNBOUND = Unbound()
