"""Exact symbolic scalars: Laurent-polynomial numerators over factored
denominators, with algebraic roots and uninterpreted functions.

`Sc` is the value the verifier substitutes for a Python/numpy real number.
Arithmetic is exact (rationals; floats in the source denote the decimal real
they spell), so two Sc values are equal iff their difference normalises to 0
(up to incompleteness for dependent roots -- which can only make a proof fail,
never succeed wrongly)."""
from fractions import Fraction
import math

from .ctx import ctx, Unsupported, Undecided


def frac(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else v
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in exact arithmetic')
        f = Fraction(repr(v))
        return f.numerator if f.denominator == 1 else f
    raise TypeError(v)


def fdiv(a, b):
    f = Fraction(a) / Fraction(b)
    return f.numerator if f.denominator == 1 else f


# ---------------------------------------------------------------- symbols
class Sym:
    __slots__ = ('id', 'name', 'kind', 'data', 'pos', 'nonneg', 'integer')

    def __init__(self, id, name, kind, data=None, pos=False, nonneg=False, integer=False):
        self.id, self.name, self.kind, self.data = id, name, kind, data
        self.pos, self.nonneg, self.integer = pos, nonneg or pos, integer


def new_sym(name, kind='var', data=None, pos=False, nonneg=False, integer=False, key=None):
    t = ctx().symtab
    if key is not None:
        s = t.by_key.get(key)
        if s is not None:
            return s
    s = Sym(len(t.syms), name, kind, data, pos, nonneg, integer)
    t.syms.append(s)
    if key is not None:
        t.by_key[key] = s
    return s


class SymTab:
    def __init__(self):
        self.syms = []
        self.by_key = {}


# ------------------------------------------------------- polynomials (dicts)
# monomial: tuple of (symid, exp) sorted by symid, exp != 0
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def padd(p, q, c=1):
    if not q:
        return p
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + v * c
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    if len(p) * len(q) > 400000:
        raise Unsupported('polynomial too large')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            w = r.get(m, 0) + c1 * c2
            if w:
                r[m] = w
            else:
                r.pop(m, None)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def psplit(p):
    """p = unit * mono * prim, prim has no monomial factor and leading coeff 1."""
    if len(p) == 1:
        (m, c), = p.items()
        return c, m, {(): 1}
    mins = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            mins = d
            first = False
        else:
            for k in list(mins):
                mins[k] = min(mins[k], d.get(k, 0))
            for k in d:
                if k not in mins:
                    mins[k] = min(0, d[k])
    mono = tuple(sorted((k, e) for k, e in mins.items() if e))
    inv = tuple((k, -e) for k, e in mono)
    q = {mono_mul(m, inv): c for m, c in p.items()} if mono else p
    lead = q[max(q)]
    if lead != 1:
        q = {m: fdiv(c, lead) for m, c in q.items()}
    return lead, mono, q


def _divides(d, p):
    """exact division p/d of (non-Laurent) polynomials by lex leading terms, or None"""
    dm = max(d, key=_lexkey)
    dc = d[dm]
    q = {}
    r = dict(p)
    n = 0
    while r:
        rm = max(r, key=_lexkey)
        inv = mono_mul(rm, tuple((k, -e) for k, e in dm))
        if any(e < 0 for _, e in inv):
            return None
        c = fdiv(r[rm], dc)
        q[inv] = c
        r = padd(r, {mono_mul(inv, m): v for m, v in d.items()}, -c)
        n += 1
        if n > 3000:
            return None
    return q


class _Lex:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = dict(self.m), dict(o.m)
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, 0), b.get(k, 0)
            if x != y:
                return x < y
        return False


def _lexkey(m):
    return _Lex(m)


# ---------------------------------------------------------------- scalars
class Sc:
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den        # tuple of (polykey, exp) sorted

    # --- constructors
    @staticmethod
    def const(v):
        v = frac(v)
        return Sc({(): v} if v else {})

    @staticmethod
    def sym(s):
        return Sc({((s.id, 1),): 1})

    # --- queries
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def const_val(self):
        return self.num.get((), 0)

    def is_zero(self):
        if not self.num:
            return True
        if self.den or len(self.num) > 1:
            n = reduce_roots(self)
            return not n.num
        return False

    def key(self):
        s = canon(self)
        return (pkey(s.num), s.den)

    def __hash__(self):
        if self.is_const():
            return hash(self.const_val())
        return hash(self.key())

    def syms(self):
        out = set()
        for m in self.num:
            out.update(k for k, _ in m)
        for pk, _ in self.den:
            for m, _c in pk:
                out.update(k for k, _ in m)
        return out

    # --- arithmetic
    def __neg__(self):
        return Sc({m: -c for m, c in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            return norm(Sc(padd(self.num, o.num), self.den))
        d1, d2 = dict(self.den), dict(o.den)
        lcm = dict(d1)
        for k, e in d2.items():
            lcm[k] = max(lcm.get(k, 0), e)
        n1, n2 = self.num, o.num
        for k, e in lcm.items():
            for _ in range(e - d1.get(k, 0)):
                n1 = pmul(n1, dict(k))
            for _ in range(e - d2.get(k, 0)):
                n2 = pmul(n2, dict(k))
        return norm(Sc(padd(n1, n2), tuple(sorted(lcm.items()))))

    __radd__ = __add__

    def __sub__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and not isinstance(o, Sc):
            return sym_list_mul(o, self)
        o = to_sc(o)
        if o is None:
            return NotImplemented
        if not self.num or not o.num:
            return ZERO
        if self.is_const():
            c = self.const_val()
            return Sc({m: v * c for m, v in o.num.items()}, o.den) if c != 1 else o
        if o.is_const():
            c = o.const_val()
            return Sc({m: v * c for m, v in self.num.items()}, self.den) if c != 1 else self
        den = dict(self.den)
        for k, e in o.den:
            den[k] = den.get(k, 0) + e
        return norm(Sc(pmul(self.num, o.num), tuple(sorted(den.items()))))

    def __rmul__(self, o):
        return self.__mul__(o)

    def inverse(self):
        s = reduce_roots(self)
        if not s.num:
            raise ZeroDivisionError('division by zero')
        c, m, prim = psplit(s.num)
        num = {tuple((k, -e) for k, e in m): fdiv(1, c)}
        for k, e in s.den:
            for _ in range(e):
                num = pmul(num, dict(k))
        den = () if prim == {(): 1} else ((pkey(prim), 1),)
        return norm(Sc(num, den))

    def __truediv__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            c = o.const_val()
            if c == 0:
                raise ZeroDivisionError('division by zero')
            return Sc({m: fdiv(v, c) for m, v in self.num.items()}, self.den)
        if ctx().divcheck and decide_zero(o):
            raise ZeroDivisionError('division by zero')
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        o = to_sc(o)
        if self.is_const() and o.is_const():
            return Sc.const(self.const_val() // o.const_val())
        raise Unsupported('symbolic //')

    def __mod__(self, o):
        o = to_sc(o)
        if self.is_const() and o.is_const():
            return Sc.const(self.const_val() % o.const_val())
        raise Unsupported('symbolic %')

    def __rfloordiv__(self, o):
        return to_sc(o) // self

    def __rmod__(self, o):
        return to_sc(o) % self

    def __pow__(self, e):
        if isinstance(e, Sc):
            if not e.is_const():
                raise Unsupported('symbolic exponent')
            e = e.const_val()
        e = frac(e)
        if isinstance(e, int):
            if e < 0:
                return (ONE / self) ** (-e)
            r, b = ONE, self
            while e:
                if e & 1:
                    r = r * b
                b = b * b if e > 1 else b
                e >>= 1
            return r
        if e.denominator == 2:
            return sqrt(self) ** e.numerator
        raise Unsupported('fractional power')

    def __rpow__(self, b):
        return to_sc(b) ** self

    def __abs__(self):
        if self.is_const():
            return Sc.const(abs(self.const_val()))
        return self if bool(self >= 0) else -self

    # --- comparison
    def __eq__(self, o):
        o2 = to_sc(o)
        if o2 is None:
            return NotImplemented if o is not None else False
        d = self - o2
        if d.is_zero():
            return True
        if d.is_const():
            return False
        return Cond('==', d)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else r.negate()

    def _cmp(self, o, op):
        o2 = to_sc(o)
        if o2 is None:
            if isinstance(o, float) and o in (float('inf'), float('-inf')):
                return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0}[op]
            return NotImplemented
        d = self - o2
        if d.is_const() or d.is_zero():
            v = 0 if d.is_zero() else d.const_val()
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
        return Cond(op, d)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        r = self.__ne__(0)
        return bool(r)

    # --- conversions
    def __index__(self):
        s = dim_resolve(self)
        if s.is_const() and isinstance(s.const_val(), int):
            return s.const_val()
        raise Unsupported('symbolic value used as a concrete index')

    def __int__(self):
        s = dim_resolve(self)
        if s.is_const():
            return int(s.const_val())
        raise Unsupported('int() of symbolic value')

    def __float__(self):
        if self.is_const():
            return float(self.const_val())
        raise Unsupported('float() of symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    # numpy-scalar-like API (object arrays call these for ufuncs)
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        return self

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    def dot(self, o):
        return self * o

    def flatten(self):
        import numpy as np
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    def __repr__(self):
        return show(self)


def sym_list_mul(lst, n):
    n = dim_resolve(n)
    if n.is_const():
        return lst * n.const_val()
    from .arr import SymList
    return SymList(lst, n)


def to_sc(v):
    if isinstance(v, Sc):
        return v
    if isinstance(v, (bool, int, Fraction)):
        return Sc.const(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Sc.const(v)
    import numpy as np
    if isinstance(v, np.generic) and not isinstance(v, (np.str_, np.bytes_, np.void)):
        if isinstance(v, np.bool_):
            return Sc.const(int(v))
        if isinstance(v, np.integer):
            return Sc.const(int(v))
        if isinstance(v, np.floating):
            return Sc.const(float(v))
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return to_sc(v.item())
    if hasattr(v, '_as_sc'):
        return v._as_sc()
    return None


ZERO = Sc({})
ONE = Sc({(): 1})


def norm(s):
    """cancel denominator factors that divide the numerator; reduce roots"""
    if not s.num:
        return ZERO
    if ctx().symtab_has_roots:
        s = reduce_roots(s)
        if not s.num:
            return ZERO
    if not s.den:
        return s
    den = dict(s.den)
    num = s.num
    changed = False
    for k in list(den):
        while den.get(k, 0) > 0:
            d = dict(k)
            # clear negative exponents for the trial division
            c, m, prim = psplit(num)
            if len(prim) < len(d) and len(prim) <= 1:
                break
            q = _divides(d, prim)
            if q is None:
                break
            num = pmul({m: c}, q)
            den[k] -= 1
            changed = True
        if den.get(k) == 0:
            del den[k]
    if not changed:
        return s
    return Sc(num, tuple(sorted(den.items())))


def canon(s):
    """canonical form: full gcd cancellation through sympy when a denominator is present"""
    s = norm(s)
    if not s.den or not s.num:
        return s
    key = (pkey(s.num), s.den)
    c = ctx().canon_cache.get(key)
    if c is None:
        c = _canon(s)
        ctx().canon_cache[key] = c
    return c


def _canon(s):
    import sympy
    ids = sorted(s.syms())
    xs = {i: sympy.Symbol('s%d' % i) for i in ids}

    def ex(p):
        return sympy.Add(*[sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) *
                           sympy.Mul(*[xs[k] ** e for k, e in m]) for m, c in p.items()])
    c0, m0, prim = psplit(s.num)
    d = sympy.Mul(*[ex(dict(k)) ** e for k, e in s.den])
    gens = [xs[i] for i in ids]
    n2, d2 = sympy.Poly(ex(prim), *gens), sympy.Poly(d, *gens)
    g = sympy.gcd(n2, d2)
    n2, d2 = sympy.quo(n2, g), sympy.quo(d2, g)

    def back(P):
        out = {}
        for mono, c in P.terms():
            m = tuple((ids[i], e) for i, e in enumerate(mono) if e)
            c = sympy.Rational(c)
            f = Fraction(int(c.p), int(c.q))
            out[m] = f.numerator if f.denominator == 1 else f
        return out
    num = pmul({m0: c0}, back(n2))
    dp = back(d2)
    c, m, prim = psplit(dp)
    num = pmul(num, {tuple((k, -e) for k, e in m): fdiv(1, c)})
    if prim == {(): 1}:
        return Sc(num)
    # expanded single denominator factor: canonical
    return Sc(num, ((pkey(prim), 1),))


def reduce_roots(s):
    t = ctx().symtab
    if not ctx().symtab_has_roots:
        return s
    syms = t.syms
    bad = False
    for m in s.num:
        for k, e in m:
            if syms[k].kind == 'root' and (e > 1 or e < 0):
                bad = True
                break
        if bad:
            break
    if not bad:
        return s
    out = {}
    extra = ZERO
    for m, c in s.num.items():
        keep, mult = [], None
        for k, e in m:
            if syms[k].kind == 'root' and (e > 1 or e < 0):
                q, r = divmod(e, 2)
                if r:
                    keep.append((k, 1))
                f = syms[k].data
                f = f ** q if q >= 0 else f.inverse() ** (-q)
                mult = f if mult is None else mult * f
            else:
                keep.append((k, e))
        if mult is None:
            w = out.get(m, 0) + c
            if w:
                out[m] = w
            else:
                out.pop(m, None)
        else:
            extra = extra + Sc({tuple(keep): c}) * mult
    r = Sc(out) + extra
    if s.den:
        den = dict(s.den)
        for k, e in r.den:
            den[k] = den.get(k, 0) + e
        r = Sc(r.num, tuple(sorted(den.items())))
    return reduce_roots(r)


def sqrt(a):
    a = to_sc(a)
    if a.is_const():
        v = Fraction(a.const_val())
        if v < 0:
            raise ValueError('math domain error')
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Sc.const(Fraction(n, d))
        # sqrt(n/d) = sqrt(n*d)/d with square factors pulled out of n*d
        nd = v.numerator * v.denominator
        out, k, rest = 1, 2, nd
        while k * k <= rest and k < 2000:
            while rest % (k * k) == 0:
                rest //= k * k
                out *= k
            k += 1
        res = Sc.const(Fraction(out, v.denominator))
        # split into primes so that sqrt(6) = sqrt(2) sqrt(3)
        k = 2
        while rest > 1 and k < 2000:
            if rest % k == 0:
                res = res * _root(Sc.const(k))
                rest //= k
            else:
                k += 1
        if rest > 1:
            res = res * _root(Sc.const(rest))
        return res
    a = canon(a)
    if not a.den and len(a.num) == 1:
        # monomial: sqrt(c * prod s^e), distribute over known-nonnegative symbols
        (m, c), = a.num.items()
        syms = ctx().symtab.syms
        if c > 0 and all(syms[k].nonneg for k, _ in m):
            res = sqrt(Sc.const(c))
            for k, e in m:
                q, r = divmod(e, 2)
                res = res * Sc({((k, q),): 1}) if q else res
                if r:
                    res = res * _root(Sc({((k, 1),): 1}))
            return res
    # perfect square of a sign-definite term?
    return _root_general(a)


def _root_general(a):
    """sqrt of a rational expression: sqrt(N/D) = sqrt(N*D)/|D| with content removed"""
    if a.den:
        D = ONE
        for k, e in a.den:
            D = D * (Sc(dict(k)) ** e)
        if known_sign(D) is not None and known_sign(D) != 0:
            r = _root_general(canon(Sc(a.num) * D))
            return r / D if known_sign(D) > 0 else r / (-D)
    c, m, prim = psplit(a.num)
    syms = ctx().symtab.syms
    if c > 0 and not a.den and (m or c != 1) and all(syms[k].nonneg for k, _ in m):
        return sqrt(Sc({m: c})) * _root_general(Sc(prim))
    return _root(a)


def _root(a):
    ctx().symtab_has_roots = True
    s = new_sym('sqrt(%s)' % (show(a),), 'root', a, nonneg=True, pos=(known_sign(a) == 1),
                key=('root', a.key()))
    return Sc.sym(s)


def known_sign(a):
    """cheap syntactic sign: 1, -1, 0 or None"""
    if not a.num:
        return 0
    if a.is_const():
        v = a.const_val()
        return (v > 0) - (v < 0)
    syms = ctx().symtab.syms

    def psign(p):
        sg = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for k, e in m:
                if not syms[k].pos and not (e % 2 == 0 and syms[k].kind != 'root' and False):
                    return None
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return sg
    sg = psign(a.num)
    if sg is None:
        return None
    for k, e in a.den:
        d = psign(dict(k))
        if d is None:
            return None
        if e % 2:
            sg *= d
    return sg


def exp(a):
    """exp as a multiplicative family: exp(sum c_i t_i) = prod exp-symbol(t_i)^c_i"""
    a = to_sc(a)
    if a.is_const() and a.const_val() == 0:
        return ONE
    # exp(log(t)) = t
    r = ONE
    rest = ZERO
    syms = ctx().symtab.syms
    a = canon(a)
    if not a.den:
        for m, c in a.num.items():
            if len(m) == 1 and m[0][1] == 1 and syms[m[0][0]].kind == 'log':
                d = syms[m[0][0]].data
                c = Fraction(c)
                if c.denominator == 1:
                    r = r * d ** c.numerator
                    continue
                if c.denominator == 2:
                    r = r * sqrt(d) ** c.numerator
                    continue
            rest = rest + Sc({m: c})
    else:
        rest = a
    if rest.is_zero():
        return r
    rest = canon(rest)
    s = new_sym('exp', 'exp', rest, pos=True, key=('exp', rest.key()))
    return r * Sc.sym(s)


def log(a):
    a = to_sc(a)
    a = canon(a)
    if a.is_const() and a.const_val() == 1:
        return ZERO
    if a.is_const() and a.const_val() <= 0:
        raise ValueError('math domain error')
    syms = ctx().symtab.syms
    out = ZERO
    c, m, prim = psplit(a.num)
    rest_m = []
    if c < 0:
        c, prim = -c, {k: -v for k, v in prim.items()}
    allpos = all(syms[k].pos for k, _ in m)
    if not allpos:
        s = new_sym('log', 'log', a, key=('log', a.key()))
        return Sc.sym(s)
    f = Fraction(c)
    for n, sg in ((f.numerator, 1), (f.denominator, -1)):
        k = 2
        while n > 1 and k < 2000:
            if n % k == 0:
                out = out + Sc.sym(new_sym('log', 'log', Sc.const(k), key=('log', Sc.const(k).key()))) * sg
                n //= k
            else:
                k += 1
        if n > 1:
            out = out + Sc.sym(new_sym('log', 'log', Sc.const(n), key=('log', Sc.const(n).key()))) * sg
    for k, e in m:
        s = syms[k]
        if s.kind == 'exp':
            out = out + s.data * e
        elif s.kind == 'root':
            out = out + log(s.data) * Fraction(e, 2)
        else:
            out = out + Sc.sym(new_sym('log', 'log', Sc.sym(s), key=('log', Sc.sym(s).key()))) * e
    if prim != {(): 1}:
        p = Sc(prim)
        out = out + Sc.sym(new_sym('log', 'log', p, key=('log', p.key())))
    for k, e in a.den:
        p = Sc(dict(k))
        out = out - Sc.sym(new_sym('log', 'log', p, key=('log', p.key()))) * e
    return out


def ufn(name, args, **kw):
    """uninterpreted function application"""
    args = [to_sc(a) for a in args]
    s = new_sym(name, 'fn', (name, tuple(args)), key=('fn', name, tuple(a.key() for a in args)), **kw)
    return Sc.sym(s)


# ---------------------------------------------------------------- display
def show(s):
    syms = ctx().symtab.syms

    def mono(m):
        return '*'.join(syms[k].name + ('' if e == 1 else '^%s' % e) for k, e in m)

    def poly(p):
        if not p:
            return '0'
        out = []
        for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(mono(m))
            else:
                out.append('%s*%s' % (c, mono(m)))
        return ' + '.join(out)
    n = poly(s.num)
    if len(n) > 400:
        n = n[:400] + '...'
    if not s.den:
        return n
    return '(%s)/%s' % (n, '*'.join('(%s)^%s' % (poly(dict(k)), e) for k, e in s.den))


# ------------------------------------------------------------- conditions
class Cond:
    """op(expr, 0); truth is decided by the path-exploration context"""
    __slots__ = ('op', 'e', 'kids')
    __array_priority__ = 1000

    def __init__(self, op, e, kids=None):
        self.op, self.e, self.kids = op, e, kids

    def negate(self):
        if self.op in ('and', 'or'):
            return Cond('or' if self.op == 'and' else 'and', None, [neg(k) for k in self.kids])
        return Cond({'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[self.op], self.e)

    def __bool__(self):
        return ctx().decide(self)

    def __and__(self, o):
        return conj([self, o])

    def __or__(self, o):
        return disj([self, o])

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return self.negate()

    def all(self):
        return bool(self)

    any = all

    def __repr__(self):
        if self.kids is not None:
            return '(' + (' %s ' % self.op).join(map(repr, self.kids)) + ')'
        return '%s %s 0' % (show(self.e), self.op)


def neg(c):
    return c.negate() if isinstance(c, Cond) else (not c)


def conj(cs):
    cs = [c for c in cs if c is not True and not (not isinstance(c, Cond) and bool(c))]
    if any(not isinstance(c, Cond) and not c for c in cs):
        return False
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else Cond('and', None, cs)


def disj(cs):
    if any(not isinstance(c, Cond) and bool(c) for c in cs):
        return True
    cs = [c for c in cs if isinstance(c, Cond)]
    if not cs:
        return False
    return cs[0] if len(cs) == 1 else Cond('or', None, cs)


def decide_zero(e):
    r = e.__eq__(0)
    return bool(r)


def dim_resolve(e):
    """substitute dimension equalities known on this path"""
    e = to_sc(e)
    sub = ctx().dimsub
    if not sub or e.is_const():
        return e
    return subst(e, sub)


def subst(e, sub):
    ids = e.syms()
    if not any(i in sub for i in ids):
        return e
    out = ZERO

    def sp(p):
        r = ZERO
        for m, c in p.items():
            t = Sc.const(c)
            for k, ex in m:
                b = sub[k] if k in sub else Sc({((k, 1),): 1})
                t = t * (b ** ex)
            r = r + t
        return r
    out = sp(e.num)
    for k, ex in e.den:
        out = out / (sp(dict(k)) ** ex)
    return out
