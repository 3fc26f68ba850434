"""Execution context of the verifier: symbols, assumptions, path exploration."""
import itertools
import time


class Control(BaseException):
    """internal control flow; must never be swallowed by the verified program"""


class Unsupported(Control):
    """the verified code left the supported fragment: no verdict on this path"""

    def __init__(self, msg=''):
        BaseException.__init__(self, msg)
        c = _CUR[0]
        if c is not None and c.pending is None:
            c.pending = self


class Undecided(Control):
    def __init__(self, msg=''):
        BaseException.__init__(self, msg)
        c = _CUR[0]
        if c is not None and c.pending is None:
            c.pending = self


class Infeasible(Control):
    """the current path condition is contradictory"""

    def __init__(self, msg=''):
        BaseException.__init__(self, msg)
        c = _CUR[0]
        if c is not None and c.pending is None:
            c.pending = self


class Done(Control):
    """harness ends this path early, on purpose"""


_CUR = [None]


def ctx():
    return _CUR[0]


STATS = {'solver_s': 0.0, 'solver_calls': 0, 'paths': 0, 'nf_eq': 0}


class Ctx:
    def __init__(self, prefix):
        from .sc import SymTab
        self.symtab = SymTab()
        self.symtab_has_roots = False
        self.canon_cache = {}
        self.prefix = list(prefix)       # prescribed decisions
        self.trace = []                  # (kind, taken, n_alternatives, label)
        self.assumps = []                # Conds assumed or decided on this path
        self.dimsub = {}
        self.pending = None
        self.divcheck = False
        self.divisors = []
        self.algebra = None
        self.choices = {}
        self.loops = []
        self.notes = []
        self.zcache = {}
        self.symones = False             # represent 1x1 arrays symbolically too
        self.lemmas = []
        self.nosub = set()

    # ---------------------------------------------------------- decisions
    def fork(self, n, label):
        """n-ary fork; returns the branch index to take"""
        i = len(self.trace)
        if i < len(self.prefix):
            t = self.prefix[i]
        else:
            t = 0
        self.trace.append((label, t, n))
        return t

    def choose(self, label, options):
        options = list(options)
        if len(options) == 1:
            self.choices[label] = options[0]
            return options[0]
        t = self.fork(len(options), 'choice:' + label)
        self.choices[label] = options[t]
        return options[t]

    def decide(self, cond):
        v = self.entailed(cond)
        if v is not None:
            return v
        t = self.fork(2, 'cond:%r' % (cond,))
        val = (t == 0)
        self.assume(cond if val else cond.negate())
        return val

    def assume(self, cond):
        from .sc import Cond
        if cond is True:
            return
        if not isinstance(cond, Cond):
            if not cond:
                raise Infeasible('assumption false')
            return
        if cond.op == 'and':
            for k in cond.kids:
                self.assume(k)
            return
        self.assumps.append(cond)
        self.zcache.clear()
        if cond.op == '==':
            self._dim_equation(cond.e)

    def _dim_equation(self, e):
        """turn an equality between dimension terms into a substitution"""
        from .sc import Sc, subst, fdiv
        syms = self.symtab.syms
        if e.den:
            return
        ids = e.syms()
        if not ids or not all(syms[i].integer for i in ids):
            return
        if any(i in self.nosub for i in ids):
            return                       # indices of generic epochs keep their name
        for i in sorted(ids, reverse=True):
            lin = [(m, c) for m, c in e.num.items() if any(k == i for k, _ in m)]
            if len(lin) == 1 and lin[0][0] == ((i, 1),) and lin[0][1] in (1, -1):
                rest = {m: c for m, c in e.num.items() if m != ((i, 1),)}
                val = Sc({m: fdiv(-c, lin[0][1]) for m, c in rest.items()})
                sub = {i: val}
                self.dimsub = {k: subst(v, sub) for k, v in self.dimsub.items()}
                self.dimsub[i] = val
                if self.algebra is not None:
                    self.algebra.dims_changed()
                return

    # ---------------------------------------------------------- z3
    def entailed(self, cond):
        """True / False if decided by the assumptions, None if both possible"""
        from .sc import Cond, subst, known_sign
        if not isinstance(cond, Cond):
            return bool(cond)
        if cond.kids is None:
            e = subst(cond.e, self.dimsub) if self.dimsub else cond.e
            if e.is_zero():
                sg = 0
            else:
                sg = known_sign(e)
            if sg is not None:
                return {'==': sg == 0, '!=': sg != 0, '<': sg < 0, '<=': sg <= 0, '>': sg > 0, '>=': sg >= 0}[cond.op]
        if not self.sat([cond]):
            return False
        if not self.sat([cond.negate()]):
            return True
        return None

    def sat(self, extra=(), model=False):
        import z3
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 3000)
        tr = ZTrans(self)
        for c in list(self.assumps) + list(extra):
            z = tr.cond(c)
            if z is not None:
                s.add(z)
        for z in tr.side():
            s.add(z)
        r = s.check()
        STATS['solver_s'] += time.time() - t0
        STATS['solver_calls'] += 1
        if model:
            return (r, s.model() if r == z3.sat else None, tr)
        return r != z3.unsat


class ZTrans:
    def __init__(self, c):
        import z3
        self.z3 = z3
        self.c = c
        self.vars = {}
        self.ints = {}
        self.sidec = []

    def sym(self, i):
        z3 = self.z3
        if i in self.vars:
            return self.vars[i]
        s = self.c.symtab.syms[i]
        if s.integer:
            v = z3.Int('s%d_%s' % (i, s.name))
            self.ints[i] = v
            r = z3.ToReal(v)
        else:
            v = z3.Real('s%d_%s' % (i, s.name))
            r = v
        self.vars[i] = r
        if s.pos:
            self.sidec.append(v > 0)
        elif s.nonneg:
            self.sidec.append(v >= 0)
        if s.kind == 'root':
            self.sidec.append(r * r == self.expr(s.data))
        for z in (getattr(s, 'data', None) or ()) if s.kind == 'dim' else ():
            pass
        return r

    def poly(self, p):
        z3 = self.z3
        acc = z3.RealVal(0)
        from fractions import Fraction
        for m, c in p.items():
            f = Fraction(c)
            t = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
            for k, e in m:
                v = self.sym(k)
                for _ in range(abs(e)):
                    t = t * v if e > 0 else t / v
            acc = acc + t
        return acc

    def expr(self, e):
        r = self.poly(e.num)
        for k, ex in e.den:
            d = self.poly(dict(k))
            for _ in range(ex):
                r = r / d
        return r

    def cond(self, c):
        from .sc import Cond
        z3 = self.z3
        if not isinstance(c, Cond):
            return z3.BoolVal(bool(c))
        if c.kids is not None:
            ks = [self.cond(k) for k in c.kids]
            return z3.And(*ks) if c.op == 'and' else z3.Or(*ks)
        from .sc import psplit, Sc
        syms = self.c.symtab.syms
        if not c.e.den and all(syms[k].integer and e > 0 for m in c.e.num for k, e in m) and all(isinstance(v, int) for v in c.e.num.values()):
            # integer conditions stay in integer arithmetic
            e = z3.IntVal(0)
            for m, v in c.e.num.items():
                t = z3.IntVal(v)
                for k, x in m:
                    self.sym(k)
                    for _ in range(x):
                        t = t * self.ints[k]
                e = e + t
            return {'==': e == 0, '!=': e != 0, '<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[c.op]
        # clear monomial/polynomial denominators only when their sign is known
        e = self.expr(c.e)
        return {'==': e == 0, '!=': e != 0, '<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[c.op]

    def side(self):
        return self.sidec


def explore(run, max_paths=4000, deadline=None):
    """run(ctx) for every feasible decision sequence; yields the finished contexts"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix)
        _CUR[0] = c
        STATS['paths'] += 1
        n += 1
        if n > max_paths or (deadline and time.time() > deadline):
            yield None
            return
        try:
            out = run(c)
        finally:
            _CUR[0] = None
        for i in range(len(c.trace) - 1, len(prefix) - 1, -1):
            lab, t, k = c.trace[i]
            for alt in range(t + 1, k):
                stack.append([x[1] for x in c.trace[:i]] + [alt])
        _CUR[0] = c
        yield (c, out)
        _CUR[0] = None
