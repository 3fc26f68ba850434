"""Index-level deductive verifier: generates verification conditions for an
imperative function of /repo (its own AST, read on every run) and discharges them
with z3.  Loops are cut by invariants supplied by the contract; every array access
yields a bounds obligation; `while` loops need a variant.  Integers are
mathematical, floats are reals.  Arrays are total functions of an index plus a
length.  Anything outside this subset raises Unsupported (no verdict)."""
import ast
import itertools
import os
import signal
import time
import z3
from .ctx import Unsupported, STATS
from .load import REPO

I, R = z3.IntSort(), z3.RealSort()
UID = itertools.count(1)
DIV, MOD = z3.Function('dv', I, I, I), z3.Function('md', I, I, I)       # quotient and remainder
EXP, ROOT = z3.Function('exp', R, R), z3.Function('root', R, R)
PI = z3.Real('pi')
POW, FACT = z3.Function('pw', R, I, R), z3.Function('fact', I, I)


def division_facts():
    a, b = z3.Ints('a? b?')
    return [z3.ForAll([a, b], z3.Implies(b > 0, z3.And(a == b * DIV(a, b) + MOD(a, b), MOD(a, b) >= 0, MOD(a, b) < b)), patterns=[t]) for t in (DIV(a, b), MOD(a, b))]


def real_facts():
    """exp is positive; root(x) is the positive square root of a positive x; pi"""
    x = z3.Real('x?')
    return [z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]), PI > 3, PI < 4,
            z3.ForAll([x], z3.Implies(x > 0, z3.And(ROOT(x) > 0, ROOT(x) * ROOT(x) == x)), patterns=[ROOT(x)])]


def power_facts():
    x, k = z3.Real('x?'), z3.Int('k?')
    return [z3.ForAll([x], POW(x, 0) == 1, patterns=[POW(x, 0)]), FACT(0) == 1, FACT(1) == 1, FACT(2) == 2,
            z3.ForAll([x], z3.And(POW(x, 1) == x, POW(x, 2) == x * x), patterns=[POW(x, 0)]),
            z3.ForAll([k], z3.Implies(k >= 0, FACT(k) >= 1), patterns=[FACT(k)])]


def is_z(x):
    return isinstance(x, z3.ExprRef)


def toreal(x):
    if is_z(x):
        return z3.ToReal(x) if x.sort() == I else x
    return z3.RealVal(repr(x) if isinstance(x, float) else x)


def num(x):
    return is_z(x) or isinstance(x, (int, float)) and not isinstance(x, bool)


def arith(op, a, b):
    if not is_z(a) and not is_z(b):
        if isinstance(op, ast.Div):
            return z3.simplify(toreal(a) / toreal(b))
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                ast.Pow: lambda: a ** b}[type(op)]()
    isint = all((x.sort() == I) if is_z(x) else isinstance(x, int) for x in (a, b))
    if isinstance(op, ast.Div):
        return toreal(a) / toreal(b)
    if isinstance(op, ast.Pow):
        if is_z(b) and b.sort() == I:
            return POW(toreal(a), b)                                # exponent not negative: an obligation of binop
        if isinstance(b, float) and b in (.5, -.5):
            return ROOT(toreal(a)) if b > 0 else 1 / ROOT(toreal(a))      # base positive: an obligation of binop
        if isinstance(b, float) and b == int(b):
            b, a, isint = int(b), toreal(a), False
        if not isinstance(b, int) or not 0 <= b <= 12:
            raise Unsupported('power')
        out = z3.RealVal(1) if b == 0 and not isint else 1 if b == 0 else a
        for _ in range(b - 1):
            out = out * a
        return out
    if not isint:
        a, b = toreal(a), toreal(b)
    if isinstance(op, ast.Add):
        return a + b
    if isinstance(op, ast.Sub):
        return a - b
    if isinstance(op, ast.Mult):
        return a * b
    if isint and isinstance(b, int) and b > 0 and isinstance(op, (ast.FloorDiv, ast.Mod)):
        return a / b if isinstance(op, ast.FloorDiv) else a % b
    if isint and isinstance(op, (ast.FloorDiv, ast.Mod)):
        return (DIV if isinstance(op, ast.FloorDiv) else MOD)(toi(a), toi(b))       # divisor positive: an obligation of binop
    raise Unsupported('arithmetic operator')


def solve(fs, ms, logic):
    """one solver call in a child process (z3 does not always honour its own time limit)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(ms / 1000) + 2)
            sv = z3.Solver() if logic == 'default' else z3.SolverFor(logic)
            sv.set('timeout', ms)
            sv.add(*fs)
            os.write(w, str(sv.check()).encode())
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    try:
        while True:
            b = os.read(r, 64)
            if not b:
                break
            out += b
    finally:
        os.close(r)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return out.decode() or 'unknown'


class Arr:
    """1-D array: f(index term) -> term; n length term; kind 'i' or 'r'"""

    view_of = None

    def __init__(self, n, f, kind, tag=None):
        self.n, self.f, self.kind, self.tag = n, f, kind, tag
        self.uid = next(UID)

    def clone(self, same=False):
        a = Arr(self.n, self.f, self.kind, self.tag)
        if same:
            a.uid, a.view_of = self.uid, self.view_of
        for x in ('cum', 'quot'):
            if hasattr(self, x):
                setattr(a, x, getattr(self, x))
        return a


class Arr2:
    """2-D array: f(row, column) -> term; n rows, m columns"""
    view_of = None

    def __init__(self, n, m, f, kind='r'):
        self.n, self.m, self.f, self.kind = n, m, f, kind
        self.uid = next(UID)

    def clone(self, same=False):
        a = Arr2(self.n, self.m, self.f, self.kind)
        if same:
            a.uid, a.view_of = self.uid, self.view_of
        return a

    def row(self, i):
        f = self.f
        a = Arr(self.m, lambda k: f(i, k), self.kind)
        a.view_of = self.view_of or self.uid
        return a


class Obj:
    """an object with the attributes the contract lists"""
    view_of = None

    def __init__(self, **kw):
        self.attrs = kw


class Rep:
    """a list that repeats one value a symbolic number of times"""
    view_of = None

    def __init__(self, value, n):
        self.value, self.n = value, n


class Cells:
    """invariant / postcondition about every cell: proved for an arbitrary cell (with ground
    hints at that cell), assumed quantified"""
    def __init__(self, dims, cell, pat=None, hints=None):
        self.dims, self.cell, self.pat, self.hints = dims, cell, pat, hints

    def inside(self, ix):
        return [z3.And(k >= 0, k < n) for k, n in zip(ix, self.dims)]

    def assume(self):
        ix = [z3.FreshInt('q') for _ in self.dims]
        p = self.pat(*ix) if self.pat else None
        kw = dict(patterns=[p]) if p is not None and z3.is_app_of(p, z3.Z3_OP_UNINTERPRETED) and p.num_args() else {}
        return z3.ForAll(ix, z3.Implies(z3.And(self.inside(ix)), self.cell(*ix)), **kw)


class Items:
    """the items of enumerate / zip"""
    def __init__(self, n, parts):
        self.n, self.parts = n, parts

    def at(self, V, c):
        return tuple(p.at(V, c) if isinstance(p, Items) else V.item(p, c) for p in self.parts)


class Quit(Exception):
    pass


class St:
    def __init__(self):
        self.env, self.pc, self.ret, self.args, self.jump = {}, [], None, [], None

    def fork(self):
        s = St()
        memo = {}

        def c(v):
            if isinstance(v, (Arr, Arr2)):
                if id(v) not in memo:
                    memo[id(v)] = v.clone(True)
                return memo[id(v)]
            if isinstance(v, Obj):
                if id(v) not in memo:
                    memo[id(v)] = o = Obj()
                    o.attrs = {k: c(x) for k, x in v.attrs.items()}
                return memo[id(v)]
            if isinstance(v, tuple):
                return tuple(c(x) for x in v)
            return v
        s.env = {k: c(v) for k, v in self.env.items()}
        s.args = [c(v) for v in self.args]
        s.pc = list(self.pc)
        s.ret, s.jump = c(self.ret), self.jump
        return s


def expand(fn, tree, modular=()):
    """helpers of the same file that contain loops are put in place of their call (parameters
    become assignments, locals are renamed apart): `return h(..)`, `v = h(..)` and `h(..)`"""
    import copy
    fn = copy.deepcopy(fn)
    local = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name not in modular}
    count = [0]

    def body_of(call, tail):
        if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id in local):
            return None
        h = local[call.func.id]
        a = h.args
        if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(h)) or h.decorator_list:
            return None
        if a.vararg or a.kwarg or a.kwonlyargs or any(isinstance(x, ast.Starred) for x in call.args):
            return None
        rets = [n for n in ast.walk(h) if isinstance(n, ast.Return)]
        if not tail and (len(rets) > 1 or rets and h.body[-1] is not rets[0]):
            return None
        count[0] += 1
        if count[0] > 30:
            raise Unsupported('recursive helper')
        pre = '%s__%d_' % (h.name, count[0])
        ps = [x.arg for x in a.posonlyargs + a.args]
        val = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        if len(call.args) > len(ps):
            return None
        val.update(zip(ps, call.args))
        for k in call.keywords:
            if k.arg not in ps:
                return None
            val[k.arg] = k.value
        if set(val) != set(ps):
            return None
        bound = set(ps) | {n.id for st in h.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        out = [ast.Assign([ast.Name(pre + p, ast.Store())], copy.deepcopy(val[p]), lineno=call.lineno) for p in ps]
        hb = [copy.deepcopy(st) for st in h.body]
        for st in hb:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id in bound:
                    n.id = pre + n.id
        return out, hb

    def go(b):
        out = []
        for st in b:
            if isinstance(st, ast.For) and all(isinstance(x, ast.Pass) for x in st.body) and not st.orelse and isinstance(st.iter, ast.Call) and \
                    isinstance(st.iter.func, ast.Name) and st.iter.func.id == 'range' and all(isinstance(x, ast.Constant) for x in st.iter.args):
                continue                     # a loop without effect
            for f in ('body', 'orelse'):
                x = getattr(st, f, None)
                if isinstance(x, list):
                    setattr(st, f, go(x))
            r = None
            if isinstance(st, ast.Return):
                r = body_of(st.value, True)
                if r:
                    out += r[0] + go(r[1])
                    continue
            elif isinstance(st, ast.Assign) or isinstance(st, ast.Expr):
                r = body_of(st.value, False)
                if r:
                    hb = r[1]
                    ret = hb.pop() if isinstance(hb[-1], ast.Return) else None
                    v = ret.value if ret is not None and ret.value is not None else ast.Constant(None)
                    out += r[0] + go(hb)
                    if isinstance(st, ast.Assign):
                        out.append(ast.Assign(st.targets, v, lineno=st.lineno))
                    continue
            out.append(st)
        return out
    fn.body = go(fn.body)
    ast.fix_missing_locations(fn)
    from .normal import normalise
    return normalise(ast.parse(ast.unparse(fn))).body[0]


class Verifier:
    """spec: dict(args=…, pre=[z3], loops={ordinal: fn(view)->dict(inv=[(name, z3)], var=term)},
    post=fn(view, ret)->[(name, z3)])"""

    def __init__(self, W, module, func, timeout=12000, modular=()):
        self.W, self.timeout = W, timeout
        path = os.path.join(REPO, *module.split('.')) + '.py'
        tree = ast.parse(open(path).read())
        self.tree = tree
        fn = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == func]
        if len(fn) != 1:
            raise Unsupported('function %s not found' % func)
        self.fn = expand(fn[0], tree, modular)
        from .load import ENTERED
        ENTERED['%s.%s' % (module, func)] = 1
        self.names = {}
        for n in tree.body:
            if isinstance(n, ast.ImportFrom):
                for al in n.names:
                    self.names[al.asname or al.name] = (n.module or '') + '.' + al.name
            elif isinstance(n, ast.Import):
                for al in n.names:
                    self.names[al.asname or al.name] = al.name
        self.k = 0
        self.facts = []        # global ground facts / axioms about contract functions
        self.draws = []
        self.sums = {}         # id(tag) -> prefix function
        self.loopno = {}
        self.counters = []
        self.rolls = []
        self.turns = {}
        self.ord = 0
        self.results = {}
        for n in ast.walk(self.fn):
            pass
        self._number(self.fn)

    def _number(self, fn):
        i = 0
        for n in ast.walk(fn):
            if isinstance(n, (ast.While, ast.For)):
                n._ord = None
        def walk(n):
            nonlocal i
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.While, ast.For)):
                    c._ord = i
                    i += 1
                walk(c)
        walk(fn)

    def fresh(self, name, sort):
        self.k += 1
        return z3.Const('%s!%d' % (name, self.k), sort)

    def fresh_fn(self, name, kind):
        self.k += 1
        return z3.Function('%s!%d' % (name, self.k), I, I if kind == 'i' else R)

    def array(self, name, n, kind='r'):
        g = self.fresh_fn(name, kind)
        a = Arr(n, lambda k, g=g: g(k), kind)
        a.tag = g
        return a

    # ---- obligations
    def prove(self, s, name, goal):
        key = name
        if goal is True or (is_z(goal) and z3.is_true(goal)):
            ok = True
        elif goal is False:
            goal = z3.BoolVal(False)
            ok = None
        else:
            ok = None
        if ok is None:
            t0 = time.time()
            fs = list(self.facts) + list(s.pc) + [z3.Not(goal)]
            r = solve(fs, 4000 if self.trial else self.timeout, 'default')
            if r == 'unknown' and not self.trial:
                r = solve(fs, self.timeout, 'AUFNIRA')
            STATS['solver_s'] += time.time() - t0
            STATS['solver_calls'] += 1
            ok = r == 'unsat'
            if not ok and self.trial:
                raise Quit(name)
            if not ok:
                self.W._emit(name, 'unproved', 'z3: %s' % r)
                self.timeout = min(self.timeout, 4000)
                s.pc.append(goal)
                return False
        if not self.trial:
            self.W._emit(name, 'proved')
        if is_z(goal):
            s.pc.append(goal)
        return True

    def prove_inv(self, s, name, g):
        if not isinstance(g, Cells):
            return self.prove(s, name, g)
        ix = [self.fresh('c', I) for _ in g.dims]
        t = s.fork()
        t.pc += g.inside(ix) + (g.hints(*ix) if g.hints else [])
        if g.hints and not self.trial:
            self.smoke(t)
        ok = self.prove(t, name, g.cell(*ix))
        if ok:
            s.pc.append(g.assume())
        return ok

    trial = 0

    def smoke(self, s):
        """vacuity guard: the assumptions in force must not be contradictory"""
        if self.trial:
            return
        if solve(list(self.facts) + list(s.pc), 1500, 'default') == 'unsat':
            raise Unsupported('contradictory assumptions (vacuous proof)')

    # ---- expressions (self.s is the current state)
    def ev(self, e, s):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, s)

    def e_Constant(self, e, s):
        return e.value

    def e_Name(self, e, s):
        if e.id in s.env:
            return s.env[e.id]
        if e.id in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[e.id]
        raise Unsupported('name ' + e.id)

    def e_Tuple(self, e, s):
        return tuple(self.ev(x, s) for x in e.elts)

    def e_List(self, e, s):
        return tuple(self.ev(x, s) for x in e.elts)

    def e_UnaryOp(self, e, s):
        v = self.ev(e.operand, s)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return Arr(v.n, lambda k: -v.f(k), v.kind)
            return -v
        if isinstance(e.op, ast.Not):
            return z3.Not(self.truth(v)) if is_z(v) else not v
        raise Unsupported('unary')

    def truth(self, v):
        if is_z(v):
            if v.sort() == z3.BoolSort():
                return v
            return v != 0
        return z3.BoolVal(bool(v))

    def e_BinOp(self, e, s):
        a, b = self.ev(e.left, s), self.ev(e.right, s)
        return self.binop(e.op, a, b, s)

    def binop2(self, op, a, b, s):
        A = a if isinstance(a, Arr2) else b
        n, m = A.n, A.m
        for x in (a, b):
            if isinstance(x, Arr2):
                if x is not A:
                    self.prove(s, 'operands have equal shape', z3.And(x.n == n, x.m == m))
            elif not num(x):
                raise Unsupported('array operand')
        g = lambda x: (x.f if isinstance(x, Arr2) else (lambda i, j: x))
        fa, fb = g(a), g(b)
        if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Pow)) or isinstance(op, ast.Div) and isinstance(b, Arr2):
            raise Unsupported('array operator')
        isint = all((x.kind == 'i') if isinstance(x, Arr2) else is_int(x) for x in (a, b)) and not isinstance(op, ast.Div)
        return Arr2(n, m, lambda i, j: arith(op, fa(i, j), fb(i, j)), 'i' if isint else 'r')

    def binop(self, op, a, b, s):
        if isinstance(op, ast.Mult) and isinstance(a, tuple) and len(a) == 1 and is_z(b) and b.sort() == I:
            return Rep(a[0], b)
        if isinstance(a, Arr2) or isinstance(b, Arr2):
            return self.binop2(op, a, b, s)
        if isinstance(op, ast.Pow) and isinstance(a, Arr) and isinstance(b, (int, float)) and b == int(b) and 0 <= b <= 12:
            f = a.f
            return Arr(a.n, lambda k: arith(op, f(k), b), a.kind if isinstance(b, int) else 'r')
        if isinstance(op, ast.Pow) and (isinstance(a, Arr) or isinstance(b, Arr)):
            raise Unsupported('power of an array')
        if isinstance(a, Arr) or isinstance(b, Arr):
            n = a.n if isinstance(a, Arr) else b.n
            if isinstance(a, Arr) and isinstance(b, Arr):
                self.prove(s, 'operands have equal length', a.n == b.n)
            for x in (a, b):
                if not isinstance(x, Arr) and not num(x):
                    raise Unsupported('array operand')
            g = lambda x: (x.f if isinstance(x, Arr) else (lambda k: x))
            fa, fb = g(a), g(b)
            if isinstance(op, ast.Div):
                # a separate function: q * b = a (where b != 0)
                q = self.fresh_fn('quot', 'r')
                k = z3.Int('k!')
                self.facts.append(z3.ForAll([k], z3.Implies(toreal(fb(k)) != 0, q(k) * toreal(fb(k)) == toreal(fa(k))), patterns=[q(k)]))
                out = Arr(n, lambda k: q(k), 'r', tag=q)
                out.quot = (fa, fb)
                return out
            kind = 'i' if all((x.kind == 'i') if isinstance(x, Arr) else (isinstance(x, int) or is_z(x) and x.sort() == I) for x in (a, b)) else 'r'
            return Arr(n, lambda k: arith(op, fa(k), fb(k)), kind)
        if not num(a) or not num(b):
            raise Unsupported('operands')
        if isinstance(op, ast.Pow) and isinstance(b, float) and b in (.5, -.5):
            self.prove(s, 'root of a positive number', toreal(a) > 0)
        if is_z(b) and b.sort() == I:
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and is_int(a):
                self.prove(s, 'divisor is positive', b > 0)
            elif isinstance(op, ast.Pow):
                self.prove(s, 'exponent is not negative', b >= 0)
        return arith(op, a, b)

    def e_Compare(self, e, s):
        L = self.ev(e.left, s)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, s)
            if isinstance(op, (ast.Is, ast.IsNot)) and (L is None or r is None):
                out.append((L is r) == isinstance(op, ast.Is))
            elif isinstance(L, str) and isinstance(r, str) and isinstance(op, (ast.Eq, ast.NotEq)):
                out.append((L == r) == isinstance(op, ast.Eq))
            elif isinstance(op, (ast.In, ast.NotIn)) and is_int(L) and isinstance(r, tuple) and all(isinstance(x, int) for x in r):
                v = z3.Or([toi(L) == x for x in r])
                out.append(v if isinstance(op, ast.In) else z3.Not(v))
            elif num(L) and num(r):
                f = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
                     ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}.get(type(op))
                if f is None:
                    raise Unsupported('comparison')
                a, b = L, r
                if is_z(a) or is_z(b):
                    if not all((x.sort() == I) if is_z(x) else isinstance(x, int) for x in (a, b)):
                        a, b = toreal(a), toreal(b)
                out.append(f(a, b))
            else:
                raise Unsupported('comparison')
            L = r
        if len(out) == 1:
            return out[0]
        return z3.And([self.truth(o) for o in out])

    def e_BoolOp(self, e, s):
        vals = []
        s2 = s
        g = []
        for x in e.values:
            # later operands are evaluated only when the earlier ones do not decide
            t = s.fork() if g else s
            t.pc = list(s.pc) + g
            v = self.truth(self.ev(x, t))
            vals.append(v)
            g.append(z3.Not(v) if isinstance(e.op, ast.Or) else v)
        return z3.Or(vals) if isinstance(e.op, ast.Or) else z3.And(vals)

    def index(self, a, k, s, what, n=None):
        n = a.n if n is None else n
        if isinstance(k, int) and k < 0:
            k = n + k
        if not num(k) or isinstance(k, float) or (is_z(k) and k.sort() != I):
            raise Unsupported('index')
        k = k if is_z(k) else z3.IntVal(k)
        self.prove(s, what + ' within bounds', z3.And(k >= 0, k < n))
        return k

    def bounds(self, sl, a, s, n=None):
        n = a.n if n is None else n
        lo = self.ev(sl.lower, s) if sl.lower else 0
        hi = self.ev(sl.upper, s) if sl.upper else n
        if sl.step is not None:
            raise Unsupported('stride')
        def fix(v):
            if isinstance(v, int) and v < 0:
                return n + v
            if is_z(v) and v.sort() == I and not z3.is_const(v) and '(- ' in v.sexpr():
                return z3.If(v < 0, n + v, v)
            return v
        lo, hi = fix(lo), fix(hi)
        self.prove(s, 'slice within bounds', z3.And(toi(lo) >= 0, toi(lo) <= toi(hi), toi(hi) <= n))
        return toi(lo), toi(hi)

    def place(self, a, sl, s, what):
        """the two index parts of a subscript of a 2-D array: ('at', k) or ('range', lo, hi)"""
        parts = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if len(parts) > 2 or any(isinstance(x, ast.Constant) and x.value is None for x in parts):
            raise Unsupported('subscript')
        parts += [ast.Slice()] * (2 - len(parts))
        out = []
        for x, n in zip(parts, (a.n, a.m)):
            if isinstance(x, ast.Slice):
                out.append(('range',) + self.bounds(x, a, s, n))
            else:
                out.append(('at', self.index(a, self.ev(x, s), s, what, n)))
        return out

    def sub2(self, a, sl, s):
        p, q = self.place(a, sl, s, 'read')
        f = a.f
        if p[0] == 'at' and q[0] == 'at':
            return f(p[1], q[1])
        if p[0] == 'at':
            v = Arr(q[2] - q[1], lambda k: f(p[1], k + q[1]), a.kind)
        elif q[0] == 'at':
            v = Arr(p[2] - p[1], lambda k: f(k + p[1], q[1]), a.kind)
        else:
            v = Arr2(p[2] - p[1], q[2] - q[1], lambda i, j: f(i + p[1], j + q[1]), a.kind)
        v.view_of = a.view_of or a.uid
        return v

    def store2(self, a, sl, v, s):
        p, q = self.place(a, sl, s, 'write')
        old = a.f
        rin = lambda i: i == p[1] if p[0] == 'at' else z3.And(i >= p[1], i < p[2])
        cin = lambda j: j == q[1] if q[0] == 'at' else z3.And(j >= q[1], j < q[2])
        if isinstance(v, Arr2):
            if p[0] == 'at' or q[0] == 'at':
                raise Unsupported('store of a matrix in a row')
            self.prove(s, 'block assignment shapes agree', z3.And(v.n == p[2] - p[1], v.m == q[2] - q[1]))
            g = v.f
            val = lambda i, j: g(i - p[1], j - q[1])
        elif isinstance(v, Arr):
            g = v.f
            if p[0] == 'at' and q[0] == 'range':
                self.prove(s, 'slice assignment lengths agree', v.n == q[2] - q[1])
                val = lambda i, j: g(j - q[1])
            elif q[0] == 'at' and p[0] == 'range':
                self.prove(s, 'slice assignment lengths agree', v.n == p[2] - p[1])
                val = lambda i, j: g(i - p[1])
            else:
                raise Unsupported('broadcast store')
        elif num(v):
            val = lambda i, j: v
        else:
            raise Unsupported('store value')
        if a.kind == 'i' and not (is_int(v) or getattr(v, 'kind', '') == 'i'):
            raise Unsupported('truncating store')
        a.f = lambda i, j: z3.If(z3.And(rin(i), cin(j)), conv(val(i, j), a.kind), old(i, j))

    def written(self, a, s):
        """an array is about to change in place: no array that shares its data may be in use"""
        if a.view_of is not None:
            raise Unsupported('store through a view')
        for v in s.env.values():
            for x in (v if isinstance(v, tuple) else v.attrs.values() if isinstance(v, Obj) else (v,)):
                if getattr(x, 'view_of', None) == a.uid:
                    raise Unsupported('store while a view is in use')

    def item(self, a, k):
        self.step_fact(a, k)
        return a.f(k)

    def e_Subscript(self, e, s):
        a = self.ev(e.value, s)
        if isinstance(a, tuple):
            return a[self.ev(e.slice, s)]
        if isinstance(a, Arr2):
            return self.sub2(a, e.slice, s)
        if not isinstance(a, Arr):
            raise Unsupported('subscript')
        if isinstance(e.slice, ast.Slice):
            lo, hi = self.bounds(e.slice, a, s)
            f = a.f
            v = Arr(hi - lo, lambda k: f(k + lo), a.kind)
            v.view_of = a.view_of or a.uid
            return v
        k = self.index(a, self.ev(e.slice, s), s, 'read')
        self.step_fact(a, k)
        return a.f(k)

    def e_IfExp(self, e, s):
        c = self.truth(self.ev(e.test, s))
        r = []
        for g, x in ((c, e.body), (z3.Not(c), e.orelse)):
            t = s.fork()
            t.pc = list(s.pc) + [g]
            r.append(self.ev(x, t))
        a, b = r
        if a is b:
            return a
        if not num(a) or not num(b):
            raise Unsupported('conditional expression')
        if not (is_int(a) and is_int(b)):
            a, b = toreal(a), toreal(b)
        else:
            a, b = toi(a), toi(b)
        return z3.If(c, a, b)

    def e_Attribute(self, e, s):
        if self.dotted(e) in ('math.pi', 'numpy.pi', 'np.pi'):
            return PI
        o = self.ev(e.value, s)
        if isinstance(o, Obj):
            if e.attr not in o.attrs:
                raise Unsupported('attribute ' + e.attr)
            return o.attrs[e.attr]
        if isinstance(o, Arr) and e.attr in ('shape', 'size', 'ndim'):
            return (o.n,) if e.attr == 'shape' else 1 if e.attr == 'ndim' else o.n
        if isinstance(o, Arr2):
            f = o.f
            if e.attr == 'shape':
                return (o.n, o.m)
            if e.attr == 'ndim':
                return 2
            if e.attr == 'size':
                return o.n * o.m
            if e.attr == 'T':
                v = Arr2(o.m, o.n, lambda i, j: f(j, i), o.kind)
                v.view_of = o.view_of or o.uid
                return v
        raise Unsupported('attribute ' + e.attr)

    def dotted(self, f):
        if isinstance(f, ast.Name):
            return self.names.get(f.id, f.id)
        if isinstance(f, ast.Attribute):
            b = self.dotted(f.value)
            return b and b + '.' + f.attr
        return None

    def e_Call(self, e, s):
        if any(isinstance(x, ast.Starred) for x in e.args):
            if len(e.args) != 1 or e.keywords or self.dotted(e.func) != 'scipy.linalg.block_diag':
                raise Unsupported('star call')
            return self.block_diag(self.ev(e.args[0].value, s), s)
        f = e.func
        name = None
        if isinstance(f, ast.Name) and f.id not in s.env:
            name = self.names.get(f.id, f.id)
        elif isinstance(f, ast.Attribute):
            base = f.value
            root = base
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in s.env or not isinstance(root, ast.Name):
                o = self.ev(base, s)
                args = [self.argv(x, s) for x in e.args]
                return self.method(o, f.attr, args, s)
            name = self.dotted(f)
        if name is None:
            raise Unsupported('call')
        args = [self.argv(x, s) for x in e.args]
        kw = {k.arg: self.argv(k.value, s) for k in e.keywords}
        name = name.replace('np.', 'numpy.') if name.startswith('np.') else name
        own = self.spec.get('contracts', {}).get(name.split('.')[-1])
        if own is not None:
            return own(self, s, args, kw)
        m = getattr(self, 'f_' + name.replace('.', '_'), None)
        if m is None:
            local = [n for n in self.tree.body if isinstance(n, ast.FunctionDef) and n.name == name]
            if local and not kw:
                return self.inline(local[0], args, s)
            raise Unsupported('call of ' + name)
        return m(s, *args, **kw)

    def inline(self, fn, args, s):
        """a helper defined in the same file: executed in place"""
        if any(isinstance(n, (ast.While, ast.For)) for n in ast.walk(fn)):
            raise Unsupported('call of a helper with loops')
        t = s.fork()
        t.env = dict(zip([a.arg for a in fn.args.args], args))
        if len(fn.args.args) != len(args):
            raise Unsupported('helper arguments')
        outs = self.block(fn.body, [t])
        if len(outs) != 1:
            raise Unsupported('branching helper')
        s.pc[:] = outs[0].pc
        r = outs[0].ret
        return r[0] if r else None

    def argv(self, x, s):
        if isinstance(x, ast.Name) and x.id in ('int', 'float') and x.id not in s.env:
            return {'int': int, 'float': float}[x.id]
        return self.ev(x, s)

    def method(self, o, name, args, s):
        if isinstance(o, Arr):
            if name == 'astype' and args and args[0] in (int, 'int', 'i'):
                def f(k):
                    v = o.f(k)
                    if v.sort() == I:
                        return v
                    if z3.is_to_real(v):
                        return v.arg(0)
                    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                return Arr(o.n, f, 'i')
            if name == 'astype' and args and args[0] in (float, 'float'):
                return Arr(o.n, lambda k: toreal(o.f(k)), 'r')
            if name == 'copy':
                return o.clone()
            if name == 'sum':
                return self.f_sum(s, o)
            if name == 'cumsum':
                return self.f_numpy_cumsum(s, o)
        if isinstance(o, Arr2):
            if name == 'copy' and not args:
                return o.clone()
            if name == 'fill' and len(args) == 1 and num(args[0]):
                self.written(o, s)
                c, kind = args[0], o.kind
                o.f = lambda i, j: conv(c, kind)
                return None
            if name in ('ravel', 'flatten') and not args:
                return self.f_numpy_ravel(s, o)
            if name == 'diagonal' and not args:
                return self.f_numpy_diag(s, o)
        raise Unsupported('method ' + name)

    # ---- 2-D arrays
    def f_numpy_ravel(self, s, o):
        f, m = o.f, o.m
        v = Arr(o.n * o.m, lambda k: f(DIV(k, m), MOD(k, m)), o.kind)
        v.view_of = o.view_of or o.uid
        return v

    def f_numpy_diag(self, s, o):
        f = o.f
        if isinstance(o, Arr2):
            v = Arr(self.f_min(s, o.n, o.m), lambda k: f(k, k), o.kind)
            v.view_of = o.view_of or o.uid
            return v
        if not isinstance(o, Arr):
            raise Unsupported('diag')
        kind = o.kind
        return Arr2(o.n, o.n, lambda i, j: z3.If(i == j, conv(f(i), kind), conv(0, kind)), kind)

    f_numpy_diagflat = f_numpy_diagonal = f_numpy_diag

    def f_numpy_fill_diagonal(self, s, a, v):
        if not isinstance(a, Arr2) or not (num(v) or isinstance(v, Arr)):
            raise Unsupported('fill_diagonal')
        self.written(a, s)
        self.prove(s, 'fill_diagonal: square', a.n == a.m)
        old, kind = a.f, a.kind
        if isinstance(v, Arr):
            self.prove(s, 'fill_diagonal: lengths agree', v.n == a.n)
        if kind == 'i' and not (is_int(v) or getattr(v, 'kind', '') == 'i'):
            raise Unsupported('truncating store')
        g = v.f if isinstance(v, Arr) else (lambda k: v)
        a.f = lambda i, j: z3.If(i == j, conv(g(i), kind), old(i, j))

    def f_numpy_eye(self, s, n, *r):
        if r:
            raise Unsupported('eye')
        n = toi(n)
        return Arr2(n, n, lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), 'r')

    f_numpy_identity = f_numpy_eye

    def block_diag(self, v, s):
        if not isinstance(v, Rep):
            raise Unsupported('block_diag')
        a = v.value if isinstance(v.value, Arr2) else self.f_numpy_array(s, v.value)
        f, p, q = a.f, a.n, a.m
        return Arr2(v.n * p, v.n * q, lambda i, j: z3.If(DIV(i, p) == DIV(j, q), toreal(f(MOD(i, p), MOD(j, q))), z3.RealVal(0)), 'r')

    def elementwise(self, g, a):
        if isinstance(a, Arr):
            f = a.f
            return Arr(a.n, lambda k: g(toreal(f(k))), 'r')
        if not num(a):
            raise Unsupported('argument of an elementwise function')
        return g(toreal(a))

    def f_numpy_exp(self, s, a):
        return self.elementwise(lambda x: EXP(x), a)

    def f_math_exp(self, s, a):
        if isinstance(a, Arr):
            raise Unsupported('math.exp of an array')
        return self.f_numpy_exp(s, a)

    def f_math_sqrt(self, s, a):
        if not num(a):
            raise Unsupported('sqrt')
        self.prove(s, 'root of a positive number', toreal(a) > 0)
        return ROOT(toreal(a))

    f_numpy_sqrt = f_math_sqrt

    def f_numpy_shape(self, s, a):
        return () if num(a) else (a.n,) if isinstance(a, Arr) else (a.n, a.m)

    def f_numpy_ndim(self, s, a):
        return 0 if num(a) else 1 if isinstance(a, Arr) else 2

    def f_numpy_kron(self, s, a, b):
        if not isinstance(a, Arr2) or not isinstance(b, Arr2):
            raise Unsupported('kron')
        f, g, p, q = a.f, b.f, b.n, b.m
        return Arr2(a.n * p, a.m * q, lambda i, j: toreal(f(DIV(i, p), DIV(j, q))) * toreal(g(MOD(i, p), MOD(j, q))), 'r')

    def f_numpy_zeros_like(self, s, a, dtype=None):
        if isinstance(a, Arr2) and a.kind == 'r' and dtype in (None, float):
            return Arr2(a.n, a.m, lambda i, j: z3.RealVal(0), 'r')
        if isinstance(a, Arr) and a.kind == 'r' and dtype in (None, float):
            return Arr(a.n, lambda k: z3.RealVal(0), 'r')
        raise Unsupported('zeros_like')

    def f_math_factorial(self, s, k):
        k = toi(k)
        self.prove(s, 'factorial: argument not negative', k >= 0)
        self.facts.append(z3.Implies(k >= 0, FACT(k + 1) == (k + 1) * FACT(k)))
        return FACT(k)

    # ---- contracts of builtins / numpy
    def f_len(self, s, a):
        if isinstance(a, tuple):
            return len(a)
        if not isinstance(a, (Arr, Arr2)):
            raise Unsupported('len')
        return a.n

    def f_range(self, s, *a):
        if len(a) == 2 and all(is_int(x) for x in a):
            lo, hi = toi(a[0]), toi(a[1])
            return Arr(hi - lo, lambda k: k + lo, 'i')
        if len(a) != 1:
            raise Unsupported('range')
        return Arr(toi(a[0]), lambda k: k, 'i', tag='range')

    f_numpy_arange = f_range

    def f_enumerate(self, s, a):
        if not isinstance(a, (Arr, Items)):
            raise Unsupported('enumerate')
        return Items(a.n, [Arr(a.n, lambda k: k, 'i', tag='range'), a])

    def f_zip(self, s, *a):
        if not a or not all(isinstance(x, (Arr, Items)) for x in a):
            raise Unsupported('zip')
        n = a[0].n
        for x in a[1:]:
            if not (x.n is n or x.n.eq(n)):
                raise Unsupported('zip lengths')
        return Items(n, list(a))

    def f_min(self, s, *a):
        if len(a) != 2 or not all(num(x) for x in a):
            raise Unsupported('min')
        a, b = (toi(x) for x in a) if all(is_int(x) for x in a) else (toreal(x) for x in a)
        return z3.If(a <= b, a, b)

    def f_max(self, s, *a):
        if len(a) != 2 or not all(num(x) for x in a):
            raise Unsupported('max')
        a, b = (toi(x) for x in a) if all(is_int(x) for x in a) else (toreal(x) for x in a)
        return z3.If(a >= b, a, b)

    def f_numpy_minimum(self, s, a, b):
        if isinstance(a, Arr) and num(b):
            kind = 'i' if a.kind == 'i' and is_int(b) else 'r'
            return Arr(a.n, lambda k: self.f_min(s, a.f(k), b), kind)
        if isinstance(b, Arr) and num(a):
            return self.f_numpy_minimum(s, b, a)
        return self.f_min(s, a, b)

    def f_numpy_clip(self, s, a, lo, hi):
        if not isinstance(a, Arr) or not num(lo) or not num(hi):
            raise Unsupported('clip')
        kind = 'i' if a.kind == 'i' and is_int(lo) and is_int(hi) else 'r'
        return Arr(a.n, lambda k: self.f_min(s, self.f_max(s, a.f(k), lo), hi), kind)

    def f_numpy_repeat(self, s, a, c):
        """a[t] repeated c[t] times: position m holds a[t(m)] with C(t) <= m < C(t + 1), C the prefix sums of c"""
        if not isinstance(a, Arr) or not isinstance(c, Arr) or c.kind != 'i':
            raise Unsupported('repeat')
        C = self.prefix(c)
        self.hook(s, 'repeat', c)
        k = self.fresh('k', I)
        q = s.fork()
        q.pc += [k >= 0, k < a.n]
        self.prove(s, 'repeat: one count per element', a.n == c.n)
        self.prove(q, 'repeat: counts are not negative', c.f(k) >= 0)
        t = self.fresh_fn('rep', 'i')
        m = z3.FreshInt('q')
        self.facts.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < C(a.n)), z3.And(
            t(m) >= 0, t(m) < a.n, C(t(m)) <= m, m < C(t(m) + 1))), patterns=[t(m)]))
        g = a.f
        return Arr(C(a.n), lambda k: g(t(k)), a.kind)

    def f_numpy_zeros(self, s, n, dtype=float):
        kind = 'i' if dtype in ('i', 'int', int) else 'r'
        if isinstance(n, tuple) and len(n) == 2:
            return Arr2(toi(n[0]), toi(n[1]), lambda i, j: conv(0, kind), kind)
        if isinstance(n, tuple):
            n, = n
        return Arr(toi(n), (lambda k: z3.IntVal(0)) if kind == 'i' else (lambda k: z3.RealVal(0)), kind)

    f_numpy_empty = None

    def f_numpy_asarray(self, s, a, dtype=None):
        if dtype not in (None, float) or not isinstance(a, (Arr, Arr2)) or dtype is float and a.kind == 'i':
            raise Unsupported('asarray')
        return a

    def f_numpy_array(self, s, a, *r):
        if not r and isinstance(a, tuple) and a and all(isinstance(x, tuple) and len(x) == len(a[0]) and all(num(y) for y in x) for x in a):
            n, m = len(a), len(a[0])
            rows = [[toreal(y) for y in x] for x in a]
            if all(is_int(y) for x in a for y in x):
                raise Unsupported('integer matrix')

            def at(i, j):
                out = rows[n - 1][m - 1]
                for p in range(n):
                    for q in range(m):
                        if (p, q) != (n - 1, m - 1):
                            out = z3.If(z3.And(i == p, j == q), rows[p][q], out)
                return out
            return Arr2(z3.IntVal(n), z3.IntVal(m), at, 'r')
        if r or not isinstance(a, (Arr, Arr2)):
            raise Unsupported('array')
        return a.clone()

    def f_numpy_floor(self, s, a):
        if isinstance(a, Arr):
            return Arr(a.n, lambda k: z3.ToReal(z3.ToInt(toreal(a.f(k)))), 'r')
        return z3.ToReal(z3.ToInt(toreal(a)))

    def f_int(self, s, a):
        if is_z(a) and a.sort() == I or isinstance(a, int):
            return a
        v = toreal(a)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def f_float(self, s, a):
        return toreal(a)

    def prefix(self, a):
        """P with P(0) = 0, P(k+1) = P(k) + a[k]: the prefix sums of the array value"""
        k = z3.Int('k?')
        key = z3.simplify(toreal(a.f(k))).sexpr() if a.kind == 'r' else z3.simplify(a.f(k)).sexpr()
        if key not in self.sums:
            P = z3.Function('prefix!%d' % len(self.sums), I, I if a.kind == 'i' else R)
            self.sums[key] = (P, a.clone())
            self.facts.append(P(0) == 0)
        return self.sums[key][0]

    def alias_prefix(self, a, P):
        """a has, elementwise, the values whose prefix sums are P (the caller shows why)"""
        k = z3.Int('k?')
        self.sums[z3.simplify(a.f(k)).sexpr()] = (P, a)

    def step(self, a, k):
        P = self.prefix(a)
        return z3.Implies(z3.And(k >= 0, k < a.n), P(k + 1) == P(k) + a.f(k))

    def step_fact(self, a, k):
        src = getattr(a, 'cum', None)
        if src is not None:
            self.facts.append(self.step(src, k))

    def f_sum(self, s, a):
        if not isinstance(a, Arr):
            raise Unsupported('sum')
        P = self.prefix(a)
        self.hook(s, 'sum', a)
        return P(a.n)

    f_numpy_sum = f_sum

    def f_numpy_cumsum(self, s, a):
        if not isinstance(a, Arr):
            raise Unsupported('cumsum')
        a = a.clone()
        P = self.prefix(a)
        self.hook(s, 'cumsum', a)
        c = Arr(a.n, lambda k: P(k + 1), a.kind)
        c.cum = a
        return c

    def f_numpy_random_random(self, s, n=None):
        k = z3.Int('k!')
        if n is None:
            u = self.fresh('u', R)
            self.facts.append(z3.And(u >= 0, u < 1))
            self.draws.append(u)
            return u
        g = self.fresh_fn('u', 'r')
        self.facts.append(z3.ForAll([k], z3.And(g(k) >= 0, g(k) < 1), patterns=[g(k)]))
        a = Arr(toi(n), lambda k: g(k), 'r', tag=g)
        self.draws.append(a)
        return a

    f_numpy_random_rand = f_numpy_random_random
    f_numpy_random_random_sample = f_numpy_random_random

    def f_numpy_searchsorted(self, s, c, v, side='left'):
        if isinstance(c, Arr) and num(v):
            return self.f_numpy_searchsorted(s, c, Arr(z3.IntVal(1), lambda k: toreal(v), 'r'), side).f(z3.IntVal(0))
        if not isinstance(c, Arr) or not isinstance(v, Arr) or side not in ('left', 'right'):
            raise Unsupported('searchsorted')
        k = self.fresh('k', I)
        t = s.fork()
        t.pc.append(z3.And(k > 0, k < c.n, v.n > 0))
        if getattr(c, 'cum', None) is not None:
            self.facts.append(self.step(c.cum, k))
        self.prove(t, 'searchsorted: array is sorted', toreal(c.f(k - 1)) <= toreal(c.f(k)))
        g = self.fresh_fn('ss', 'i')
        m = z3.Int('m!')
        cf, vf, n = c.f, v.f, c.n
        le, lt = (lambda a, b: a <= b), (lambda a, b: a < b)
        below, above = (lt, le) if side == 'left' else (le, lt)
        self.facts.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < v.n), z3.And(
            g(m) >= 0, g(m) <= n, z3.Implies(g(m) < n, above(vf(m), cf(g(m)))), z3.Implies(g(m) > 0, below(cf(g(m) - 1), vf(m))))), patterns=[g(m)]))
        return Arr(v.n, lambda k: g(k), 'i', tag=g)

    # ---- shifts and convolutions (trusted contracts of numpy / scipy.ndimage)
    def reduced(self, e, n):
        """e mod n for 0 < n, as an integer r with r = e + n t"""
        r, t = self.fresh('r', I), self.fresh('t', I)
        self.facts.append(z3.And(r == e + n * t, r >= 0, r < n))
        self.turns[r.get_id()] = t
        return r

    def residues(self, name, s, a, b, T, n):
        """proves a - b = n T and 0 <= a < 2n, 0 <= b < n, hence a = b or a = b + n; returns that fact"""
        ok = self.prove(s.fork(), name + ': same residue', a - b == n * T)
        ok = self.prove(s.fork(), name + ': ranges', z3.And(a >= 0, a < 2 * n, b >= 0, b < n)) and ok
        N, X = z3.Ints('n! x!')
        ok = self.lemma('multiples of n strictly between -n and 2n', [N >= 1, N * X > -N, N * X < 2 * N], z3.Or(X == 0, X == 1)) and ok
        return z3.Or(a == b, a == b + n) if ok else z3.BoolVal(True)

    def f_numpy_roll(self, s, a, shift):
        if not isinstance(a, Arr) or not is_int(shift):
            raise Unsupported('roll')
        f, n = a.f, a.n
        r = self.reduced(-toi(shift), n)
        out = Arr(n, lambda i: f(wrapi(i, r, n)), a.kind)
        self.rolls.append(r)
        return out

    def f_shift(self, s, a, shift, cval=0.0, **k):
        if not isinstance(a, Arr) or not is_int(shift) or set(k) - {'mode', 'order'} or k.get('mode', 'constant') != 'constant':
            raise Unsupported('shift')
        f, n, o = a.f, a.n, toi(shift)
        return Arr(n, lambda i: z3.If(z3.And(i - o >= 0, i - o < n), toreal(f(i - o)), toreal(cval)), 'r')

    f_scipy_ndimage_shift = f_scipy_ndimage_interpolation_shift = f_shift

    def f_convolve(self, s, a, w, mode='reflect', cval=0.0, **k):
        """out[i] = sum_j w[j] in[i - j + c], c = len(w) // 2, indices modulo n or cval outside"""
        if not isinstance(a, Arr) or not isinstance(w, Arr) or mode not in ('wrap', 'constant') or k:
            raise Unsupported('convolve')
        f, n, wf, K = a.f, a.n, w.f, w.n
        c = K / 2
        self.k += 1
        S = z3.Function('conv!%d' % self.k, I, I, R)
        i, j = z3.FreshInt('q'), z3.FreshInt('q')
        if mode == 'wrap':
            sh = z3.Function('shift!%d' % self.k, I, I)      # (c - j) mod n
            self.facts.append(z3.ForAll([j], z3.And(sh(j) >= 0, sh(j) < n), patterns=[sh(j)]))
            t = z3.Function('turns!%d' % self.k, I, I)
            self.facts.append(z3.ForAll([j], sh(j) == c - j + n * t(j), patterns=[sh(j)]))
            sh.turns = t
            at = lambda x, y: toreal(f(wrapi(x, sh(y), n)))
        else:
            at = lambda x, y: z3.If(z3.And(x - y + c >= 0, x - y + c < n), toreal(f(x - y + c)), toreal(cval))
            sh = None
        self.facts.append(z3.ForAll([i], S(i, 0) == 0, patterns=[S(i, 0)]))
        self.convs = getattr(self, 'convs', [])
        self.convs.append((S, a, w, mode, cval, lambda x, y: z3.Implies(z3.And(y >= 0, y < K), S(x, y + 1) == S(x, y) + toreal(wf(y)) * at(x, y)), sh))
        return Arr(n, lambda x: S(x, K), 'r')

    f_scipy_ndimage_convolve = f_scipy_ndimage_filters_convolve = f_convolve

    # ---- statements
    def block(self, body, states):
        for st in body:
            out = []
            for s in states:
                if s.ret is not None or s.jump is not None:
                    out.append(s)
                else:
                    m = getattr(self, 's_' + type(st).__name__, None)
                    if m is None:
                        raise Unsupported('statement ' + type(st).__name__)
                    out += m(st, s)
            states = out
        return states

    def s_Expr(self, st, s):
        if isinstance(st.value, ast.Constant):
            return [s]
        self.ev(st.value, s)
        return [s]

    def s_ImportFrom(self, st, s):
        for al in st.names:
            self.names[al.asname or al.name] = (st.module or '') + '.' + al.name
        return [s]

    def s_Delete(self, st, s):
        for t in st.targets:
            if not isinstance(t, ast.Name) or t.id not in s.env:
                raise Unsupported('del')
            del s.env[t.id]
        return [s]

    def s_Pass(self, st, s):
        return [s]

    def s_Break(self, st, s):
        s.jump = 'break'
        return [s]

    def s_Continue(self, st, s):
        s.jump = 'continue'
        return [s]

    def ends(self, body, b):
        """the states in which a loop body ends normally, and those that leave the loop"""
        go, leave = [], []
        for e in self.block(body, [b]):
            if e.ret is not None or e.jump == 'break':
                leave.append(e)
            else:
                go.append(e)
            e.jump = None
        return go, leave

    def s_Assert(self, st, s):
        self.prove(s, 'assert', self.truth(self.ev(st.test, s)))
        return [s]

    def s_Return(self, st, s):
        s.ret = (self.ev(st.value, s) if st.value is not None else None,)
        return [s]

    def s_Raise(self, st, s):
        self.prove(s, 'no exception', z3.BoolVal(False))
        return []

    def store(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for a, b in zip(t.elts, v):
                self.store(a, b, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, s)
            if not isinstance(o, Obj):
                raise Unsupported('attribute store')
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            a = self.ev(t.value, s)
            if isinstance(a, Arr2):
                self.written(a, s)
                self.store2(a, t.slice, v, s)
                return
            if not isinstance(a, Arr):
                raise Unsupported('store')
            self.written(a, s)
            old = a.f
            if isinstance(t.slice, ast.Slice):
                lo, hi = self.bounds(t.slice, a, s)
                if isinstance(v, Arr):
                    self.prove(s, 'slice assignment lengths agree', v.n == hi - lo)
                    g = v.f
                    if a.kind == 'i' and v.kind == 'r':
                        raise Unsupported('truncating store')
                    a.f = lambda k: z3.If(z3.And(k >= lo, k < hi), conv(g(k - lo), a.kind), old(k))
                else:
                    a.f = lambda k: z3.If(z3.And(k >= lo, k < hi), conv(v, a.kind), old(k))
            else:
                k0 = self.index(a, self.ev(t.slice, s), s, 'write')
                if not num(v):
                    raise Unsupported('store value')
                if a.kind == 'i' and not (isinstance(v, int) or is_z(v) and v.sort() == I):
                    raise Unsupported('truncating store')
                a.f = lambda k: z3.If(k == k0, conv(v, a.kind), old(k))
            a.tag = None
        else:
            raise Unsupported('assignment target')

    def s_Assign(self, st, s):
        v = self.ev(st.value, s)
        for t in st.targets:
            self.store(t, v, s)
        return [s]

    def s_AugAssign(self, st, s):
        import copy
        t = copy.deepcopy(st.target)
        for n in ast.walk(t):
            if hasattr(n, 'ctx'):
                n.ctx = ast.Load()
        cur = self.ev(t, s)
        v = self.binop(st.op, cur, self.ev(st.value, s), s)
        if isinstance(cur, Arr2) and isinstance(st.target, ast.Name):
            if not isinstance(v, Arr2) or cur.kind == 'i' and v.kind == 'r':
                raise Unsupported('in-place change of type')
            self.written(cur, s)
            cur.f = v.f
            return [s]
        if isinstance(cur, Arr) and isinstance(st.target, ast.Name):
            self.written(cur, s)
            if cur.kind == 'i' and v.kind == 'r':
                raise Unsupported('in-place change of type')
            cur.f, cur.tag = v.f, v.tag
            if hasattr(v, 'quot'):
                cur.quot = v.quot
            return [s]
        self.store(st.target, v, s)
        return [s]

    def s_If(self, st, s):
        c = self.truth(self.ev(st.test, s))
        a, b = s.fork(), s
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        out = []
        for t, body in ((a, st.body), (b, st.orelse)):
            if self.feasible(t):
                out += self.block(body, [t])
        return out

    def feasible(self, s):
        return solve(list(s.pc), 500, 'default') != 'unsat'

    def changed(self, body):
        names, arrs = set(), set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    arrs.add(path_of(n.value))
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    raise Unsupported('attribute rebound in a loop')
                if isinstance(n, ast.Call):
                    # in-place methods
                    d = self.dotted(n.func) or ''
                    r = n.func.value if isinstance(n.func, ast.Attribute) and n.func.attr in ('fill', 'sort', 'put', 'itemset') else \
                        n.args[0] if d.endswith('fill_diagonal') and n.args else None
                    if r is not None:
                        arrs.add(path_of(r))
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Try)):
                    raise Unsupported('jump out of a loop')
        return names, arrs

    def havoc(self, s, names, arrs):
        ids = {}
        for a in arrs:
            v = getp(s.env, a)
            if isinstance(v, (Arr, Arr2)):
                self.written(v, s)
                ids[id(v)] = v
        for v in ids.values():
            if isinstance(v, Arr2):
                self.k += 1
                g = z3.Function('a!%d' % self.k, I, I, I if v.kind == 'i' else R)
                v.f = lambda i, j, g=g: g(i, j)
                continue
            g = self.fresh_fn('a', v.kind)
            v.f = lambda k, g=g: g(k)
            v.tag = g
            if hasattr(v, 'cum'):
                del v.cum
        for n in names:
            v = s.env.get(n)
            if n not in s.env:
                continue
            if isinstance(v, (Arr, Arr2)):
                if n in arrs:
                    continue
                raise Unsupported('array rebound in a loop')
            elif isinstance(v, int) or is_z(v) and v.sort() == I:
                s.env[n] = self.fresh(n, I)
            elif isinstance(v, float) or is_z(v) and v.sort() == R:
                s.env[n] = self.fresh(n, R)
            else:
                raise Unsupported('loop variable of unknown type')

    def view(self, s, counter=None, loop=None):
        v = View(self, s)
        v.i = counter
        v.changed = loop
        v.loopvars = set(self.counters)
        return v

    def s_While(self, st, s):
        if st.orelse:
            raise Unsupported('while/else')
        sp = self.spec['loops'].get(st._ord)
        if sp is None:
            raise Unsupported('loop without invariant')
        nm = 'loop %d' % st._ord
        names, arrs = self.changed(st.body)
        for n, g in sp(self.view(s, None, (names, arrs)))['inv']:
            self.prove(s, '%s: %s holds on entry' % (nm, n), g)
        self.havoc(s, names, arrs)
        r = sp(self.view(s, None, (names, arrs)))
        s.pc += [g for _, g in r['inv']]
        c = self.truth(self.ev(st.test, s))
        b = s.fork()
        b.pc.append(c)
        var0 = r['var']
        self.prove(b, nm + ': variant bounded', var0 >= 0)
        self.smoke(b)
        go, leave = self.ends(st.body, b)
        for e in go:
            r2 = sp(self.view(e, None, (names, arrs)))
            for n, g in r2['inv']:
                self.prove(e, '%s: %s preserved' % (nm, n), g)
            self.prove(e, nm + ': variant decreases', r2['var'] < var0)
        s.pc.append(z3.Not(c))
        return ([s] if not z3.is_false(z3.simplify(z3.Not(c))) else []) + leave

    def s_For(self, st, s):
        if st.orelse:
            raise Unsupported('for/else')
        it = self.ev(st.iter, s)
        if not isinstance(it, (Arr, Items)):
            raise Unsupported('for over ' + ast.dump(st.iter)[:60])
        sp = self.spec['loops'].get(st._ord)
        if sp is None and 'auto' not in self.spec:
            raise Unsupported('loop without invariant')
        nm = 'loop %d' % st._ord
        names, arrs = self.changed(st.body)
        bound = {x.id for t in [st] + [y for y in ast.walk(st) if isinstance(y, ast.For)] for x in ast.walk(t.target) if isinstance(x, ast.Name)}
        names -= bound
        self.counters += sorted(bound)
        if sp is None:
            sp = self.find_invariant(st, s, it, names, arrs)
        self.for_loop(st, s, it, sp, nm, names, arrs, bound)
        return self.for_out

    def find_invariant(self, st, s, it, names, arrs):
        """the first of the contract's candidate invariants whose obligations all go through"""
        saved = list(self.counters)
        t0 = time.time()
        for sp in self.spec['auto'](self, s, names, arrs):
            if time.time() - t0 > 60:
                break
            self.trial += 1
            t = s.fork()
            try:
                bound = {x.id for y in [st] + [y for y in ast.walk(st) if isinstance(y, ast.For)] for x in ast.walk(y.target) if isinstance(x, ast.Name)}
                self.for_loop(st, t, it, sp, 'trial', names, arrs, bound)
                return sp
            except Quit:
                pass
            finally:
                self.trial -= 1
                self.counters[:] = saved
        if self.trial:
            raise Quit('no invariant')
        raise Unsupported('loop without invariant')

    def for_loop(self, st, s, it, sp, nm, names, arrs, bound):
        mine = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
        n = z3.If(it.n >= 0, it.n, z3.IntVal(0))
        z = z3.IntVal(0)
        for q, g in sp(self.view(s, z, (names, arrs)))['inv']:
            self.prove_inv(s, '%s: %s holds on entry' % (nm, q), g)
        self.havoc(s, names, arrs)
        c = self.fresh('i', I)
        s.pc.append(z3.And(c >= 0, c <= n))
        for x in mine:
            s.env.pop(x, None)
        r = sp(self.view(s, c, (names, arrs)))
        s.pc += [g.assume() if isinstance(g, Cells) else g for _, g in r['inv']]
        b = s.fork()
        b.pc.append(c < n)
        for h in r.get('use', []):
            b.pc.append(h)
        self.store(st.target, it.at(self, c) if isinstance(it, Items) else self.item(it, c), b)
        self.smoke(b)
        go, leave = self.ends(st.body, b)
        for e in go:
            r2 = sp(self.view(e, c + 1, (names, arrs)))
            for q, g in r2['inv']:
                self.prove_inv(e, '%s: %s preserved' % (nm, q), g)
        s.pc.append(c == n)
        self.for_out = [s] + leave

    def run(self, args, spec):
        self.spec = spec
        s = St()
        a = self.fn.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported('signature')
        names = [x.arg for x in a.args]
        if len(names) < len(args):
            raise Unsupported('signature')
        s.env = dict(zip(names, args))
        s.args = list(args)
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in s.env:
                s.env[x] = self.ev(d, s)
        s.pc = list(spec.get('pre', []))
        for t in self.block(self.fn.body, [s]):
            r = t.ret[0] if t.ret is not None else None
            for n, g in spec['post'](self.view(t), r):
                self.prove_inv(t, n, g)
            self.smoke(t)

    def hook(self, s, event, a):
        f = self.spec.get('on')
        if f is not None:
            f(self.view(s), event, a)

    def induct(self, name, s, n, f, use=None):
        """natural induction on 0..n, as two obligations; then available as a fact"""
        ok = self.prove(s.fork(), name + ' (base)', f(z3.IntVal(0)))
        k = self.fresh('k', I)
        t = s.fork()
        t.pc += [k >= 0, k < n, f(k)] + (use(k) if use else [])
        ok = self.prove(t, name + ' (step)', f(k + 1)) and ok
        m = z3.FreshInt('q')
        if ok:
            s.pc.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m <= n), f(m))))
        return ok

    def monotone(self, name, s, P, n, use):
        """P(k) <= P(k+1) on 0 <= k < n (proved), hence P(a) <= P(b) for a <= b"""
        k = self.fresh('k', I)
        t = s.fork()
        t.pc += [k >= 0, k < n] + use(k)
        if self.prove(t, name, P(k) <= P(k + 1)):
            a, b = z3.FreshInt('a'), z3.FreshInt('b')
            s.pc.append(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a <= b, b <= n), P(a) <= P(b)), patterns=[z3.MultiPattern(P(a), P(b))]))
            return True
        return False

    def chain(self, name, hyps, goals):
        """a lemma in steps: each goal may use those before it"""
        s = St()
        s.pc = list(hyps)
        for g in goals:
            if not self.prove(s, name, g):
                raise Unsupported('lemma not proved: ' + name)

    def lemma(self, name, hyps, goal):
        s = St()
        s.pc = list(hyps)
        return self.prove(s, name, goal)


class Blocks:
    """lemmas on quotients and remainders: each is an obligation over fresh variables, then
    instantiated where the invariants need it"""

    def __init__(self, V):
        V.facts += division_facts()
        r, b, q, p, a, m = z3.Ints('r! b! q! p! a! m!')
        div = [b >= 1, r == b * a + m, m >= 0, m < b]
        V.chain('products of non-negative factors', [a >= 0, b >= 0], [a * b >= 0])
        V.chain('the block that holds an index is unique', div + [q * b <= r, r < q * b + b], [z3.And(b * (a - q) > -b, b * (a - q) < b), a == q])
        V.chain('an index lies in its block', div, [z3.And(a * b <= r, r < a * b + b)])
        V.chain('an index below p blocks lies in a block below p', div + [r >= 0, r < p * b], [
            z3.Implies(a >= p, b * (a - p) >= 0), a < p, z3.Implies(a <= -1, b * (-1 - a) >= 0), a >= 0])
        V.chain('a block below p ends within p blocks', [b >= 1, q >= 0, q < p], [z3.And(q * b >= 0, b * (p - q - 1) >= 0), q * b + b <= p * b])

    def unique(self, r, b, q):
        """the quotient of r by b is q exactly if q is the block that holds r"""
        return [z3.Implies(b >= 1, (DIV(r, b) == q) == z3.And(q * b <= r, r < q * b + b)), z3.Implies(DIV(r, b) == q, r == b * q + MOD(r, b)),
                z3.Implies(b >= 1, z3.And(r == b * DIV(r, b) + MOD(r, b), MOD(r, b) >= 0, MOD(r, b) < b))]

    def below(self, r, b, p):
        return [z3.Implies(z3.And(b >= 1, r >= 0, r < p * b), z3.And(DIV(r, b) >= 0, DIV(r, b) < p))]

    def ends(self, q, b, p):
        return [z3.Implies(z3.And(b >= 1, q >= 0, q < p), z3.And(q * b >= 0, q * b + b <= p * b))]


def fill_loops(V, s, names, arrs, target, regions, hints=None, scalars=(), use=None):
    """candidate invariants of a loop that fills arrays: each cell of a changed array is either done
    (holds the target value) or as it was when the loop began; `regions(i, env)` lists what "done"
    may mean after i turns.  target: {rank: function of the indices}; scalars: what a running real may hold"""
    before = {}
    for a in arrs:
        v = getp(s.env, a)
        if isinstance(v, (Arr, Arr2)) and target.get(a, 0) is not None:      # None: nothing is claimed about it
            before[a] = v.f
    reals = [x for x in names if x in s.env and num(s.env[x]) and not is_int(s.env[x])]
    ranks = {2 if isinstance(getp(s.env, a), Arr2) else 1 for a in before}
    if not ranks <= set(target):
        raise Unsupported('array of unforeseen rank')

    def cand(pick, held):
        def sp(view):
            i = view.i
            out = []
            for a, f0 in before.items():
                v = view[a]
                rk = 2 if isinstance(v, Arr2) else 1
                done = pick[rk](i, view.env)
                f, T = v.f, target[rk]
                dims = (v.n, v.m) if rk == 2 else (v.n,)
                cell = lambda *ix, f=f, f0=f0, done=done, T=T: z3.And(z3.Implies(done(*ix), f(*ix) == T(*ix)), z3.Implies(z3.Not(done(*ix)), f(*ix) == f0(*ix)))
                out.append(('cells of the array', Cells(dims, cell, f, hints and (lambda *ix, v=view: hints(v, *ix)))))
            for x in reals:
                out.append(('running value', toreal(view[x]) == held(i)))
            return dict(inv=out, use=use(i, view.env) if use else [])
        return sp
    res = []
    for p2 in (regions.get(2, []) if 2 in ranks else [None]):
        for p1 in (regions.get(1, []) if 1 in ranks else [None]):
            for h in (scalars if reals else [None]):
                res.append(cand({2: p2, 1: p1}, h))
    return res


class View:
    def __init__(self, V, s):
        self.V, self.s, self.env = V, s, s.env

    def arg(self, i):
        """the i-th argument object (after execution)"""
        return self.s.args[i]

    def __getitem__(self, k):
        if '.' in k and getp(self.env, k) is not None:
            return getp(self.env, k)
        if k not in self.env:
            raise Unsupported('invariant mentions unknown variable ' + k)
        return self.env[k]


def toi(v):
    if isinstance(v, bool) or isinstance(v, float):
        raise Unsupported('integer expected')
    if is_z(v):
        if v.sort() != I:
            raise Unsupported('integer expected')
        return v
    return z3.IntVal(v)


def conv(v, kind):
    if kind == 'r':
        return toreal(v)
    return toi(v)


def path_of(e):
    """a variable, or an attribute of one, as a dotted name"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return e.value.id + '.' + e.attr
    raise Unsupported('nested store')


def getp(env, p):
    v, _, a = p.partition('.')
    o = env.get(v)
    return o.attrs.get(a) if a and isinstance(o, Obj) else None if a else o


def wrapi(i, r, n):
    """(i + r) mod n for 0 <= i, r < n"""
    return z3.If(i + r < n, i + r, i + r - n)


def forall(lo, hi, f, pat=None):
    k = z3.FreshInt('q')
    b = f(k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), b), **({'patterns': [pat(k)]} if pat else {}))


def pat(t):
    """a quantifier pattern, where the term is an application of an uninterpreted function"""
    ok = z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0
    return dict(patterns=[t]) if ok else {}


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool) or is_z(v) and v.sort() == I
