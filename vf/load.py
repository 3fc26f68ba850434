"""Loads the filterpy package from /repo's current source for symbolic
execution.  The executed text is the repository's own AST; the only rewrites
(each semantics-preserving over the reals) are

  * every `for` loop / simple list comprehension goes through the verifier's
    loop object (so a loop over a symbolic range can be summarised),
  * numeric float literals become exact rationals, `/` becomes exact division,
  * `name[name]` goes through a helper (an element of a list built by a summarised loop),
  * counted `while` loops become `for … in range`, consumed generator expressions
    become lists (normal.py),
  * bare `except:` handlers first re-raise the verifier's own control exceptions,
  * every function reports that it was entered (coverage for the evidence).

Imports of numpy/scipy/math are bound to the contracts in snp.py."""
import ast
import builtins
import os
import sys
import types
import numpy as np
from .ctx import ctx, Unsupported, Control, Infeasible
from . import sc as S
from .sc import Sc, to_sc, Cond, ONE, ZERO, dim_resolve
from . import arr as A
from . import snp
from .normal import normalise

REPO = os.environ.get('VERIF_REPO', '/repo')
ENTERED = {}
LINES = {}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.stack = []

    def fresh(self):
        self.n += 1
        return '_vf_t%d_' % self.n

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        q = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        call = ast.Expr(ast.Call(ast.Attribute(ast.Name('__vf__', ast.Load()), 'enter', ast.Load()),
                                 [ast.Constant('%s.%s' % (self.mod, q))], []))
        body = node.body
        i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                  and isinstance(body[0].value.value, str)) else 0
        node.body = body[:i] + [call] + body[i:]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vf__', ast.Load()), 'const', ast.Load()),
                                              [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vf__', ast.Load()), 'div', ast.Load()),
                                              [node.left, node.right], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and isinstance(node.slice, ast.Name) and self.stack:
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vf__', ast.Load()), 'item', ast.Load()),
                                              [node.value, node.slice], []), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.body.insert(0, ast.Expr(ast.Call(ast.Attribute(ast.Name('__vf__', ast.Load()), 'recheck', ast.Load()), [], [])))
        return node

    def visit_For(self, node):
        names = sorted(assigned_names(node))
        self.generic_visit(node)
        if self.stack == []:
            return node
        lp, it = self.fresh(), self.fresh()
        L = lambda n: ast.Name(n, ast.Load())
        St = lambda n: ast.Name(n, ast.Store())
        tup = ast.Tuple([ast.Constant(n) for n in names], ast.Load())
        mk = ast.Assign([St(lp)], ast.Call(ast.Attribute(L('__vf__'), 'loop', ast.Load()), [node.iter], []))

        def sync(meth):
            return ast.If(ast.Attribute(L(lp), 'symbolic', ast.Load()),
                          [ast.Assign([ast.Tuple([St(n) for n in names], ast.Store())],
                                      ast.Call(ast.Attribute(L(lp), meth, ast.Load()),
                                               [ast.Call(L('locals'), [], []), tup], []))], [])
        body = [sync('enter'), ast.Assign([node.target], L(it))] + node.body
        new = ast.For(St(it), L(lp), body, node.orelse)
        out = [mk, new, sync('exit')]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].is_async and self.stack:
            g = node.generators[0]
            if not g.ifs:
                if isinstance(g.target, ast.Name):
                    lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
                else:
                    # tuple pattern: the names are bound to the parts of the element
                    t = self.fresh()
                    nm, parts = [], []

                    def walk(p, e):
                        if isinstance(p, ast.Name):
                            nm.append(ast.arg(p.id))
                            parts.append(e)
                            return True
                        return isinstance(p, (ast.Tuple, ast.List)) and all(
                            walk(q, ast.Subscript(e, ast.Constant(k), ast.Load())) for k, q in enumerate(p.elts))
                    if not walk(g.target, ast.Name(t, ast.Load())):
                        return node
                    lam = ast.Lambda(ast.arguments([], [ast.arg(t)], None, [], [], None, []),
                                     ast.Call(ast.Lambda(ast.arguments([], nm, None, [], [], None, []), node.elt), parts, []))
                return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vf__', ast.Load()), 'listcomp', ast.Load()),
                                                  [g.iter, lam], []), node)
        return node


def assigned_names(loop):
    out = set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    tgt(loop.target)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in loop.body:
        walk(s)
    return out


class VF:
    """runtime support referenced from the rewritten code as __vf"""

    @staticmethod
    def enter(q):
        ENTERED[q] = ENTERED.get(q, 0) + 1
        c = ctx()
        if c is not None:
            c.depth_calls = getattr(c, 'depth_calls', 0) + 1
            if c.depth_calls > 20000:
                raise Unsupported('call budget')

    @staticmethod
    def const(s):
        v = float(s)
        if v in (float('inf'), float('-inf')):
            return v
        return Sc.const(v)

    @staticmethod
    def div(a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if b == 0:
                raise ZeroDivisionError('division by zero')
            return Sc.const(a) / Sc.const(b)
        return a / b

    @staticmethod
    def recheck():
        c = ctx()
        if c is not None and c.pending is not None:
            raise c.pending

    @staticmethod
    def item(x, i):
        if type(x) is list:
            x = snp.unseq(x)
        return x[i]

    @staticmethod
    def loop(it):
        from .loops import make_loop
        return make_loop(it)

    @staticmethod
    def listcomp(it, f):
        from .loops import listcomp
        return listcomp(it, f)


# ------------------------------------------------------------------ builtins
class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = to_sc(lo), to_sc(hi), step

    def __len__(self):
        raise Unsupported('len(range)')

    def __iter__(self):
        raise Unsupported('symbolic range iterated outside a verified loop')


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __iter__(self):
        raise Unsupported('symbolic enumerate iterated outside a verified loop')


class SymZip:
    def __init__(self, its):
        self.its = its

    def __iter__(self):
        raise Unsupported('symbolic zip iterated outside a verified loop')


class SymRev:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        raise Unsupported('symbolic reversed iterated outside a verified loop')


def vf_len(x):
    x = snp.unseq(x)
    if isinstance(x, A.SymArr):
        return A.dim_out(x.mat.rows)
    if isinstance(x, A.SymList):
        return A.dim_out(x.n)
    if isinstance(x, A.NoneArr):
        return x.shape[0]
    if hasattr(x, '_vf_len'):
        return A.dim_out(x._vf_len())
    return builtins.len(x)


def vf_range(*a):
    a = [dim_resolve(to_sc(x)) for x in a]
    if all(x.is_const() for x in a):
        return builtins.range(*[x.const_val() for x in a])
    lo, hi, st = (ZERO, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else (a[0], a[1], a[2].__index__())
    n = dim_resolve(hi - lo) if st == 1 else dim_resolve(lo - hi) if st == -1 else None
    if n is None:
        raise Unsupported('strided symbolic range')
    if n.is_const():
        lo_c = lo
        m = max(0, n.const_val())
        return [A.dim_out(lo_c + i * st) for i in builtins.range(m)]
    return SymRange(lo, hi, st)


def is_symit(x):
    from .loops import is_symbolic_iterable
    return is_symbolic_iterable(x)


def vf_enumerate(x, start=0):
    if is_symit(x):
        return SymEnum(x, start)
    return builtins.enumerate(x, start)


def vf_zip(*xs, **k):
    if any(is_symit(x) for x in xs):
        return SymZip(xs)
    return builtins.zip(*xs)


def vf_reversed(x):
    if is_symit(x):
        return SymRev(x)
    if isinstance(x, (A.SymArr, A.StackArr)):
        return iter(list(x)[::-1])
    return builtins.reversed(x)


def vf_sum(x, start=0):
    if isinstance(x, A.SymArr) or hasattr(x, '_vf_sum'):
        r = snp.sum_(x, axis=0)
        return r + start if not (isinstance(start, int) and start == 0) else r
    if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
        t = start
        for e in x:
            t = t + e
        return t
    return builtins.sum(x, start)


def vf_float(x=0.0):
    if isinstance(x, str):
        return float(x)
    if isinstance(x, (A.SymArr, np.ndarray)):
        return snp.msc(x)
    s = to_sc(x)
    if s is None:
        if isinstance(x, float):
            return x
        raise TypeError('float() argument')
    return s


def vf_int(x=0):
    s = to_sc(x)
    if s is None:
        return builtins.int(x)
    s = dim_resolve(s)
    if s.is_const():
        return builtins.int(s.const_val())
    syms = ctx().symtab.syms
    if all(syms[i].integer for i in s.syms()) and not s.den and all(isinstance(c, builtins.int) for c in s.num.values()):
        return s
    raise Unsupported('int() of a symbolic real')


def vf_isinstance(x, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    out = []
    for c in cs:
        if c is vf_float or c is float:
            if isinstance(x, float) or isinstance(x, Sc):
                return True
            continue
        if c is vf_int:
            c = builtins.int
        if c is np.ndarray:
            if isinstance(x, (A.SymArr, A.StackArr, A.NoneArr)):
                return True
        if not isinstance(c, type):
            raise Unsupported('isinstance %r' % (c,))
        out.append(c)
    return builtins.isinstance(x, tuple(out)) if out else False


def vf_abs(x):
    if isinstance(x, A.SymArr):
        return snp.absolute(x)
    return builtins.abs(x)


def vf_list(x=()):
    if is_symit(x):
        raise Unsupported('list() of symbolic sequence')
    return builtins.list(x)


def vf_print(*a, **k):
    return None


class Loader:
    """one fresh instance per explored path (module state is never shared)"""
    _code = {}

    def __init__(self):
        self.mods = {}
        self.proxies = snp.build_modules()
        b = dict(vars(builtins))
        b.update(len=vf_len, range=vf_range, enumerate=vf_enumerate, zip=vf_zip, reversed=vf_reversed, sum=vf_sum,
                 float=vf_float, int=vf_int, isinstance=vf_isinstance, abs=vf_abs, print=vf_print,
                 __import__=self._import)
        self.b = b
        self.vf = VF()

    def _path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._path(name)
        if not os.path.exists(path):
            raise ImportError(name)
        code = self._code.get(name)
        if code is None:
            src = open(path).read()
            tree = ast.parse(src, path)
            tree = Rewriter(name).visit(normalise(tree))
            ast.fix_missing_locations(tree)
            code = compile(tree, path, 'exec')
            self._code[name] = code
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.b
        m.__dict__['__vf__'] = self.vf
        m.__dict__['__name__'] = name
        m.__dict__['__package__'] = name if pkg else name.rsplit('.', 1)[0]
        self.mods[name] = m
        exec(code, m.__dict__)
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            setattr(self.mods[par], ch, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        if name.split('.')[0] == 'filterpy':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.mods[name.split('.')[0]]
        top = name.split('.')[0]
        if top in ('numpy', 'scipy', 'math'):
            if name in self.proxies:
                m = self.proxies[name]
            else:
                real = __import__(name, fromlist=['x'])
                m = snp.ProxyModule(name, {}, real)
                self.proxies[name] = m
            if fromlist:
                return m
            return self.proxies[top]
        if top in ('matplotlib', 'mpl_toolkits'):
            m = snp.ProxyModule(name, {}, None)
            return m
        return builtins.__import__(name, globals, locals, fromlist or (), 0)
