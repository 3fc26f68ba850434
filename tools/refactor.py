"""Behaviour-preserving rewrites of filterpy, to test that the checks stay quiet.

refactor.py SRC_REPO DST_REPO KIND[,KIND] SEED [module ...]

kinds: rename temp invert tail enum while comp imports swap helper alias
Every rewrite keeps what the functions compute; the repository's tests are the cross-check."""
import ast
import copy
import os
import random
import shutil
import sys

MODS = ['kalman/kalman_filter.py', 'kalman/EKF.py', 'kalman/UKF.py', 'kalman/IMM.py', 'kalman/mmae.py',
        'kalman/CubatureKalmanFilter.py', 'kalman/ensemble_kalman_filter.py', 'kalman/fading_memory.py',
        'kalman/fixed_lag_smoother.py', 'kalman/information_filter.py', 'kalman/sigma_points.py',
        'kalman/square_root.py', 'kalman/unscented_transform.py', 'common/discretization.py',
        'common/helpers.py', 'common/kinematic.py', 'discrete_bayes/discrete_bayes.py',
        'gh/gh_filter.py', 'hinfinity/hinfinity_filter.py', 'leastsq/least_squares.py',
        'memory/fading_memory.py', 'monte_carlo/resampling.py', 'stats/stats.py']


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def nested(f):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))
               for s in f.body for n in ast.walk(s))


def rename(f, R, mod):
    if has(f, ast.Global, ast.Nonlocal):
        return
    loc = set()
    for s in f.body:
        loc |= names(s, ast.Store)
    loc -= set(params(f))
    loc = {n for n in loc if R.random() < .8}
    # inner functions binding the same name: leave out
    for s in f.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                a = n.args
                loc -= {x.arg for x in a.args}
                if isinstance(n, ast.FunctionDef):
                    loc -= names(n, ast.Store)
                    loc.discard(n.name)
            if isinstance(n, ast.ExceptHandler) and n.name:
                loc.discard(n.name)
    for s in f.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id.strip('_') + '_val'


def blocks(f):
    for n in ast.walk(f):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def first_call(e):
    """the call of expression e that is evaluated first (args before call)"""
    if isinstance(e, ast.Call):
        for a in [e.func] + list(e.args) + [k.value for k in e.keywords]:
            if isinstance(a, (ast.Starred, ast.Lambda)):
                return None
            r = first_call(a)
            if r is not None:
                return r
        return e
    if isinstance(e, (ast.BoolOp, ast.IfExp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Compare,
                      ast.DictComp, ast.SetComp, ast.Await, ast.Yield, ast.NamedExpr)):
        return None
    for c in ast.iter_child_nodes(e):
        if isinstance(c, ast.expr):
            r = first_call(c)
            if r is not None:
                return r
    return None


def temp(f, R, mod):
    k = [0]
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and R.random() < .7:
                c = first_call(s.value)
                if c is not None and c is not s.value and not any(isinstance(a, ast.GeneratorExp) for a in c.args) \
                        and not (isinstance(c.func, ast.Name) and c.func.id in ('super', 'locals')):
                    nm = '_step%d' % k[0]
                    k[0] += 1
                    new = ast.Assign([ast.Name(nm, ast.Store())], copy.deepcopy(c), lineno=0)

                    class T(ast.NodeTransformer):
                        def visit(self, n):
                            if n is c:
                                return ast.Name(nm, ast.Load())
                            return self.generic_visit(n)
                    s.value = T().visit(s.value)
                    b.insert(i, new)
                    i += 1
            i += 1


def invert(f, R, mod):
    for n in ast.walk(f):
        if isinstance(n, ast.If) and n.orelse and R.random() < .8:
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                pass
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        elif isinstance(n, ast.IfExp) and R.random() < .8:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def tail(f, R, mod):
    """move the rest of a function body into a helper"""
    body = f.body
    st = 1 if (isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)) else 0
    if len(body) - st < 3 or has(f, ast.Yield, ast.Global, ast.Nonlocal, ast.YieldFrom, ast.Import, ast.ImportFrom) or f.name.startswith('__') and f.name != '__init__':
        return
    if any(isinstance(n, ast.Name) and n.id in ('super', 'locals') for n in ast.walk(f)):
        return
    cut = R.randrange(st + 1, len(body))
    head, rest = body[:cut], body[cut:]
    known = list(dict.fromkeys(params(f) + sorted(set().union(*[names(s, ast.Store) for s in head]))))
    # names maybe unbound: only those assigned at top level of head
    sure = set(params(f))
    for s in head:
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            sure |= names(s, ast.Store)
        if isinstance(s, ast.If) and s.orelse:
            sure |= names(ast.Module(s.body, []), ast.Store) & names(ast.Module(s.orelse, []), ast.Store)
    used = set().union(*[names(s) for s in rest])
    need = [n for n in known if n in used]
    if any(n not in sure for n in need):
        return
    inner = {n for s in head for n in ast.walk(s) if isinstance(n, (ast.FunctionDef,))}
    if inner:
        return
    need = [n for n in need if n != 'self']
    ret = any(isinstance(n, ast.Return) for s in rest for n in ast.walk(s))
    nm = '_%s_rest' % f.name.strip('_')
    meth = bool(f.args.args) and f.args.args[0].arg == 'self' and not f.decorator_list
    if f.decorator_list:
        return
    args = ([ast.arg('self')] if meth else []) + [ast.arg(n) for n in need]
    h = ast.FunctionDef(nm, ast.arguments([], args, None, [], [], None, []), rest, [], lineno=0)
    fn = ast.Attribute(ast.Name('self', ast.Load()), nm, ast.Load()) if meth else ast.Name(nm, ast.Load())
    call = ast.Call(fn, [ast.Name(n, ast.Load()) for n in need], [])
    f.body = head + [ast.Return(call) if ret else ast.Expr(call)]
    mod.setdefault('helpers', []).append((f, h, meth))


def enum(f, R, mod):
    for b in blocks(f):
        for i, s in enumerate(list(b)):
            if not isinstance(s, ast.For) or s.orelse or R.random() > .8:
                continue
            it = s.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 \
                    and isinstance(s.target, ast.Tuple) and isinstance(it.args[0], (ast.Name, ast.Attribute)) \
                    and isinstance(s.target.elts[0], ast.Name):
                ix, el = s.target.elts
                src = it.args[0]
                s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [copy.deepcopy(src)], [])], [])
                s.target = ast.Name(ix.id, ast.Store())
                s.body.insert(0, ast.Assign([el], ast.Subscript(copy.deepcopy(src), ast.Name(ix.id, ast.Load()), ast.Load()), lineno=0))
            elif isinstance(it, (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Name):
                s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [it], [])
                s.target = ast.Tuple([ast.Name('_pos', ast.Store()), s.target], ast.Store())
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(s.target, ast.Tuple):
                s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [it], [])
                s.target = ast.Tuple([ast.Name('_pos', ast.Store()), s.target], ast.Store())


def while_(f, R, mod):
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                    and s.iter.func.id == 'range' and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) \
                    and not has(s, ast.Continue) and R.random() < .8 \
                    and s.target.id not in set().union(*[names(x, ast.Store) for x in s.body] or [set()]):
                lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                hi = s.iter.args[-1]
                v = s.target.id
                lim = '_end%d' % i
                b[i:i + 1] = [ast.Assign([ast.Name(lim, ast.Store())], hi, lineno=0),
                              ast.Assign([ast.Name(v, ast.Store())], lo, lineno=0),
                              ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(lim, ast.Load())]),
                                        s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                i += 2
            i += 1


def comp(f, R, mod):
    """list comprehension assigned to a name -> loop with append"""
    k = 0
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                nm = '_items%d' % k
                k += 1
                app = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [s.value.elt], []))
                bd = [ast.If(c, [app], []) for c in g.ifs[:1]] or [app]
                if len(g.ifs) <= 1:
                    b[i:i] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load()), lineno=0),
                              ast.For(g.target, g.iter, bd, [], lineno=0)]
                    s.value = ast.Name(nm, ast.Load())
                    i += 2
            i += 1


PURE = {'dot', 'zeros', 'eye', 'outer', 'array', 'copy', 'deepcopy', 'inv', 'len', 'isscalar', 'ones', 'atleast_1d', 'sqrt'}


def effects(s):
    """(reads, writes) of a simple assignment without calls that could have effects, or None"""
    if not isinstance(s, ast.Assign) or len(s.targets) != 1:
        return None
    t = s.targets[0]
    if not isinstance(t, (ast.Name, ast.Attribute)):
        return None
    for n in ast.walk(s.value):
        if isinstance(n, ast.Call):
            fn = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if fn not in PURE:
                return None
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            return None
    w = ast.unparse(t)
    rd = {ast.unparse(n) for n in ast.walk(s.value) if isinstance(n, (ast.Name, ast.Attribute))}
    if isinstance(t, ast.Attribute):
        if not isinstance(t.value, ast.Name):
            return None
        rd.add(t.value.id)
    return rd, {w}


def swap(f, R, mod):
    for b in blocks(f):
        for i in range(len(b) - 1):
            e1, e2 = effects(b[i]), effects(b[i + 1])
            if e1 and e2 and R.random() < .8 and not (e1[0] & e2[1] or e2[0] & e1[1] or e1[1] & e2[1]):
                b[i], b[i + 1] = b[i + 1], b[i]


def alias(f, R, mod):
    """self.F, self.P … read through a local in straight-line statements that only read them"""
    k = 0
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and R.random() < .7:
                rd = [n for n in ast.walk(s.value) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
                      and n.value.id == 'self' and isinstance(n.ctx, ast.Load)]
                funcs = {id(n.func) for n in ast.walk(s.value) if isinstance(n, ast.Call)}
                rd = [n for n in rd if id(n) not in funcs]
                if rd and not has(s.value, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp) \
                        and effects(s):
                    at = rd[0].attr
                    nm = '_%s%d' % (at.strip('_'), k)
                    k += 1
                    new = ast.Assign([ast.Name(nm, ast.Store())], copy.deepcopy(rd[0]), lineno=0)
                    same = {id(n) for n in rd if n.attr == at}

                    class T(ast.NodeTransformer):
                        def visit(self, n):
                            if id(n) in same:
                                return ast.Name(nm, ast.Load())
                            return self.generic_visit(n)
                    s.value = T().visit(s.value)
                    b.insert(i, new)
                    i += 1
            i += 1


def matmul(f, R, mod):
    """dot(dot(a, b), c) -> a named intermediate through numpy's method form where it is an array expression"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if R.random() < .8 and len(n.args) == 2 and not n.keywords and (
                    isinstance(n.func, ast.Name) and n.func.id == 'dot' or
                    isinstance(n.func, ast.Attribute) and n.func.attr == 'dot' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np'):
                a = n.args[0]
                if isinstance(a, ast.Call) and getattr(a.func, 'attr', getattr(a.func, 'id', '')) == 'dot' or \
                        isinstance(a, ast.Attribute) and a.attr == 'T':
                    return ast.Call(ast.Attribute(a, 'dot', ast.Load()), [n.args[1]], [])
            return n
    T().visit(f)


def augment(f, R, mod):
    """x = x + y for local numbers / i += 1 -> i = i + 1"""
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                b[i] = ast.Assign([ast.Name(s.target.id, ast.Store())],
                                  ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), lineno=0)


def noop(f, R, mod):
    k = 1 if (isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant)) else 0
    f.body[k:k] = ast.parse(R.choice(['_unused = None', 'pass', 'if False:\n    pass', '_n = 0\n_n = _n + 1', 'assert True',
                                      'for _k in range(2):\n    pass', 'del_me = [1, 2]\ndel del_me'])).body


KINDS = dict(rename=rename, temp=temp, invert=invert, tail=tail, enum=enum, comp=comp, swap=swap, alias=alias,
             matmul=matmul, augment=augment, noop=noop)
KINDS['while'] = while_


def main():
    src, dst, kinds, seed = sys.argv[1:5]
    mods = sys.argv[5:] or MODS
    R = random.Random(int(seed))
    if os.path.abspath(dst).startswith('/tmp/'):
        shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    for m in mods:
        p = os.path.join(dst, 'filterpy', m)
        tree = ast.parse(open(p).read())
        fs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
        for k in kinds.split(','):
            for f in list(fs):
                info = {}
                KINDS[k](f, R, info)
                for (ff, h, meth) in info.get('helpers', []):
                    for n in ast.walk(tree):
                        for fld in ('body', 'orelse'):
                            b = getattr(n, fld, None)
                            if isinstance(b, list) and ff in b:
                                b.insert(b.index(ff), h)
                                break
        ast.fix_missing_locations(tree)
        open(p, 'w').write(ast.unparse(tree) + '\n')


main()
