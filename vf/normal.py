"""Mechanical, meaning-preserving normalisation of loops before symbolic execution:

  * `while v < hi: …; v += 1` with an unchanging bound and no `continue`/`break`
    becomes `for v in range(v, hi): …` (counting down likewise), provided v is not
    read after the loop;
  * `… sum([e for t in s]) …` in a simple statement becomes an accumulator loop before it
    (also np.sum(…, axis=0));
  * a generator expression that is the only argument of a call that consumes it
    (sum, list, tuple, max, min, any, all, array, np.sum …) becomes a list."""
import ast
import copy

EAT = {'sum', 'list', 'tuple', 'max', 'min', 'array', 'fsum', 'vstack', 'hstack', 'stack'}


def _names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def _own(body, types):
    """nodes of these types that belong to this loop (not to a nested loop or function)"""
    for s in body:
        if isinstance(s, types):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and _own(s.orelse, types):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _own(getattr(s, f, []) or [], types):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if _own(h.body, types):
                return True
    return False


def _stable(e, body):
    """the bound cannot change in the loop"""
    used = _names(e, ast.Load)
    attrs = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'int', 'min', 'max')
                                            or isinstance(n.func, ast.Attribute) and n.func.attr == 'num_sigmas'):
            return False
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await, ast.Yield)):
            return False
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in used:
                return False
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in attrs:
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('append', 'extend', 'pop', 'insert', 'remove', 'clear') and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                v = n.func.value
                if (v.id if isinstance(v, ast.Name) else v.attr) in used | attrs:
                    return False
    return True


def counted(st):
    """(variable, iterator, body) or None"""
    t = st.test
    if st.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(st.body) < 2:
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
    if type(op) not in flip:
        return None
    last = st.body[-1]
    v = d = None
    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.value, ast.Constant) and last.value.value == 1:
        v, d = last.target.id, 1 if isinstance(last.op, ast.Add) else -1 if isinstance(last.op, ast.Sub) else None
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and isinstance(last.value, ast.BinOp) \
            and isinstance(last.value.left, ast.Name) and last.value.left.id == last.targets[0].id \
            and isinstance(last.value.right, ast.Constant) and last.value.right.value == 1:
        v, d = last.targets[0].id, 1 if isinstance(last.value.op, ast.Add) else -1 if isinstance(last.value.op, ast.Sub) else None
    if d is None:
        return None
    if isinstance(r, ast.Name) and r.id == v and not (isinstance(l, ast.Name) and l.id == v):
        l, r, op = r, l, flip[type(op)]()
    if not (isinstance(l, ast.Name) and l.id == v):
        return None
    body = st.body[:-1]
    if v in set().union(*[_names(s, ast.Store) for s in body]) or v in _names(r, ast.Load):
        return None
    if _own(body, (ast.Continue, ast.Break)) or not _stable(r, body):
        return None
    V = ast.Name(v, ast.Load())
    one = ast.Constant(1)
    if d == 1 and isinstance(op, ast.Lt):
        args = [V, r]
    elif d == 1 and isinstance(op, ast.LtE):
        args = [V, ast.BinOp(r, ast.Add(), one)]
    elif d == -1 and isinstance(op, ast.Gt):
        args = [V, r, ast.UnaryOp(ast.USub(), one)]
    elif d == -1 and isinstance(op, ast.GtE):
        args = [V, ast.BinOp(r, ast.Sub(), one), ast.UnaryOp(ast.USub(), one)]
    else:
        return None
    return v, ast.Call(ast.Name('range', ast.Load()), args, []), body


def _sum_of(n):
    """the comprehension and start value of sum([..]) / np.sum([..], axis=0)"""
    if not isinstance(n, ast.Call) or not n.args or not isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)):
        return None
    f, lc = n.func, n.args[0]
    if len(lc.generators) != 1 or lc.generators[0].ifs or lc.generators[0].is_async:
        return None
    if isinstance(f, ast.Name) and f.id == 'sum' and not n.keywords and len(n.args) <= 2:
        return lc, (n.args[1] if len(n.args) == 2 else ast.Constant(0))
    if isinstance(f, ast.Attribute) and f.attr == 'sum' and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') and len(n.args) == 1 \
            and len(n.keywords) == 1 and n.keywords[0].arg == 'axis' and isinstance(n.keywords[0].value, ast.Constant) and n.keywords[0].value.value == 0:
        return lc, ast.Constant(0)
    return None


class Normal(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.k = 0

    def hoist(self, body):
        out = []
        for st in body:
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr, ast.AnnAssign)) and getattr(st, 'value', None) is not None:
                pre = []

                def go(n):
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.BoolOp)):
                        return n
                    for f, v in ast.iter_fields(n):
                        if isinstance(v, ast.expr):
                            setattr(n, f, go(v))
                        elif isinstance(v, list):
                            v[:] = [go(x) if isinstance(x, ast.expr) else (setattr(x, 'value', go(x.value)) or x) if isinstance(x, ast.keyword) else x for x in v]
                    r = _sum_of(n)
                    if r is None:
                        return n
                    lc, start = r
                    g = lc.generators[0]
                    self.k += 1
                    acc = '_vf_sum%d_' % self.k
                    tg, elt = copy.deepcopy(g.target), copy.deepcopy(lc.elt)
                    bound = _names(tg, ast.Store)
                    for x in list(ast.walk(tg)) + list(ast.walk(elt)):
                        if isinstance(x, ast.Name) and x.id in bound:
                            x.id = '_vf_%d_%s' % (self.k, x.id)
                    new = [ast.Assign([ast.Name(acc, ast.Store())], start),
                           ast.For(tg, g.iter, [ast.Assign([ast.Name(acc, ast.Store())],
                                                           ast.BinOp(ast.Name(acc, ast.Load()), ast.Add(), elt))], [])]
                    for x in new:
                        ast.copy_location(x, st)
                        ast.fix_missing_locations(x)
                    pre.extend(self.hoist(new))
                    return ast.copy_location(ast.Name(acc, ast.Load()), n)
                if self.fn:
                    st.value = go(st.value)
                out += pre
            out.append(st)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                b[:] = self.hoist(b)
        return node

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        if not self.fn:
            return node
        c = counted(node)
        if c is None:
            return node
        v, it, body = c
        inside = {id(n) for n in ast.walk(node)}
        # other reads of v: only before the loop (or in loops that set it first)
        end = getattr(node, 'end_lineno', None) or node.lineno
        pos = max([getattr(n, 'end_lineno', 0) or 0 for n in ast.walk(node)] + [end])
        outer = [n for n in ast.walk(self.fn[-1]) if isinstance(n, (ast.For, ast.While)) and id(n) not in inside
                 and any(m is node for m in ast.walk(n))]
        # a read of v elsewhere is harmless when v is certainly set again before it: by a `for`
        # around the read, or by an assignment in the block that holds the loop, after the loop
        fors = [n for n in ast.walk(self.fn[-1]) if isinstance(n, ast.For) and id(n) not in inside and v in _names(n.target, ast.Store)]
        block = [b for n in ast.walk(self.fn[-1]) for b in (getattr(n, 'body', None), getattr(n, 'orelse', None))
                 if isinstance(b, list) and node in b][0]
        resets = [x.lineno for x in block[block.index(node) + 1:] if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in x.targets)]
        for n in ast.walk(self.fn[-1]):
            if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                late = n.lineno > pos or any(m is n for o in outer for m in ast.walk(o))
                if not late or any(m is n for f in fors for st in f.body for m in ast.walk(st)):
                    continue
                if not (n.lineno > pos and any(r < n.lineno for r in resets)):
                    return node
        new = ast.For(ast.Name(v, ast.Store()), it, body, [])
        ast.copy_location(new, node)
        ast.fix_missing_locations(new)
        return new

    def visit_Call(self, node):
        self.generic_visit(node)
        if len(node.args) == 1 and isinstance(node.args[0], ast.GeneratorExp) and not node.keywords:
            f = node.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else None
            if nm in EAT:
                g = node.args[0]
                node.args[0] = ast.copy_location(ast.ListComp(g.elt, g.generators), g)
        return node


def normalise(tree):
    # line numbers of rewritten or inserted code may be missing or zero: renumber through text
    t = ast.parse(ast.unparse(tree)) if any(getattr(n, 'lineno', 1) == 0 for n in ast.walk(tree)) else tree
    t = Normal().visit(t)
    ast.fix_missing_locations(t)
    return t
