"""which lines and which optional arguments of /repo the concrete worlds of the contracts reach
usage: python -B tools/cover.py [COUNT]"""
import sys, os, ast, inspect, importlib, glob, dis
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings; warnings.simplefilter('ignore')
import vf.run as R
from vf.harness import REG, load
N = int(sys.argv[1]) if len(sys.argv) > 1 else 40
CONTRACTS = {id(c.fn): c for p in range(1, 28) for c in load('C%02d' % p)}.values()
lines, args, base = {}, {}, R.REPO + '/filterpy/'


def local(fr, ev, a):
    if ev == 'line':
        lines.setdefault(fr.f_code.co_filename, set()).add(fr.f_lineno)
    return local


def tracer(fr, ev, a):
    c = fr.f_code
    if not c.co_filename.startswith(base):
        return None
    k = (c.co_filename, c.co_firstlineno, c.co_name)
    d = args.setdefault(k, {})
    for i in range(c.co_argcount):
        n = c.co_varnames[i]
        v = fr.f_locals.get(n)
        d.setdefault(n, set()).add(repr(v) if v is None or isinstance(v, (bool, int, float, str)) else 'x')
    return local


seen = set()
for ct in CONTRACTS:
    if not ct.con:
        continue
    sys.settrace(tracer)
    try:
        for s in range(N):
            R.con_once(ct, s + 1)
    finally:
        sys.settrace(None)
for f in sorted(glob.glob(base + '**/*.py', recursive=True)):
    if '/tests/' in f or f.endswith('__init__.py'):
        continue
    src = open(f).read()
    T = ast.parse(src)
    for fn in ast.walk(T):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ('__repr__',):
            continue
        got = lines.get(f, set())
        body = [s for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        miss = sorted({s.lineno for s in body if s.lineno not in got and not isinstance(s, (ast.FunctionDef, ast.Try))})
        r = f[len(base):]
        if len(miss) == len({s.lineno for s in body if not isinstance(s, (ast.FunctionDef, ast.Try))}):
            print(r, fn.name, 'NEVER RUN'); continue
        if miss:
            print(r, fn.name, 'lines', miss)
        first = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
        d = args.get((f, first, fn.name)) or args.get((f, fn.lineno, fn.name)) or {}
        ds = fn.args.defaults
        for a, v in zip(fn.args.args[len(fn.args.args) - len(ds):], ds):
            q = d.get(a.arg, set())
            dv = ast.unparse(v)
            if len(q) < 2:
                print(r, fn.name, 'arg', a.arg, 'default', dv, 'seen', sorted(q)[:3])
