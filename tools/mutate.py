"""Mutation campaign (development aid, not a check).
usage: mutate.py OUT [--n PER_FILE] [--seed S] [--jobs J] [FILE-substring ...]
For every mutant the checks of the file's properties run until one reports a violation."""
import ast, copy, os, random, shutil, subprocess, sys, tempfile, time, json, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'filterpy/kalman/'
MAP = {
    K + 'kalman_filter.py': 'C01 C02 C11 C04 C05 C27 C08 C06 C07 C03',
    K + 'EKF.py': 'C01 C02 C04 C08 C05 C27',
    K + 'UKF.py': 'C13 C04 C08 C05 C07 C06',
    K + 'CubatureKalmanFilter.py': 'C12 C13 C04 C08 C05',
    K + 'fading_memory.py': 'C01 C02 C04 C08 C05 C27 C06 C03',
    K + 'square_root.py': 'C09 C04 C05 C27 C03',
    K + 'information_filter.py': 'C10 C04 C05 C27',
    K + 'ensemble_kalman_filter.py': 'C16 C04 C05 C27',
    'filterpy/hinfinity/hinfinity_filter.py': 'C06 C05 C04',
    K + 'IMM.py': 'C14', K + 'mmae.py': 'C15 C27', K + 'fixed_lag_smoother.py': 'C17',
    K + 'sigma_points.py': 'C12 C13', K + 'unscented_transform.py': 'C13',
    'filterpy/gh/gh_filter.py': 'C18 C06', 'filterpy/leastsq/least_squares.py': 'C19',
    'filterpy/memory/fading_memory.py': 'C20', 'filterpy/common/discretization.py': 'C21 C22',
    'filterpy/common/kinematic.py': 'C21', 'filterpy/common/helpers.py': 'C26 C27 C22',
    'filterpy/monte_carlo/resampling.py': 'C23', 'filterpy/discrete_bayes/discrete_bayes.py': 'C24',
    'filterpy/stats/stats.py': 'C25 C08',
}
SKIP = ('__repr__', 'plot', 'pretty_str', 'pprint', 'repr_string', 'ellipse', 'flatten', 'eigsorted', '_std_tuple', 'rand_student', 'NESS', 'is_inside')


def muts(tree):
    """-> list of (description, function applied to a fresh copy's node)"""
    out = []
    nodes = list(ast.walk(tree))
    inside = {}
    def mark(n, fn):
        for c in ast.iter_child_nodes(n):
            f = c.name if isinstance(c, ast.FunctionDef) else fn
            inside[id(c)] = f
            mark(c, f)
    mark(tree, None)
    for i, n in enumerate(nodes):
        f = inside.get(id(n))
        if f is None or any(s in f for s in SKIP):
            continue
        L = getattr(n, 'lineno', 0)
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if sw:
                out.append((L, f, 'op', i, lambda m, sw=sw: setattr(m, 'op', sw())))
            out.append((L, f, 'left only', i, 'left')); out.append((L, f, 'right only', i, 'right'))
        elif isinstance(n, ast.AugAssign):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if sw:
                out.append((L, f, 'augop', i, lambda m, sw=sw: setattr(m, 'op', sw())))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
            if sw:
                out.append((L, f, 'cmp', i, lambda m, sw=sw: setattr(m, 'ops', [sw()])))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((L, f, 'const+1', i, lambda m: setattr(m, 'value', m.value + 1)))
        elif isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
            out.append((L, f, 'drop .T', i, 'value'))
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if nm == 'copy' and isinstance(n.func, ast.Attribute) and not n.args:
                out.append((L, f, 'drop copy', i, 'func.value'))
            if nm in ('deepcopy',) and n.args:
                out.append((L, f, 'drop deepcopy', i, 'args0'))
            if len(n.args) >= 2 and nm not in ('zeros', 'isinstance'):
                out.append((L, f, 'swap args', i, lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])))
            if n.keywords:
                out.append((L, f, 'drop kw ' + str(n.keywords[-1].arg), i, lambda m: m.keywords.pop()))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and False:
            pass
        if isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            out.append((L, f, 'drop stmt', i, 'pass'))
        if isinstance(n, ast.If):
            out.append((L, f, 'negate if', i, lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))))
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, n):
        return self.n if n is self.t else self.generic_visit(n)


def apply(src, m):
    tree = ast.parse(src)
    node = list(ast.walk(tree))[m[3]]
    a = m[4]
    if callable(a):
        a(node)
    else:
        new = {'left': lambda: node.left, 'right': lambda: node.right, 'value': lambda: node.value, 'func.value': lambda: node.func.value,
               'args0': lambda: node.args[0], 'pass': lambda: ast.Pass()}[a]()
        tree = Repl(node, new).visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def one(job):
    f, m, src = job
    try:
        new = apply(src, m)
        compile(new, f, 'exec')
    except Exception as e:
        return None
    if new == ast.unparse(ast.parse(src)):
        return None
    line = src.split('\n')[m[0] - 1].strip()
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        open(d + '/repo/' + f, 'w').write(new)
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__', 'replays'))
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
        t = time.time()
        res = ''
        for p in MAP[f].split():
            for opt in (['--cononly'], []) if OPT.two else ([],):
                r = subprocess.run([d + '/verif/check', p] + opt, env=env, capture_output=True, text=True)
                if r.returncode not in (0, 1):
                    res += ' %s:rc%d' % (p, r.returncode)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                if v:
                    return dict(file=f, line=m[0], fn=m[1], kind=m[2], src=line, res='caught', by=p, how='noinput' if all('no-failing' in q for q in v) else 'input', t=round(time.time() - t))
                und = r.stdout.strip().splitlines()[-1:]
                if not opt:
                    res += ' | ' + (und[0][:110] if und else '')
        return dict(file=f, line=m[0], fn=m[1], kind=m[2], src=line, res='MISSED', by=res, t=round(time.time() - t))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--n', type=int, default=20); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=3); ap.add_argument('--two', action='store_true'); ap.add_argument('files', nargs='*')
    OPT = ap.parse_args()
    jobs = []
    rnd = random.Random(OPT.seed)
    for f in MAP:
        if OPT.files and not any(s in f for s in OPT.files):
            continue
        src = open('/repo/' + f).read()
        ms = muts(ast.parse(src))
        rnd.shuffle(ms)
        jobs += [(f, m, src) for m in ms[:OPT.n]]
    rnd.shuffle(jobs)
    with ThreadPoolExecutor(OPT.jobs) as ex, open(OPT.out, 'a') as o:
        for r in ex.map(one, jobs):
            if r:
                o.write(json.dumps(r) + '\n'); o.flush()
