"""debug: explore one contract, print undecided paths with full traceback.  dbg.py C05 name"""
import sys, os, traceback
sys.path.insert(0, '/verif'); 
sys.argv_ = sys.argv
import importlib
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from vf import ctx as C
from vf.harness import load
from vf.world import SymWorld
cs = [c for c in load(sys.argv[1]) if c.name == sys.argv[2]]
if os.environ.get('DBGPRE'): exec(open(os.environ['DBGPRE']).read())
lim = int(sys.argv[3]) if len(sys.argv) > 3 else 3
n = 0
def run(c):
    W = SymWorld(c)
    try:
        cs[0].fn(W); return W, None
    except C.Done: return W, None
    except C.Infeasible: return W, 'inf'
    except BaseException as e:
        return W, traceback.format_exc()
for r in C.explore(run, max_paths=2000, deadline=None):
    if r is None: break
    c, (W, why) = r
    if why == 'inf': continue
    bad = [o for o in W.obls if o.status != 'proved']
    if why or bad:
        n += 1
        print('PATH', [str(x[0])[:400] + '=' + str(x[1]) for x in c.trace])
        print({k: v for k, v in c.choices.items() if k != '__dims__'})
        if why: print(why[-1800:])
        for o in bad:
            if o.detail and isinstance(o.detail, tuple) and o.detail[0] == 'diff':
                from vf.mat import show, Mat
                for w in o.detail[1:]: print('     ', (show(w) if isinstance(w, Mat) else repr(w))[:600])
            print('  OPEN', o.name, o.status, str(o.detail)[:900])
        if n >= lim: break
