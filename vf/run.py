"""Check runner:  run.py --prop C01 [--tier quick|thorough] [--replay FILE]

exit 0: every obligation discharged (or, where the verifier gave no verdict,
        the bounded concrete stand-in found nothing) and no violation
exit 1: VIOLATION line(s)"""
import argparse
import json
import math
import os
import re
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-nopyc-%d' % os.getpid())
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

import warnings
warnings.simplefilter('ignore')
import multiprocessing as mp
import numpy as np
np.seterr(all='ignore')


def _uninitialised(f):
    """numpy.empty promises nothing about the contents: give it contents nobody relies on"""
    def g(*a, **k):
        r = f(*a, **k)
        if type(r) is np.ndarray and r.dtype.kind in 'fci':
            r.fill(4.37)
        return r
    g.__name__ = f.__name__
    return g


np.empty, np.empty_like = _uninitialised(np.empty), _uninitialised(np.empty_like)

from vf.harness import load, REG
from vf.world import SymWorld, ConWorld, Skip, Fail
from vf.ctx import Control as _Control

CONTRACTS = []
LEMMAS = {'C03': 'lean/Psd.lean', 'C21': 'lean/Psd.lean'}     # lemmas the proof rules rest on, checked by Lean on every run


class _Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


# ------------------------------------------------------------------ concrete
def in_repo(tb):
    root = os.path.join(os.path.realpath(REPO), 'filterpy')
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


class NoEnd(BaseException):
    pass


CPU_S = 60         # one concrete run takes milliseconds


def _no_end(*_):
    raise NoEnd()


def con_once(ct, seed, choices=None, dims=None):
    """-> ('ok', world) | ('skip', world) | ('fail', world, name, msg) | ('error', ...)"""
    np.random.seed(seed % (2**31))
    W = ConWorld(seed, choices, dims)
    so = sys.stdout
    sys.stdout = _Quiet()
    old = signal.signal(signal.SIGPROF, _no_end)
    signal.setitimer(signal.ITIMER_PROF, CPU_S, 1)
    try:
        ct.fn(W)
        return ('ok', W, None, None)
    except NoEnd as e:
        if in_repo(e.__traceback__):
            return ('fail', W, 'terminates', 'still running after %d s of processor time' % CPU_S)
        return ('skip', W, None, None)
    except Skip:
        return ('skip', W, None, None)
    except _Control:
        # a contract that exists only as a proof (no concrete reading)
        W.checks = 0
        return ('skip', W, None, None)
    except Fail as e:
        return ('soft' if e.soft else 'fail', W, e.name, e.msg)
    except np.linalg.LinAlgError as e:
        return ('soft', W, 'no-exception', 'LinAlgError: %s' % e)
    except Exception as e:
        if in_repo(e.__traceback__):
            fr = traceback.extract_tb(e.__traceback__)[-1]
            return ('fail', W, 'no-exception', 'raised %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(fr.filename), fr.lineno))
        if not isinstance(e, ImportError) and not re.search(r"attribute '_(?!_)", str(e)):
            # what the library returned cannot be used the way it is documented
            return ('fail', W, 'result-usable', '%s: %s' % (type(e).__name__, e))
        return ('error', W, 'harness', traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        sys.stdout = so


def con_task(i, seed0, count, budget):
    ct = CONTRACTS[i]
    t0 = time.time()
    res = dict(kind='con', i=i, evals=0, skips=0, checks=0, fails=[], errors=[], keys=set(), samples=[], soft=[])
    for k in range(count):
        if time.time() - t0 > budget:
            break
        seed = seed0 + k
        st, W, name, msg = con_once(ct, seed)
        if st == 'skip' and W.checks == 0:
            res['skips'] += 1
            continue
        res['evals'] += 1
        res['checks'] += W.checks
        key = (tuple(sorted((a, repr(b)) for a, b in W.choices.items())), tuple(sorted(W.dims.items())))
        res['keys'].add(hash(key) & 0xffffffff)
        if len(res['samples']) < 2:
            res['samples'].append(dict(contract=ct.name, seed=seed, choices={a: repr(b) for a, b in W.choices.items()}, dims=W.dims, checks=W.checks))
        if st in ('fail', 'soft'):
            res['fails' if st == 'fail' else 'soft'].append(dict(seed=seed, choices={a: repr(b) for a, b in W.choices.items()}, dims=dict(W.dims), obligation=name, msg=msg))
            if len(res['fails']) >= 3 or name == 'terminates':
                break
        elif st == 'error':
            res['errors'].append(msg)
            if len(res['errors']) >= 2:
                break
    res['wall'] = time.time() - t0
    return res


# ------------------------------------------------------------------ symbolic
def sym_task(i, budget, seed, max_paths):
    from vf import ctx as C, load as L, snp
    from vf import numeval
    ct = CONTRACTS[i]
    t0 = time.time()
    res = dict(kind='sym', i=i, paths=0, proved=0, obls=0, names={}, open=[], undecided=[], fails=[], diffs=[], entered={}, trusted=[],
               solver_s=0., solver_calls=0, complete=True, infeasible=0)

    import signal

    def alarm(*_):
        raise C.Undecided('time limit of one path')
    signal.signal(signal.SIGALRM, alarm)

    def run(c):
        W = SymWorld(c)
        out = sys.stdout
        sys.stdout = _Quiet()
        signal.setitimer(signal.ITIMER_REAL, min(path_s, max(1, t0 + budget - time.time())))
        try:
            ct.fn(W)
            return (W, None)
        except C.Done:
            return (W, None)
        except C.Infeasible:
            return (W, 'infeasible')
        except C.Control as e:
            return (W, '%s: %s' % (type(e).__name__, e))
        except RecursionError:
            return (W, 'RecursionError')
        except Exception as e:
            fr = traceback.extract_tb(e.__traceback__)
            return (W, 'exception %s: %s @ %s' % (type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[::-1][:6])))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout = out

    path_s = 60 if budget < 500 else 300
    directed = 0
    for r in C.explore(run, max_paths=max_paths, deadline=t0 + budget):
        if r is None:
            res['complete'] = False
            res['undecided'].append('path/time budget exhausted')
            break
        c, (W, why) = r
        if why == 'infeasible':
            res['infeasible'] += 1
            continue
        res['paths'] += 1
        bad = []
        for o in W.obls:
            res['obls'] += 1
            d = res['names'].setdefault(o.name, [0, 0])
            d[0] += 1
            if o.status == 'proved':
                res['proved'] += 1
                d[1] += 1
            else:
                bad.append(o)
        if why:
            res['undecided'].append(why[:400])
        if (bad or why):
            ch = {k: v for k, v in c.choices.items() if k != '__dims__'}
            for o in bad[:4]:
                if len(res['open']) < 40:
                    res['open'].append(dict(obligation=o.name, status=o.status, detail=str(o.detail)[:600], path=[str(x[0])[:160] + '=' + str(x[1]) for x in c.trace]))
                if len(res['diffs']) < 6:
                    try:
                        d = numeval.differs(c, o, seed)
                    except Exception as e:
                        d = None
                        res.setdefault('numeval_err', []).append('%s: %s' % (type(e).__name__, e))
                    except C.Control as e:
                        d = None
                    if d:
                        res['diffs'].append(dict(obligation=o.name, detail=d, path=[str(x[0])[:160] + '=' + str(x[1]) for x in c.trace], choices={k: repr(v) for k, v in ch.items()}))
            if directed < 12 and not res['fails']:
                directed += 1
                try:
                    dims = numeval.dim_model(c)
                except BaseException as e:
                    dims = {}
                for k in range(60):
                    st, W2, name, msg = con_once(ct, seed * 7919 + k, ch, dims if k % 2 == 0 else None)
                    if st == 'fail':
                        res['fails'].append(dict(seed=seed * 7919 + k, choices={a: repr(b) for a, b in W2.choices.items()}, dims=dict(W2.dims),
                                                 obligation=name, msg=msg, forced={a: b for a, b in ch.items() if isinstance(b, (str, int, float, bool, type(None)))},
                                                 fdims=dims if k % 2 == 0 else None))
                        break
    C._CUR[0] = None
    res['entered'] = dict(L.ENTERED)
    L.ENTERED.clear()
    res['trusted'] = sorted(snp.TRUSTED)
    res['solver_s'] = C.STATS['solver_s']
    res['solver_calls'] = C.STATS['solver_calls']
    C.STATS['solver_s'] = 0.0
    C.STATS['solver_calls'] = 0
    res['wall'] = time.time() - t0
    return res


def worker(q_in, q_out):
    np.seterr(all='ignore')
    while True:
        t = q_in.get()
        if t is None:
            return
        try:
            r = sym_task(*t[1:]) if t[0] == 'sym' else con_task(*t[1:])
        except BaseException as e:
            r = dict(kind='crash', i=t[1], err=traceback.format_exc(), task=t[0])
        q_out.put(r)


def run_tasks(tasks, hard_s):
    nproc = min(8, max(1, len(tasks)))
    cm = mp.get_context('fork')
    qi, qo = cm.Queue(), cm.Queue()
    ps = [cm.Process(target=worker, args=(qi, qo), daemon=True) for _ in range(nproc)]
    for p in ps:
        p.start()
    for t in tasks:
        qi.put(t)
    for p in ps:
        qi.put(None)
    out = []
    t0 = time.time()
    import queue
    dead = 0
    found = None
    while len(out) < len(tasks) and time.time() - t0 < hard_s:
        # with a failing input in hand the verifier gets a little longer, then the check ends
        if found is None and any(r.get('fails') for r in out) and sum(r['kind'] != 'sym' for r in out) >= sum(t[0] == 'con' for t in tasks):
            found = time.time()
        if found is not None and time.time() - found > 60:
            break
        try:
            out.append(qo.get(timeout=1.0))
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                dead += 1
                if dead > 3:
                    break
    for p in ps:
        if p.is_alive():
            p.terminate()
    return out


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--symonly', action='store_true')
    ap.add_argument('--cononly', action='store_true')
    ap.add_argument('--count', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import gc
    CONTRACTS[:] = load(a.prop)
    if a.only:
        CONTRACTS[:] = [c for c in CONTRACTS if a.only in c.name]
    if a.replay:
        return replay(a)
    # imports once, before forking
    import z3
    import vf.loops, vf.snp, vf.load, vf.numeval
    thorough = a.tier == 'thorough'
    lem = lemma_start(a.prop)
    ncon = a.count or (1200 if thorough else 160)
    symb = 600 if thorough else 240
    conb = 120 if thorough else 20
    tasks = []
    for i, c in enumerate(CONTRACTS):
        if c.sym and not a.cononly:
            tasks.append(('sym', i, c.budget or symb, seed, 20000))
    for i, c in enumerate(CONTRACTS):
        if c.con and not a.symonly:
            n = int(ncon * c.weight)
            parts = 4 if thorough else 2
            for k in range(parts):
                tasks.append(('con', i, seed * 1000003 + k * 100000, max(1, n // parts), conb / parts * max(1, c.weight)))
    rs = run_tasks(tasks, 3000 if thorough else 600)
    # the verifier left something open and no failing input is known: look harder for one
    left = (2400 if thorough else 660) - (time.time() - t0)
    if not a.symonly and left > 30 and not any(r.get('fails') for r in rs) and \
            any(r['kind'] == 'sym' and (r['obls'] != r['proved'] or r['undecided']) for r in rs):
        more = []
        cs = [i for i, c in enumerate(CONTRACTS) if c.con]
        for part in range(max(2, 16 // max(1, len(cs)))):
            for i in cs:
                more.append(('con', i, seed * 1000003 + 50000000 + part * 100000, 2000, min(left, 120) * 8 / (len(cs) * max(2, 16 // max(1, len(cs))))))
        rs += run_tasks(more, left)
        tasks += more
    return report(a, seed, t0, rs, tasks, thorough, lemma_end(lem))


def lemma_start(prop):
    f = LEMMAS.get(prop)
    if not f:
        return None
    import subprocess
    try:
        return f, subprocess.Popen(['lean', os.path.join(HERE, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    except OSError as e:
        return f, None


def lemma_end(l):
    if l is None:
        return None
    f, p = l
    if p is None:
        return dict(file=f, status='not checked in this run: lean is not available')
    try:
        out, _ = p.communicate(timeout=180)
        return dict(file=f, status='accepted by Lean' if p.returncode == 0 and 'sorry' not in out else 'REJECTED', output=out[-500:])
    except Exception as e:
        p.kill()
        return dict(file=f, status='not checked in this run: %s' % type(e).__name__)


def report(a, seed, t0, rs, tasks, thorough, lemma=None):
    prop = a.prop
    viol = []
    obls = dis = 0
    bobls = bdis = 0
    undec = []
    opens = []
    entered = {}
    trusted = set()
    solver = 0.0
    scalls = 0
    paths = 0
    evals = checks = skips = 0
    keys = set()
    samples = []
    errors = []
    per = {}
    vac = []
    softs = {}
    got = set()
    for r in rs:
        ct = CONTRACTS[r['i']]
        if r['kind'] == 'crash':
            errors.append('%s %s: %s' % (ct.name, r['task'], r['err'][-1500:]))
            continue
        p = per.setdefault(ct.name, {})
        if r['kind'] == 'sym':
            got.add(r['i'])
            if ct.bounded:
                bobls += r['obls']
                bdis += r['proved']
            else:
                obls += r['obls']
                dis += r['proved']
            paths += r['paths']
            p.update(paths=r['paths'], obligations=r['obls'], discharged=r['proved'], wall_s=round(r['wall'], 2))
            if ct.bounded:
                p['bounded'] = ct.bounded
            for u in r['undecided']:
                undec.append('%s: %s' % (ct.name, u))
            for o in r['open']:
                opens.append(dict(contract=ct.name, **o))
            if r['obls'] == 0:
                vac.append(ct.name)
                undec.append('%s: no obligation generated' % ct.name)
            for k, v in r['entered'].items():
                entered[k] = entered.get(k, 0) + v
            trusted |= set(r['trusted'])
            solver += r['solver_s']
            scalls += r['solver_calls']
            for f in r['fails']:
                viol.append((ct, f, 'directed replay of an undischarged obligation'))
            if r['diffs'] and not r['fails']:
                p['diffs'] = r['diffs']
            if a.v and r.get('numeval_err'):
                print('numeval', ct.name, r['numeval_err'][:2])
        else:
            evals += r['evals']
            skips += r['skips']
            checks += r['checks']
            keys |= {(r['i'], k) for k in r['keys']}
            samples += r['samples'][:1]
            errors += ['%s: %s' % (ct.name, e) for e in r['errors']]
            p['concrete'] = p.get('concrete', 0) + r['evals']
            for f in r['fails']:
                viol.append((ct, f, 'concrete counterexample'))
            softs.setdefault(r['i'], []).extend(r['soft'])
    for t in tasks:
        if t[0] == 'sym' and t[1] not in got:
            undec.append('%s: symbolic run did not finish' % CONTRACTS[t[1]].name)
    # small numerical differences count only when they are systematic
    for i, fs in softs.items():
        n = per[CONTRACTS[i].name].get('concrete', 0)
        if len(fs) >= 4 and len(fs) > .03 * n:
            viol.append((CONTRACTS[i], fs[0], 'concrete counterexample (%d of %d runs)' % (len(fs), n)))
        elif fs:
            per[CONTRACTS[i].name]['rounding_skips'] = len(fs)
    # violations
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    lines = []
    seen = set()
    for ct, f, how in viol:
        key = (ct.name, f['obligation'])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, ct.name, len(lines)))
        json.dump(dict(property=prop, contract=ct.name, how=how, **f,
                       rerun='/verif/check %s --replay %s' % (prop, path)), open(path, 'w'), indent=1, default=repr)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s / %s: %s' % (ct.name, f['obligation'], f['msg'][:300]))
    if not lines:
        for name, p in per.items():
            for d in p.get('diffs', [])[:1]:
                path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, name, len(lines)))
                json.dump(dict(property=prop, contract=name, how='obligation not provable; its two sides differ numerically under the path condition',
                               **d), open(path, 'w'), indent=1, default=repr)
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
                print('  %s / %s: %s' % (name, d['obligation'], str(d['detail'])[:300]))
    nsym = sum(1 for c in CONTRACTS if c.sym)
    ok_all = (obls == dis and not undec and obls > 0)
    level = 'proof' if nsym and obls else 'exploration'
    try:
        mlevel = {c['property']: c['level'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
        level = mlevel.get(prop, level)
    except Exception:
        pass
    cov = dict(obligations=obls, discharged=dis, checker_cmd='/verif/check %s' % prop,
               trusted_base=['vf engine (symbolic execution + exact algebra normaliser)', 'z3 (path conditions)'] + sorted(trusted),
               bounded_obligations=bobls, bounded_discharged=bdis,
               paths=paths, functions_under_contract=sorted(entered), solver_s=round(solver, 3), solver_calls=scalls,
               undecided=undec[:40], undischarged=opens[:20], errors=[e[-400:] for e in errors[:5]],
               evaluations=evals, distinct_nontrivial=len(keys), concrete_checks=checks,
               rule='each case runs the contract harness against the imported library with random dimensions, options and values; two cases are distinct when their (contract, options, dimensions) differ; a case that made no check is not counted',
               samples=samples[:4], contracts=per)
    if lemma:
        cov['lemmas'] = lemma
        print('lemma file %s: %s' % (lemma['file'], lemma['status']))
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=['machine floating point is treated as exact real arithmetic in the deductive part (concrete cross-check within 1e-7)',
                           'numpy/scipy operations satisfy the contracts in vf/snp.py',
                           'inverted matrices are non-singular; matrices to be factored are positive definite'],
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    if not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    for l in lines:
        print(l)
    if a.v:
        for n, p in per.items():
            print('   ', n, {k: v for k, v in p.items() if k != 'diffs'})
        for u in undec[:30]:
            print('  UNDECIDED', u)
        for o in opens[:12]:
            print('  OPEN', o['contract'], o['obligation'], o['status'], o['detail'][:700], o['path'])
        for e in errors[:6]:
            print('  ERROR', e)
    print('%s: %d/%d obligations discharged (%d/%d bounded), %d paths, %d undecided, %d concrete runs, %d checks, %.1fs'
          % (prop, dis, obls, bdis, bobls, paths, len(undec), evals, checks, time.time() - t0))
    if lines:
        return 1
    if errors:
        print('CHECK ERROR: %s' % errors[0])
        if any(r['kind'] == 'crash' for r in rs) and not checks:
            return 2
    if obls + bobls + checks == 0:
        print('CHECK ERROR: nothing was checked')
        return 2
    return 0


def replay(a):
    d = json.load(open(a.replay))
    for ct in CONTRACTS:
        if ct.name == d['contract']:
            if 'seed' not in d:
                print('no failing input recorded; obligation %s' % d['obligation'])
                return 1
            st, W, name, msg = con_once(ct, d['seed'], d.get('forced'), d.get('fdims'))
            print(st, name, msg)
            return 1 if st in ('fail', 'soft') else 0
    return 2


if __name__ == '__main__':
    sys.exit(main())
