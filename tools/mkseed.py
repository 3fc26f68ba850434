"""Builds and validates planted bugs described in tools/seeds.py (and seeds2.py…).
usage: mkseed.py [ID ...]   — writes /verif/seeded/<ID>/ only when the bug applies, builds,
passes the stable tests, and its demo separates the trees."""
import sys, os, re, subprocess, json, shutil, tempfile, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def load():
    L = []
    for f in sorted(glob.glob(HERE + '/seeds*.py')):
        s = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        L += m.SEEDS
    return L


def run(s):
    d = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(d, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        dd = os.path.join(d, 'demo')
        os.mkdir(dd)
        open(dd + '/demo.py', 'w').write(s['demo'])
        open(dd + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        demo = lambda: subprocess.run(['bash', dd + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True)
        a = demo()
        if a.returncode:
            return s['id'], 'demo fails on clean tree: ' + a.stderr[-800:]
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p, newline='').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            nth = 0
            m = re.match(r'#(\d+)#', old)
            if m:
                nth = int(m.group(1))
                old = old[m.end():]
            n = t.count(old)
            if n == 0 or (n > 1 and not m):
                return s['id'], '%d occurrences of %r' % (n, old[:60])
            i = -1
            for _ in range(nth + 1):
                i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
            open(p, 'w', newline='').write(t)
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
        b = demo()
        if b.returncode == 0:
            return s['id'], 'demo passes with the change'
        if 'AssertionError' not in b.stderr and not s.get('crash'):
            return s['id'], 'demo did not fail by assertion: ' + b.stderr[-500:]
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300', '--continue-on-collection-errors',
                            '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml', 'filterpy'], cwd=r, env=env, capture_output=True, text=True)
        subprocess.run(['python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'], cwd=r, capture_output=True)
        o = json.load(open(d + '/o.json'))
        passed = set(o['passed']) if isinstance(o['passed'], list) else None
        if passed is None:
            tail = t.stdout.strip().splitlines()[-1]
            if '74 passed' not in tail or 'failed' in tail:
                return s['id'], 'tests: ' + '; '.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))[:600] + tail
        else:
            miss = [x for x in BASE if x not in passed]
            if miss:
                return s['id'], 'tests broken: %s' % miss[:4]
        o = os.path.join(OUT, s['id'])
        if os.path.isdir(o):
            shutil.rmtree(o)
        os.makedirs(o)
        open(o + '/patch.diff', 'wb').write(diff)
        shutil.copy(dd + '/demo.py', o)
        shutil.copy(dd + '/demo.sh', o)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
        return s['id'], 'kept'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    want = sys.argv[1:]
    L = [s for s in load() if (s['id'] in want if want else not os.path.isdir(os.path.join(OUT, s['id'])))]
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, L):
            print(*r, flush=True)
