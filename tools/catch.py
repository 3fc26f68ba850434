"""Which planted bugs do the checks catch?  usage: catch.py [-j N] [ID ...]
Runs each bug's property check (quick tier) against a scratch copy with the bug applied."""
import sys, os, subprocess, json, shutil, tempfile, re, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = tempfile.mkdtemp(prefix='catch_')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        subprocess.run(['git', 'apply', V + '/seeded/%s/patch.diff' % i], cwd=d + '/repo', check=True)
        p = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__', 'replays'))
        t = time.time()
        r = subprocess.run([d + '/verif/check', p], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, p, r.returncode, '%.0fs' % (time.time() - t), (v[-1] if v else r.stdout.strip()[-300:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 3
    if a[:1] == ['-j']:
        j = int(a[1]); a = a[2:]
    ids = a or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(run, ids):
            print('CAUGHT' if r[2] == 1 else 'MISSED', *r, flush=True)
