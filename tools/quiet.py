"""quiet.py DIR REPO... : run every check against refactored trees (from a clone DIR of /verif); report alarms and undecided."""
import json, os, subprocess, sys, time
base, repos = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('C')]
props = [a for a in sys.argv[2:] if a.startswith('C')] or ['C%02d' % i for i in range(1, 28)]
for r in repos:
    for p in props:
        t = time.time()
        q = subprocess.run([base + '/check', p], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1'), capture_output=True, text=True)
        try:
            c = json.load(open('%s/evidence/%s.json' % (base, p)))['coverage']
            u = '%d/%d und %d' % (c['discharged'], c['obligations'], len(c['undecided']))
            why = {str(x)[:160] for x in c['undecided']}
        except Exception as e:
            u, why = repr(e), ()
        print('%s %s rc=%d %s %.0fs%s' % (os.path.basename(r), p, q.returncode, u, time.time() - t, '  ALARM' if q.returncode else ''), flush=True)
        for w in sorted(why)[:4]:
            print('      ', w, flush=True)
        if q.returncode:
            print(q.stdout[-1500:], q.stderr[-500:], flush=True)
