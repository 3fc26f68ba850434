#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the real functions, discharged by symbolic execution of /repo source to verification conditions (exact matrix-algebra normaliser + z3)'
NOTE = ('Every obligation is generated from /repo\'s current source on each run and discharged for all dimensions and real values; '
        'trusted: the vf engine, the numpy/scipy contracts in vf/snp.py, exact-real reading of floats. Concrete runs cross-check and supply counterexamples.')
CLAIMED = {}
def claim(p, level='proof', note='', tech=TECH):
    CLAIMED[p] = (level, (NOTE + ' ' + note).strip(), tech)
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='/verif/setup.sh', checks=[], not_applicable=[])
for p in ids:
    if p in CLAIMED:
        lv, nt, tc = CLAIMED[p]
        m['checks'].append(dict(property=p, quick_cmd='./check %s --tier quick' % p, thorough_cmd='./check %s --tier thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=tc, level=lv, level_note=nt))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
