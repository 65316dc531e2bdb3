"""Writes MANIFEST.json from properties.jsonl and the prover's own level table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from thvc import prove
NOTE = getattr(prove, 'NOTE', {})
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[], not_applicable=[], notes='See DESIGN.md.')
for p in ps:
    i = p['id']
    m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i, technique='contract-based deductive verification (VC generator over the clang AST of the real source)' if prove.LEVEL[i] == 'proof' else 'bounded stand-in for contract-based deductive verification',
        level=prove.LEVEL[i], level_note=NOTE.get(i, 'see DESIGN.md')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
