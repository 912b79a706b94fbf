"""Write MANIFEST.json from properties.jsonl and the checks present (run after adding a check)."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
pending = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, pid.lower())) and pid not in pending:
        c = importlib.import_module('checks.' + pid.lower()).CHECK
        checks.append(dict(property=pid, quick_cmd='./run.sh ' + pid, thorough_cmd='./run.sh %s --thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique=getattr(c, 'technique', 'bounded exhaustive exploration of the implementation against a reference model'),
                           level=c.level, level_note=getattr(c, 'note', None) or c.space))
    else:
        na.append(dict(property=pid, reason=pending.get(pid, 'no check claimed yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks build the working tree of /repo into /verif/.build and drive its public API.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
