"""MANIFEST.json from properties.jsonl, the check modules present and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from na import NA, TECH
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'sa', 'props', i + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s' % i,
                       'thorough_cmd': 'python3 sa/check.py %s --thorough' % i,
                       'technique': 'static analysis: ' + TECH.get(i, 'interprocedural value-flow rules over the syntax tree'),
                       'level': 'other',
                       'level_note': 'rules decided on the current source for all inputs and paths of the analysed functions, '
                                     'within the stated modelling assumptions; no execution'})
    else:
        na.append({'property': i, 'reason': 'no sound static rule has been built for it yet'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))"', 'checks': checks, 'not_applicable': na,
     'notes': 'One engine (sa/flow.py) abstractly interprets every function of /repo/simim from its source; each check in sa/props states rules over '
              'the resulting value terms, events and exit states. Pure standard-library Python, nothing of /repo is imported or executed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
