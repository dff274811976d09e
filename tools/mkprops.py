#!/usr/bin/env python3
"""writes /verif/properties.jsonl (one source of truth for titles, statements and anchors)"""
import json, os
G = 'simim/map/gridder.py'; H = 'simim/_handlers.py'; LM = 'simim/lightcone/lcmaker.py'; LH = 'simim/lightcone/lchandler.py'
RS = 'simim/siminterface/_rawsiminterface.py'; SH = 'simim/siminterface/simhandler.py'; PA = 'simim/_paths.py'
IN = 'simim/instrument/instrument.py'; IH = 'simim/instrument/_helpers.py'
IL = 'simim/siminterface/illustris.py'; UM = 'simim/siminterface/universemachine.py'; UC = 'simim/siminterface/uchuu.py'; SI = 'simim/siminterface/_sims.py'
GP = 'simim/galprops/galprops.py'; GB = 'simim/galprops/galprops_builtin.py'; GA = 'simim/galprops/galprops_am.py'
LINES = ['simim/galprops/' + x for x in ('line_co.py', 'line_co_dutycycle.py', 'line_densegas.py', 'line_fir.py', 'line_fir_yang.py', 'log10normal.py')]
SFR = ['simim/galprops/' + x for x in ('sfr_behroozi13.py', 'sfr_bethermin17.py', 'sfr_ir.py')]
P = []

def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_src.py')).read())
ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p['title']) <= 80, p['title']
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P: fh.write(json.dumps(p) + '\n')
print(len(P), 'properties')
