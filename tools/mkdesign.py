"""DESIGN.md from the text in tools/design_head.md, the rules stated in the check modules, and the planted bugs."""
import json, os, re, subprocess, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'sa')]
from na import NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']


class Rules(object):
    """collects the rules a check states"""
    def __init__(self):
        self.r = []


why = json.load(open(os.path.join(V, 'tools', 'design_method.json')))
for p in props:
    i = p['id']
    f = os.path.join(V, 'sa', 'props', i + '.py')
    out.append('### %s — %s' % (i, p['title']))
    out.append('')
    if i in NA:
        out += ['Not applicable: %s.' % NA[i], '']
        continue
    if not os.path.exists(f):
        out += ['Not claimed: no sound static rule has been built for it yet.', '']
        continue
    m = importlib.import_module('props.' + i)
    ev = os.path.join(V, 'evidence', i + '.json')
    src = open(f).read()
    rules = re.findall(r"rep\.rule\('([\w-]+)',\s*'((?:[^'\\]|\\.)*)'", src) + [(a, b.replace("\\'", "'")) for a, b in re.findall(r"rep\.rule\('([\w-]+)',\s*\"([^\"]*)\"", src)]
    if not rules:
        rules = [(k, t) for k, t in json.load(open(ev))['coverage']['rules'].items()] if os.path.exists(ev) else []
        rules = [(k, t['rule'] if isinstance(t, dict) else t) for k, t in rules]
    out += [why.get(i, ''), '', '| rule | decides |', '|---|---|']
    out += ['| %s | %s |' % (a, b) for a, b in rules]
    if getattr(m, 'ASSUMPTIONS', []):
        out += ['', 'Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.']
    out.append('')
out += ['## Planted bugs (`/verif/seeded`)', '',
        'Each was written from the property text and the code, passes the 60 stable tests, and has a demonstration that fails only with the patch.', '',
        '| bug | property | breaks | needs | caught by |', '|---|---|---|---|---|']
res = {}
rp = os.path.join(V, 'tools', 'seeded_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], ', '.join(res.get(d, [])) or 'none'))
out += ['', open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
