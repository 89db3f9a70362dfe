#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from doc/p*.py"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
props, na = [], []
for m in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'doc')) if f.startswith('p') and f.endswith('.py')):
    mod = importlib.import_module('doc.' + m)
    props += mod.PROPS
    na += getattr(mod, 'NA', [])
TECH = 'value-graph abstract interpretation (gated SSA) with normal-form and random-interpretation equivalence'
NOTE = ('Static: the current source of the named functions is abstractly interpreted into value graphs over symbolic '
        'inputs and compared with a reference graph; equality that is not structural is decided by random interpretation, '
        'which is probabilistic. Assumes real arithmetic, the documented input shapes and the library models in sa/.')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p.get('state'):
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        a['observe_at'] = p['obs']
        a['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': a}) + '\n')
nai = {p for p, r in na}
checks = []
for p in props:
    if p['id'] in nai:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                   'technique': p.get('tech', TECH), 'level': 'other', 'level_note': p.get('note', NOTE)})
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': r} for p, r in na],
       'notes': 'The checks read the Python source under /repo and never import or run it; see DESIGN.md. Genuine '
                'defects found are listed in known/findings.jsonl.'}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')
