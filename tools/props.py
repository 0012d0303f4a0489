#!/usr/bin/env python3
"""Regenerate /verif/properties.jsonl and /verif/MANIFEST.json from tools/props_data.py and the registered checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
P, NOTE, NA = [], {}, []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})
    NOTE[id] = note


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(HERE, 'props_data.py')).read())
from checks import core                                          # noqa: E402
core.load_checks()

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
ids = [p['id'] for p in P]
nas = [n['property'] for n in NA]
checks = []
for p in P:
    if p['id'] in core.REG and p['id'] not in nas:
        f, technique, level = core.REG[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                       'thorough_cmd': './check %s thorough' % p['id'], 'technique': technique, 'level': level,
                       'level_note': NOTE[p['id']] or BASE_NOTE})
    elif p['id'] not in nas:
        NA.append({'property': p['id'], 'reason': 'check not built yet'})
for i in core.REG:
    assert i in ids, i
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': NA,
     'hooks': {'guard': 'OPK_VERIF_UNUSED', 'enable': 'no hook is needed: the checks read the unmodified sources',
               'source_commits': []},
     'notes': 'Static analysis only: /repo is compiled to LLVM IR on every run and never executed. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(P), 'properties', len(checks), 'claimed', [n['property'] for n in NA])
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for fn in os.listdir(os.path.join(ROOT, 'evidence')):
        if fn.endswith('.json'):
            jsonschema.validate(json.load(open(os.path.join(ROOT, 'evidence', fn))),
                                json.load(open('/root/.vp/EVIDENCE.schema.json')))
    print('schemas ok')
except ImportError:
    print('jsonschema not available; use python3-vt')
