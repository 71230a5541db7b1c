#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one place (the texts below)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
C = {}      # id -> (technique, level, note)
NA = {}     # id -> reason
def prop(id, title, statement, over, text, why, files, mech, observe, claim=None, na=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state: a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if claim: C[id] = claim
    else: NA[id] = na
exec(open(os.path.join(V, 'tools', 'texts.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': "clang --version >/dev/null && test -x /usr/lib/llvm-18/bin/opt && python3 -c 'import sys; assert sys.version_info >= (3, 8)'",
  'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': t, 'level': l, 'level_note': n} for i, (t, l, n) in C.items()],
  'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()],
  'notes': 'No hooks in /repo. Every check compiles the current /repo sources to LLVM IR in a scratch directory and decides from the IR; nothing of /repo is executed.'}
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import sys
try:
    import jsonschema
    for f, s in (('MANIFEST.json', 'MANIFEST'),): jsonschema.validate(json.load(open(os.path.join(V, f))), json.load(open('/root/.vp/%s.schema.json' % s)))
    for p in P: jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(P), 'properties,', len(C), 'claimed')
except ImportError: print('written (no jsonschema)')
