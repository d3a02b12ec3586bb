#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from tools/props.py (only properties with a check are claimed)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
lines, checks, na = [], [], []
for p in PROPS + NA:
    ok = os.path.exists('%s/checks/%s.py' % (V, p['id'].lower()))
    if not ok and 'reason' not in p:
        continue
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
                             'why_tests_cant': p['why'],
                             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}))
    if 'reason' in p:
        na.append({'property': p['id'], 'reason': p['reason']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'], 'thorough_cmd': 'python3 run.py %s --thorough' % p['id'],
                   'technique': p.get('technique', 'static value-flow analysis: global value numbering of the current source against a definition'),
                   'level': 'other', 'level_note': p['note']})
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"',
           'checks': checks, 'not_applicable': na,
           'notes': 'Every check is python3 (standard library only) reading the source of /repo; nothing of /repo is executed. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
