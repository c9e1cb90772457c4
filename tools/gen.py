#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from props import PROPS
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for q in PROPS:
        assert len(q['title']) <= 80, q['id']
        for a in q['files']:
            assert os.path.exists('/repo/' + a), (q['id'], a)
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
            'quantifier': {'over': q['over'], 'text': q['quant']}, 'why_tests_cant': q['why'],
            'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}}, ensure_ascii=False) + '\n')
checks, na = [], []
for q in PROPS:
    if q.get('na'): na.append({'property': q['id'], 'reason': q['na']})
    else:
        assert os.path.exists(f"{V}/checks/{q['id']}.py"), q['id']
        checks.append({'property': q['id'], 'quick_cmd': f"python3 check.py {q['id']}", 'thorough_cmd': f"python3 check.py {q['id']} --tier=thorough",
                       'technique': q['technique'], 'level': 'other', 'level_note': q['note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': checks, 'not_applicable': na}, f, indent=1, ensure_ascii=False); f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
