import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog as C
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in C.P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mech'],
                        'observe_at': p['observe'], 'hook_needed': None}})
            + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3, sys; sys.exit(0)"',
     'checks': [], 'not_applicable': []}
for p in C.P:
    if p['claim']:
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'technique': p['technique'] or C.TECH, 'level': p['level'],
            'level_note': p['note'] or C.NOTE})
    else:
        m['not_applicable'].append({'property': p['id'],
                                    'reason': p['reason']})
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
