#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.txt (one block per property)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def blocks():
    cur = None
    key = None
    for line in open(os.path.join(HERE, 'props.txt'), encoding='utf-8'):
        line = line.rstrip('\n')
        if line.startswith('#'):
            continue
        if not line.strip():
            if cur:
                yield cur
            cur = None
            continue
        if line.startswith('  '):
            cur[key] += ' ' + line.strip()
            continue
        key, _, v = line.partition(': ')
        if cur is None:
            cur = {}
        cur[key] = v.strip()
    if cur:
        yield cur


checks, na, props = [], [], []
for b in blocks():
    a = {'files': b['files'].split(), 'mechanism': [dict(zip(('name', 'where'), (x.strip() for x in m.split('@')))) for m in b['mechanism'].split(';')]}
    if 'observe' in b:
        a['observe_at'] = [x.strip() for x in b['observe'].split(';')]
    props.append({'id': b['id'], 'title': b['title'], 'statement': b['statement'],
                  'quantifier': {'over': b.get('over', 'inputs').split(), 'text': b['forall']},
                  'why_tests_cant': b['tests'], 'anchors': a})
    if 'na' in b:
        na.append({'property': b['id'], 'reason': b['na']})
    else:
        checks.append({'property': b['id'], 'quick_cmd': f'python3 check.py {b["id"]}',
                       'thorough_cmd': f'python3 check.py {b["id"]} --thorough',
                       'technique': b['technique'], 'level': b.get('level', 'other'), 'level_note': b['note']})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -B -c "import ast, sys; sys.exit(sys.version_info < (3, 8))"',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
