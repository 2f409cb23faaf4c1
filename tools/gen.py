#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_src import P
try:
    from props_src import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
na_ids = {n['property'] for n in NOT_APPLICABLE}
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        if p['id'] in na_ids or not os.path.exists(V + '/harness/' + p['id'] + '.cc'):
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/tools/check.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 /verif/tools/check.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
na = NOT_APPLICABLE + [{'property': p['id'], 'reason': 'check under construction'} for p in P
                       if p['id'] not in na_ids and not os.path.exists(V + '/harness/' + p['id'] + '.cc')]
json.dump({'version': 1, 'setup_cmd': 'mkdir -p /verif/build /verif/evidence', 'checks': checks, 'not_applicable': na},
          open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), sch)
print(len(P), 'properties', len(checks), 'checks')

# DESIGN.md
import re
def facets(pid):
    try: src = open(V + '/harness/' + pid + '.cc').read()
    except OSError: return []
    out = []
    for m in re.finditer(r'PBT_FACET\((\w+),(.*?)\)\s*\{', src, re.S):
        rule = ''.join(re.findall(r'"((?:[^"\\\\]|\\\\.)*)"', m.group(2)))
        out.append((m.group(1), rule))
    return out
d = open(V + '/tools/design_head.md').read()
for p in P:
    d += '\n### %s — %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    d += '*Quantified over* %s. *Why tests cannot settle it:* %s.\n\n' % (p['text'], p['why'])
    d += '*Technique:* %s. *Bounds:* %s.\n\n' % (p['technique'], p['note'])
    for n, r in facets(p['id']):
        d += '* `%s`: %s\n' % (n, r)
d += open(V + '/tools/design_tail.md').read()
rows = []
try: caught = json.load(open(V + '/tools/catches.json'))
except OSError: caught = {}
for sid in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + sid + '/meta.json'))
    rows.append('| %s | %s | %s | %s | %s |' % (sid, m['property'], m['needs'], m['what_it_breaks'], caught.get(sid, '?')))
d += '\n## Planted bugs\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(d)
