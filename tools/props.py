#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, note=None, level='proof', na=None, observe=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note,
                  level=level, na=na, observe=observe, technique=technique))


exec(open(os.path.join(ROOT, 'tools', 'props_table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': '/opt/veriftools/pyvenv/bin/python engine/check.py %s --tier quick' % p['id'],
        'thorough_cmd': '/opt/veriftools/pyvenv/bin/python engine/check.py %s --tier thorough' % p['id'],
        'technique': p['technique'] or 'contract-based deductive verification: contracts on the real C++ functions, VCs generated from the LLVM IR of the current source, discharged by z3/cvc5',
        'level': p['level'], 'level_note': p['note']})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
