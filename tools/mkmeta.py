#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py (each holds PROPS, a list of dicts)."""
import json, os, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = []
for f in sorted(glob.glob(os.path.join(here, 'props_*.py'))):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    props += m.PROPS
props.sort(key=lambda p: p['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p in props:
        q = {k: p[k] for k in ('id', 'title', 'statement')}
        q['quantifier'] = {'over': p['over'], 'text': p['text']}
        q['why_tests_cant'] = p['why']
        q['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}
        if p.get('state'): q['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert len(q['title']) <= 80, q['title']
        o.write(json.dumps(q) + '\n')
checks, na = [], []
for p in props:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']}); continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': './check.sh ' + p['id'], 'evidence_file': f"evidence/{p['id']}.json",
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
man = {'version': 1, 'setup_cmd': './check.sh --build', 'checks': checks, 'not_applicable': na,
       'notes': 'One static analyser (checker/, Go, vendored golang.org/x/tools) loads /repo from source on every run, builds SSA and decides each property on it; nothing of /repo is executed. See DESIGN.md.'}
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
