#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property of properties.jsonl that lib/checks.py decides"""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = open(V + '/lib/checks.py').read()
have = set(re.findall(r'^def (c\d\d)\(r\)', src, re.M))
notes = json.load(open(V + '/lib/notes.json')) if os.path.exists(V + '/lib/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i.lower() in have:
        n = notes.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': n.get('technique', 'TLA+ specification; TLC-generated cases replayed on the code, and recorded executions judged by TLC'),
                       'level': 'model_checking',
                       'level_note': n.get('note', 'Every explored execution of the real code is one the TLA+ specification allows; bounds and corpus sizes are in the evidence file. Trusted: the projection of Go values in harness/, the YAML emitter in lib/ytree.py, TLC.')})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks in /repo: the public API exposes the abstract state.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
