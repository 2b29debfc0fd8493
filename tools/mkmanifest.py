#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/tools/claims.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in T['checks']:
        c = T['checks'][p]
        checks.append({'property': p, 'quick_cmd': f'bash check.sh {p} quick', 'thorough_cmd': f'bash check.sh {p} thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        na.append({'property': p, 'reason': T['not_applicable'].get(p, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'bash bin/build.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': '--cfg podo_verif', 'enable': 'bin/build.sh: cargo rustc --bin podo -- --cfg podo_verif --cfg podo_verif_order --extern mc=..., PODO_VERIF_HARNESS=/verif/harness', 'source_commits': T['hooks']}}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

assert len(checks) == len(props), 'properties without a check'
