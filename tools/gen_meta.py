#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props, claims
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for x in props.P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in props.P]
checks, na = [], []
for i in ids:
    if i in claims.CLAIMS:
        c = claims.CLAIMS[i]
        checks.append(dict(
            property=i,
            quick_cmd=f'bash ./check {i}',
            thorough_cmd=f'VERIF_TIER=thorough bash ./check {i}',
            evidence_file=f'evidence/{i}.json',
            technique=c['technique'],
            level=c.get('level', 'model_checking'),
            level_note=c['note']))
    else:
        na.append(dict(property=i, reason=claims.NOT_YET.get(i, 'Check not built yet (work in progress).')))
m = dict(version=1, setup_cmd='bash ./setup.sh', checks=checks, not_applicable=na,
         notes='All checks: TLA+ specifications in spec/ model-checked with TLC and bound to the implementation '
               'by conformance (see DESIGN.md). No hooks in /repo: the public API exposes all observed state.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
