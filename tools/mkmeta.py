#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (tools/meta/*.json)."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import sys
sys.path.insert(0, HERE)
from meta import PROPS  # noqa: E402


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': [], 'not_applicable': []}
    for p in PROPS:
        if 'na' in p:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                                  'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                                  'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
