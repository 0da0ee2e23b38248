#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the registry"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import registry
out = []; checks = []; na = []
for p in registry.PROPS:
    assert len(p['title']) <= 80, p['id']
    out.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
        'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in p['state']], 'observe_at': list(p['observe']), 'hook_needed': None}}))
    if p['src']:
        checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'exploration', 'level_note': p['note'] or 'Generated-input search against an independent oracle, sanitized build (ASan+UBSan); no proof of absence. Trusts the oracle code in harness/%s.' % p['src'][0]})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --all', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: every harness includes the public headers of /repo/mml directly. DESIGN.md describes each check.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'properties,', len(checks), 'checks')
