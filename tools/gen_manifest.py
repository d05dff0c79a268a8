#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = json.load(open(H + '/checks.json'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
         notes='python3 run.py <id>; VERIF_REPLAY=<file> python3 run.py <id> replays a saved plan. No hooks in /repo: the checks use its public API and binaries.')
for p in props:
    c = checks.get(p['id'])
    if not c:
        m['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 run.py ' + p['id'],
                            thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
                            technique=c['technique'], level=c.get('level', 'exploration'), level_note=c['note']))
if not m['not_applicable']:
    m['not_applicable'] = []
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
