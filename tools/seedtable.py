#!/usr/bin/env python3
"""seedtable.py results.jsonl: takes results of seedrun.py over into tools/seeds.json."""
import json, os, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = H + '/tools/seeds.json'
t = json.load(open(f)) if os.path.exists(f) else {}
late = set(open(H + '/tools/seeds_late.txt').read().split())
for l in open(sys.argv[1]):
    d = json.loads(l)
    caught = [k for k, v in d.items() if re.fullmatch(r'C\d\d', k) and v.startswith('rc=1')]
    t[d['id']] = ', '.join(caught) or 'none'
t = {k: re.sub(r' \(.*', '', v) + (' (missed at first; the check was strengthened)' if k in late and v != 'none' else '') for k, v in sorted(t.items()) if os.path.isdir(f'{H}/seeded/{k}')}
json.dump(t, open(f, 'w'), indent=1)
