#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_tail.md, properties.jsonl, checks.json, the rules stated in the
harness, and tools/seeds.json (which planted bugs are caught by which checks)."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = json.load(open(H + '/checks.json'))
rules = {}
for f in sorted(glob.glob(H + '/harness/*/*_test.go')):
    s = open(f).read()
    for m in re.finditer(r'ID:\s+"(C\d\d)"(.*?)Rule:\s*"((?:[^"\\]|\\.)*)"(.*?)\n\t\}\)', s, re.S):
        q = re.search(r'Quick:\s*(\d+)', m.group(4) + m.group(2)); t = re.search(r'Thorough:\s*(\d+)', m.group(4) + m.group(2))
        rules.setdefault(m.group(1), []).append((m.group(3), q and q.group(1), t and t.group(1)))
s = open(H + '/harness/storeck/seq_test.go').read()
for m in re.finditer(r'check\(t, "(C\d\d)", "((?:[^"\\]|\\.)*)",\s*(\d+), (\d+),', s):
    rules.setdefault(m.group(1), []).append((m.group(2), m.group(3), m.group(4)))
out = [open(H + '/tools/design_head.md').read(), '## 3. Per property\n']
for p in props:
    c = checks.get(p['id'])
    out.append(f"### {p['id']} {p['title']}\n")
    if not c:
        out.append('No check yet.\n'); continue
    out.append(f"Decided by {c['technique']}. Package `harness/{c['pkg']}`" + (', race detector' if c.get('race') or any(x.get('race') for x in c.get('extra', [])) else '') + '.\n')
    for r, q, t in rules.get(p['id'], []):
        out.append(f"* Generated and compared: {r}." + (f" Cases: {q} quick, {t} thorough (or the time budget)." if q else ''))
    out.append(f"* Bounds and trust: {c['note'].strip()}" + (' ' + c['assume'] if c.get('assume') else ''))
    out.append(f"* What tests cannot settle: {p['why_tests_cant']}\n")
out.append(open(H + '/tools/design_tail.md').read())
sf = H + '/tools/seeds.json'
if os.path.exists(sf):
    s = json.load(open(sf))
    out.append('## 6. Planted bugs\n\nEach is in `seeded/<id>`; "caught by" lists the checks that report it (quick tier).\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
    for k in sorted(os.listdir(H + '/seeded')):
        m = json.load(open(f'{H}/seeded/{k}/meta.json'))
        out.append(f"| {k} | {m['property']} | {m['needs'].replace('|', '/')} | {s.get(k, '?')} |")
    out.append('')
extra = H + '/tools/design_mutation.md'
if os.path.exists(extra): out.append(open(extra).read())
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
