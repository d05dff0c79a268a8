#!/usr/bin/env python3
"""seedrun.py [-j N] [-c C01,C02] ID...: tests planted bugs (seeded/ID) without touching /repo: each in a mount
namespace of its own where a patched copy of /repo is at /repo. Prints one line per bug and appends results to
/tmp/seedrun.jsonl. Scratch under /tmp/sw."""
import json, os, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; jobs = 2; only = None
while args and args[0].startswith('-'):
    if args[0] == '-j': jobs = int(args[1])
    if args[0] == '-c': only = args[1].split(',')
    args = args[2:]
BASE = '31bb98d'
def sh(c, t=1200):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, ''
def one(sid):
    d = f'{V}/seeded/{sid}'; w = f'/tmp/sw/{sid}'
    meta = json.load(open(d + '/meta.json')); res = dict(id=sid, prop=meta['property'])
    sh(f'rm -rf {w}; mkdir -p {w}/demo; cp -a /repo {w}/repo; cp {d}/* {w}/demo/; rm -f {w}/demo/*.diff {w}/demo/meta.json; mkdir {w}/verif; cd {V} && cp -a run.py checks.json properties.jsonl known_findings.txt harness tools {w}/verif/')
    def ns(c, t=1200): return sh(f"unshare -Urm sh -c 'mount --bind {w}/repo /repo && cd /repo && {c}'", t)
    rc, o = ns(f'timeout 300 bash {w}/demo/demo.sh'); res['demo_clean'] = rc
    if rc: res['out'] = o[-600:]
    rc, o = sh(f'git -C {w}/repo apply {d}/patch.diff')
    if rc: res['apply'] = o; return res
    # lines removed must be of the original repository
    rc, o = sh(f"cd {w}/repo && git diff -U0")
    f = None; orig = 0
    for l in o.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        if l.startswith('@@') and f:
            a = l.split()[1][1:].split(','); s = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
            if n:
                _, b = sh(f'cd {w}/repo && git blame -s HEAD -L{s},+{n} -- {f}')
                orig += sum(1 for x in b.splitlines() if x.startswith('^' + BASE))
    res['orig_lines'] = orig
    rc, o = sh(f'cd {w}/repo && gofmt -l .'); res['gofmt'] = o.strip()
    rc, o = ns(f'bash /opt/vp/build.sh'); res['build'] = rc
    if rc: res['out'] = o[-500:]; return res
    rc, o = ns(f'bash /opt/vp/test.sh {w}/t.json')
    try:
        base = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(f'{w}/t.json'))
        res['tests'] = o.strip().splitlines()[-1][-120:] if o.strip() else ''
    except Exception as e: res['tests'] = str(e)
    rc, o = ns(f'timeout 300 bash {w}/demo/demo.sh'); res['demo_patched'] = rc; res['demo_out'] = o[-200:]
    for c in only or [meta['property']]:
        t = time.time()
        rc, o = ns(f'cd {w}/verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {c}')
        res[c] = f'rc={rc} {time.time()-t:.0f}s ' + (o.strip().splitlines()[0][:300] if o.strip() else '')
        if rc != 1: res[c] += o[-300:]
    sh(f'rm -rf {w}')
    return res
q = queue.Queue()
for a in args: q.put(a)
L = threading.Lock()
def work():
    while True:
        try: s = q.get_nowait()
        except queue.Empty: return
        try: r = one(s)
        except Exception as e: r = dict(id=s, error=repr(e))
        with L:
            open('/tmp/seedrun.jsonl', 'a').write(json.dumps(r) + '\n')
            bad = r.get('demo_clean') != 0 or r.get('build') or not r.get('demo_patched') or not r.get('orig_lines') or r.get('gofmt')
            print(('BAD ' if bad else 'ok  ') + s, {k: v for k, v in r.items() if k not in ('id', 'demo_out') or (bad and k == 'demo_out')}, flush=True)
ts = [threading.Thread(target=work) for _ in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
