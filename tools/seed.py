#!/usr/bin/env python3
"""seed.py new <id> <property>: take the diff of /tmp/seedwork (a copy of /repo with a change) as seeded/<id>/patch.diff
   seed.py test <id> [check...]: apply to /repo, build, tests, demo, checks; undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    op, sid = sys.argv[1], sys.argv[2]
    d = f'{V}/seeded/{sid}'
    if op == 'new':
        os.makedirs(d, exist_ok=True)
        r = sh('git -C /tmp/seedwork diff')
        open(d + '/patch.diff', 'w').write(r.stdout)
        print(r.stdout)
        return
    meta = json.load(open(d + '/meta.json'))
    checks = sys.argv[3:] or [meta['property']]
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo dirty'
    r = sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
    print('demo clean rc', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:])
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print('APPLY FAILED', r.stdout); return 1
    try:
        r = sh('bash /opt/vp/build.sh'); print('build rc', r.returncode, r.stdout[-500:] if r.returncode else '')
        r = sh('bash /opt/vp/test.sh /tmp/seedtest.json'); print('tests', r.stdout.strip()[-300:])
        r = sh(f'cd /repo && timeout 300 bash {d}/demo.sh'); print('demo patched rc', r.returncode, r.stdout[-300:])
        for c in checks:
            t = time.time()
            r = sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {c}')
            print(f'check {c} rc {r.returncode} {time.time()-t:.0f}s', r.stdout.strip()[-700:] if r.returncode != 1 else r.stdout.strip()[:500])
            print('   ', r.stdout.strip().splitlines()[-1:] )
    finally:
        sh('git -C /repo checkout -- .')
if __name__ == '__main__':
    sys.exit(main())
