#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C01

VERIF_SEED   seed of every random choice (default 1)
VERIF_TIER   quick (default) or thorough
VERIF_REPLAY run only the plan saved in this file
VERIF_CASES  override the number of cases
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'

CHECKS = json.load(open(os.path.join(HERE, 'checks.json')))

def die(msg, code=2):
    print('ERROR: ' + msg, flush=True)
    sys.exit(code)

def env_for_go():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', GOSUMDB='off', CGO_ENABLED='1')
    e.setdefault('HOME', '/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e.pop('QDR_ENDPOINT', None)
    return e

def build(cfg, scratch):
    e = env_for_go()
    binp = os.path.join(scratch, 'check.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-o', binp]
    if cfg.get('race'):
        cmd.append('-race')
    cmd.append('./' + cfg['pkg'])
    procs = [(cmd, os.path.join(HERE, 'harness'), e)]
    for x in cfg.get('extra', []):  # binaries of the repository under test
        ee = dict(e); ee['GOFLAGS'] = '-mod=readonly'
        out = os.path.join(scratch, x['name'])
        c = ['go', 'build', '-o', out]
        if x.get('race'):
            c.append('-race')
        c.append(x['pkg'])
        procs.append((c, os.path.join(REPO, x.get('dir', '.')), ee))
    running = [(c, subprocess.Popen(c, cwd=d, env=ee, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c, d, ee in procs]
    for c, p in running:
        out, _ = p.communicate()
        if p.returncode != 0:
            die('build failed: %s\n%s' % (' '.join(c), out))
    return binp

CODE = re.compile(r'c-kruse/vanflow|/repo/')

def classify(rc, out):
    """What the end of a test process means: ok, fail (oracle), violation (crash), error."""
    if rc == 0:
        return 'ok', ''
    if 'HARNESS-ERROR' in out:
        return 'error', out[-3000:]
    if rc == 66 or 'WARNING: DATA RACE' in out:
        i = out.find('WARNING: DATA RACE')
        body = out[i:i + 6000] if i >= 0 else out[-6000:]
        if CODE.search(body):
            return 'violation', 'data race\n' + body
        return 'error', body
    if rc == 67:
        return 'violation', out[out.find('HANG'):][:6000]
    m = re.search(r'^(panic: |fatal error: )', out, re.M)
    if m:
        body = out[m.start():m.start() + 8000]
        if 'test timed out' in body[:200] or 'out of memory' in body[:200] or 'cannot allocate' in body[:300] or 'failed to create new OS thread' in body[:300]:
            return 'error', body
        if CODE.search(body):
            return 'violation', body
        return 'error', body
    if rc == 1 and '--- FAIL' in out:
        if re.search(r'only generated \d+ valid tests|\[rapid\] panic', out) and 'HARNESS' not in out and '[rapid] failed' not in out and '[rapid] flaky' not in out:
            return 'error', out[-3000:]
        return 'fail', ''
    return 'error', 'exit status %s\n%s' % (rc, out[-3000:])

def run_bin(binp, tests, env, log, timeout):
    with open(log, 'wb') as f:
        p = subprocess.Popen([binp, '-test.run', tests, '-test.timeout', '0', '-test.count', '1'], cwd=os.path.dirname(log), env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    return p

def finish(procs, deadline):
    """Waits for the processes; returns list of (rc, output, timed_out)."""
    res = {}
    while len(res) < len(procs):
        for i, (p, log) in enumerate(procs):
            if i in res:
                continue
            rc = p.poll()
            if rc is not None:
                res[i] = (rc, False)
        if time.time() > deadline:
            for i, (p, log) in enumerate(procs):
                if i not in res:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    res[i] = (-9, True)
            break
        time.sleep(0.05)
    for p, log in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    out = []
    for i, (p, log) in enumerate(procs):
        text = open(log, errors='replace').read()
        out.append((res[i][0], text, res[i][1]))
    return out

def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        die('usage: run.py <property>; known: ' + ' '.join(sorted(CHECKS)))
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        die('VERIF_TIER must be quick or thorough')
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        code = check(pid, cfg, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def save_replay(pid, rep):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    data = json.dumps(rep, indent=1)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(data.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(data + '\n')
    return path

def known(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def check(pid, cfg, tier, seed, scratch, t0):
    binp = build(cfg, scratch)
    build_s = time.time() - t0
    replay = os.environ.get('VERIF_REPLAY')
    shards = 1 if replay else (cfg['tshards'] if tier == 'thorough' else cfg['shards'])
    budget = cfg['budget'][1 if tier == 'thorough' else 0]
    parts = cfg.get('tests') or '^Test%s(_.*)?$' % pid
    base = env_for_go()
    base.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARDS=str(shards), VERIF_BUDGET=str(budget),
                VERIF_SCRATCH=scratch, VERIF_BIN=scratch,
                GORACE='halt_on_error=1 exitcode=66 history_size=2 suppressions=%s' % os.path.join(HERE, 'harness', 'race.supp'), GOTRACEBACK='all')
    base.setdefault('GOMAXPROCS', str(cfg.get('procs', 2 if shards > 3 else 4)))
    if replay:
        base['VERIF_REPLAY'] = os.path.abspath(replay)
    procs, outs = [], []
    for i in range(shards):
        d = os.path.join(scratch, 'shard%d' % i)
        os.makedirs(d)
        e = dict(base, VERIF_SHARD=str(i), VERIF_OUT=d, TMPDIR=d)
        log = os.path.join(d, 'log')
        procs.append((run_bin(binp, parts, e, log, None), log))
        outs.append(d)
    # overall limit: far above the sum of the parts' budgets
    limit = (budget + 120) * cfg.get('parts', 4)
    if tier == 'quick':
        limit = min(limit, 780)
    results = finish(procs, t0 + build_s + limit)
    violation, errors = None, []
    for i, (rc, text, timed_out) in enumerate(results):
        if timed_out:
            errors.append('shard %d: overall time budget hit' % i)
            continue
        kind, detail = classify(rc, text)
        if kind == 'ok':
            continue
        if kind == 'error':
            errors.append('shard %d: %s' % (i, detail))
            continue
        reps = []
        names = sorted(os.listdir(outs[i]))
        order = ['fail-', 'current-'] if kind == 'fail' or rc == 67 else ['current-', 'fail-']
        for pre in order:
            for n in names:
                if n.startswith(pre):
                    reps.append(json.load(open(os.path.join(outs[i], n))))
            if reps:
                break
        if kind == 'violation' and len(reps) > 1:
            # several parts ran in this process: the last one written was running
            cand = [n for n in names if n.startswith('current-') or n.startswith('fail-')]
            cand.sort(key=lambda n: os.path.getmtime(os.path.join(outs[i], n)))
            reps = [json.load(open(os.path.join(outs[i], cand[-1])))]
        rep = reps[0] if reps else {'property': pid, 'part': '', 'plan': None}
        if kind == 'violation':
            rep['error'] = detail
        rep.setdefault('error', text[-3000:])
        rep['seed'] = seed
        rep['shard'] = i
        rep['output_tail'] = text[-3000:]
        size = len(json.dumps(rep.get('plan')))
        if violation is None or size < violation[0]:
            violation = (size, rep)
    ev = evidence(pid, cfg, tier, seed, outs, t0, 1 if violation else 0, build_s)
    for key, what in known(pid):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, what))
    if violation:
        path = save_replay(pid, violation[1])
        print(violation[1]['error'][:4000])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if errors:
        print('\n'.join(errors)[:8000])
        die('check could not be completed')
    if not replay and ev['coverage']['evaluations'] == 0:
        die('nothing was evaluated')
    print('%s held: %d cases, %d distinct non-trivial, %.1fs' % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0

def evidence(pid, cfg, tier, seed, outs, t0, nviol, build_s):
    parts = {}
    for d in outs:
        for n in sorted(os.listdir(d)):
            if not n.startswith('stats-'):
                continue
            s = json.load(open(os.path.join(d, n)))
            p = parts.setdefault(s['part'], dict(rule=s['rule'], evaluations=0, nontrivial=0, hashes=set(), classes={}, samples=[], skipped=0))
            p['evaluations'] += s['evaluations']
            p['nontrivial'] += s['nontrivial']
            p['hashes'].update(s['hashes'] or [])
            p['skipped'] += s['skipped_over_budget']
            for k, v in (s['classes'] or {}).items():
                p['classes'][k] = p['classes'].get(k, 0) + v
            if len(p['samples']) < 3:
                p['samples'] += (s['samples'] or [])[:1]
    cov = dict(
        evaluations=sum(p['evaluations'] for p in parts.values()),
        distinct_nontrivial=sum(len(p['hashes']) for p in parts.values()),
        rule=' || '.join('%s: %s' % (k, p['rule']) for k, p in sorted(parts.items())) or 'none ran',
        samples=[dict(part=k, plan=s) for k, p in sorted(parts.items()) for s in p['samples'][:2]],
        parts={k: dict(evaluations=p['evaluations'], nontrivial=p['nontrivial'], distinct_nontrivial=len(p['hashes']),
                       classes=dict(sorted(p['classes'].items())), not_run_over_budget=p['skipped']) for k, p in sorted(parts.items())},
        shards=len(outs), build_s=round(build_s, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get('level', 'exploration'), coverage=cov,
              assumptions=cfg.get('assume', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    if not os.environ.get('VERIF_REPLAY'):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    return ev

if __name__ == '__main__':
    main()
