#!/usr/bin/env python3
"""tryseeds.py [--tests] [--all-checks] [ID ...]: the planted changes of /verif/seeded against demos and checks.
Applies each patch to /repo and restores it. Only for development: no check uses it."""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
tests, allc = '--tests' in sys.argv, '--all-checks' in sys.argv
props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def demo(i):
    d = tempfile.mkdtemp(prefix='demo-')
    for f in os.listdir(V + '/seeded/' + i):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(V + '/seeded/%s/%s' % (i, f), d)
    r = sh(['bash', d + '/demo.sh'], cwd='/repo', timeout=300)
    shutil.rmtree(d)
    return r


base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) or [])
if sh('git -C /repo status --porcelain').stdout.strip():
    sys.exit('/repo is not clean')
for d in sorted(glob.glob(V + '/seeded/*/')):
    i = os.path.basename(d[:-1])
    if args and i not in args:
        continue
    meta = json.load(open(d + 'meta.json'))
    p = meta['property']
    r0 = demo(i)
    a = sh(['git', '-C', '/repo', 'apply', d + 'patch.diff'])
    if a.returncode:
        print(i, 'does not apply', a.stderr)
        continue
    try:
        b = sh('bash /opt/vp/build.sh')
        r1 = demo(i)
        t = '-'
        if tests:
            sh('bash /opt/vp/test.sh /tmp/out.json')
            t = json.load(open('/tmp/out.json'))
            t = 'fail=%s' % (t.get('failed') or t.get('fail') or [])
        res = {}
        for q in ([p] if not allc else props):
            c = sh([V + '/check', q], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            hit = 'VIOLATION property=%s' % q in c.stdout
            res[q] = 'caught' if c.returncode == 1 and hit else ('quiet' if c.returncode == 0 else 'ERROR %d' % c.returncode)
            if c.returncode not in (0, 1):
                print(c.stdout[-500:], c.stderr[-1500:])
        if allc:
            res = {q: v for q, v in res.items() if v != 'quiet' or q == p}
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0
        print('%-28s %s demo %d/%d build %d tests %s -> %s%s' % (i, p, r0.returncode, r1.returncode, b.returncode, t, res, '' if ok else '   *** NOT VALID'), flush=True)
        if r0.returncode:
            print((r0.stdout + r0.stderr)[-800:])
    finally:
        sh('git -C /repo checkout -- . ; git -C /repo clean -fdq')
