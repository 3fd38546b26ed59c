#!/usr/bin/env python3
"""tools/bug.py ID...: applies seeded/ID/patch.diff in /repo, builds, runs the tests, the demo (must fail) and the property's quick check, and undoes the patch; then the demo on the clean tree (must pass).
   --nocheck, --notest, --noclean leave steps out."""
import sys, os, json, subprocess, time
V = '/verif'
opt = [a for a in sys.argv[1:] if a.startswith('--')]
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(c, to=1800, **k):
    t = time.time()
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, **k)
    return r.returncode, r.stdout.decode('utf-8', 'replace'), time.time() - t


for i in [a for a in sys.argv[1:] if not a.startswith('--')]:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    assert not sh('git -C /repo status --porcelain')[1].strip(), '/repo not clean'
    rc, o, _ = sh('git -C /repo apply %s/patch.diff' % d)
    if rc:
        print(i, 'DOES NOT APPLY', o)
        continue
    try:
        if '--notest' in opt:
            rc, o, t = sh('bash /opt/vp/build.sh')
            tests = 'build rc %d' % rc
            if rc:
                print(o[-3000:])
        else:
            rc, o, t = sh('bash /opt/vp/test.sh /tmp/bug_out.json')
            passed = set(json.load(open('/tmp/bug_out.json'))['passed'])
            lost = base - passed
            tests = 'tests ok' if not lost else 'TESTS LOST %s' % sorted(lost)[:5]
            if len(lost) > 20:
                print(o[-3000:])
        rc, o, t2 = sh('bash %s/demo.sh' % d, cwd='/repo', to=400)
        demo = 'demo rc %d (%.0fs)' % (rc, t2)
        print(i, tests, demo, o.strip()[-300:].replace('\n', ' | '), flush=True)
        if '--nocheck' not in opt:
            rc, o, t3 = sh('VERIF_SEED=1 VERIF_TIER=quick python3 sim/check.py %s' % meta['property'], cwd=V)
            hit = 'VIOLATION property=%s' % meta['property'] in o
            print(i, 'CAUGHT' if rc == 1 and hit else 'MISSED rc=%d' % rc, '%.0fs' % t3, '\n    ' + '\n    '.join([l[:300] for l in o.splitlines() if not l.startswith(('build:', 'KNOWN'))][-5:]), flush=True)
    finally:
        sh('git -C /repo checkout -- .')
    if '--noclean' not in opt:
        sh('bash /opt/vp/build.sh')
        rc, o, t2 = sh('bash %s/demo.sh' % d, cwd='/repo', to=400)
        print(i, 'clean demo rc %d (%.0fs)' % (rc, t2), '' if rc == 0 else o[-1500:], flush=True)
