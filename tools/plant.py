#!/usr/bin/env python3
"""Confirms planted changes: plant.py ID... [--no-check] [--check-time S]
For each: apply to /repo, build, run the stable tests, run the demo, run the property's check, undo.
Results go to out/plant/<id>.json."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd=R, t=3000, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode(errors='replace')


def build_test(out):
    rc, o = sh('bash /opt/vp/test.sh ' + out)
    r = json.load(open(out))
    missing = sorted(BASE - set(r['passed']))
    return missing, o


def main(a):
    check = '--no-check' not in a
    extra = ''
    if '--check-time' in a:
        i = a.index('--check-time'); extra = ' --time ' + a[i + 1]; del a[i:i + 2]
    ids = [x for x in a if not x.startswith('--')]
    os.makedirs(V + '/out/plant', exist_ok=True)
    for b in ids:
        d = V + '/seeded/' + b
        meta = json.load(open(d + '/meta.json'))
        res = {'id': b, 'property': meta['property']}
        assert sh('git status --porcelain')[1] == '', 'repo not clean'
        rc, o = sh('git apply ' + d + '/patch.diff')
        if rc:
            print(b, 'DOES NOT APPLY', o); continue
        try:
            t = time.time()
            missing, o = build_test('/tmp/plant_test.json')
            res['tests_lost'] = missing[:5]
            res['build_s'] = int(time.time() - t)
            if not json.load(open('/tmp/plant_test.json'))['passed']:
                print(o[-3000:])
            t = time.time()
            rc, o = sh('bash %s/demo.sh' % d, t=400)
            res['demo'] = rc
            res['demo_out'] = o[-600:]
            res['demo_s'] = int(time.time() - t)
            if check:
                t = time.time()
                rc, o = sh('python3 check.py %s%s' % (meta['property'], extra), cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                res['check'] = rc
                res['check_out'] = [l for l in o.splitlines() if 'VIOLATION' in l or 'KNOWN' in l] or o[-800:]
                res['check_s'] = int(time.time() - t)
        finally:
            sh('git checkout -- .')
        json.dump(res, open(V + '/out/plant/%s.json' % b, 'w'), indent=1)
        print(json.dumps(res), flush=True)
    if '--clean' in a:
        print('rebuilding', build_test('/tmp/plant_test.json')[0])
        for b in ids:
            rc, o = sh('bash %s/seeded/%s/demo.sh' % (V, b), t=400)
            print(b, 'clean demo', rc, o[-300:], flush=True)


main(sys.argv[1:])
