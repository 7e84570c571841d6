#!/opt/venv/bin/python
"""seed.py DESC.py ... : plant bugs.  Each DESC.py defines ID, PROPERTY, FILE (or EDITS), NEEDS, BREAKS, DEMO.

Applies the edit to /repo, builds, tests, runs the demo with and without it and, when everything a
planted bug has to satisfy is satisfied, keeps it under /verif/seeded/ID.  /repo is restored."""
import json, os, runpy, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
stable = set()
base = json.load(open('/opt/vp/BASELINE.json'))


def clean():
    sh('git -C /repo checkout -q -- .')


def tests_ok():
    if sh('bash /opt/vp/build.sh').returncode:
        return 'does not build'
    r = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
    return '' if '246 passed, 0 failed' in tail else tail + '\n' + '\n'.join(l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')))


for f in sys.argv[1:]:
    for d in (lambda g: g['SEEDS'])(runpy.run_path(f)):
        sid = d['id']
        dst = os.path.join(ROOT, 'seeded', sid)
        assert not sh('git -C /repo status --porcelain').stdout, 'repo not clean'
        ok = True
        for path, old, new in d['edits']:
            p = os.path.join('/repo/src/oidcmsg', path)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'EDIT: %d occurrences of %r in %s' % (s.count(old), old[:70], path)); ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            clean(); continue
        diff = sh('git -C /repo diff').stdout
        t = tests_ok()
        if t:
            print(sid, 'TESTS:', t); clean(); continue
        os.makedirs(dst, exist_ok=True)
        open(dst + '/demo.py', 'w').write(d['demo'])
        open(dst + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(dst + '/demo.sh', 0o755)
        r1 = sh('bash %s/demo.sh' % dst, cwd='/repo', timeout=280)
        clean()
        r0 = sh('bash %s/demo.sh' % dst, cwd='/repo', timeout=280)
        if r0.returncode != 0 or r1.returncode == 0:
            print(sid, 'DEMO: clean rc', r0.returncode, r0.stderr[-500:], 'patched rc', r1.returncode)
            sh('rm -rf /verif/seeded/' + sid); continue
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        a = sh('git -C /repo apply %s/patch.diff' % dst)
        assert a.returncode == 0, a.stderr
        caught = []
        for c in d.get('checks', [d['property']]):
            try:
                r = sh('/verif/check %s' % c, timeout=900, env=dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1'))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                caught.append('%s rc=%d %s' % (c, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED'))
                if r.returncode == 2:
                    print(r.stderr[-1500:])
            except subprocess.TimeoutExpired:
                caught.append(c + ' TIMEOUT')
        clean()
        print(sid, 'KEPT', '; '.join(caught), flush=True)
