#!/usr/bin/env python3
"""seed.py ID [PROP...]: confirm a planted bug (demo 0 without, nonzero with; stable tests pass), then run the checks of PROP (default: its own) against it"""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]; d = os.path.join(V, 'seeded', i); meta = json.load(open(d + '/meta.json'))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, cwd='/repo', **k)
assert not sh('git status --porcelain').stdout.strip(), '/repo not clean'
b = json.load(open('/opt/vp/BASELINE.json')); stable = set(b.get('passed') or b.get('stable') or b.get('tests'))
sh('bash /opt/vp/build.sh')
r = sh('bash %s/demo.sh' % d); print('demo clean', r.returncode, (r.stdout + r.stderr)[-300:].strip())
a = sh('git apply %s/patch.diff' % d)
if a.returncode: print('patch does not apply', a.stderr); sys.exit(1)
try:
    x = sh('bash /opt/vp/test.sh /tmp/seed.json'); o = json.load(open('/tmp/seed.json'))
    print('missing stable tests:', sorted(stable - set(o['passed']))[:5])
    r = sh('bash %s/demo.sh' % d); print('demo patched', r.returncode, (r.stdout + r.stderr)[-300:].strip())
    for p in sys.argv[2:] or [meta['property']]:
        r = subprocess.run(['python3', 'check.py', p, 'quick'], cwd=V, capture_output=True, text=True)
        print(p, 'exit', r.returncode, '\n'.join(l[:220] for l in r.stdout.splitlines() if 'iolat' in l)[:900])
finally: sh('git checkout -- .'); sh('bash /opt/vp/build.sh')
