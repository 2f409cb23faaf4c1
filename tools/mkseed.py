#!/usr/bin/env python3
"""Development helper: turns the current diff of /tmp/mut plus a demo into seeded/<id>/.

mkseed.py ID PROPERTY 'needs' 'what it breaks' demo.cc
Confirms: builds, tests pass, demo fails with the change and passes without it.
"""
import json, os, subprocess, sys, shutil
sid, prop, needs, breaks, demo = sys.argv[1:6]
M = os.environ.get('MUT', '/tmp/mut')
D = '/verif/seeded/' + sid
diff = subprocess.check_output(['git', '-C', M, 'diff'], text=True)
assert diff.strip(), 'no change in /tmp/mut'
os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w').write(diff)
shutil.copy(demo, D + '/demo.cc')
open(D + '/demo.sh', 'w').write(open('/verif/tools/demo_template.sh').read())
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
t = subprocess.run(['/verif/tools/mut.sh', 'test'], capture_output=True, text=True).stdout
print(t.strip())
ok = '100% tests passed' in t
r1 = subprocess.run(['bash', D + '/demo.sh'], cwd=M, env=dict(os.environ, DEMO_REPO=M), capture_output=True, text=True)
print('with change: demo exit', r1.returncode, r1.stdout[-300:], r1.stderr[-600:])
r0 = subprocess.run(['bash', D + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
print('without change: demo exit', r0.returncode, r0.stdout[-300:], r0.stderr[-600:])
good = ok and r0.returncode == 0 and r1.returncode not in (0, 77)
print('SEED', sid, 'CONFIRMED' if good else 'REJECTED')
if not good:
    shutil.rmtree(D)
