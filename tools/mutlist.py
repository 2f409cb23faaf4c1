#!/usr/bin/env python3
"""Development helper: mutlist.py PROP < list; each line 'path ||| old ||| new' is tried in /tmp/mut."""
import os, subprocess, sys
M = os.environ.get('MUT', '/tmp/mut') + '/cartographer/'
prop = sys.argv[1]
for line in sys.stdin:
    line = line.rstrip('\n')
    if not line.strip(): continue
    path, old, new = [x.strip() for x in line.split('|||')]
    old, new = old.replace('\\n', '\n'), new.replace('\\n', '\n')
    f = M + path
    t = open(f).read()
    if old not in t:
        print('NOMATCH', old); continue
    open(f, 'w').write(t.replace(old, new, 1))
    r = subprocess.run(['bash', '/verif/tools/mut.sh', 'check', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, VERIF_TIME=os.environ.get('VERIF_TIME', '8')))
    open(f, 'w').write(t)
    why = [l for l in r.stdout.splitlines() if 'violated' in l][:1] or r.stdout.splitlines()[-1:]
    print('%-8s %s -> %s   %s' % ({0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERR%d' % r.returncode), old[:50], new[:50], why[0][:130] if why else ''), flush=True)
