#!/usr/bin/env python3
"""check.py <property> quick|thorough|replay [PATH]

Builds the harness of one property from /repo's working tree, searches for a
counterexample, writes evidence/<property>.json.  Exit 0: held on everything
explored.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from properties import CONFIG

VERIF = build.VERIF


def builder(prop):
    cfg = CONFIG[prop]
    hints = os.path.join(VERIF, 'tools', 'hints', prop + '.txt')
    return build.Builder(prop, os.path.join(VERIF, 'harness', prop + '.cc'),
                         extra_sources=[os.path.join(VERIF, 'engine', 'pbt.cc')] +
                         [os.path.join(build.REPO, p) for p in cfg.get('sources', [])],
                         flags=cfg.get('flags', []), opt=cfg.get('opt', '-O1'),
                         link=cfg.get('link', []),
                         hints=open(hints).read().split() if os.path.exists(hints) else None)


def programs(prop):
    """The repository's own programs a harness runs, sharing its objects."""
    for name, path in CONFIG[prop].get('programs', {}).items():
        hints = os.path.join(VERIF, 'tools', 'hints', name + '.txt')
        b = build.Builder(name, os.path.join(build.REPO, path), opt=CONFIG[prop].get('opt', '-O1'),
                          hints=open(hints).read().split() if os.path.exists(hints) else None)
        os.rmdir(b.dir) if not os.listdir(b.dir) else None
        b.dir = os.path.join(build.BUILD, prop)
        os.makedirs(b.dir, exist_ok=True)
        yield b


def make_hints(prop):
    """Records which sources the linker really takes (a build-time shortcut)."""
    for b in [builder(prop)] + list(programs(prop)):
        b.trace = True
        b.hints = None
        b.build()
        os.makedirs(os.path.join(VERIF, 'tools', 'hints'), exist_ok=True)
        with open(os.path.join(VERIF, 'tools', 'hints', b.name + '.txt'), 'w') as f:
            f.write('\n'.join(b.used) + '\n')
        print(len(b.used), 'sources needed')
    return 0


def known(prop, base, env):
    """Replays the histories in known/: each fails as listed in
    known_findings.md (which is said), or holds, or is a violation."""
    listed = open(os.path.join(VERIF, 'known_findings.md')).read().splitlines()
    folder = os.path.join(VERIF, 'known')
    for name in sorted(os.listdir(folder)):
        if not name.startswith(prop + '-'):
            continue
        path = os.path.join(folder, name)
        q = subprocess.run(base + ['--replay', path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if q.returncode == 0:
            continue
        entry = [l for l in listed if l.startswith('known: property=%s %s ' % (prop, name))]
        if not entry:
            return path
        print('KNOWN-FINDING: property=%s %s' % (prop, entry[0].split(name, 1)[1].strip()))
    return None


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    t0 = time.time()
    cfg = CONFIG[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if mode == 'hints':
        return make_hints(prop)
    b = builder(prop)
    binary = b.build()
    for program in programs(prop):
        program.build()
    sys.stdout.flush()
    work = os.path.join(b.dir, 'work')
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        p = os.path.join(work, f)
        if os.path.isfile(p):
            os.unlink(p)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:print_stacktrace=0'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1'
    env['GLOG_logtostderr'] = '1'
    env['GLOG_minloglevel'] = env.get('GLOG_minloglevel', '3')
    env['VERIF_SCRATCH'] = work
    env['VERIF_PROGRAMS'] = b.dir
    env['VERIF_REPO'] = build.REPO
    base = [binary, '--property', prop, '--work', work]
    if mode == 'replay':
        return subprocess.call(base + ['--replay', sys.argv[3]] + sys.argv[4:], env=env)
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    evidence = os.path.join(evdir, prop + '.json')
    replay = os.path.join(evdir, 'replays', '%s-%s-%d.replay' % (prop, mode, seed))
    t = cfg.get('time', 20) if mode == 'quick' else cfg.get('thorough_time', 600)
    t = float(os.environ.get('VERIF_TIME', t))
    r = subprocess.call(base + ['--seed', str(seed), '--tier', mode, '--time', str(t),
                                '--evidence', evidence, '--replay-out', replay] + sys.argv[3:], env=env)
    try:
        with open(evidence) as f:
            e = json.load(f)
        e['wall_s'] = round(time.time() - t0, 1)
        e['assumptions'] = cfg.get('assumptions', [])
        with open(evidence, 'w') as f:
            json.dump(e, f, indent=1)
    except Exception as x:
        print('evidence:', x)
    if r == 0:
        r = known(prop, base, env)
        replay = r or replay
        r = 1 if r else 0
    if r == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return r


if __name__ == '__main__':
    try:
        code = main()
    except Exception as x:  # e.g. the tree does not compile: no verdict
        print('no verdict:', x)
        code = 2
    sys.exit(code)
