"""Confirm a planted bug and keep it under seeded/<id>/.

    plant.py SPEC.py [--nocheck]

SPEC.py defines id, property, needs, what, edits = [(file, old, new), ...]
and demo (python source; exit status 0 on the unchanged tree).
The bug is applied to /repo, built, tested, demonstrated and undone."""
import json, os, re, subprocess, sys
REPO, HERE = '/repo', '/verif/seeded'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -r -- "$w"' EXIT
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1
cd "$w" && timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def git(*a):
    return sh('git', '-C', REPO, *a).stdout


def passed():
    b = json.load(open('/opt/vp/BASELINE.json'))
    sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
    o = json.load(open('/tmp/plant.json'))

    def p(d):
        for k in ('passed', 'stable', 'tests'):
            if isinstance(d.get(k), list):
                return set(d[k])
        return {k for k, v in d.items() if v in ('passed', 'pass', True)}
    return sorted(p(b) - p(o))


def main(spec, check=True):
    ns = {}
    exec(open(spec).read(), ns)
    assert not git('status', '--porcelain').strip(), 'repo not clean'
    d = os.path.join(HERE, ns['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(ns['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['property'], 'needs': ns['needs'],
               'what_it_breaks': ns['what']},
              open(d + '/meta.json', 'w'), indent=1)
    try:
        r = sh('bash', d + '/demo.sh', cwd=REPO)
        if r.returncode:
            print(ns['id'], 'BAD: demo fails on clean tree\n', r.stdout[-1500:])
            return
        for f, old, new in ns['edits']:
            p = os.path.join(REPO, 'src', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['id'], 'BAD edit: %i matches in %s of %r'
                      % (s.count(old), f, old))
                return
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(git('diff'))
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            print(ns['id'], 'BAD build', r.stdout[-800:])
            return
        m = passed()
        m = [x for x in m if not x.endswith('::test_traj')]
        r = sh('bash', d + '/demo.sh', cwd=REPO)
        ok = r.returncode != 0 and not m
        print(ns['id'], 'OK' if ok else 'BAD', 'demo=%i' % r.returncode,
              'failing tests', m, '|', r.stdout.strip().split('\n')[-1][:150])
        if check:
            r = sh('./check', ns['property'], '--quick', cwd='/verif')
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            print('    check', ns['property'], 'rc', r.returncode,
                  v[:1] or r.stdout[-300:])
    finally:
        git('checkout', '--', '.')
        sh('bash', '/opt/vp/build.sh')


if __name__ == '__main__':
    for s in sys.argv[1:]:
        if not s.startswith('--'):
            main(s, '--nocheck' not in sys.argv)
