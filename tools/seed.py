"""development aid: make /verif/seeded/<id> from a definition, after confirming it (build, stable tests, demo with and without the change).
usage: seed.py DEFS.py [id...]"""
import json, os, subprocess, sys, runpy
R, S = '/repo', '/verif/seeded'
DEMO = '''#!/bin/bash
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -w -I src -o "$d/demo" "$(dirname "$0")/demo.cc" "$(find "$PWD/_build" -name libslalib.a | head -1)" || exit 3
timeout 60 "$d/demo"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests():
    r = sh('bash', '/opt/vp/test.sh', '/tmp/seed_out.json')
    res = json.load(open('/tmp/seed_out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base.get('stable') or base.get('passed') or base.get('tests')
    miss = [t for t in want if t not in res['passed']]
    return miss


defs = runpy.run_path(sys.argv[1])['BUGS']
for b in defs:
    if sys.argv[2:] and b['id'] not in sys.argv[2:]:
        continue
    d = os.path.join(S, b['id'])
    assert not sh('git', '-C', R, 'status', '--porcelain', '-uno').stdout.strip()
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(b['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    try:
        sh('bash', '/opt/vp/build.sh')
        clean = sh('bash', d + '/demo.sh', cwd=R)
        for f, old, new in b['edits']:
            p = os.path.join(R, 'src', f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', R, 'diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        miss = tests()
        bad = sh('bash', d + '/demo.sh', cwd=R)
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
        sh('bash', '/opt/vp/build.sh')
    ok = clean.returncode == 0 and bad.returncode not in (0, 3) and not miss
    print(b['id'], b['property'], 'OK' if ok else 'REJECTED', 'clean rc', clean.returncode, clean.stdout[-200:], clean.stderr[-300:], '| bad rc', bad.returncode, bad.stdout[-200:], bad.stderr[-300:], '| tests lost', miss)
    if not ok:
        sh('rm', '-r', d)
