#!/usr/bin/env python3
"""mkseed.py DEFS [ID..]: make seeded/<id>/ from the definitions, in a scratch copy of /repo; confirm build, tests and demo.

A definition: S(id, property, [(file, old, new), ...], rs=[(file, rust code)], needs, breaks, suite='main'|'all')."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SCRATCH = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# Runs the test vp_demo, appended to a scratch copy of the sources. Run in /repo.
set -e
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
tar cf - --exclude=target --exclude=.git . | tar xf - -C "$W"
%s
cd "$W/%s"
export CARGO_TARGET_DIR="$W/target"
timeout 280 cargo test --offline %s vp_demo > "$W/log" 2>&1 && rc=0 || rc=$?
grep -q 'test .*vp_demo.* \\.\\.\\. ok' "$W/log" || { tail -30 "$W/log"; exit 1; }
exit $rc
'''
SEEDS = {}


def S(id, prop, edits, rs, needs, breaks, cwd='.', pkg='-p latke --lib', suite='main', demo=None, extra=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, rs=rs, needs=needs, breaks=breaks, cwd=cwd, pkg=pkg, suite=suite, demo=demo, extra=extra or {})


def make(s):
    d = os.path.join(OUT, s['id'])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    repo = scratch(s['id'])
    for f, a, b in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        n = t.count(a)
        if n != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (s['id'], n, f, a[:80]))
        open(p, 'w').write(t.replace(a, b))
    diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if s['demo'] is None:
        lines = []
        for i, (f, code) in enumerate(s['rs']):
            n = 'demo%d.rs' % i
            open(os.path.join(d, n), 'w').write(code)
            lines.append('cat "$D/%s" >> "$W/%s"' % (n, f))
        demo = DEMO % ('\n'.join(lines), s['cwd'], s['pkg'])
    else:
        demo = s['demo']
    for n, c in s['extra'].items():
        open(os.path.join(d, n), 'w').write(c)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def scratch(id):
    """A copy of /repo's committed tree, as its own git repository."""
    w = os.path.join(SCRATCH, id)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
    return w + '/repo'


def run(cmd, cwd, t=1500, env=None):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    return r.returncode, r.stdout + r.stderr


MAIN = '. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8'
FULL = '''sed "s#/repo#$PWD#g" /opt/vp/env.sh > ../env.sh
mkdir -p ../logs; sed "s#/opt/vp/env.sh#$PWD/../env.sh#; s#/opt/vp/logs#$PWD/../logs#; s#/opt/vp/pqclean-work#$PWD/../pqclean-work#; s#/repo#$PWD#g" /opt/vp/test.sh > ../test.sh
bash ../test.sh ../out.json'''


def confirm(s, checks, demo=True):
    d = os.path.join(OUT, s['id'])
    w = os.path.join(SCRATCH, s['id'])
    repo = w + '/repo'
    res = {}
    if demo:
        rc, o = run('bash %s/demo.sh' % d, repo)
        res['clean-demo'] = rc == 0
        if rc:
            print(o[-1500:])
    subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
    if demo:
        if s['suite'] == 'main':
            rc, o = run(MAIN, repo)
            res['tests'] = rc == 0
            if rc:
                print(o[-1500:])
        else:
            rc, o = run(FULL, repo)
            b = json.load(open('/opt/vp/BASELINE.json'))['stable']
            t = json.load(open(w + '/out.json'))
            passed = set(t.get('passed', t.get('pass', [])))
            res['tests'] = set(b) <= passed
            if not res['tests']:
                print(sorted(set(b) - passed)[:10])
        rc, o = run('bash %s/demo.sh' % d, repo)
        res['patched-demo-fails'] = rc != 0
        res['why'] = [l for l in o.splitlines() if 'panicked' in l or 'error' in l][:2]
    env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=w + '/cache', VERIF_EVIDENCE=w)
    for c in checks or [s['prop']]:
        rc, o = run('python3 %s/analysis/check.py %s' % (os.path.dirname(HERE), c), repo, env=env)
        l = [x for x in o.splitlines() if x.strip()]
        res[c] = 'CAUGHT' if rc == 1 else rc
        if rc not in (0, 1):
            res['out'] = o[-500:]
        if rc == 1:
            res['msg'] = [x[:300] for x in l if not x.startswith(' ') and 'VIOLATION' not in x][:1]
    shutil.rmtree(w, ignore_errors=True)
    return res


if __name__ == '__main__':
    args = sys.argv[1:]
    nodemo = '--checks' in args
    allc = '--all' in args
    args = [a for a in args if not a.startswith('--')]
    defs = args[0]
    exec(compile(open(defs).read(), defs, 'exec'))
    ids = args[1:] or list(SEEDS)
    checks = None
    if allc:
        checks = [c['property'] for c in json.load(open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json')))['checks']]
    for i in ids:
        s = SEEDS[i]
        make(s)
        r = confirm(s, checks, demo=not nodemo)
        if allc:
            r = {k: v for k, v in r.items() if v != 0}
        print(i, s['prop'], r, flush=True)
