"""Which checks catch which planted bugs: apply each seeded/<id>/patch.diff to a scratch copy of /repo and run every check anchored
in the part of the repository it touches. Writes seeds.json, from which spec.py fills the table in DESIGN.md.

    python3 tools/catch.py [--jobs=N] [ids...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/catchwork'


def part(path):
    return 'dilithium' if path.startswith('pqcrypto') else path.split('/')[0]


def one(i):
    d = os.path.join(HERE, 'seeded', i)
    patch = open(d + '/patch.diff').read()
    parts = {part(l[6:]) for l in patch.splitlines() if l.startswith('+++ b/')}
    checks = [p['id'] for p in PROPS if p['id'] in CLAIMED and parts & {part(f) for f in p['anchors']['files']}]
    w = os.path.join(W, i)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
    subprocess.run(['git', '-C', w + '/repo', 'apply', d + '/patch.diff'], check=True)
    env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_CACHE=w + '/cache', VERIF_EVIDENCE=w)
    r = {}
    for c in checks:
        p = subprocess.run(['python3', HERE + '/analysis/check.py', c], cwd=w + '/repo', capture_output=True, text=True, env=env)
        if p.returncode == 1 and 'VIOLATION property=' + c in p.stdout:
            l = [x for x in p.stdout.splitlines() if x.strip() and not x.startswith((' ', 'VIOLATION', 'P'))]
            r[c] = (l or [''])[0][:200]
        elif p.returncode:
            r['!' + c] = p.returncode
    shutil.rmtree(w, ignore_errors=True)
    return i, r


PROPS = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
CLAIMED = {c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']}

if __name__ == '__main__':
    jobs = int(next((a[7:] for a in sys.argv if a.startswith('--jobs=')), 3))
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(HERE + '/seeded'))
    f = HERE + '/seeds.json'
    out = json.load(open(f)) if os.path.exists(f) else {}
    with ThreadPoolExecutor(jobs) as ex:
        for i, r in ex.map(one, ids):
            out[i] = r
            print(i, sorted(r), flush=True)
            json.dump({k: out[k] for k in sorted(out) if os.path.isdir(HERE + '/seeded/' + k)}, open(f, 'w'), indent=1)
