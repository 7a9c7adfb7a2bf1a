#!/usr/bin/env python3
"""refactor.py DEFS [ids] [--props=P01,..] [--jobs=N]: behaviour-preserving edits in scratch copies; every check must stay quiet."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
RFS = {}


def RF(id, edits):
    RFS[id] = edits


def one(id, props):
    w = '/tmp/rfwork/' + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/repo')
    subprocess.run('tar -C /repo --exclude=target --exclude=.git -cf - . | tar -C %s/repo -xf -' % w, shell=True, check=True)
    for f, a, b in RFS[id]:
        p = os.path.join(w, 'repo', f)
        t = open(p).read()
        if t.count(a) < 1:
            return id, {'EDIT': 'no match in %s of %r' % (f, a[:70])}
        open(p, 'w').write(t.replace(a, b, 1))
    env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_CACHE=w + '/cache', VERIF_EVIDENCE=w)
    res = {}
    for c in props:
        r = subprocess.run(['python3', VERIF + '/analysis/check.py', c], capture_output=True, text=True, env=env)
        if r.returncode or 'undecided' in r.stdout.splitlines()[-1]:
            res[c] = (r.returncode, [l[:400] for l in r.stdout.splitlines() if 'VIOLATION' not in l and not l.startswith(' ')][:3], r.stderr[-300:])
        if r.returncode == 2:
            break
    shutil.rmtree(w, ignore_errors=True)
    return id, res


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opt = dict(a[2:].split('=') for a in sys.argv[1:] if a.startswith('--'))
    exec(compile(open(args[0]).read(), args[0], 'exec'))
    ids = args[1:] or list(RFS)
    props = opt['props'].split(',') if 'props' in opt else [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    with ThreadPoolExecutor(int(opt.get('jobs', 4))) as ex:
        for id, r in ex.map(lambda i: one(i, props), ids):
            print(id, 'quiet' if not r else r, flush=True)
