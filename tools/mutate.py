#!/usr/bin/env python3
"""mutate.py FILES.. --pkg=latke --props=P01,.. [--jobs=N] [--max=N] [--seed=N] [--suite=CMD]: textual mutants of the sources; those
that build and pass the tests go through the checks, and those no check reports are listed."""
import os
import random
import re
import shutil
import subprocess
import sys
import threading
from queue import Queue, Empty

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/mutwork'
SWAPS = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('&&', '||'), ('||', '&&'), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'),
         ('Initiator', 'Responder'), ('Responder', 'Initiator'), ('true', 'false'), ('false', 'true'), ('+ 1', '+ 2'), ('- 1', '- 2'), (' + ', ' - '), (' - ', ' + '), (' << ', ' >> '), (' >> ', ' << '),
         (' & ', ' | '), (' | ', ' & '), (' ^ ', ' | '), ('&mut ', '&mut *&mut '), ('..=', '..'), ('<<=', '>>='), ('>>=', '<<='), ('+=', '='), ('|=', '='), ('-=', '+='),
         ('self.', 'other.'), ('.0', '.1'), ('.1', '.0'), ('++', '--'), ('break', 'continue'), ('continue', 'break')]


def mutants(path, text):
    """[(line number, description, new text)]"""
    lines = text.split('\n')
    end = next((i for i, l in enumerate(lines) if 'cfg(test)' in l), len(lines))
    out = []
    names = sorted(set(re.findall(r'\b[a-z_][a-z0-9_]{2,}\b', text)))
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'pub use', '*', '/*', 'mod ', 'pub mod')):
            continue

        def put(new, what):
            if new != l:
                out.append((i + 1, what, '\n'.join(lines[:i] + [new] + lines[i + 1:])))
        if s.endswith(';') and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith(('let ', 'type ', 'const ', 'static ', 'pub ', 'fn ', 'unsigned', 'uint', 'int', 'return')):
            put('', 'delete')
        for a, b in SWAPS:
            j = l.find(a)
            k = 0
            while j >= 0 and k < 3:
                put(l[:j] + b + l[j + len(a):], '%s -> %s' % (a, b))
                j = l.find(a, j + 1)
                k += 1
        for m in re.finditer(r'\b\d+\b', l):
            if not re.search(r'[A-Za-z_"\[]$', l[:m.start()]):
                put(l[:m.start()] + str(int(m.group()) + 1) + l[m.end():], 'number + 1')
                if int(m.group()) > 0:
                    put(l[:m.start()] + str(int(m.group()) - 1) + l[m.end():], 'number - 1')
        for m in re.finditer(r'([(,]\s*)([^(),]+?)(\s*,\s*)([^(),]+?)(?=\s*[,)])', l):
            put(l[:m.start()] + m.group(1) + m.group(4) + m.group(3) + m.group(2) + l[m.end():], 'swap arguments')
        for m in re.finditer(r'([\[(,]\s*)([^(),\[\]]+?),\s*(?=[^(),\[\]]+?[,\])])', l):
            if '[' in l[:m.start() + 2]:
                put(l[:m.start()] + m.group(1) + l[m.end():], 'drop element')
        if s.endswith(')?;'):
            put(l.replace(')?;', ');'), 'ignore result')
            if not s.startswith('let '):
                put(l.replace(s, 'let _ = ' + s.replace(')?;', ');')), 'ignore result')
        m = re.match(r'(\s*)(\.\w+\(.*\))$', l)
        if m:
            put('', 'drop call in chain')
        for m in re.finditer(r'\b(?:self\.)?([a-z_][a-z0-9_]{2,})\b(?!\s*[(:!{])', l):
            w = m.group(1)
            near = [n for n in names if n != w and (n.split('_')[-1] == w.split('_')[-1] or n.split('_')[0] == w.split('_')[0])]
            for n in near[:4]:
                put(l[:m.start(1)] + n + l[m.end(1):], '%s -> %s' % (w, n))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opt = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--'))
    props = opt['props'].split(',')
    jobs = int(opt.get('jobs', 4))
    todo = []
    for f in args:
        for m in mutants(f, open('/repo/' + f).read()):
            todo.append((f,) + m)
    random.Random(int(opt.get('seed', 1))).shuffle(todo)
    todo = todo[:int(opt.get('max', 10 ** 9))]
    print(len(todo), 'mutants', flush=True)
    if 'target' in opt:
        opt['want'] = subprocess.run(['bash', VERIF + '/tools/csuite.sh', '/repo'] + opt['target'].split('/'), capture_output=True, text=True).stdout.strip()
        assert opt['want']
    q = Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    n = {'build': 0, 'killed': 0, 'caught': 0, 'quiet': 0}

    def worker(k):
        w = '%s/%s%d' % (WORK, opt.get('name', 'w'), k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        if 'target' in opt:
            os.makedirs(w + '/repo/pqcrypto/pqclean/crypto_sign')
            for d in ('pqclean/common', 'pqclean/test', 'pqclean/crypto_sign/' + opt['target'].split('/')[0], 'pqcrypto-internals'):
                shutil.copytree('/repo/pqcrypto/' + d, w + '/repo/pqcrypto/' + d)
            opt['build'] = 'true'
            s_, v_ = opt['target'].split('/')
            opt['suite'] = 'bash %s/tools/csuite.sh $PWD %s %s' % (VERIF, s_, v_)
        else:
            subprocess.run('cp -a /repo %s/repo' % w, shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_CACHE=w + '/c', VERIF_EVIDENCE=w)
        while True:
            try:
                f, line, what, new = q.get_nowait()
            except Empty:
                break
            p = w + '/repo/' + f
            old = open(p).read()
            open(p, 'w').write(new)
            try:
                b = subprocess.run('. /opt/vp/env.sh; cd %s/repo; %s' % (w, opt.get('build', 'cargo build --offline -q -p %s --lib' % opt.get('pkg', 'latke'))), shell=True, capture_output=True, timeout=200)
                if b.returncode:
                    n['build'] += 1
                    continue
                t = subprocess.run('. /opt/vp/env.sh; cd %s/repo; %s' % (w, opt.get('suite', 'cargo test --offline -q -p %s' % opt.get('pkg', 'latke'))), shell=True, capture_output=True, timeout=300)
                if t.returncode:
                    n['killed'] += 1
                    continue
                if 'want' in opt and opt['want'] not in t.stdout.decode():
                    n['killed'] += 1
                    continue
                res = []
                for c in props if 'target' in opt else ():
                    r = subprocess.run(['python3', VERIF + '/tools/target.py', c.lower(), opt['target']], capture_output=True, text=True, env=env, timeout=600)
                    v = [l for l in r.stdout.split('\n') if l.startswith('  V')]
                    if v:
                        res = [c + ' ' + v[0][:150]]
                        break
                    if '==' not in r.stdout:
                        res.append('(%s no answer)' % c)
                    elif '  U' in r.stdout:
                        res.append('(%s undecided)' % c)
                for c in props if 'target' not in opt else ():
                    r = subprocess.run(['python3', VERIF + '/analysis/check.py', c], capture_output=True, text=True, env=env, timeout=600)
                    if r.returncode == 1:
                        res = [c + ' ' + r.stdout.split('\n')[0][:150]]
                        break
                    if r.returncode:
                        res.append('%s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr)[-150:]))
                    elif 'undecided' in r.stdout:
                        res.append('(%s undecided)' % c)
                kind = 'caught' if res and not res[0].startswith('(') else 'quiet'
                n[kind] += 1
                with lock:
                    print(kind, '%s:%d' % (f, line), what, '|', new.split('\n')[line - 1].strip()[:110], '|', '; '.join(res), flush=True)
            except subprocess.TimeoutExpired:
                n['killed'] += 1
            finally:
                open(p, 'w').write(old)
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(n, flush=True)


if __name__ == '__main__':
    main()
