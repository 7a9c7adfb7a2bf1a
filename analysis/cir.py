"""LLVM IR of the Dilithium C sources: generated by clang -O0 + mem2reg from the current tree, parsed into Python tuples."""
import hashlib
import os
import re
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
BIN = '/usr/lib/llvm-18/bin/'
FLAGS = ['-w', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-S', '-g', '-mavx2', '-mbmi2', '-mbmi', '-maes', '-mpopcnt', '-mpclmul']

TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!#][-\w.$]+|-?\d+\.\d+e[+-]\d+|-?\d+|0x[0-9A-Fa-f]+|[\w.$]+|\.\.\.|[(){}\[\]<>,=*!|:]''')


class Broken(Exception):
    """the sources do not compile"""


class IRError(Exception):
    pass


def tool(n):
    for p in (BIN + n, '/usr/bin/' + n, '/usr/bin/%s-18' % n):
        if os.path.exists(p):
            return p
    return n


def sources(d):
    h = hashlib.sha256()
    dirs = [d, REPO + '/pqcrypto/pqclean/common', REPO + '/pqcrypto/pqcrypto-internals/include']
    for q in dirs:
        for root, _, fs in sorted(os.walk(q)):
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.inc', '.S')):
                    h.update(f.encode())
                    h.update(open(os.path.join(root, f), 'rb').read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()[:24]


def build(scheme, variant):
    """textual IR of each C file of one implementation: {file: text}"""
    d = REPO + '/pqcrypto/pqclean/crypto_sign/%s/%s' % (scheme, variant)
    if not os.path.isdir(d):
        raise Broken('no directory %s' % d)
    return compile_dir(d, '%s-%s-' % (scheme, variant), sorted(f for f in os.listdir(d) if f.endswith('.c')))


def compile_dir(d, name, files):
    key = sources(d)
    out = os.path.join(CACHE, 'll', name + key)
    if not os.path.isdir(out):
        tmp = out + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        inc = ['-I' + REPO + '/pqcrypto/pqcrypto-internals/include', '-I' + REPO + '/pqcrypto/pqclean/common', '-I' + d]
        procs = []
        for f in files:
            o = os.path.join(tmp, f + '.ll')
            cmd = '%s %s %s %s -o %s.0 && %s -S -passes=always-inline,mem2reg %s.0 -o %s && rm %s.0' % (
                tool('clang'), ' '.join(FLAGS), ' '.join(inc), os.path.join(d, f), o, tool('opt'), o, o, o)
            procs.append((f, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, p in procs:
            t = p.communicate()[0].decode()
            if p.returncode:
                raise Broken('clang failed on %s: %s' % (f, t[-500:]))
        try:
            os.rename(tmp, out)
        except OSError:
            pass
        # keep the cache small
        base = os.path.join(CACHE, 'll')
        old = sorted((x for x in os.listdir(base) if x.startswith(name) and not os.path.join(base, x) == out), key=lambda x: os.path.getmtime(os.path.join(base, x)))
        for x in old[:-2]:
            import shutil
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    return {f: open(os.path.join(out, f + '.ll')).read() for f in files}


# ---- types: ('i', n) ('p',) ('v',) ('a', n, t) ('vec', n, t) ('s', [t..]) ('n', name) ('f', n)
class Mod:
    def __init__(self):
        self.types = {}
        self.typetext = {}
        self.globals = {}
        self.fns = {}
        self.decl = set()
        self.lines = {}      # (file, dbg id) -> line
        self.sz = {}

    def size(self, t):
        r = self.sz.get(t)
        if r is None:
            r = self.sz[t] = self.size_(t)
        return r

    def align(self, t):
        k = t[0]
        if k == 'i':
            return max(1, min(8, (t[1] + 7) // 8))
        if k == 'p':
            return 8
        if k == 'f':
            return t[1] // 8
        if k == 'a':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 's':
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'ps':
            return 1
        if k == 'n':
            return self.align(self.types[t[1]])
        return 1

    def size_(self, t):
        k = t[0]
        if k == 'i':
            return (t[1] + 7) // 8
        if k == 'p':
            return 8
        if k == 'f':
            return t[1] // 8
        if k in ('a', 'vec'):
            return t[1] * self.size(t[2])
        if k == 's':
            o = 0
            for x in t[1]:
                a = self.align(x)
                o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        if k == 'ps':
            return sum(self.size(x) for x in t[1])
        if k == 'n':
            return self.size(self.types[t[1]])
        raise IRError('size of %r' % (t,))

    def field(self, t, i):
        while t[0] == 'n':
            t = self.types[t[1]]
        if t[0] == 'ps':
            return sum(self.size(x) for x in t[1][:i]), t[1][i]
        o = 0
        for j, x in enumerate(t[1]):
            a = self.align(x)
            o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise IRError('field')


class P:
    """a token stream"""

    def __init__(self, s, loc):
        self.t = TOK.findall(s)
        self.i = 0
        self.loc = loc

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else ''
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        if not self.eat(x):
            raise IRError('expected %s at %r in %s' % (x, self.t[self.i:self.i + 8], ' '.join(self.t)[:200]))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = ('p',)
        elif x == 'void':
            t = ('v',)
        elif re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x == 'float':
            t = ('f', 32)
        elif x == 'double':
            t = ('f', 64)
        elif x in ('metadata', 'label', 'token', 'x86_fp80', 'half'):
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.want('x')
            t = ('a', n, self.type())
            self.want(']')
        elif x == '<':
            if self.peek() == '{':
                self.next()
                l = []
                while not self.eat('}'):
                    l.append(self.type())
                    self.eat(',')
                self.want('>')
                t = ('ps', tuple(l))
            else:
                n = int(self.next())
                self.want('x')
                t = ('vec', n, self.type())
                self.want('>')
        elif x == '{':
            l = []
            while not self.eat('}'):
                l.append(self.type())
                self.eat(',')
            t = ('s', tuple(l))
        elif x.startswith('%'):
            t = ('n', x)
        else:
            raise IRError('type? %s in %s' % (x, ' '.join(self.t)[:200]))
        while self.peek() == '(' and t[0] in ('v', 'i', 'p') and self.loc == 'fnty':
            break
        return t

    def attrs(self):
        """skip parameter attributes"""
        while True:
            x = self.peek()
            if x in ('noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'inreg', 'returned', 'immarg', 'noreturn', 'inrange', 'nest', 'allocptr', 'noinline', 'writable', 'dead_on_unwind'):
                self.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                self.next()
                if self.eat('('):
                    while not self.eat(')'):
                        self.next()
                else:
                    self.next()
            elif x in ('byval', 'sret', 'elementtype', 'byref', 'memory', 'captures'):
                self.next()
                d = 0
                self.want('(')
                d = 1
                while d:
                    y = self.next()
                    d += y == '('
                    d -= y == ')'
            else:
                return

    def value(self, t):
        x = self.peek()
        if x in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sub', 'add', 'select', 'icmp'):
            op = self.next()
            if op == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.want('(')
                st = self.type()
                self.want(',')
                l = []
                while not self.eat(')'):
                    self.attrs()
                    ty = self.type()
                    self.attrs()
                    l.append((ty, self.value(ty)))
                    self.eat(',')
                return ('cgep', st, l)
            self.want('(')
            ty = self.type()
            v = self.value(ty)
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext'):
                self.want('to')
                t2 = self.type()
                self.want(')')
                return ('ccast', op, ty, v, t2)
            raise IRError('constant expression ' + op)
        if x == '<':
            if self.peek(1) == '{':
                self.next()
                self.next()
                l = []
                while not self.eat('}'):
                    ty = self.type()
                    l.append(self.value(ty))
                    self.eat(',')
                self.want('>')
                return ('agg', l)
            self.next()
            l = []
            while not self.eat('>'):
                ty = self.type()
                l.append(self.value(ty))
                self.eat(',')
            return ('agg', l)
        if x in ('[', '{'):
            self.next()
            e = ']' if x == '[' else '}'
            l = []
            while not self.eat(e):
                ty = self.type()
                l.append(self.value(ty))
                self.eat(',')
            return ('agg', l)
        self.next()
        if x.startswith('%'):
            return ('%', x)
        if x.startswith('@'):
            return ('@', x[1:].strip('"'))
        if x in ('undef', 'poison'):
            return ('undef',)
        if x in ('null', 'zeroinitializer'):
            return ('zero',)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x.startswith('c"'):
            return ('str', unesc(x[2:-1]))
        if re.fullmatch(r'-?\d+', x):
            return ('c', int(x))
        if x == 'c' and self.peek().startswith('"'):
            return ('str', unesc(self.next()[1:-1]))
        if x == 'splat':
            self.want('(')
            ty = self.type()
            v = self.value(ty)
            self.want(')')
            return ('agg', [v] * t[1])
        raise IRError('value? %s in %s' % (x, ' '.join(self.t)[:300]))


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


class Fn:
    def __init__(self, name, params, ret, file):
        self.name = name
        self.params = params     # [(type, reg)]
        self.ret = ret
        self.file = file
        self.blocks = {}         # label -> [instr]
        self.order = []
        self.local = False
        self.line = 0

    def cfg(self):
        """successors, natural loops {header: set of blocks}"""
        if hasattr(self, 'loops'):
            return
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t[0] == 'br':
                self.succ[b] = [t[2]] if t[3] is None else [t[3], t[4]]
            elif t[0] == 'switch':
                self.succ[b] = [t[4]] + [x[1] for x in t[5]]
            else:
                self.succ[b] = []
        entry = self.order[0]
        pred = {}
        for b, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, set()).add(b)
        # dominators
        dom = {b: set(self.order) for b in self.order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b == entry:
                    continue
                ps = [dom[p] for p in pred.get(b, ())]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.loops = {}
        for b, ss in self.succ.items():
            for h in ss:
                if h in dom[b]:
                    body = self.loops.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred.get(x, ()))


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'sitofp', 'uitofp', 'fptoui'}


def parse(text, mod, file):
    cur = None
    blk = None
    # types of one name may differ between files
    defs = re.findall(r'^(%[-\w.$]+) = type (.*)$', text, re.M)
    own = {n: n + '.' + re.sub(r'\W', '_', file) for n, b in defs if mod.typetext.setdefault(n, b) != b}
    if own:
        text = re.sub(r'%[-\w.$]+', lambda m: own.get(m.group(0), m.group(0)), text)
    lines = text.split('\n')
    i = 0
    fid = file
    for l in lines:
        m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
        if m:
            mod.lines[(fid, int(m.group(1)))] = int(m.group(2))
        else:
            m = re.match(r'^!(\d+) = (?:distinct )?!DISubprogram\(.*?\bline: (\d+)', l)
            if m:
                mod.lines[(fid, int(m.group(1)))] = int(m.group(2))
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l or l[0] in ';!' or l.startswith(('source_filename', 'target ', 'attributes', '^')):
            continue
        if cur is None:
            m = re.match(r'^(%\S+) = type (.*)$', l)
            if m:
                if m.group(2) == 'opaque':
                    continue
                mod.types[m.group(1)] = P(m.group(2), '').type()
                continue
            if l.startswith('@'):
                m = re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$', l)
                name = m.group(1).strip('"')
                p = P(m.group(2), '')
                ext = False
                while p.peek() not in ('global', 'constant'):
                    if p.next() == 'external':
                        ext = True
                const = p.next() == 'constant'
                t = p.type()
                v = None
                if not ext:
                    v = p.value(t)
                local = bool(re.match(r'^(private|internal)', m.group(2)))
                key = (file, name) if local else name
                if v is not None or key not in mod.globals:
                    mod.globals[key] = (t, v, const)
                continue
            if l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                mod.decl.add(m.group(1).strip('"'))
                continue
            if l.startswith('define'):
                m = re.match(r'^define (.*?)@("[^"]*"|[-\w.$]+)\((.*)$', l)
                name = m.group(2).strip('"')
                p = P(m.group(3), '')
                params = []
                while not p.eat(')'):
                    if p.eat('...'):
                        continue
                    t = p.type()
                    p.attrs()
                    r = p.next() if p.peek().startswith('%') else '%%%d' % len(params)
                    params.append((t, r))
                    p.eat(',')
                hd = m.group(1)
                rt = P(re.sub(r'\b(dso_local|internal|hidden|noundef|signext|zeroext|linkonce_odr|available_externally|weak|external|nonnull|noalias|protected|local_unnamed_addr)\b', '', hd), '').type()
                cur = Fn(name, params, rt, file)
                cur.local = 'internal' in hd
                dm = re.search(r'!dbg !(\d+)', l)
                cur.line = mod.lines.get((fid, int(dm.group(1))), 0) if dm else 0
                blk = None
            continue
        if l == '}':
            mod.fns[(file, cur.name) if cur.local else cur.name] = cur
            cur = None
            continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if m:
            blk = '%' + m.group(1).strip('"')
            cur.blocks[blk] = []
            cur.order.append(blk)
            continue
        if blk is None:
            blk = '%entry'
            cur.blocks[blk] = []
            cur.order.append(blk)
        if '@llvm.dbg.' in l:
            continue
        if 'switch' in l and l.rstrip().endswith('['):
            while not lines[i].strip().startswith(']'):
                l += ' ' + lines[i]
                i += 1
            l += ' ' + lines[i]
            i += 1
        ins = instr(l, mod, fid)
        if ins:
            cur.blocks[blk].append(ins)


def instr(l, mod, fid):
    line = 0
    m = re.search(r', !dbg !(\d+)', l)
    if m:
        line = mod.lines.get((fid, int(m.group(1))), 0)
    l = re.sub(r'(, ![\w.]+ !\d+)+$', '', l.rstrip())
    l = re.sub(r' #\d+$', '', l)
    p = P(l, '')
    d = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        d = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.want(',')
        b = p.value(t)
        return ('bin', line, d, op, t, a, b, 'nsw' in fl)
    if op in CASTS:
        while p.peek() in ('nneg', 'nsw', 'nuw'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.want('to')
        return ('cast', line, d, op, t, a, p.type())
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type()
        p.want(',')
        p.type()
        b = p.value(('p',))
        idx = []
        while p.eat(','):
            t = p.type()
            idx.append((t, p.value(t)))
        return ('gep', line, d, st, b, idx)
    if op == 'load':
        p.eat('volatile')
        t = p.type()
        p.want(',')
        p.type()
        return ('load', line, d, t, p.value(('p',)))
    if op == 'store':
        p.eat('volatile')
        t = p.type()
        v = p.value(t)
        p.want(',')
        p.type()
        return ('store', line, None, t, v, p.value(('p',)))
    if op == 'alloca':
        t = p.type()
        n = None
        while p.eat(','):
            if p.eat('align'):
                p.next()
            else:
                ty = p.type()
                n = p.value(ty)
        return ('alloca', line, d, t, n)
    if op == 'icmp':
        p.eat('samesign')
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.want(',')
        return ('icmp', line, d, pr, t, a, p.value(t))
    if op == 'phi':
        t = p.type()
        l2 = []
        while True:
            p.want('[')
            v = p.value(t)
            p.want(',')
            b = p.next()
            p.want(']')
            l2.append((v, b.replace('"', '')))
            if not p.eat(','):
                break
        return ('phi', line, d, t, l2)
    if op == 'br':
        if p.eat('label'):
            return ('br', line, p.next().replace('"', ''), None, None)
        p.type()
        c = p.value(('i', 1))
        p.want(',')
        p.want('label')
        a = p.next().replace('"', '')
        p.want(',')
        p.want('label')
        return ('br', line, c, a, p.next().replace('"', ''))
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.want(',')
        p.want('label')
        dflt = p.next().replace('"', '')
        p.want('[')
        cs = []
        while not p.eat(']'):
            ty = p.type()
            c = p.value(ty)
            p.want(',')
            p.want('label')
            cs.append((c[1], p.next().replace('"', '')))
        return ('switch', line, t, v, dflt, cs)
    if op == 'ret':
        t = p.type()
        return ('ret', line, None if t[0] == 'v' else p.value(t), t)
    if op == 'unreachable':
        return ('unreachable', line)
    if op == 'select':
        while p.peek() in ('fast', 'nnan'):
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.want(',')
        t = p.type()
        a = p.value(t)
        p.want(',')
        t = p.type()
        return ('select', line, d, ct, c, t, a, p.value(t))
    if op == 'call':
        while True:
            x = p.peek()
            if x in ('fastcc', 'ccc', 'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'range'):
                p.next()
                if x == 'range':
                    while p.next() != ')':
                        pass
            elif x in ('align', 'dereferenceable'):
                p.attrs()
            else:
                break
        t = p.type()
        if p.peek() == '(':
            while p.next() != ')':
                pass
        f = p.value(('p',)) if p.peek().startswith(('@', '%')) else None
        if f is None:
            if p.peek() == 'asm':
                return ('call', line, d, t, ('asm',), [])
            raise IRError('call ' + l)
        p.want('(')
        args = []
        while not p.eat(')'):
            ty = p.type()
            p.attrs()
            args.append((ty, p.value(ty)))
            p.eat(',')
        return ('call', line, d, t, f, args)
    if op == 'extractelement':
        t = p.type()
        a = p.value(t)
        p.want(',')
        t2 = p.type()
        return ('extractelement', line, d, t, a, p.value(t2))
    if op == 'insertelement':
        t = p.type()
        a = p.value(t)
        p.want(',')
        t2 = p.type()
        b = p.value(t2)
        p.want(',')
        t3 = p.type()
        return ('insertelement', line, d, t, a, b, p.value(t3))
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.want(',')
        p.type()
        b = p.value(t)
        p.want(',')
        t3 = p.type()
        return ('shufflevector', line, d, t, a, b, t3, p.value(t3))
    if op in ('extractvalue', 'insertvalue', 'freeze', 'fneg', 'fadd', 'fmul', 'fence'):
        if op == 'freeze':
            t = p.type()
            return ('freeze', line, d, t, p.value(t))
        raise IRError(op)
    raise IRError('instruction %s: %s' % (op, l[:150]))


SHARED = {'common': 'pqcrypto/pqclean/common', 'internals': 'pqcrypto/pqcrypto-internals/cfiles'}


def load_common(which='common', files=('fips202.c',)):
    """the shared C files: PQClean's, or the copy that the Rust crates are linked with"""
    sys.setrecursionlimit(20000)
    mod = Mod()
    for f, text in compile_dir(os.path.join(REPO, SHARED[which]), '%s-%s-' % (which, '-'.join(files)), list(files)).items():
        parse(text, mod, f)
    mod.scheme, mod.variant = which, 'c'
    return mod


def load(scheme, variant, only=None):
    sys.setrecursionlimit(20000)
    mod = Mod()
    for f, text in build(scheme, variant).items():
        if only is None or f in only:
            parse(text, mod, f)
    for f in mod.fns.values():
        f.cfg()
    mod.scheme, mod.variant = scheme, variant
    return mod


if __name__ == '__main__':
    import time
    for s in ('dilithium2', 'dilithium3', 'dilithium5'):
        for v in ('clean', 'avx2'):
            t = time.time()
            m = load(s, v)
            print(s, v, len(m.fns), sum(len(i) for f in m.fns.values() for i in f.blocks.values()), round(time.time() - t, 1))
