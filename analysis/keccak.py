"""Value numbering of Keccak code: 64-bit words as exclusive-ors of masked products of rotated lanes (their algebraic normal
form), over the lanes of one round.  A word that equals a lane of the next round of Keccak-f[1600] is replaced by that lane, so
code of 24 rounds ends in the 25 lanes after round 24 exactly if each step computes what the standard says.
Loop counters, addresses and tables are constants; a branch on state bits is followed both ways."""
import re

M64 = (1 << 64) - 1
ONE = frozenset()
ROT = [0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14]
LIMIT = 700


class Stuck(Exception):
    pass


class Bad(Exception):
    """a definite fault: an access outside the state, no return"""


def constants():
    out, s = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if s & 1:
                c |= 1 << ((1 << j) - 1)
            s <<= 1
            if s & 0x100:
                s ^= 0x171
        out.append(c)
    return out


RC = constants()


class W:
    """a 64-bit word of one instance: {product of rotated lanes: mask}"""
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k, self.d = k, d

    def support(self):
        m = 0
        for x in self.d.values():
            m |= x
        return m

    def show(self):
        out = []
        for m, x in sorted(self.d.items(), key=lambda e: (len(e[0]), sorted(e[0])))[:6]:
            t = '.'.join('L%d[%d]' % divmod(c >> 6, 25) + ('<<<%d' % (c & 63) if c & 63 else '') for c in sorted(m)) or '1'
            out.append(t if x == M64 else '%s&%x' % (t, x))
        return ' ^ '.join(out) + (' ^ .. (%d terms)' % len(self.d) if len(self.d) > 6 else '')


def norm(k, d):
    if not d:
        return 0
    if len(d) == 1 and ONE in d:
        return d[ONE]
    if len(d) > LIMIT:
        raise Stuck('a word has no short form')
    return W(k, d)


def dd(a):
    return a.d if isinstance(a, W) else ({ONE: a} if a else {})


def inst(a, b):
    if isinstance(a, W) and isinstance(b, W) and a.k != b.k:
        raise Stuck('a word mixes two instances')
    return a.k if isinstance(a, W) else b.k


def xor(a, b):
    if not isinstance(a, W) and not isinstance(b, W):
        return a ^ b
    k = inst(a, b)
    x, y = dd(a), dd(b)
    if len(x) < len(y):
        x, y = y, x
    d = dict(x)
    for m, v in y.items():
        n = d.get(m, 0) ^ v
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return norm(k, d)


def conj(a, b):
    if not isinstance(a, W) and not isinstance(b, W):
        return a & b
    k = inst(a, b)
    x, y = dd(a), dd(b)
    if len(x) * len(y) > 20000:
        raise Stuck('a word has no short form')
    d = {}
    for m, v in x.items():
        for n, w in y.items():
            z = v & w
            if z:
                p = m | n
                q = d.get(p, 0) ^ z
                if q:
                    d[p] = q
                else:
                    d.pop(p, None)
    return norm(k, d)


def disj(a, b):
    if not isinstance(a, W) and not isinstance(b, W):
        return a | b
    x = xor(a, b)
    s = a.support() if isinstance(a, W) else a
    t = b.support() if isinstance(b, W) else b
    return x if not s & t else xor(x, conj(a, b))


def inv(a):
    return xor(a, M64)


def rotm(x, k):
    k &= 63
    return ((x << k) | (x >> (64 - k))) & M64 if k else x


def rotl(a, k):
    k &= 63
    if not k:
        return a
    if not isinstance(a, W):
        return rotm(a, k)
    return W(a.k, {frozenset((c & ~63) | ((c + k) & 63) for c in m): rotm(v, k) for m, v in a.d.items()})


def shl(a, k):
    return a if k == 0 else conj(rotl(a, k), M64 & (M64 << k))


def shr(a, k):
    return a if k == 0 else conj(rotl(a, 64 - k), M64 >> k)


def atom(k, r, i):
    return W(k, {frozenset([(r * 25 + i) << 6]): M64})


def rnd(A, r):
    """one round on 25 lanes, lane x + 5 y"""
    C = [xor(xor(xor(A[x], A[x + 5]), xor(A[x + 10], A[x + 15])), A[x + 20]) for x in range(5)]
    D = [xor(C[(x + 4) % 5], rotl(C[(x + 1) % 5], 1)) for x in range(5)]
    B = [0] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(xor(A[x + 5 * y], D[x]), ROT[x + 5 * y])
    E = [xor(B[i], conj(inv(B[i - i % 5 + (i + 1) % 5]), B[i - i % 5 + (i + 2) % 5])) for i in range(25)]
    E[0] = xor(E[0], RC[r])
    return E


def permute(A, r0, r1):
    for r in range(r0, r1):
        A = rnd(A, r)
    return A


_ref = {}


def reference():
    """{form without its constant: (round, lane, constant)}; built once from round 0 by renaming"""
    if _ref:
        return _ref
    base = rnd([atom(0, 0, i) for i in range(25)], 0)
    for i, w in enumerate(base):
        c = w.d.get(ONE, 0)
        for r in range(24):
            if r == 0:
                key = frozenset((m, v) for m, v in w.d.items() if m)
            else:
                key = frozenset((frozenset(x + ((r * 25) << 6) for x in m), v) for m, v in w.d.items() if m)
            _ref[key] = (r + 1, i, c if i else c ^ RC[0] ^ RC[r])
    return _ref


class Rounds:
    """which lanes of which round were met"""

    def __init__(self, r0):
        self.r0 = r0
        self.met = {}

    def lane(self, w):
        """a word equal to a lane after some round, up to a constant, by its name"""
        if not isinstance(w, W) or len(w.d) < 40:
            return w
        c = w.d.get(ONE, 0)
        e = reference().get(frozenset((m, v) for m, v in w.d.items() if m))
        if e is None:
            return w
        self.met.setdefault((w.k, e[0]), set()).add(e[1])
        return xor(atom(w.k, e[0], e[1]), c ^ e[2])


def pshufb(w, m):
    """bytes of the two words w = (lo, hi) selected by the bytes of m = (lo, hi)"""
    out = []
    for half in m:
        if isinstance(half, W):
            raise Stuck('a shuffle that depends on the state')
        r = 0
        for t in range(8):
            s = half >> (8 * t) & 255
            if s & 128:
                continue
            s &= 15
            src = w[s >> 3]
            r = disj(r, conj(rotl(src, 8 * (t - (s & 7)) % 64), 255 << (8 * t)))
        out.append(r)
    return tuple(out)


class Machine:
    """memory shared by the two evaluators: objects of cells; vectors are tuples of 64-bit words"""

    def __init__(self, init, lanes, r0, choices=()):
        self.mem = {}
        self.size = {}
        self.rounds = Rounds(r0)
        self.choices = list(choices)
        self.taken = []
        self.conds = []
        self.steps = 0
        # the state: lane i of instance k at 8 * (i * lanes + k)
        self.mem['state'] = {8 * (i * lanes + k): (8, init(k, i)) for i in range(25) for k in range(lanes)}
        self.size['state'] = 200 * lanes
        self.ninst = lanes

    def rd(self, p, n, const=None):
        if not (isinstance(p, tuple) and p and p[0] == 'ptr'):
            raise Stuck('a load from an unknown address')
        o, off = p[1], p[2]
        if o in self.size and not 0 <= off <= self.size[o] - n:
            raise Bad('an access outside the %s' % ('state' if o == 'state' else 'object'))
        c = self.mem.setdefault(o, {}).get(off)
        if c is not None and c[0] == n:
            return c[1]
        if c is None and not self.overlap(o, off, n) and const is not None:
            return const(o, off, n)
        raise Stuck('a load that matches no store')

    def overlap(self, o, off, n):
        m = self.mem.get(o, {})
        return any(a in m for a in range(off, off + n)) or any(off - b in m and m[off - b][0] > b for b in range(1, 8))

    def wr(self, p, n, v):
        if not (isinstance(p, tuple) and p and p[0] == 'ptr'):
            raise Stuck('a store to an unknown address')
        o, off = p[1], p[2]
        if isinstance(o, tuple) and o[0] == 'glob':
            raise Bad('a store to a constant table')
        if o in self.size and not 0 <= off <= self.size[o] - n:
            raise Bad('an access outside the %s' % ('state' if o == 'state' else 'object'))
        m = self.mem.setdefault(o, {})
        for a in range(off - 7, off + n):
            if a in m and a + m[a][0] > off and (a, m[a][0]) != (off, n):
                if off <= a and a + m[a][0] <= off + n:
                    del m[a]
                else:
                    raise Stuck('a store over part of a word')
        m[off] = (n, v)

    def decide(self, c):
        """a condition on state bits: both ways, one per run"""
        if isinstance(c, (bool, int)):
            return bool(c)
        for x, y in self.conds:
            if x == c:
                return y
        n = len(self.taken)
        y = self.choices[n] if n < len(self.choices) else False
        self.taken.append(y)
        self.conds.append((c, y))
        return y

    def final(self):
        n = self.ninst
        return [[self.mem['state'].get(8 * (i * n + k), (8, None))[1] for i in range(25)] for k in range(n)]


def cells(t):
    return t


# ------------------------------------------------------------------------------------------------ C
class CRun:
    def __init__(self, mod, mach):
        self.m, self.x = mod, mach
        self.uid = 0
        self.lines = set()

    def elem(self, t):
        return self.m.size(t)

    def const(self, t, v):
        """a constant operand"""
        k = v[0]
        if k == 'c':
            return v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
        if k in ('zero', 'undef'):
            if t[0] == 'vec':
                return (0,) * (self.elem(t) // 8) if k == 'zero' else (None,) * (self.elem(t) // 8)
            if t[0] == 'p':
                return ('null',)
            return 0 if k == 'zero' else None
        if k == '@':
            return ('ptr', ('glob', v[1]), 0)
        if k == 'agg' and t[0] == 'vec':
            b = t[2][1]
            n = 0
            for j, e in enumerate(v[1]):
                c = self.const(t[2], e)
                n |= (c or 0) << (b * j)
            return tuple(n >> (64 * j) & M64 for j in range(b * t[1] // 64))
        if k == 'cgep':
            return self.gep(v[1], self.const(('p',), v[2][0][1]), [(a, self.const(a, b)) for a, b in v[2][1:]])
        if k == 'ccast':
            return self.const(v[2], v[3])
        raise Stuck('constant %s' % k)

    def gep(self, st, b, idx):
        if not (isinstance(b, tuple) and b[0] == 'ptr'):
            raise Stuck('an unknown address')
        off = b[2]
        t = st
        for j, (ty, i) in enumerate(idx):
            if not isinstance(i, int):
                raise Stuck('an address that depends on the state')
            if ty[0] == 'i' and i >> (ty[1] - 1) & 1:
                i -= 1 << ty[1]
            if j == 0:
                off += i * self.m.size(t)
                continue
            while t[0] == 'n':
                t = self.m.types[t[1]]
            if t[0] in ('a', 'vec'):
                t = t[2]
                off += i * self.m.size(t)
            elif t[0] == 's':
                o = self.m.field(t, i)
                off += o[0] if isinstance(o, tuple) else o
                t = t[1][i]
            else:
                raise Stuck('an address computation')
        return ('ptr', b[1], off)

    def glob(self, o, off, n):
        """a load from the initialiser of a constant table"""
        if not (isinstance(o, tuple) and o[0] == 'glob'):
            raise Stuck('a load of a value that was not stored')
        g = self.m.globals.get(o[1])
        if g is None:
            for k in self.m.globals:
                if isinstance(k, tuple) and k[1] == o[1]:
                    g = self.m.globals[k]
        if g is None:
            raise Stuck('an unknown table')
        t, v = g[0], g[1]
        if not 0 <= off <= self.m.size(t) - n:
            raise Bad('a read outside a constant table')
        bs = self.flat(t, v)
        return int.from_bytes(bs[off:off + n], 'little')

    def flat(self, t, v):
        n = self.m.size(t)
        if v[0] == 'zero':
            return bytes(n)
        if v[0] == 'c':
            return (v[1] & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
        if v[0] == 'str':
            return bytes(v[1]) if isinstance(v[1], (bytes, list)) else v[1].encode('latin-1')
        if v[0] == 'agg' and t[0] in ('a', 'vec'):
            return b''.join(self.flat(t[2], e) for e in v[1])
        raise Stuck('a table that is not plain numbers')

    def load(self, t, p):
        if t[0] == 'vec':
            return tuple(self.x.rd(('ptr', p[1], p[2] + 8 * j), 8, self.glob) for j in range(self.m.size(t) // 8))
        if t[0] == 'p':
            return self.x.rd(p, 8)
        return self.x.rd(p, self.m.size(t), self.glob)

    def store(self, t, v, p):
        if t[0] == 'vec':
            for j, w in enumerate(v):
                self.x.wr(('ptr', p[1], p[2] + 8 * j), 8, w)
        else:
            self.x.wr(p, self.m.size(t), v)

    def fn(self, key):
        f = self.m.fns.get(key)
        if f is None:
            for k in self.m.fns:
                if isinstance(k, tuple) and k[1] == key:
                    f = self.m.fns[k]
        return f

    def bin(self, op, t, a, b):
        if t[0] == 'vec':
            return tuple(self.bin(op, ('i', 64), x, y) for x, y in zip(a, b)) if t[2] == ('i', 64) or op in ('xor', 'and', 'or') else self.bad(op)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op in ('xor', 'and', 'or') and t[1] == 1:
                x, y = self.x.decide(a), self.x.decide(b)
                return {'xor': x ^ y, 'and': x & y, 'or': x | y}[op]
            raise Stuck('arithmetic on a condition')
        if a is None or b is None:
            raise Bad('an undefined value is used')
        n = t[1]
        if not isinstance(a, W) and not isinstance(b, W):
            m = (1 << n) - 1
            sa, sb = (v - (1 << n) if v >> (n - 1) & 1 else v for v in (a, b))
            if op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
                return {'xor': a ^ b, 'and': a & b, 'or': a | b, 'add': a + b, 'sub': a - b, 'mul': a * b}[op] & m
            if op in ('shl', 'lshr', 'ashr'):
                if b >= n:
                    raise Stuck('a shift by the word size')
                return (a << b) & m if op == 'shl' else a >> b if op == 'lshr' else (sa >> b) & m
            if b and op in ('udiv', 'urem'):
                return a // b if op == 'udiv' else a % b
            if sb > 0 and sa >= 0 and op in ('sdiv', 'srem'):
                return sa // sb if op == 'sdiv' else sa % sb
            self.bad(op)
        if n != 64:
            raise Stuck('arithmetic on part of a lane')
        if op == 'xor':
            return self.x.rounds.lane(xor(a, b))
        if op == 'and':
            return conj(a, b)
        if op == 'or':
            return self.x.rounds.lane(disj(a, b))
        if op in ('add', 'sub') and isinstance(b, int) and b == 0:
            return a
        if op == 'add':
            s = a.support() if isinstance(a, W) else a
            u = b.support() if isinstance(b, W) else b
            if not s & u:
                return xor(a, b)
        if op == 'sub' and a == M64:
            return inv(b)
        if op in ('shl', 'lshr') and isinstance(b, int):
            if b >= 64:
                raise Stuck('a shift by the word size')
            return shl(a, b) if op == 'shl' else shr(a, b)
        if op == 'mul' and isinstance(b, int) and b and b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1)
        self.bad(op)

    def bad(self, op):
        raise Stuck('operation %s on lanes' % op)

    def icmp(self, pr, t, a, b):
        if isinstance(a, W) or isinstance(b, W):
            if isinstance(b, W) and not isinstance(a, W):
                a, b = b, a
                pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
            neg = pr == 'ne'
            if isinstance(b, W):
                a, b = xor(a, b), 0
                if pr not in ('eq', 'ne'):
                    raise Stuck('an order of two words')
                if not isinstance(a, W):
                    return (a == 0) ^ neg
            if pr in ('eq', 'ne'):
                s = a.support()
                c = a.d.get(ONE, 0)
                if (b ^ 0) & ~s & M64:
                    return neg
                return ('cmp', 'ne' if neg else 'eq', a.k, frozenset((m, v) for m, v in a.d.items() if m), b ^ c)
            return ('cmp', pr, a.k, frozenset(a.d.items()), b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and a[0] == 'cmp' and b in (0, 1):
                v = self.x.decide(a)
                return (v == bool(b)) ^ (pr == 'ne')
            if a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr' and a[1] == b[1]:
                a, b, t = a[2] + (1 << 40), b[2] + (1 << 40), ('i', 64)
            elif isinstance(a, tuple) and isinstance(b, tuple) and pr in ('eq', 'ne'):
                return (a == b) ^ (pr == 'ne')
            else:
                raise Stuck('a comparison')
        n = t[1]
        if pr[0] == 's' and n:
            a, b = (v - (1 << n) if v >> (n - 1) & 1 else v for v in (a, b))
            pr = 'u' + pr[1:]
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pr]

    def run(self, f, args, depth=0):
        if depth > 12:
            raise Stuck('recursion')
        env = dict(zip([p[1] for p in f.params], args))
        blk, prev = next(iter(f.blocks)), None

        def val(t, v):
            if v[0] == '%':
                return env[v[1]]
            return self.const(t, v)
        while True:
            phis = {}
            for i in f.blocks[blk]:
                self.x.steps += 1
                if self.x.steps > 400000:
                    raise Stuck('no end in sight')
                op = i[0]
                if op == 'phi':
                    for v, b in i[4]:
                        if b == prev:
                            phis[i[2]] = val(i[3], v)
                    continue
                if phis:
                    env.update(phis)
                    phis = {}
                if op == 'bin':
                    env[i[2]] = self.bin(i[3], i[4], val(i[4], i[5]), val(i[4], i[6]))
                elif op == 'gep':
                    env[i[2]] = self.gep(i[3], val(('p',), i[4]), [(t, val(t, v)) for t, v in i[5]])
                elif op == 'load':
                    env[i[2]] = self.load(i[3], val(('p',), i[4]))
                elif op == 'store':
                    self.lines.add(i[1])
                    self.store(i[3], val(i[3], i[4]), val(('p',), i[5]))
                elif op == 'alloca':
                    self.uid += 1
                    o = ('al', self.uid)
                    self.x.size[o] = self.m.size(i[3])
                    env[i[2]] = ('ptr', o, 0)
                elif op == 'icmp':
                    env[i[2]] = self.icmp(i[3], i[4], val(i[4], i[5]), val(i[4], i[6]))
                elif op == 'select':
                    c = self.x.decide(val(i[3], i[4]))
                    env[i[2]] = val(i[5], i[6] if c else i[7])
                elif op == 'cast':
                    env[i[2]] = self.cast(i[3], i[4], val(i[4], i[5]), i[6])
                elif op == 'freeze':
                    env[i[2]] = val(i[3], i[4])
                elif op == 'insertelement':
                    v = list(val(i[3], i[4]))
                    if i[3][2] != ('i', 64):
                        raise Stuck('part of a word set')
                    v[val(('i', 32), i[6])] = val(i[3][2], i[5])
                    env[i[2]] = tuple(v)
                elif op == 'extractelement':
                    if i[3][2] != ('i', 64):
                        raise Stuck('part of a word read')
                    env[i[2]] = val(i[3], i[4])[val(('i', 32), i[5])]
                elif op == 'shufflevector':
                    if i[3][2] != ('i', 64):
                        raise Stuck('part of a word moved')
                    both = list(val(i[3], i[4])) + list(val(i[3], i[5]))
                    mk = i[7]
                    ix = [0] * i[6][1] if mk[0] == 'zero' else [e[1] if e[0] == 'c' else 0 for e in mk[1]]
                    env[i[2]] = tuple(both[j] for j in ix)
                elif op == 'call':
                    r = self.call(i, val, depth)
                    if i[2]:
                        env[i[2]] = r
                elif op == 'br':
                    if i[3] is None:
                        nxt = i[2]
                    else:
                        nxt = i[3] if self.x.decide(val(('i', 1), i[2])) else i[4]
                elif op == 'switch':
                    v = val(i[2], i[3])
                    if not isinstance(v, int):
                        raise Stuck('a switch on the state')
                    nxt = next((l for c, l in i[5] if c == v), i[4])
                elif op == 'ret':
                    return val(i[3], i[2]) if i[2] is not None else None
                else:
                    raise Stuck(op)
            env.update(phis)
            prev, blk = blk, nxt

    def cast(self, op, t, v, t2):
        if op == 'bitcast' or t[0] == 'p' or t2[0] == 'p':
            return v
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            v = int(self.x.decide(v))
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, W):
            if op in ('zext', 'sext') or t2[1] < 64:
                raise Stuck('part of a lane')
            return v
        if op == 'sext' and v >> (t[1] - 1) & 1:
            v |= ((1 << t2[1]) - 1) ^ ((1 << t[1]) - 1)
        return v & ((1 << t2[1]) - 1)

    def call(self, i, val, depth):
        name = i[4][1] if i[4][0] == '@' else ''
        a = [val(t, v) if t != ('md',) else None for t, v in i[5] if t[0] != 'metadata']
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
            return None
        if re.match(r'llvm\.x86\.(avx2|sse2)\.(pslli|psrli)\.q', name):
            f = shl if 'pslli' in name else shr
            if a[1] > 63:
                return tuple(0 for _ in a[0])
            return tuple(f(w, a[1]) for w in a[0])
        if re.match(r'llvm\.x86\.(avx2|ssse3)\.pshuf\.b', name):
            out = ()
            for h in range(0, len(a[0]), 2):
                out += pshufb(a[0][h:h + 2], a[1][h:h + 2])
            return out
        if name.startswith('llvm.fsh'):
            if i[3] == ('i', 64) and isinstance(a[2], int):
                k = a[2] % 64
                if name.startswith('llvm.fshl'):
                    return disj(shl(a[0], k), shr(a[1], 64 - k)) if k else a[0]
                return disj(shl(a[0], 64 - k), shr(a[1], k)) if k else a[1]
            raise Stuck(name)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if not isinstance(a[2], int) or a[2] % 8:
                raise Stuck('a copy of part of a word')
            l = [self.x.rd(('ptr', a[1][1], a[1][2] + j), 8, self.glob) for j in range(0, a[2], 8)]
            for j, v in enumerate(l):
                self.x.wr(('ptr', a[0][1], a[0][2] + 8 * j), 8, v)
            return None
        if name.startswith('llvm.memset'):
            if not isinstance(a[2], int) or a[2] % 8 or not isinstance(a[1], int):
                raise Stuck('a fill of part of a word')
            for j in range(0, a[2], 8):
                self.x.wr(('ptr', a[0][1], a[0][2] + j), 8, int.from_bytes(bytes([a[1]]) * 8, 'little'))
            return None
        f = self.fn(name)
        if f is None:
            raise Stuck('a call of ' + (name or 'an unknown function'))
        return self.run(f, a, depth + 1)


# ------------------------------------------------------------------------------------------------ assembly
class Asm:
    """AT&T assembly as far as the permutation uses it"""

    def __init__(self, text):
        text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
        self.ins = []
        self.labels = {}
        self.data = {}
        self.globals = set()
        cur = None
        for l in text.split('\n'):
            l = re.sub(r'(#|//).*', '', l).strip()
            if not l:
                continue
            for l in [x.strip() for x in l.split(';') if x.strip()]:
                m = re.match(r'^([\w.$()]+):\s*(.*)$', l)
                if m:
                    n = re.sub(r'^_?cdecl\((.*)\)$', r'\1', m.group(1))
                    self.labels[n] = len(self.ins)
                    cur = n
                    l = m.group(2)
                    if not l:
                        continue
                if l.startswith('.'):
                    p = l.split(None, 1)
                    w = {'.byte': 1, '.quad': 8, '.long': 4, '.short': 2}.get(p[0])
                    if w:
                        self.data.setdefault(cur, bytearray())
                        for x in p[1].split(','):
                            self.data[cur] += (int(x.strip(), 0) & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
                    elif p[0] in ('.global', '.globl'):
                        self.globals.add(re.sub(r'^_?cdecl\((.*)\)$', r'\1', p[1].strip()))
                    continue
                p = l.split(None, 1)
                ops = [x.strip() for x in re.split(r',(?![^()]*\))', p[1])] if len(p) > 1 else []
                self.ins.append((p[0], ops))

    def run(self, mach, entry, table):
        """table: bytes at the second argument"""
        R = {'rdi': ('ptr', 'state', 0), 'rsi': ('ptr', ('tab',), 0)}
        Y = {}
        zf = None

        def tab(o, off, n):
            b = table if o == ('tab',) else self.data.get(o[1]) if o[0] == 'glob' else None
            if b is None:
                raise Stuck('a load of a value that was not stored')
            if not 0 <= off <= len(b) - n:
                raise Bad('a read outside a constant table')
            return int.from_bytes(b[off:off + n], 'little')

        def addr(s):
            m = re.match(r'^(-?\w+)?\(%(\w+)\)$', s)
            if m:
                if m.group(2) == 'rip':
                    return ('ptr', ('glob', m.group(1)), 0)
                b = R.get(m.group(2))
                if not (isinstance(b, tuple) and b[0] == 'ptr'):
                    raise Stuck('an unknown address')
                return ('ptr', b[1], b[2] + (int(m.group(1), 0) if m.group(1) else 0))
            raise Stuck('operand ' + s)

        def rd(s, n=32):
            if s.startswith(('%ymm', '%xmm')):
                v = Y.get(s[4:])
                if v is None:
                    raise Bad('a register without a value is used')
                return v[:n // 8]
            a = addr(s)
            return tuple(mach.rd(('ptr', a[1], a[2] + 8 * j), 8, tab) for j in range(n // 8))

        def wr(s, v):
            if s.startswith('%ymm'):
                Y[s[4:]] = tuple(v)
            elif s.startswith('%xmm'):
                Y[s[4:]] = tuple(v)[:2] + (0, 0)
            else:
                a = addr(s)
                for j, w in enumerate(v):
                    mach.wr(('ptr', a[1], a[2] + 8 * j), 8, w)

        def imm(s):
            if s.startswith('$'):
                return int(s[1:], 0)
            v = R.get(s.lstrip('%'))
            if not isinstance(v, int):
                raise Bad('a register without a value is used')
            return v
        pc = self.labels[entry]
        while True:
            if pc >= len(self.ins):
                raise Bad('the code runs off its end')
            op, o = self.ins[pc]
            pc += 1
            mach.steps += 1
            if mach.steps > 400000:
                raise Stuck('no end in sight')
            if op in ('vmovdqa', 'vmovdqu', 'vmovaps', 'vmovups', 'vmovdqa64', 'vmovdqu64'):
                for s in o:
                    if '(' in s and op in ('vmovdqa', 'vmovaps', 'vmovdqa64') and '%rip' not in s and addr(s)[2] % 32:
                        raise Bad('an aligned access at an address that is not a multiple of 32')
                wr(o[1], rd(o[0]))
            elif op in ('vpxor', 'vpor', 'vpand', 'vpandn', 'vxorps', 'vandps', 'vorps', 'vandnps', 'vpxorq', 'vporq'):
                a, b = rd(o[0]), rd(o[1])
                if 'andn' in op:
                    v = [conj(x, inv(y)) for x, y in zip(a, b)]
                elif 'and' in op:
                    v = [conj(x, y) for x, y in zip(a, b)]
                elif 'xor' in op:
                    v = [mach.rounds.lane(xor(x, y)) for x, y in zip(a, b)]
                else:
                    v = [mach.rounds.lane(disj(x, y)) for x, y in zip(a, b)]
                wr(o[2], v)
            elif op in ('vpsllq', 'vpsrlq') and o[0].startswith('$'):
                k = int(o[0][1:], 0)
                wr(o[2], [0 if k > 63 else (shl if op == 'vpsllq' else shr)(w, k) for w in rd(o[1])])
            elif op == 'vpshufb':
                m, s = rd(o[0]), rd(o[1])
                wr(o[2], pshufb(s[:2], m[:2]) + pshufb(s[2:], m[2:]))
            elif op in ('vpaddq',):
                wr(o[2], [CRun(None, mach).bin('add', ('i', 64), x, y) for x, y in zip(rd(o[0]), rd(o[1]))])
            elif op == 'vpbroadcastq':
                wr(o[1], rd(o[0], 8) * 4)
            elif op in ('movq', 'mov', 'movl'):
                v = R.get(o[0][1:]) if o[0].startswith('%') else imm(o[0])
                if v is None or not o[1].startswith('%'):
                    raise Stuck('a move')
                n = o[1][1:]
                R['r' + n[1:] if op == 'movl' and n[0] == 'e' else n] = v
            elif op in ('addq', 'subq', 'decq', 'incq', 'add', 'sub', 'dec', 'inc'):
                n = o[-1][1:]
                k = imm(o[0]) if len(o) > 1 else 1
                k = -k if op[:3] in ('sub', 'dec') else k
                v = R.get(n)
                if isinstance(v, tuple) and v[0] == 'ptr':
                    R[n] = ('ptr', v[1], v[2] + k)
                    zf = False
                elif isinstance(v, int):
                    R[n] = (v + k) & M64
                    zf = R[n] == 0
                else:
                    raise Bad('a register without a value is used')
            elif op in ('cmpq', 'cmp'):
                zf = imm(o[0]) == imm(o[1])
            elif op in ('testq', 'test') and o[0] == o[1]:
                zf = imm(o[0]) == 0
            elif op in ('jnz', 'jne', 'jz', 'je'):
                if zf is None:
                    raise Stuck('a jump without a comparison')
                if zf == (op in ('jz', 'je')):
                    pc = self.labels[o[0]]
            elif op == 'jmp':
                pc = self.labels[o[0]]
            elif op in ('ret', 'retq'):
                return
            elif op in ('vzeroupper', 'nop', 'endbr64'):
                pass
            else:
                raise Stuck('instruction ' + op)
