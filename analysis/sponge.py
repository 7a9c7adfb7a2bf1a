"""Flow of bytes through the SHAKE code: an interpreter of LLVM IR over the domain
   number | affine n+k in one unknown length n (with an interval) | pointer (object, offset) | bytes, each a xor of a constant and of named bytes.
Conditions on n split its interval; the permutation is a function symbol."""
import cir


class Stuck(Exception):
    pass


class DataAddr(Stuck):
    """input bytes decide which memory is accessed"""


class Split(Exception):
    """the interval of n has to be cut at these points (each the first value of a part)"""

    def __init__(self, cuts, drop=False):
        self.cuts, self.drop = cuts, drop      # drop: the last part is not looked at


class Aff:
    """s*n + k, s in (1, -1)"""
    __slots__ = ('s', 'k')

    def __init__(self, s, k):
        self.s, self.k = s, k

    def __eq__(self, o):
        return isinstance(o, Aff) and self.s == o.s and self.k == o.k

    def __hash__(self):
        return hash((self.s, self.k, 'aff'))

    def __repr__(self):
        return '%sn%+d' % ('-' if self.s < 0 else '', self.k)


class Quo:
    """(n + k) // d"""
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k, self.d = k, d

    def __eq__(self, o):
        return isinstance(o, Quo) and self.k == o.k and self.d == o.d

    def __hash__(self):
        return hash((self.k, self.d, 'quo'))

    def __repr__(self):
        return '(n%+d)/%d' % (self.k, self.d)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.off == x.off

    def __hash__(self):
        return hash((self.o, self.off, 'ptr'))

    def __repr__(self):
        return '%s+%s' % (self.o, self.off)


class By(tuple):
    """bytes, least significant first; each is (constant, frozenset of named bytes)"""
    __slots__ = ()


class Vec(tuple):
    __slots__ = ()


class Opq:
    """a bit that depends on data"""
    __slots__ = ()


ZERO = (0, frozenset())
BIG = 1 << 62


def atom(*a):
    return (0, frozenset([a]))


def opaque(*a):
    return (0, frozenset([('?',) + a]))


def bx(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def isopaque(b):
    return any(x[0] == '?' for x in b[1])


class State:
    def __init__(self):
        self.mem = {}          # object -> {offset: byte | ('W', value, size) | ('w', start)}
        self.own = set()
        self.size = {}
        self.frames = []
        self.lo, self.hi = 0, 0
        self.events = []
        self.nobj = 0
        self.data = False      # a branch depended on data
        self.oob = []
        self.result = None
        self.limit = None      # steps left for this path

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.size = dict(self.size)
        s.frames = [[f[0], dict(f[1]), f[2], f[3], f[4], f[5]] for f in self.frames]
        s.lo, s.hi = self.lo, self.hi
        s.events = list(self.events)
        s.nobj, s.data, s.oob, s.result = self.nobj, self.data, list(self.oob), self.result
        s.limit = self.limit
        return s

    def new(self, name, size=None, fill=None):
        self.nobj += 1
        o = '%s#%d' % (name, self.nobj)
        self.mem[o] = {}
        self.own.add(o)
        self.size[o] = size
        if fill:
            self.mem[o].update(fill)
        return o

    def cells(self, o):
        if o not in self.own:
            self.mem[o] = dict(self.mem[o])
            self.own.add(o)
        return self.mem[o]


class Interp:
    def __init__(self, mod, perm):
        """perm: function name -> lanes (1 or 4) of the permutations"""
        self.m = mod
        self.perm = perm
        self.names = {}
        self.steps = 0
        self.budget = 6000000
        self.fns = set()
        self.cut = None        # (state, number of the permutation) -> stop exploring?
        self.dropped = False

    # ---- names of permutation results
    def F(self, content):
        """the 200 bytes after the permutation of these 200 bytes"""
        k = tuple(content)
        i = self.names.get(k)
        if i is None:
            i = self.names[k] = len(self.names) + 1
        return [atom('F', i, j) for j in range(200)]

    # ---- numbers
    def rng(self, st, v):
        if isinstance(v, Aff):
            return (st.lo + v.k, st.hi + v.k) if v.s > 0 else (v.k - st.hi, v.k - st.lo)
        return v, v

    def quo(self, st, v, w):
        """a quotient of w bits"""
        lo, hi = (st.lo + v.k) // v.d, (st.hi + v.k) // v.d
        if lo == hi:
            return lo & ((1 << w) - 1)
        M = 1 << w
        q = lo // M
        if hi // M != q:
            cuts = [(q + 1) * M * v.d - v.k]
            if hi // M > q + 1:
                raise Split(cuts + [(q + 2) * M * v.d - v.k], True)
            raise Split(cuts)
        return Quo(v.k - q * M * v.d, v.d) if q else v

    def norm(self, st, v, w):
        """a value of w bits: reduce, or cut n where the reduction changes"""
        if isinstance(v, Quo):
            return self.quo(st, v, w)
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        if isinstance(v, Aff):
            if st.lo == st.hi:
                return (v.s * st.lo + v.k) & ((1 << w) - 1)
            lo, hi = self.rng(st, v)
            M = 1 << w
            q = lo // M
            if hi // M != q:
                if v.s > 0 and hi // M > q + 1:
                    # a length cut to w bits: the first two periods stand for all
                    raise Split([(q + 1) * M - v.k, (q + 2) * M - v.k], True)
                # first n of each part
                if v.s > 0:
                    raise Split([(q + 1) * M - v.k])
                raise Split([v.k - (q + 1) * M + 1])
            return Aff(v.s, v.k - q * M) if q else v
        return v

    def conc(self, st, v, limit=4096):
        if isinstance(v, int):
            return v
        if isinstance(v, Aff):
            if st.lo == st.hi:
                return v.s * st.lo + v.k
            if st.hi - st.lo <= limit:
                raise Split(list(range(st.lo + 1, st.hi + 1)))
            raise Stuck('a number of unbounded size decides where bytes go')
        if isinstance(v, Quo):
            lo, hi = (st.lo + v.k) // v.d, (st.hi + v.k) // v.d
            if lo == hi:
                return lo
            if hi - lo <= limit:
                raise Split([q * v.d - v.k for q in range(lo + 1, hi + 1)])
            raise Stuck('a number of unbounded size decides where bytes go')
        if isinstance(v, By) and not any(b[1] for b in v):
            return sum(b[0] << (8 * i) for i, b in enumerate(v))
        if isinstance(v, By) and not any(isopaque(b) for b in v):
            raise DataAddr('bytes used as a number')
        raise Stuck('%s used as a number' % type(v).__name__)

    def low(self, st, v):
        """numbers written as bytes become numbers"""
        if isinstance(v, By) and not any(b[1] for b in v):
            return sum(b[0] << (8 * i) for i, b in enumerate(v))
        return v

    def by(self, st, v, n):
        """the n bytes of a value"""
        if isinstance(v, By):
            if len(v) >= n:
                return By(v[:n])
            return By(tuple(v) + (ZERO,) * (n - len(v)))
        if isinstance(v, int):
            return By(((v >> (8 * i)) & 255, frozenset()) for i in range(n))
        if isinstance(v, Vec):
            k = n // len(v)
            return By(b for x in v for b in self.by(st, x, k))
        if isinstance(v, (Aff, Quo)):
            return self.by(st, self.conc(st, v), n)
        raise Stuck('bytes of %s' % type(v).__name__)

    def bin(self, st, op, w, a, b):
        a, b = self.low(st, a), self.low(st, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, int) and w == 1:
                a, b = b, a
            if isinstance(b, int) and w == 1:
                if op == 'and':
                    return a if b else 0
                if op == 'or':
                    return 1 if b else a
            return Opq()
        if isinstance(a, By) or isinstance(b, By):
            return self.bybin(st, op, w, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return self.bin(st, 'sub', w, a.off, b.off)
            if op in ('add', 'sub') and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.o, self.addoff(st, a.off, b if op == 'add' else self.bin(st, 'sub', 64, 0, b)))
            if op == 'add' and isinstance(b, Ptr):
                return Ptr(b.o, self.addoff(st, b.off, a))
            raise Stuck('arithmetic on addresses')
        if isinstance(a, Quo) or isinstance(b, Quo):
            if isinstance(a, Quo):
                a = self.quo(st, a, w)
            if isinstance(b, Quo):
                b = self.quo(st, b, w)
            if isinstance(a, Quo) and isinstance(b, int):
                c = b - (1 << w) if b >> (w - 1) else b
                if op == 'add' or op == 'sub':
                    return self.quo(st, Quo(a.k + (c if op == 'add' else -c) * a.d, a.d), w)
                if op == 'mul' and b == 1 or op in ('or', 'xor', 'shl', 'lshr') and b == 0:
                    return a
            if isinstance(b, Quo) and isinstance(a, int) and op == 'add':
                return self.bin(st, op, w, b, a)
            if isinstance(a, Quo) and isinstance(b, Quo) and a.d == b.d and op == 'sub' and (a.k - b.k) % a.d == 0:
                return ((a.k - b.k) // a.d) & ((1 << w) - 1)
            if isinstance(a, (Quo, int)) and isinstance(b, (Quo, int)) and not (isinstance(a, int) and isinstance(b, int)):
                return self.bin(st, op, w, self.conc(st, a), self.conc(st, b))
            if isinstance(a, Quo) or isinstance(b, Quo):
                return self.bin(st, op, w, self.conc(st, a), self.conc(st, b))
        if isinstance(a, Aff) and st.lo == st.hi:
            a = self.norm(st, a, w)
        if isinstance(b, Aff) and st.lo == st.hi:
            b = self.norm(st, b, w)
        if isinstance(a, Aff) or isinstance(b, Aff):
            if op in ('add', 'sub'):
                s = 1 if op == 'add' else -1
                sa, ka = (a.s, a.k) if isinstance(a, Aff) else (0, a)
                sb, kb = (b.s, b.k) if isinstance(b, Aff) else (0, b)
                ns, nk = sa + s * sb, ka + s * kb
                if ns == 0:
                    return nk & ((1 << w) - 1)
                if ns in (1, -1):
                    return self.norm(st, Aff(ns, nk), w)
                return self.bin(st, op, w, self.conc(st, a), self.conc(st, b))
            if isinstance(a, Aff) and isinstance(b, int):
                if op == 'mul' and b == 1 or op in ('or', 'xor', 'shl', 'lshr') and b == 0 or op == 'udiv' and b == 1:
                    return a
                if op in ('mul', 'and') and b == 0:
                    return 0
                if op in ('udiv', 'lshr'):
                    d = b if op == 'udiv' else 1 << b
                    lo, hi = self.rng(st, a)
                    if d and lo // d == hi // d:
                        return lo // d
                    if d and (hi - lo) // d <= 64:
                        q = (lo // d + 1) * d
                        raise Split([q - a.k] if a.s > 0 else [a.k - q + 1])
                    if d and a.s > 0:
                        return Quo(a.k, d)
                if op == 'and' and b + 1 == 1 << w:
                    return a
            return self.bin(st, op, w, self.conc(st, a), self.conc(st, b))
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Stuck('%s of %s and %s' % (op, type(a).__name__, type(b).__name__))
        M = (1 << w) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < w else 0
        if op == 'lshr':
            return a >> b
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        if op == 'ashr':
            return (sg(a) >> b) & M
        if b == 0:
            raise Stuck('division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sg(a), sg(b)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == 'sdiv' else x - q * y) & M

    def bybin(self, st, op, w, a, b):
        n = (w + 7) // 8
        if isinstance(a, (Aff, Ptr, Quo)) or isinstance(b, (Aff, Ptr, Quo)):
            if isinstance(a, (Aff, Quo)):
                a = self.conc(st, a)
            if isinstance(b, (Aff, Quo)):
                b = self.conc(st, b)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Stuck('an address mixed with data')
        if w < 8 or w % 8:
            return Opq() if w == 1 else By([opaque(op, a, b)] * n)
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, int) and isinstance(a, By):
            if b >= w:
                return 0
            x = self.by(st, a, n)
            if b % 8 == 0 and op != 'ashr':
                k = b // 8
                r = (ZERO,) * k + tuple(x[:n - k]) if op == 'shl' else tuple(x[k:]) + (ZERO,) * k
                return self.low(st, By(r))
            return By(opaque(op, b, tuple(x), j) for j in range(n))
        if op == 'mul' and isinstance(a, By) and isinstance(b, int) and b and b & (b - 1) == 0:
            return self.bybin(st, 'shl', w, a, b.bit_length() - 1)
        if op == 'mul' and isinstance(b, By) and isinstance(a, int):
            return self.bybin(st, 'mul', w, b, a)
        if op == 'udiv' and isinstance(a, By) and isinstance(b, int) and b and b & (b - 1) == 0:
            return self.bybin(st, 'lshr', w, a, b.bit_length() - 1)
        if op == 'urem' and isinstance(a, By) and isinstance(b, int) and b and b & (b - 1) == 0:
            return self.bybin(st, 'and', w, a, b - 1)
        if op not in ('xor', 'and', 'or', 'add'):
            return By(opaque(op, a, b, j) for j in range(n))
        x, y = self.by(st, a, n), self.by(st, b, n)
        if op == 'xor':
            return self.low(st, By(bx(p, q) for p, q in zip(x, y)))
        r = []
        for j, (p, q) in enumerate(zip(x, y)):
            if op == 'and':
                if p == ZERO or q == ZERO:
                    r.append(ZERO)
                elif not p[1] and not q[1]:
                    r.append((p[0] & q[0], frozenset()))
                elif not q[1] and q[0] == 255 or p == q:
                    r.append(p)
                elif not p[1] and p[0] == 255:
                    r.append(q)
                else:
                    r.append(opaque(op, p, q))
            elif p == ZERO or op == 'or' and p == q:
                r.append(q)
            elif q == ZERO:
                r.append(p)
            elif op == 'or' and not p[1] and not q[1]:
                r.append((p[0] | q[0], frozenset()))
            elif op == 'add':
                return By(opaque(op, tuple(x), tuple(y), j) for j in range(n))
            else:
                r.append(opaque(op, p, q))
        return self.low(st, By(r))

    def cmp(self, st, pr, w, a, b):
        a, b = self.low(st, a), self.low(st, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b, w = a.off, b.off, 64
            elif isinstance(a, Ptr) and isinstance(b, Ptr) or 0 in (a, b):
                if pr in ('eq', 'ne'):
                    return int(pr == 'ne')
                raise Stuck('comparison of addresses')
            else:
                raise Stuck('comparison of addresses')
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq()
        if isinstance(a, By) or isinstance(b, By):
            if a == b and pr in ('eq', 'ne'):
                return int(pr == 'eq')
            return Opq()
        a, b = self.norm(st, a, w), self.norm(st, b, w)
        if isinstance(a, Quo) or isinstance(b, Quo):
            if isinstance(b, Quo) and isinstance(a, int):
                a, b = b, a
                pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
            if not isinstance(b, int):
                return self.cmp(st, pr, w, self.conc(st, a), self.conc(st, b))
            if pr[0] == 's':
                if (st.hi + a.k) // a.d >> (w - 1):
                    raise Stuck('signed comparison of a quotient')
                if b >> (w - 1):
                    return int(pr in ('sgt', 'sge'))
                pr = 'u' + pr[1:]
            cuts = {c * a.d - a.k for c in ((b, b + 1) if pr in ('eq', 'ne') else (b,) if pr in ('ult', 'uge') else (b + 1,))}
            cuts = sorted(n for n in cuts if st.lo < n <= st.hi)
            if cuts:
                raise Split(cuts)
            a = (st.lo + a.k) // a.d
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pr])
        if isinstance(a, Aff) or isinstance(b, Aff):
            if isinstance(a, Aff) and isinstance(b, Aff) and a.s != b.s:
                return self.cmp(st, pr, w, self.conc(st, a), self.conc(st, b))
            if pr[0] == 's':
                for v in (a, b):
                    lo, hi = self.rng(st, v)
                    h = 1 << (w - 1)
                    if isinstance(v, Aff) and lo < h <= hi:
                        raise Split([h - v.k] if v.s > 0 else [v.k - h + 1])
                sg = lambda v: (v if self.rng(st, v)[0] < 1 << (w - 1) else (Aff(v.s, v.k - (1 << w)) if isinstance(v, Aff) else v - (1 << w)))
                a, b = sg(a), sg(b)
                pr = 'u' + pr[1:]
            if isinstance(a, Aff) and isinstance(b, Aff):
                a, b = a.k, b.k
            else:
                # s*n + k against c
                if isinstance(b, Aff):
                    a, b = b, a
                    pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pr, pr)
                lo, hi = self.rng(st, a)
                cuts = set()
                for c in ((b, b + 1) if pr in ('eq', 'ne') else (b,) if pr in ('ult', 'uge') else (b + 1,)):
                    # the value reaches c
                    n = c - a.k if a.s > 0 else a.k - c + 1
                    if st.lo < n <= st.hi:
                        cuts.add(n)
                if cuts:
                    raise Split(sorted(cuts))
                a = lo
                if pr in ('eq', 'ne') and lo != hi and lo <= b <= hi:
                    raise Stuck('comparison')
        elif pr[0] == 's':
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            a, b = sg(a), sg(b)
            pr = 'u' + pr[1:]
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pr])

    # ---- memory
    def addoff(self, st, a, b):
        r = self.bin(st, 'add', 64, a, b)
        if isinstance(r, int) and r >> 63:
            r -= 1 << 64
        return r

    def clear(self, c, o, n):
        """make room for a store: multi-byte cells that overlap lose their value"""
        for i in range(o, o + n):
            x = c.get(i)
            if x is not None and x[0] in ('W', 'w'):
                s = i if x[0] == 'W' else x[1]
                w = c[s]
                if s >= o and s + w[2] <= o + n:
                    continue
                for j in range(s, s + w[2]):
                    c[j] = opaque('part', s, j)

    def store(self, st, p, v, n):
        if isinstance(p, By) and not any(isopaque(b) for b in p):
            raise DataAddr('bytes used as an address')
        if not isinstance(p, Ptr):
            raise Stuck('store through %s' % type(p).__name__)
        off = self.conc(st, p.off)
        sz = st.size.get(p.o)
        if sz is None and p.o in st.size and p.o.startswith('&'):
            raise Stuck('store to a constant')
        if sz is not None and (off < 0 or off + n > sz):
            st.oob.append((p.o.split('#')[0], off, n))
            return
        if isinstance(v, Opq):
            v = By([opaque('bit')] * n)
        vals = None
        if isinstance(v, (Ptr, Aff, Quo)):
            c = st.cells(p.o)
            self.clear(c, off, n)
            c[off] = ('W', v, n)
            for i in range(1, n):
                c[off + i] = ('w', off)
            return
        if isinstance(v, Vec) and any(isinstance(x, (Ptr, Aff, Quo)) for x in v):
            k = n // len(v)
            for i, x in enumerate(v):
                self.store(st, Ptr(p.o, off + i * k), x, k)
            return
        vals = self.by(st, v, n)
        c = st.cells(p.o)
        self.clear(c, off, n)
        for i in range(n):
            c[off + i] = vals[i]

    def load(self, st, p, n):
        if isinstance(p, By) and not any(isopaque(b) for b in p):
            raise DataAddr('bytes used as an address')
        if not isinstance(p, Ptr):
            raise Stuck('load through %s' % type(p).__name__)
        off = self.conc(st, p.off)
        c = st.mem[p.o]
        x = c.get(off)
        if x is not None and x[0] == 'W' and x[2] == n:
            return x[1]
        r = []
        for i in range(off, off + n):
            b = c.get(i)
            if b is None:
                b = atom('m', p.o.split('#')[0] if st.size.get(p.o) is None else p.o, i)
            elif b[0] in ('W', 'w'):
                s = i if b[0] == 'W' else b[1]
                w = c[s]
                if isinstance(w[1], (Aff, Quo)):
                    x = self.conc(st, w[1])
                    b = ((x >> (8 * (i - s))) & 255, frozenset())
                else:
                    raise Stuck('part of an address')
            r.append(b)
        return self.low(st, By(r))

    # ---- values
    def val(self, st, f, env, v, t):
        k = v[0]
        if k == '%':
            return env[v[1]]
        if k == 'c':
            return v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
        if k in ('zero', 'undef'):
            if t[0] == 'vec':
                return Vec([0] * t[1])
            return 0
        if k == 'agg':
            return Vec(self.val(st, f, env, x, t[2]) for x in v[1])
        if k == '@':
            return self.glob(st, f, v[1])
        if k == 'cgep':
            st_, l = v[1], v[2]
            return self.gep(st, st_, self.val(st, f, env, l[0][1], l[0][0]), [(ty, self.val(st, f, env, x, ty)) for ty, x in l[1:]])
        if k == 'ccast':
            return self.val(st, f, env, v[3], v[2])
        raise Stuck('operand %s' % k)

    def glob(self, st, f, name):
        key = (f.file, name) if (f.file, name) in self.m.globals else name
        o = '@%s' % name
        if o not in st.mem:
            g = self.m.globals.get(key)
            cells = {}
            if g is not None and g[1] is not None:
                try:
                    self.init(cells, 0, g[0], g[1])
                except Stuck:
                    cells = {}
            st.mem[o] = cells
            st.size[o] = self.m.size(g[0]) if g else None
        return Ptr(o, 0)

    def init(self, c, off, t, v):
        while t[0] == 'n':
            t = self.m.types[t[1]]
        if v[0] == 'zero':
            for i in range(self.m.size(t)):
                c[off + i] = ZERO
        elif v[0] == 'c':
            for i in range(self.m.size(t)):
                c[off + i] = ((v[1] >> (8 * i)) & 255, frozenset())
        elif v[0] == 'str':
            for i, b in enumerate(v[1]):
                c[off + i] = (b, frozenset())
        elif v[0] == 'agg' and t[0] in ('a', 'vec'):
            n = self.m.size(t[2])
            for i, x in enumerate(v[1]):
                self.init(c, off + i * n, t[2], x)
        elif v[0] == 'agg':
            for i, x in enumerate(v[1]):
                o, ft = self.m.field(t, i)
                self.init(c, off + o, ft, x)
        elif v[0] != 'undef':
            raise Stuck('initialiser')

    def gep(self, st, t, p, idx):
        if not isinstance(p, Ptr):
            # an address made of a number only (the base of a gather)
            off = p
            o = None
        else:
            off, o = p.off, p.o
        for j, (ity, i) in enumerate(idx):
            i = self.low(st, i)
            if isinstance(i, int) and i >> (ity[1] - 1):
                i -= 1 << ity[1]
            if j == 0:
                sz = self.m.size(t)
            else:
                while t[0] == 'n':
                    t = self.m.types[t[1]]
                if t[0] in ('a', 'vec'):
                    t = t[2]
                    sz = self.m.size(t)
                else:
                    d, t = self.m.field(t, self.conc(st, i))
                    off = self.addoff(st, off, d)
                    continue
            if isinstance(i, By) and any(isopaque(b) for b in i):
                e = Stuck('an address that depends on bits')
                e.bits = i
                raise e
            if isinstance(i, By):
                raise DataAddr('an address that depends on data')
            d = i * sz if isinstance(i, int) else self.bin(st, 'mul', 64, i, sz)
            off = self.addoff(st, off, d)
        return off if o is None else Ptr(o, off)

    # ---- running
    def start(self, st, fn, args):
        f = self.m.fns.get(fn)
        if f is None:
            raise Stuck('no function %s' % fn)
        st = st.fork()
        st.events = []
        st.oob = []
        st.result = None
        st.frames = []
        st.limit = None
        self.enter(st, f, args, None)
        return st

    def enter(self, st, f, args, ret):
        self.fns.add(f.name)
        if len(st.frames) > 40:
            raise Stuck('recursion')
        env = {}
        for (t, r), a in zip(f.params, args):
            env[r] = a
        st.frames.append([f, env, f.order[0], 0, None, ret])

    def run(self, st, fn, args, lo=None, hi=None):
        """all outcomes [State]; the unknown length n ranges over lo..hi"""
        s = self.start(st, fn, args)
        self.budget = self.steps + 6000000
        s.lo, s.hi = (lo, hi) if lo is not None else (0, 0)
        return self.go([s])

    def go(self, work):
        outs = []
        while work:
            st = work.pop()
            r = self.path(st, work)
            if r is not None:
                outs.append(r)
            if len(outs) + len(work) > 1500:
                raise Stuck('too many paths')
        return outs

    def path(self, st, work):
        while True:
            fr = st.frames[-1]
            f, env, blk, i = fr[0], fr[1], fr[2], fr[3]
            ins = f.blocks[blk][i]
            self.steps += 1
            if self.steps > self.budget:
                raise Stuck('too many steps')
            if st.limit is not None:
                st.limit -= 1
                if st.limit < 0:
                    self.dropped = True
                    return None
            try:
                r = self.step(st, fr, f, env, ins)
            except Stuck as e:
                e.st = st
                raise
            except Split as s:
                cuts = [c for c in s.cuts if st.lo < c <= st.hi]
                if not cuts:
                    raise Stuck('cannot decide a condition on the length')
                lo, hi = st.lo, st.hi
                parts = []
                a = lo
                for c in sorted(set(cuts)):
                    parts.append((a, c - 1))
                    a = c
                if s.drop:
                    self.dropped = True
                else:
                    parts.append((a, hi))
                for p in parts[1:]:
                    n = st.fork()
                    n.lo, n.hi = p
                    if n.lo == n.hi > 4096 and n.limit is None:
                        n.limit = 3000000 if n.lo <= 60000 else 0
                    if s.drop and p is parts[-1]:
                        # a length was cut: one length of that kind
                        n.hi = n.lo
                        n.limit = 3000000 if n.lo <= 60000 else 60000
                    work.append(n)
                st.lo, st.hi = parts[0]
                continue
            if r is None:
                fr[3] += 1
            elif r == 'go':
                pass
            elif r == 'done':
                return st
            elif r == 'drop':
                return None
            elif r[0] == 'both':
                n = st.fork()
                n.data = st.data = True
                self.jump(n, n.frames[-1], r[2])
                work.append(n)
                self.jump(st, fr, r[1])

    def jump(self, st, fr, to):
        f, env = fr[0], fr[1]
        prev = fr[2]
        new = {}
        k = 0
        for ins in f.blocks[to]:
            if ins[0] != 'phi':
                break
            k += 1
            for v, b in ins[4]:
                if b == prev:
                    new[ins[2]] = self.val(st, f, env, v, ins[3])
                    break
            else:
                raise Stuck('phi')
        env.update(new)
        fr[4], fr[2], fr[3] = prev, to, k
        return 'go'

    def step(self, st, fr, f, env, ins):
        op = ins[0]
        if op == 'bin':
            _, _, d, o, t, a, b, _ = ins
            x, y = self.val(st, f, env, a, t), self.val(st, f, env, b, t)
            if t[0] == 'vec':
                w = t[2][1]
                if isinstance(x, By):
                    x = self.lanes(st, x, t)
                if isinstance(y, By):
                    y = self.lanes(st, y, t)
                env[d] = Vec(self.bin(st, o, w, p, q) for p, q in zip(x, y))
            else:
                env[d] = self.bin(st, o, t[1], x, y)
            return
        if op == 'load':
            _, _, d, t, p = ins
            v = self.load(st, self.val(st, f, env, p, ('p',)), self.m.size(t))
            if t[0] == 'vec':
                v = self.lanes(st, v, t)
            elif t[0] == 'i' and t[1] == 1 and isinstance(v, int):
                v &= 1
            env[d] = v
            return
        if op == 'store':
            _, _, _, t, v, p = ins
            self.store(st, self.val(st, f, env, p, ('p',)), self.val(st, f, env, v, t), self.m.size(t))
            return
        if op == 'gep':
            _, _, d, t, b, idx = ins
            env[d] = self.gep(st, t, self.val(st, f, env, b, ('p',)), [(ty, self.val(st, f, env, x, ty)) for ty, x in idx])
            return
        if op == 'icmp':
            _, _, d, pr, t, a, b = ins
            w = 64 if t[0] == 'p' else t[1]
            if t[0] == 'vec':
                raise Stuck('comparison of vectors')
            env[d] = self.cmp(st, pr, w, self.val(st, f, env, a, t), self.val(st, f, env, b, t))
            return
        if op == 'br':
            _, _, a, b, c = ins
            if b is None:
                return self.jump(st, fr, a)
            v = self.low(st, self.val(st, f, env, a, ('i', 1)))
            if isinstance(v, int):
                return self.jump(st, fr, b if v else c)
            if isinstance(v, (Opq, By)):
                return ('both', b, c)
            raise Stuck('branch on %s' % type(v).__name__)
        if op == 'switch':
            _, _, t, v, dflt, cs = ins
            v = self.conc(st, self.val(st, f, env, v, t))
            for c, b in cs:
                if c & ((1 << t[1]) - 1) == v:
                    return self.jump(st, fr, b)
            return self.jump(st, fr, dflt)
        if op == 'cast':
            _, _, d, o, t, a, t2 = ins
            env[d] = self.cast(st, o, t, self.val(st, f, env, a, t), t2)
            return
        if op == 'select':
            _, _, d, ct, c, t, a, b = ins
            v = self.low(st, self.val(st, f, env, c, ct))
            if not isinstance(v, int):
                n = self.m.size(t)
                env[d] = By(opaque('select', j, ins[1]) for j in range(n))
                return
            env[d] = self.val(st, f, env, a if v else b, t)
            return
        if op == 'alloca':
            _, _, d, t, n = ins
            k = 1 if n is None else self.conc(st, self.val(st, f, env, n, ('i', 64)))
            env[d] = Ptr(st.new(d, self.m.size(t) * k), 0)
            return
        if op == 'ret':
            _, _, v, t = ins
            r = None if v is None else self.val(st, f, env, v, t)
            st.frames.pop()
            if not st.frames:
                st.result = r
                return 'done'
            c = st.frames[-1]
            if fr[5] is not None:
                c[1][fr[5]] = r
            c[3] += 1
            return 'go'
        if op == 'call':
            return self.call(st, fr, f, env, ins)
        if op == 'freeze':
            env[ins[2]] = self.val(st, f, env, ins[4], ins[3])
            return
        if op == 'extractelement':
            _, _, d, t, a, i = ins
            v = self.val(st, f, env, a, t)
            if isinstance(v, By):
                v = self.lanes(st, v, t)
            env[d] = v[self.conc(st, self.val(st, f, env, i, ('i', 64)))]
            return
        if op == 'insertelement':
            _, _, d, t, a, b, i = ins
            v = list(self.val(st, f, env, a, t))
            v[self.conc(st, self.val(st, f, env, i, ('i', 64)))] = self.val(st, f, env, b, t[2])
            env[d] = Vec(v)
            return
        if op == 'shufflevector':
            _, _, d, t, a, b, t3, m = ins
            x = self.val(st, f, env, a, t)
            y = self.val(st, f, env, b, t)
            l = list(x) + list(y)
            mk = self.val(st, f, env, m, t3)
            env[d] = Vec(l[k if isinstance(k, int) and k < len(l) else 0] for k in mk)
            return
        if op == 'unreachable':
            return 'drop'
        raise Stuck('instruction ' + op)

    def lanes(self, st, v, t):
        if isinstance(v, Vec):
            return v
        n = self.m.size(t[2])
        b = self.by(st, v, n * t[1])
        return Vec(self.low(st, By(b[i * n:(i + 1) * n])) for i in range(t[1]))

    def cast(self, st, o, t, v, t2):
        if t[0] == 'vec' or t2[0] == 'vec':
            if o == 'bitcast':
                if isinstance(v, Vec) and t2[0] == 'vec' and t[1] == t2[1]:
                    return v
                b = self.by(st, v, self.m.size(t))
                return self.lanes(st, b, t2) if t2[0] == 'vec' else self.low(st, b)
            return Vec(self.cast(st, o, t[2], x, t2[2]) for x in v)
        if o in ('bitcast', 'ptrtoint', 'inttoptr'):
            return self.low(st, v)
        v = self.low(st, v)
        if o == 'zext':
            if isinstance(v, By):
                return By(self.by(st, v, self.m.size(t2)))
            return v
        if o == 'trunc':
            if isinstance(v, By):
                if t2[1] % 8:
                    return Opq() if t2[1] == 1 else By([opaque('trunc')] * self.m.size(t2))
                return self.low(st, By(v[:t2[1] // 8]))
            if isinstance(v, (int, Aff, Quo)):
                return self.norm(st, v, t2[1])
            if isinstance(v, Opq):
                return v
            raise Stuck('an address cut to %d bits' % t2[1])
        if o == 'sext':
            if isinstance(v, int):
                return v | (((1 << t2[1]) - (1 << t[1])) if v >> (t[1] - 1) else 0)
            if isinstance(v, Quo):
                if (st.hi + v.k) // v.d < 1 << (t[1] - 1):
                    return v
                raise Stuck('sign of a quotient')
            if isinstance(v, Aff):
                if self.rng(st, v)[1] < 1 << (t[1] - 1):
                    return v
                return self.cast(st, o, t, self.conc(st, v), t2)
            if isinstance(v, By):
                return By(opaque('sext', tuple(v), j) for j in range(self.m.size(t2)))
            if isinstance(v, Opq):
                return v
        raise Stuck('cast ' + o)

    def call(self, st, fr, f, env, ins):
        _, _, d, t, fv, args = ins
        if fv[0] != '@':
            raise Stuck('call through a pointer')
        name = fv[1]
        vals = [self.val(st, f, env, a, ty) for ty, a in args]
        if name in self.perm or (f.file, name) in self.perm:
            lanes = self.perm.get(name) or self.perm[(f.file, name)]
            p = vals[0]
            off = self.conc(st, p.off) if isinstance(p, Ptr) else None
            if off is None:
                raise Stuck('argument of the permutation')
            b = []
            for j in range(25):
                b += self.by(st, self.load(st, Ptr(p.o, off + 8 * lanes * j), 8 * lanes), 8 * lanes)
            for l in range(lanes):
                r = self.F([b[8 * lanes * j + 8 * l + k] for j in range(25) for k in range(8)])
                for j in range(25):
                    for k in range(8):
                        b[8 * lanes * j + 8 * l + k] = r[8 * j + k]
            c = st.cells(p.o)
            self.clear(c, off, 200 * lanes)
            for i, x in enumerate(b):
                c[off + i] = x
            st.events.append((p.o, off))
            if self.cut is not None and self.cut(st, len(st.events)):
                return 'drop'
            return
        g = self.m.fns.get((f.file, name)) or self.m.fns.get(name)
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.dbg') or name.startswith('llvm.stack'):
            return
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            n = self.conc(st, vals[2])
            src, dst = vals[1], vals[0]
            if n:
                so = self.conc(st, src.off)
                c = st.mem[src.o]
                items = []
                i = 0
                while i < n:
                    x = c.get(so + i)
                    if x is not None and x[0] == 'W' and i + x[2] <= n:
                        items.append((i, x[1], x[2]))
                        i += x[2]
                    else:
                        items.append((i, self.load(st, Ptr(src.o, so + i), 1), 1))
                        i += 1
                do = self.conc(st, dst.off)
                for i, v, k in items:
                    self.store(st, Ptr(dst.o, do + i), v, k)
            if d:
                env[d] = dst
            return
        if name.startswith('llvm.memset') or name == 'memset':
            n = self.conc(st, vals[2])
            do = self.conc(st, vals[0].off)
            v = self.low(st, vals[1])
            v = v & 255 if isinstance(v, int) else v
            for i in range(n):
                self.store(st, Ptr(vals[0].o, do + i), v, 1)
            if d:
                env[d] = vals[0]
            return
        if name in ('malloc', 'calloc', 'aligned_alloc'):
            n = self.conc(st, vals[-1]) * (self.conc(st, vals[0]) if name == 'calloc' else 1)
            o = st.new('heap', n, {i: ZERO for i in range(n)} if name == 'calloc' else None)
            env[d] = Ptr(o, 0)
            return
        if name == 'free':
            p = vals[0]
            if isinstance(p, Ptr):
                st.mem[p.o] = {i: opaque('freed', i) for i in range(st.size.get(p.o) or 0)}
                st.own.add(p.o)
            return
        if name in ('exit', 'abort', '_exit', 'llvm.trap'):
            return 'drop'
        if 'gather' in name and name.endswith('.q.q.256'):
            base, idx, mask, sc = vals[1], vals[2], vals[3], self.conc(st, vals[4])
            out = []
            for l in range(4):
                mk = self.low(st, mask[l])
                if not (isinstance(mk, int) and mk >> 63):
                    raise Stuck('masked gather')
                a = idx[l]
                if not isinstance(a, Ptr):
                    a = self.bin(st, 'mul', 64, a, sc)
                elif sc != 1:
                    raise Stuck('gather')
                p = self.bin(st, 'add', 64, base, a)
                out.append(self.load(st, p, 8))
            env[d] = Vec(out)
            return
        if name.startswith(('llvm.umin', 'llvm.umax')):
            w = t[1]
            le = self.cmp(st, 'ule', w, vals[0], vals[1])
            env[d] = vals[0] if (le == 1) == ('umin' in name) else vals[1]
            return
        if name.startswith('llvm.bswap') or name.startswith('llvm.fsh') or name.startswith('llvm.') or g is None:
            raise Stuck('call of ' + name)
        self.enter(st, g, vals, d)
        return 'go'
