"""Abstract interpreter for the LLVM IR of the Dilithium sources (domain: cdom)."""
import cdom as D
from cdom import Lin, add, scale, iv

PAGE = 1 << 16


class Stuck(Exception):
    """the analysis cannot follow"""


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __eq__(self, b):
        return isinstance(b, Ptr) and self.o == b.o and self.off == b.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class Vec:
    __slots__ = ('w', 'l')

    def __init__(self, w, l):
        self.w = w
        self.l = l

    def __eq__(self, b):
        return isinstance(b, Vec) and self.w == b.w and self.l == b.l

    def __repr__(self):
        return 'Vec%d%r' % (self.w, self.l[:4])


class Ghost:
    """a non-numeric memory content (hash contexts)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, b):
        return isinstance(b, Ghost) and self.v == b.v

    def __hash__(self):
        return hash(self.v)


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'kind', 'owner', 'ver', 'writes')

    def __init__(self, id, name, size, kind):
        self.id = id
        self.name = name
        self.size = size
        self.kind = kind          # 'in' (byte atoms), 'undef', 'zero'
        self.cells = {}
        self.owner = None
        self.ver = 0
        self.writes = 0

    def clone(self, owner):
        o = Obj(self.id, self.name, self.size, self.kind)
        o.cells = dict(self.cells)
        o.owner = owner
        o.ver = self.ver
        return o


class State:
    def __init__(self):
        self.mem = {}
        self.known = {}
        self.dec = None           # decisions: linked (prev, cond, n)
        self.events = None        # linked (prev, event)
        self.tok = object()
        self.sub = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.known = dict(self.known)
        s.dec = self.dec
        s.events = self.events
        self.tok = object()
        return s

    def w(self, o):
        x = self.mem[o]
        if x.owner is not self.tok:
            x = self.mem[o] = x.clone(self.tok)
        return x

    def assume(self, c, rec=True):
        if rec:
            self.dec = (self.dec, c, (self.dec[2] if self.dec else 0) + 1)
        self.learn(c)

    def learn(self, c):
        if type(c) is int:
            return
        if c in self.known:
            return
        self.known[c] = True
        if c[0] == 'and':
            for x in c[1]:
                self.learn(x)

    def trail(self, since=0):
        l = []
        d = self.dec
        while d and d[2] > since:
            l.append(d[1])
            d = d[0]
        return l[::-1]

    def ndec(self):
        return self.dec[2] if self.dec else 0

    def ev(self, e):
        self.events = (self.events, e)

    def eventlist(self):
        l = []
        d = self.events
        while d:
            l.append(d[1])
            d = d[0]
        return l[::-1]

    def truth(self, c):
        if type(c) is int:
            return c
        if c in self.known:
            return 1
        if D.neg(c) in self.known:
            return 0
        if c[0] == 'or':
            v = [self.truth(x) for x in c[1]] if len(c[1]) < 50 else [None]
            if 1 in v:
                return 1
            if all(x == 0 for x in v):
                return 0
        if c[0] == 'and':
            v = [self.truth(x) for x in c[1]] if len(c[1]) < 50 else [None]
            if 0 in v:
                return 0
            if all(x == 1 for x in v):
                return 1
        return None


class Restart(Exception):
    def __init__(self, key):
        self.key = key


class Interp:
    def __init__(self, mod, summaries, maxsteps=30000000):
        self.m = mod
        self.sum = summaries
        self.n = 0
        self.fns = set()
        self.steps = 0
        self.maxsteps = maxsteps
        self.gobj = {}
        self.globs = {}
        self.unknown = set()
        self.generic_loops = []
        self.logged = set()           # objects whose stores at known offsets are recorded as events
        self.depth = 0
        self.overflow = {}
        self.loopinfo = {}
        self.peel = set()
        self.ngen = 0
        self.aborts = 0

    # ---- objects
    def new(self, st, name, size, kind):
        self.n += 1
        o = Obj(self.n, name, size, kind)
        o.owner = st.tok
        st.mem[self.n] = o
        return Ptr(self.n, 0)

    def glob(self, st, name, file):
        key = (file, name) if (file, name) in self.m.globals else name
        if key not in self.m.globals:
            if name in self.m.fns or (file, name) in self.m.fns or name in self.m.decl:
                return ('fn', name)
            raise Stuck('global ' + name)
        i = self.gobj.get(key)
        if i is None:
            t, v, const = self.m.globals[key]
            self.n += 1
            i = self.gobj[key] = self.n
            o = Obj(i, 'global ' + name, self.m.size(t), 'ext' if v is None else 'zero')
            if v is not None:
                self.init(o, 0, t, v)
            self.globs[i] = o
        if i not in st.mem:
            st.mem[i] = self.globs[i]
        return Ptr(i, 0)

    def init(self, o, off, t, v):
        m = self.m
        while t[0] == 'n':
            t = m.types[t[1]]
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if t[0] == 'i':
            o.cells[off] = (m.size(t), D.sgn(v[1], t[1]))
        elif t[0] in ('a', 'vec'):
            s = m.size(t[2])
            if k == 'str':
                for j, b in enumerate(v[1]):
                    o.cells[off + j] = (1, D.sgn(b, 8))
            else:
                for j, x in enumerate(v[1]):
                    self.init(o, off + j * s, t[2], x)
        elif t[0] in ('s', 'ps'):
            for j, x in enumerate(v[1]):
                fo, ft = m.field(t, j)
                self.init(o, off + fo, ft, x)
        elif t[0] == 'p':
            o.cells[off] = (8, ('const', v))

    # ---- memory
    def cellat(self, o, off):
        """(start, size, value) of the cell covering byte off"""
        c = o.cells
        for d in range(8):
            x = c.get(off - d)
            if x is not None:
                if x[0] > d:
                    return off - d, x[0], x[1]
        return None

    def default(self, o, off):
        if o.kind == 'in':
            return D.atom(('in', o.name, off), 0, 255)
        if o.kind == 'zero':
            return 0
        return D.atom(('undef', o.id, off), 0, 255)

    def load(self, st, p, size):
        if p.o is None:
            raise Stuck('null dereference')
        o = st.mem[p.o]
        off = p.off
        if type(off) is not int:
            return self.symload(st, o, off, size)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if o.size is not None and type(o.size) is int and not 0 <= off <= o.size - size:
            self.oob(st, o, off, size)
        bits = []
        for j in range(size):
            x = self.cellat(o, off + j)
            if x is None:
                bits += D.bits(8, self.default(o, off + j))
            else:
                s, n, v = x
                if not isinstance(v, (int, Lin)):
                    if isinstance(v, Ghost) or isinstance(v, Ptr) or isinstance(v, tuple):
                        raise Stuck('partial load of a non-numeric cell in ' + o.name)
                b = D.bits(8 * n, v)
                k = off + j - s
                bits += b[8 * k:8 * k + 8]
        return D.frombits(8 * size, bits)

    def oob(self, st, o, off, size):
        st.ev(('oob', o.name, off, size))

    def version(self, o):
        if o.ver == 0:
            self.ngen += 1
            o.ver = self.ngen
        return o.ver

    def streamload(self, st, o, off):
        """a byte of a buffer filled with consecutive bytes of a hash stream"""
        lo, hi = self.bounded(st, off)
        if hi - lo > PAGE:
            return None
        first = None
        for j in range(lo, hi + 1):
            c = o.cells.get(j)
            if c is None or c[0] != 1 or not isinstance(c[1], Lin) or len(c[1].t) != 1 or c[1].c or c[1].t[0][1] != 1:
                return None
            at = D.ATOM[c[1].t[0][0]]
            if at[0] != 'h':
                return None
            if first is None:
                first = at
            elif at[1] != first[1] or D.add(at[2], first[2], -1) != j - lo:
                return None
        return D.atom(('h', first[1], D.add(D.add(first[2], off), -lo)), 0, 255) if first else None

    def bytewise(self, o):
        """are the contents of the object known as single bytes?"""
        if not o.cells:
            return o.kind == 'in'
        return o.kind == 'zero' and all(s == 1 for s, v in o.cells.values())

    def symload(self, st, o, off, size):
        lo, hi = iv(off)
        if 1 < size <= 8 and self.bytewise(o):
            bits = []
            for j in range(size):
                bits += D.bits(8, self.symload(st, o, D.add(off, j), 1))
            return D.frombits(8 * size, bits)
        if size == 1 and o.cells:
            r = self.streamload(st, o, off)
            if r is not None:
                return r
        vals = [v for k, (s, v) in o.cells.items() if s == size and lo <= k <= hi]
        w = 8 * size
        if o.kind == 'in' and not o.cells and size == 1:
            return D.atom(('ld', o.name, off, size), 0, 255)
        if vals and all(isinstance(v, (int, Lin)) for v in vals):
            l = min(iv(v)[0] for v in vals)
            h = max(iv(v)[1] for v in vals)
            if o.kind == 'zero':
                l, h = min(l, 0), max(h, 0)
            elif o.kind in ('in', 'undef'):
                if type(o.size) is not int or len(vals) * size < o.size:
                    l, h = min(l, -(1 << (w - 1)) if size > 1 else 0), max(h, (1 << w) - 1)
        else:
            l, h = (0, 255) if size == 1 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return D.atom(('ld', (o.id, self.version(o)), off, size), l, h)

    def store(self, st, p, size, v):
        if p.o is None:
            raise Stuck('null store')
        o = st.w(p.o)
        off = p.off
        o.ver = 0
        if type(off) is not int:
            return self.symstore(st, o, off, size, v)
        if o.size is not None and type(o.size) is int and not 0 <= off <= o.size - size:
            self.oob(st, o, off, size)
        if p.o in self.logged:
            st.ev(('store', p.o, off, size, v))
        c = o.cells
        x = c.get(off)
        if x is not None and x[0] == size:
            c[off] = (size, v)
            return
        self.clear(o, off, size)
        c[off] = (size, v)

    def clear(self, o, off, size):
        c = o.cells
        if size > 64:
            hit = [k for k in c if off - 8 < k < off + size]
        else:
            hit = [k for k in range(off - 7, off + size) if k in c]
        for k in hit:
            n, v = c[k]
            if k + n <= off:
                continue
            del c[k]
            if k < off or k + n > off + size:
                if isinstance(v, (int, Lin)):
                    b = D.bits(8 * n, v)
                    for j in range(n):
                        if not off <= k + j < off + size:
                            c[k + j] = (1, D.frombits(8, b[8 * j:8 * j + 8]))

    def symstore(self, st, o, off, size, v):
        lo, hi = iv(off)
        lo = max(lo, 0)
        if type(o.size) is int:
            hi = min(hi, o.size - size)
        if hi - lo > PAGE:
            if o.kind != 'undef':
                raise Stuck('store at an unbounded offset in ' + o.name)
            # an output of unknown size: its whole content becomes unknown
            st.ev(('symstore', o.id, off, size, v, st.ndec()))
            o = st.w(o.id)
            o.cells = {}
            o.ver = 0
            return
        import math
        g = 0
        for _, k in off.t:
            g = math.gcd(g, k)
        st.ev(('symstore', o.id, off, size, v, st.ndec()))
        self.ngen += 1
        n = self.ngen
        lo += (off.c - lo) % g
        if g % size:
            raise Stuck('unaligned symbolic store')
        for k in range(lo, hi + 1, g):
            old = self.load(st, Ptr(o.id, k), size)
            if isinstance(v, (int, Lin)) and isinstance(old, (int, Lin)):
                (a, b), (c, d) = iv(old), iv(v)
                x = D.atom(('weak', n, k), min(a, c), max(b, d)) if not (a == b == c == d) else a
            else:
                raise Stuck('symbolic store of a pointer')
            self.clear(o, k, size)
            o.cells[k] = (size, x)

    def loadv(self, st, p, t):
        """a value of LLVM type t"""
        while t[0] == 'n':
            t = self.m.types[t[1]]
        if t[0] == 'i':
            v = self.load(st, p, self.m.size(t))
            if t[1] == 1 and not isinstance(v, int):
                return D.neg(D.eq(v))
            return v if isinstance(v, (int, Lin)) else v
        if t[0] == 'p':
            v = self.load(st, p, 8)
            if isinstance(v, tuple) and v and v[0] == 'const':
                raise Stuck('pointer in a global')
            if not isinstance(v, Ptr):
                if v == 0:
                    return Ptr(None, 0)
                raise Stuck('load of an unknown pointer')
            return v
        if t[0] == 'vec':
            es = self.m.size(t[2])
            tot = es * t[1]
            o = st.mem[p.o]
            if type(p.off) is not int:
                s = 1 if self.bytewise(o) else es
                return Vec(8 * s, [self.load(st, Ptr(p.o, D.add(p.off, j)), s) for j in range(0, tot, s)])
            x = self.cellat(o, p.off)
            s = es
            if x is not None and x[0] == p.off and x[1] < es:
                s = x[1]
            if x is not None and x[0] == p.off and x[1] > es:
                s = es
            elif x is None and o.kind == 'in':
                s = 1
            elif x is not None and x[0] == p.off and x[1] <= es:
                s = x[1]
            l = [self.load(st, Ptr(p.o, p.off + j), s) for j in range(0, tot, s)]
            return Vec(8 * s, l)
        raise Stuck('load of %r' % (t,))

    def storev(self, st, p, t, v):
        while t[0] == 'n':
            t = self.m.types[t[1]]
        if isinstance(v, Vec):
            s = v.w // 8
            if s == 0:
                raise Stuck('store of a condition vector')
            for j, x in enumerate(v.l):
                self.store(st, Ptr(p.o, D.add(p.off, j * s)), s, x)
            return
        if isinstance(v, tuple):
            v = D.b2i(v)
        if t[0] == 'vec' and v == 0:
            return self.storev(st, p, t, Vec(32, [0] * (self.m.size(t) // 4)))
        self.store(st, p, self.m.size(t), v)

    def copy(self, st, d, s, n):
        """memcpy / memmove of n bytes"""
        if type(n) is not int:
            return self.symcopy(st, d, s, n)
        if n == 0:
            return
        if type(d.off) is not int or type(s.off) is not int:
            if n <= 64:
                l = [self.load(st, Ptr(s.o, add(s.off, j)), 1) for j in range(n)]
                for j in range(n):
                    self.store(st, Ptr(d.o, add(d.off, j)), 1, l[j])
                return
            raise Stuck('copy at a symbolic offset')
        so = st.mem[s.o]
        cells = []
        j = s.off
        end = s.off + n
        while j < end:
            c = so.cells.get(j)
            if c is not None and j + c[0] <= end:
                cells.append((j - s.off, c[0], c[1]))
                j += c[0]
            else:
                if c is None and self.cellat(so, j) is None:
                    if so.kind == 'undef':
                        j += 1
                        continue
                    v = self.default(so, j)
                else:
                    v = self.load(st, Ptr(s.o, j), 1)
                cells.append((j - s.off, 1, v))
                j += 1
        do = st.w(d.o)
        do.ver = 0
        if d.o in self.logged:
            for k, sz, v in cells:
                st.ev(('store', d.o, d.off + k, sz, v))
        if type(do.size) is int and d.off + n > do.size:
            self.oob(st, do, d.off, n)
        self.clear(do, d.off, n)
        for k, sz, v in cells:
            do.cells[d.off + k] = (sz, v)

    def symcopy(self, st, d, s, n):
        """a copy of symbolic length: the bytes it may reach become unknown"""
        end = add(d.off, n)
        lo, hi = iv(d.off)[0], iv(end)[1]
        for c in st.known:
            if c[0] == 'ge':
                x = add(c[1], end)
                hi = min(hi, iv(x)[1])
        o = st.w(d.o)
        if type(o.size) is int:
            hi = min(hi, o.size)
        if hi - lo > PAGE:
            if o.kind != 'undef':
                raise Stuck('copy of unbounded length')
            st.ev(('segcopy', o.id, d.off, n, s.o, s.off, st.ndec()))
            o.cells = {}
            o.ver = 0
            return
        src = []
        for j in range(min(4, iv(n)[1])):
            try:
                src.append(self.load(st, Ptr(s.o, add(s.off, j)), 1))
            except Stuck:
                break
        was = []
        for j in range(lo, hi):
            try:
                was.append(self.load(st, Ptr(d.o, j), 1))
            except Stuck:
                was.append(None)
        st.ev(('symcopy', o.id, d.off, n, tuple(x for x in src if isinstance(x, (int, Lin))), lo, tuple(was)))
        self.ngen += 1
        o = st.w(d.o)
        o.ver = 0
        self.clear(o, lo, hi - lo)
        for j in range(lo, hi):
            o.cells[j] = (1, D.atom(('weak', self.ngen, o.id, j), 0, 255))

    def bytes(self, st, p, n):
        """n bytes at p as a tuple of values; a symbolic length gives one segment"""
        if type(n) is not int:
            o = st.mem[p.o]
            if o.kind == 'in' and not o.cells:
                return (('seg', o.name, p.off, n),)
            raise Stuck('symbolic length over written memory')
        return tuple(self.load(st, Ptr(p.o, add(p.off, j)), 1) for j in range(n))

    def putbytes(self, st, p, vals):
        for j, v in enumerate(vals):
            self.store(st, Ptr(p.o, add(p.off, j)), 1, v)

    # ---- execution
    def call(self, st, name, args, file=None, line=0):
        """list of (state, value)"""
        f = self.m.fns.get((file, name)) or self.m.fns.get(name)
        s = self.summary(name)
        if s is not None:
            r = s(self, st, name, args, line)
            return r if isinstance(r, list) else [(st, r)]
        if f is None:
            return self.external(st, name, args, line)
        return self.exec(f, args, st)

    def summary(self, name):
        return self.sum(name)

    def external(self, st, name, args, line):
        self.unknown.add(name)
        raise Stuck('external function ' + name)

    def exec(self, f, args, st):
        self.fns.add((f.file, f.name))
        if self.depth > 60:
            raise Stuck('recursion')
        self.depth += 1
        n0 = st.ndec()
        env = {r: a for (t, r), a in zip(f.params, args)}
        outs = self.region(f, [(st, env, f.order[0], None)], None)
        self.depth -= 1
        res = []
        for o in outs:
            if o[0] == 'ret':
                res.append((o[1], o[2]))
        if len(res) > 1:
            res = self.merge_returns(res, n0)
        return res

    def merge_returns(self, res, n0):
        s0 = res[0][0]
        base = {k: v for k, v in s0.mem.items()}
        for s, v in res:
            if not (isinstance(v, (int, Lin, tuple)) or v is None):
                return res
            for k, o in base.items():
                x = s.mem.get(k)
                if x is not o and (x is None or x.cells is not o.cells and x.cells != o.cells):
                    return res
            if s.events is not s0.events:
                return res
        trails = [(s.trail(n0), v) for s, v in res]
        try:
            val = self.ite_tree(trails)
        except Stuck:
            return res
        st = s0
        # facts common to all
        known = {}
        smallest = min((s for s, _ in res), key=lambda s: len(s.known))
        for c in smallest.known:
            if all(c in s.known for s, _ in res):
                known[c] = True
        st.known = known
        d = st.dec
        while d and d[2] > n0:
            d = d[0]
        st.dec = d
        return [(st, val)]

    def ite_tree(self, trails):
        # trails: [(conds, value)], a binary decision tree in depth-first order; built from the leaves
        def build(idx, depth):
            stack = []
            # iterative along the longer branch
            chain = []
            cur = idx
            d = depth
            while True:
                if len(cur) == 1:
                    leaf = trails[cur[0]][1]
                    break
                if any(len(trails[i][0]) <= d for i in cur):
                    raise Stuck('decision tree')
                c = trails[cur[0]][0][d]
                a = [i for i in cur if trails[i][0][d] == c]
                b = [i for i in cur if trails[i][0][d] != c]
                nc = D.neg(c)
                if any(trails[i][0][d] != nc for i in b):
                    raise Stuck('decision tree')
                if not b:
                    cur = a
                    d += 1
                    continue
                if len(a) <= len(b):
                    chain.append((c, build(a, d + 1), True))
                    cur = b
                else:
                    chain.append((c, build(b, d + 1), False))
                    cur = a
                d += 1
            # fold; equal side values are collected into one disjunction
            val = leaf
            i = len(chain)
            while i > 0:
                i -= 1
                c, side, pos = chain[i]
                cs = [c if pos else D.neg(c)]
                while i > 0 and self.same(chain[i - 1][1], side):
                    i -= 1
                    cs.append(chain[i][0] if chain[i][2] else D.neg(chain[i][0]))
                cc = D.c_or(cs)
                val = self.ite(cc, side, val)
            return val
        return build(list(range(len(trails))), 0)

    def left(self, trails):
        """what is known where these paths meet: a condition that holds on each of them and not on the branches that left before;
        1 if nothing (or too much)"""
        if len(trails) > 8:
            return 1

        def build(l, d):
            if any(len(t) <= d for t in l):
                return 1
            c = l[0][d]
            a = [t for t in l if t[d] == c]
            b = [t for t in l if t[d] != c]
            x = build(a, d + 1)
            if not b:
                return D.c_and([c, x])
            y = build(b, d + 1)
            if type(x) is int and x and type(y) is int and y:
                return 1
            return D.c_or([D.c_and([c, x]), D.c_and([D.neg(c), y])])
        try:
            return build(trails, 0)
        except (KeyError, IndexError, RecursionError):
            return 1

    def same(self, a, b):
        return type(a) == type(b) and a == b

    def ite(self, c, a, b):
        if self.same(a, b):
            return a
        if a is None or b is None:
            if a is None and b is None:
                return None
            raise Stuck('merge')
        if isinstance(a, tuple) or isinstance(b, tuple):
            return D.ite(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.w == b.w and len(a.l) == len(b.l):
                return Vec(a.w, [self.ite(c, x, y) for x, y in zip(a.l, b.l)])
            raise Stuck('merge')
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return D.select(c, a, b)
        raise Stuck('merge of %r and %r' % (a, b))

    # ---- control flow
    def region(self, f, start, loop):
        """explore from start; loop: None or (header, body) - then leaving the body or reaching the header again ends a path"""
        outs = []
        work = list(start)
        while work:
            st, env, blk, prev = work.pop()
            if blk == '#ret':
                outs.append(('ret', st, env['#ret']))
                continue
            while True:
                if loop is not None and prev is not None:
                    if blk == loop[0] and prev in loop[1]:
                        outs.append(('back', st, env, prev))
                        break
                    if blk not in loop[1]:
                        outs.append(('exit', st, env, blk, prev))
                        break
                if blk in f.loops and (prev is None or prev not in f.loops[blk]) and not (loop is not None and blk == loop[0]):
                    for o in self.loop(f, st, env, blk, prev):
                        if o[0] == 'exit':
                            work.append((o[1], o[2], o[3], o[4]))
                        else:
                            outs.append(o)
                    break
                nxt = self.block(f, st, env, blk, prev, loop)
                if nxt is None:
                    break
                if nxt[0] == 'ret':
                    outs.append(('ret', nxt[1], nxt[2]))
                    break
                if nxt[0] == 'many':
                    work.extend(nxt[1])
                    break
                prev, blk = blk, nxt[1]
            if len(work) > 6000 or len(outs) > 20000:
                raise Stuck('too many paths in ' + f.name)
        return outs

    def phis(self, f, st, env, blk, prev):
        new = {}
        for ins in f.blocks[blk]:
            if ins[0] != 'phi':
                break
            for v, b in ins[4]:
                if b == prev:
                    new[ins[2]] = self.val(f, st, env, v, ins[3])
                    break
            else:
                raise Stuck('phi')
        env.update(new)
        return new

    def loop(self, f, st, env, h, prev):
        key = (f.file, f.name, h)
        if f.name in self.peel and self.loopinfo.get(key) == 'generic':
            return self.peeled(f, st, env, h, prev)
        if self.loopinfo.get(key) == 'generic' or self.loopinfo.get(key) == 'maybe':
            pass
        if self.loopinfo.get(key) != 'generic':
            s0 = st.fork()
            e0 = dict(env)
            try:
                return self.unroll(f, st, env, h, prev)
            except Restart as r:
                if r.key != key:
                    raise
                self.loopinfo[key] = 'generic'
                st, env = s0, e0
                if f.name in self.peel:
                    return self.peeled(f, st, env, h, prev)
        return self.generic(f, st, env, h, prev)

    def peeled(self, f, st, env, h, prev):
        """the first iteration on its own, then an arbitrary later one"""
        outs, nxt = [], []
        n0 = st.ndec()
        for o in self.region(f, [(st, env, h, prev)], (h, f.loops[h])):
            if o[0] == 'back':
                nxt.append((o[1], o[2], o[3]))
            else:
                outs.append(o)
        if len(nxt) > 1:
            nxt = self.merge_iter(f, h, nxt, n0)
        for s, e, p in nxt:
            outs += self.generic(f, s, e, h, p)
        return outs

    def unroll(self, f, st, env, h, prev):
        body = f.loops[h]
        key = (f.file, f.name, h)
        outs = []
        cur = [(st, env, prev)]
        it = 0
        while cur:
            it += 1
            if it > 70000:
                raise Stuck('loop does not end in ' + f.name)
            nxt = []
            for st, env, prev in cur:
                self.concrete_exit = getattr(self, 'concrete_exit', {})
                self.concrete_exit[key] = (False, False)
                n0 = st.ndec()
                res = self.region(f, [(st, env, h, prev if it == 1 else prev)], (h, body)) if it == 1 else self.region2(f, st, env, h, prev, body)
                ce, sym = self.concrete_exit[key]
                both = any(o[0] == 'back' for o in res) and any(o[0] != 'back' for o in res)
                for o in res:
                    if o[0] == 'back':
                        if (sym or both) and not ce:
                            raise Restart(key)
                        nxt.append((o[1], o[2], o[3]))
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.merge_iter(f, h, nxt, n0)
            if len(nxt) > 64:
                raise Restart(key)
            cur = nxt
        return outs

    def region2(self, f, st, env, h, prev, body):
        """one more iteration: execute the header from a back edge"""
        nxt = self.block(f, st, env, h, prev, (h, body))
        if nxt is None:
            return []
        if nxt[0] == 'ret':
            return [('ret', nxt[1], nxt[2])]
        if nxt[0] == 'many':
            return self.region(f, nxt[1], (h, body))
        return self.region(f, [(st, env, nxt[1], h)], (h, body))

    def merge_iter(self, f, h, l, n0):
        """merge the states that reach the header at the end of one iteration"""
        try:
            trails = [s.trail(n0) for s, e, p in l]
            idx = [(t, i) for i, t in enumerate(trails)]
            vals = {}
            s0, e0, p0 = l[0]
            # header phis, as if all came from one predecessor
            phi = [ins for ins in f.blocks[h] if ins[0] == 'phi']
            regs = {}
            for ins in phi:
                vs = []
                for s, e, p in l:
                    vs.append(self.val(f, s, e, [v for v, b in ins[4] if b == p][0], ins[3]))
                regs[ins[2]] = self.ite_tree([(t, v) for (t, i), v in zip(idx, vs)])
            # memory
            for s, e, p in l[1:]:
                if s.events is not s0.events:
                    return l
            out = s0
            keys = set(s0.mem)
            for k in list(keys):
                objs = [s.mem.get(k) for s, e, p in l]
                if any(o is None for o in objs):
                    continue
                if all(o is objs[0] or o.cells == objs[0].cells for o in objs):
                    continue
                offs = set()
                for o in objs:
                    offs |= set(o.cells)
                new = {}
                for off in offs:
                    cs = [o.cells.get(off) for o in objs]
                    if all(c == cs[0] for c in cs):
                        if cs[0] is not None:
                            new[off] = cs[0]
                        continue
                    if any(c is None or c[0] != (cs[0] or (0,))[0] for c in cs):
                        return l
                    new[off] = (cs[0][0], self.ite_tree([(t, c[1]) for t, c in zip(trails, cs)]))
                o = s0.w(k)
                o.cells = new
                o.ver = 0
            known = {}
            sm = min((s for s, e, p in l), key=lambda s: len(s.known))
            for c in sm.known:
                if all(c in s.known for s, e, p in l):
                    known[c] = True
            c = self.left(trails)
            if type(c) is tuple and c[0] == 'or':
                known[c] = True
            s0.known = known
            d = s0.dec
            while d and d[2] > n0:
                d = d[0]
            s0.dec = d
            e0 = dict(e0)
            e0['#merged'] = (h, regs)
            return [(s0, e0, p0)]
        except Stuck:
            return l

    def generic(self, f, st, env, h, prev):
        """a loop whose number of iterations depends on the input: one iteration from an arbitrary earlier one"""
        body = f.loops[h]
        key = (f.name, h, self.ngen)
        init = dict(env)
        start = st
        phis = [ins for ins in f.blocks[h] if ins[0] == 'phi']
        pv = {}
        for ins in phis:
            pv[ins[2]] = [self.val(f, st, env, v, ins[3]) for v, b in ins[4] if b == prev][0]
        wid = {}
        for r, v in pv.items():
            wid[r] = list(iv(v)) if isinstance(v, (int, Lin)) else list(iv(v.off)) if isinstance(v, Ptr) and v.o is not None else None
        mod = {}
        self.ngen += 1
        gid = self.ngen
        inv = {}
        narrowed = set()
        for attempt in range(16):
            top = {}
            s = start.fork()
            e = dict(init)
            atoms = {}
            for ins in phis:
                r = ins[2]
                v = pv[r]
                if wid[r] is None:
                    if inv.get(r):
                        raise Stuck('pointer advanced by a data-dependent loop in ' + f.name)
                    e[r] = v
                    continue
                if r not in inv:
                    # unchanged so far
                    e[r] = v
                    continue
                lo, hi = wid[r]
                v = pv[r]
                a = D.atom(('gen', gid, r, attempt if False else 0, lo, hi), lo, hi)
                if isinstance(v, Ptr):
                    a = Ptr(v.o, a)
                atoms[r] = a
                e[r] = a
            for (o, off), (size, l, hh) in sorted(mod.items(), key=lambda x: type(x[1][1]) is tuple and x[1][1][0] == 'rel'):
                ob = s.w(o)
                self.clear(ob, off, size)
                ob.ver = 0
                if type(l) is tuple and l[0] == 'rel':
                    g = D.atom(('h', l[3], D.add(s.mem[l[1]].cells[l[2]][1].v[2], l[4])), 0, 255)
                elif type(l) is tuple:
                    g = Ghost(l[:2] + (D.atom(('hv', gid, o, off), 0, 1 << 40),))
                elif l is None:
                    g = Ghost(('hv', gid, o, off))
                else:
                    g = D.atom(('hv', gid, o, off, l, hh), l, hh)
                ob.cells[off] = (size, g)
            entry = s.fork()
            n0 = s.ndec()
            e['#hdr'] = True
            e['#loop'] = gid
            res = []
            nxt = self.block(f, s, e, h, None, (h, body), skipphi=True)
            if nxt is None:
                return []
            if nxt[0] == 'ret':
                res = [('ret', nxt[1], nxt[2])]
            elif nxt[0] == 'many':
                res = self.region(f, nxt[1], (h, body))
            else:
                res = self.region(f, [(s, e, nxt[1], h)], (h, body))
            # stable?
            changed = False
            tiles = {}
            for (o, off), (size, l, hh) in mod.items():
                for j in range(off, off + size):
                    tiles.setdefault((o, j), set()).add((off, size))

            def widen(k, off, size, l, hh):
                """havoc this cell from now on; cells of different sizes that overlap are taken apart into bytes"""
                over = {x for j in range(off, off + size) for x in tiles.get((k, j), ()) if x != (off, size)}
                if not over:
                    mod[(k, off)] = (size, l, hh)
                    for j in range(off, off + size):
                        tiles.setdefault((k, j), set()).add((off, size))
                    return True
                new = False
                for o2, s2 in over | {(off, size)}:
                    if s2 != 1 and (k, o2) in mod and mod[(k, o2)][0] == s2:
                        del mod[(k, o2)]
                    for j in range(o2, o2 + s2):
                        if mod.get((k, j)) != (1, 0, 255):
                            new = True
                        mod[(k, j)] = (1, 0, 255)
                        tiles[(k, j)] = {(j, 1)}
                return new

            backs = [o for o in res if o[0] == 'back']
            for o in backs:
                _, bs, be, bp = o
                for ins in phis:
                    r = ins[2]
                    v = self.val(f, bs, be, [x for x, b in ins[4] if b == bp][0], ins[3])
                    cur = e[r] if r not in be or True else None
                    base = atoms.get(r, pv[r])
                    if self.same(v, base):
                        continue
                    if isinstance(v, Ptr) and isinstance(pv[r], Ptr) and v.o == pv[r].o and v.o is not None:
                        v = v.off
                        w = 48
                    elif not isinstance(v, (int, Lin)) or isinstance(pv[r], Ptr):
                        if isinstance(v, Ptr):
                            raise Stuck('pointer advanced by a data-dependent loop in ' + f.name)
                        raise Stuck('loop value')
                    else:
                        w = ins[3][1]
                    if r not in inv:
                        inv[r] = True
                        changed = True
                    lo, hi = self.bounded(bs, v)
                    if lo < wid[r][0]:
                        wid[r][0] = lo if attempt < 2 else -(1 << (w - 1))
                        if lo < wid[r][0] or attempt >= 2:
                            wid[r][0] = 0 if lo >= 0 else -(1 << (w - 1))
                        changed = True
                    top[r] = max(top.get(r, hi), hi)
                    if hi > wid[r][1]:
                        wid[r][1] = hi if attempt < 2 or r in narrowed else 1 << 20 if hi < 1 << 20 and wid[r][0] >= 0 and w >= 32 else (1 << w) - 1 if wid[r][0] >= 0 else (1 << (w - 1)) - 1
                        changed = True
                for k, ob in bs.mem.items():
                    eo = entry.mem.get(k)
                    if eo is None or eo is ob or eo.cells == ob.cells:
                        continue
                    for off in set(eo.cells) | set(ob.cells):
                        a, b = eo.cells.get(off), ob.cells.get(off)
                        if a == b:
                            continue
                        if b is None:
                            # granularity changed; the pieces are compared on their own
                            if (k, off) not in mod:
                                pass
                            continue
                        if a is None:
                            try:
                                av = self.load(entry, Ptr(k, off), b[0])
                            except Stuck:
                                av = None
                        else:
                            av = a[1] if a[0] == b[0] else (self.load(entry, Ptr(k, off), b[0]) if isinstance(a[1], (int, Lin)) else None)
                        rel = self.related(entry, bs, av, b[1])
                        if rel is not None and mod.get((k, off), (1, rel, None)) == (1, rel, None):
                            if (k, off) in mod:
                                continue
                            mod[(k, off)] = (1, rel, None)
                            changed = True
                            continue
                        if isinstance(b[1], (int, Lin)) and isinstance(av, (int, Lin)):
                            if type(mod.get((k, off), (1, 0, 0))[1]) is tuple:
                                mod[(k, off)] = (1, 0, 255)
                                changed = True
                                continue
                            l = min(iv(av)[0], iv(b[1])[0])
                            hh = max(iv(av)[1], iv(b[1])[1])
                            old = mod.get((k, off))
                            if old and old[0] == b[0] and old[1] is not None and old[1] <= l and old[2] >= hh:
                                continue
                            if old and attempt >= 3:
                                w = 8 * b[0]
                                l, hh = -(1 << (w - 1)), (1 << w) - 1
                            elif old and old[1] is not None and old[0] == b[0]:
                                l, hh = min(l, old[1]), max(hh, old[2])
                            if b[0] == 1:
                                l, hh = max(l, -128), min(hh, 255)
                                if old and old == (1, l, hh):
                                    continue
                            if not widen(k, off, b[0], l, hh):
                                continue
                        else:
                            if isinstance(av, Ghost) and mod.get((k, off), (0, 0, 0))[1] is None:
                                continue
                            if isinstance(av, Ghost) and isinstance(b[1], Ghost) and av.v[0] == b[1].v[0] == 'squeeze' and av.v[1] == b[1].v[1]:
                                # the same stream, further on
                                if (k, off) in mod:
                                    continue
                                mod[(k, off)] = (b[0], av.v[:2], None)
                                changed = True
                                continue
                            mod[(k, off)] = (b[0], None, None)
                        changed = True
            for o in backs:
                # stream bytes that stay in place although the stream advances
                for (k, off), (size, l, hh) in list(mod.items()):
                    if type(l) is tuple and l[0] == 'rel' and k in o[1].mem and off in o[1].mem[k].cells:
                        if self.related(entry, o[1], entry.mem[k].cells[off][1], o[1].mem[k].cells[off][1]) != l:
                            mod[(k, off)] = (1, 0, 255)
                            changed = True
            if not changed:
                # the bound the loop keeps by itself, where it is below the one guessed
                new = {r: max(iv(pv[r] if not isinstance(pv[r], Ptr) else pv[r].off)[1], t) for r, t in top.items() if r not in narrowed and wid[r][1] == 1 << 20}
                new = {r: t for r, t in new.items() if t < wid[r][1]}
                if not new:
                    break
                for r, t in new.items():
                    wid[r][1] = t
                narrowed |= set(new)
        else:
            raise Stuck('loop does not stabilise in ' + f.name)
        info = {'fn': f.name, 'file': f.file, 'header': h, 'id': gid, 'init': dict(pv), 'atoms': atoms,
                'back': [(o[1].trail(n0), {ins[2]: self.val(f, o[1], o[2], [x for x, b in ins[4] if b == o[3]][0], ins[3]) for ins in phis},
                          [x for x in o[1].eventlist()[len(entry.eventlist()):]], o[1]) for o in backs],
                'start': start, 'outer': init.get('#loop')}
        self.generic_loops.append(info)
        out = []
        for o in res:
            if o[0] != 'back':
                o[1].ev(('loop', info, len(o[1].trail(n0)), o[0]))
                if o[0] == 'exit':
                    o[2]['#loop'] = init.get('#loop')
                out.append(o)
        return out

    def related(self, s1, s2, a, b):
        """two stream bytes as far behind the current position of their stream in one state as in the other"""
        h = []
        for x in (a, b):
            if not isinstance(x, Lin) or len(x.t) != 1 or x.t[0][1] != 1 or x.c or D.ATOM[x.t[0][0]][0] != 'h':
                return None
            h.append(D.ATOM[x.t[0][0]])
        if h[0][1] != h[1][1]:
            return None
        for k, o in s1.mem.items():
            if len(o.cells) > 8:
                continue
            for off, (size, v) in o.cells.items():
                if isinstance(v, Ghost) and v.v[:2] == ('squeeze', h[0][1]):
                    w = s2.mem[k].cells.get(off)
                    if w is None or not isinstance(w[1], Ghost) or w[1].v[:2] != v.v[:2]:
                        continue
                    d1, d2 = D.add(h[0][2], v.v[2], -1), D.add(h[1][2], w[1].v[2], -1)
                    if type(d1) is int and d1 == d2:
                        return ('rel', k, off, h[0][1], d1)
        return None

    def bounded(self, st, v):
        """interval of a value, given the facts of the state"""
        lo, hi = iv(v)
        if type(v) is int:
            return lo, hi
        mine = {a for a, _ in v.t}
        for c in st.known:
            if type(c) is tuple and c[0] == 'ge' and isinstance(c[1], Lin) and any(a in mine for a, _ in c[1].t):
                hi = min(hi, iv(D.add(v, c[1]))[1])
                lo = max(lo, iv(D.add(v, c[1], -1))[0])
            elif type(c) is tuple and c[0] == 'ne' and isinstance(c[1], Lin) and len(c[1].t) == len(v.t) and c[1].t[0][0] in mine:
                for k in (1, -1):
                    n = D.add(v, c[1], k)
                    if type(n) is int:
                        lo, hi = lo + (n == lo), hi - (n == hi)
        return lo, hi

    def block(self, f, st, env, blk, prev, loop, skipphi=False):
        """run one block; returns ('next', label) | ('ret', st, v) | ('many', [(st, env, blk, prev)]) | None"""
        self.cur = f
        ins_l = f.blocks[blk]
        i = 0
        mg = env.pop('#merged', None) if env else None
        if not skipphi and ins_l[0][0] == 'phi':
            if mg is not None and mg[0] == blk:
                env.update(mg[1])
            else:
                self.phis(f, st, env, blk, prev)
        while i < len(ins_l) and ins_l[i][0] == 'phi':
            i += 1
        return self.run(f, st, env, blk, i, loop)

    def run(self, f, st, env, blk, i, loop):
        ins_l = f.blocks[blk]
        n = len(ins_l)
        while i < n:
            ins = ins_l[i]
            op = ins[0]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Stuck('step budget')
            if op == 'bin':
                env[ins[2]] = self.binop(f, ins, self.val(f, st, env, ins[5], ins[4]), self.val(f, st, env, ins[6], ins[4]))
            elif op == 'gep':
                env[ins[2]] = self.gep(ins[3], self.val(f, st, env, ins[4], ('p',)), [self.val(f, st, env, v, t) for t, v in ins[5]])
            elif op == 'load':
                env[ins[2]] = self.loadv(st, self.ptr(self.val(f, st, env, ins[4], ('p',))), ins[3])
            elif op == 'store':
                self.storev(st, self.ptr(self.val(f, st, env, ins[5], ('p',))), ins[3], self.val(f, st, env, ins[4], ins[3]))
            elif op == 'icmp':
                env[ins[2]] = self.icmp(ins[3], ins[4], self.val(f, st, env, ins[5], ins[4]), self.val(f, st, env, ins[6], ins[4]))
            elif op == 'cast':
                env[ins[2]] = self.cast(ins[3], ins[4], ins[6], self.val(f, st, env, ins[5], ins[4]))
            elif op == 'br':
                if ins[3] is None:
                    return ('next', ins[2])
                return self.branch(f, st, env, blk, self.val(f, st, env, ins[2], ('i', 1)), ins[3], ins[4], loop)
            elif op == 'call':
                r = self.docall(f, st, env, ins)
                if len(r) == 1:
                    if r[0][0] is not st:
                        # the state object continues under a new identity
                        st2, v = r[0]
                        if ins[2]:
                            env[ins[2]] = v
                        nxt = self.run(f, st2, env, blk, i + 1, loop)
                        if nxt and nxt[0] == 'next':
                            return ('many', [(st2, env, nxt[1], blk)])
                        return nxt
                    if ins[2]:
                        env[ins[2]] = r[0][1]
                elif not r:
                    return None
                else:
                    many = []
                    for st2, v in r:
                        e2 = dict(env)
                        if ins[2]:
                            e2[ins[2]] = v
                        nxt = self.run(f, st2, e2, blk, i + 1, loop)
                        if nxt is None:
                            continue
                        if nxt[0] == 'next':
                            many.append((st2, e2, nxt[1], blk))
                        elif nxt[0] == 'many':
                            many += nxt[1]
                        else:
                            many.append((nxt[1], {'#ret': nxt[2]}, '#ret', blk))
                    return ('many', many)
            elif op == 'alloca':
                k = self.val(f, st, env, ins[4], ('i', 64)) if ins[4] else 1
                env[ins[2]] = self.new(st, '%s:%s' % (f.name, ins[2]), self.m.size(ins[3]) * k, 'undef')
            elif op == 'ret':
                return ('ret', st, self.val(f, st, env, ins[2], ins[3]) if ins[2] else None)
            elif op == 'select':
                c = self.val(f, st, env, ins[4], ins[3])
                a, b = self.val(f, st, env, ins[6], ins[5]), self.val(f, st, env, ins[7], ins[5])
                if isinstance(c, Vec):
                    w = ins[5][2][1]
                    a, b = self.lanes(a, w, ins[5][1]), self.lanes(b, w, ins[5][1])
                    env[ins[2]] = Vec(w, [self.ite(x, y, z) if type(x) is not int else (y if x else z) for x, y, z in zip(c.l, a, b)])
                else:
                    t = st.truth(c)
                    if t is not None:
                        env[ins[2]] = a if t else b
                    elif isinstance(a, Ptr):
                        s2 = st.fork()
                        e2 = dict(env)
                        st.assume(c)
                        s2.assume(D.neg(c))
                        env[ins[2]] = a
                        e2[ins[2]] = b
                        many = []
                        for s, e in ((st, env), (s2, e2)):
                            nxt = self.run(f, s, e, blk, i + 1, loop)
                            if nxt is None:
                                continue
                            if nxt[0] == 'next':
                                many.append((s, e, nxt[1], blk))
                            elif nxt[0] == 'many':
                                many += nxt[1]
                            else:
                                many.append((nxt[1], {'#ret': nxt[2]}, '#ret', blk))
                        return ('many', many)
                    else:
                        env[ins[2]] = self.ite(c, a, b)
            elif op == 'freeze':
                env[ins[2]] = self.val(f, st, env, ins[4], ins[3])
            elif op == 'switch':
                return self.switch(f, st, env, blk, ins, loop)
            elif op == 'unreachable':
                return None
            elif op in ('extractelement', 'insertelement', 'shufflevector'):
                env[ins[2]] = self.vecop(f, st, env, ins)
            else:
                raise Stuck('instruction ' + op)
            i += 1
        raise Stuck('block without end')

    def switch(self, f, st, env, blk, ins, loop):
        v = self.val(f, st, env, ins[3], ins[2])
        w = ins[2][1]
        if isinstance(v, int):
            for c, b in ins[5]:
                if D.sgn(c, w) == D.sgn(v, w):
                    return ('next', b)
            return ('next', ins[4])
        many = []
        rest = st
        for c, b in ins[5]:
            e = self.icmp('eq', ins[2], v, D.sgn(c, w))
            t = rest.truth(e)
            if t == 0:
                continue
            s2 = rest.fork()
            s2.assume(e)
            many.append((s2, dict(env), b, blk))
            if t == 1:
                rest = None
                break
            rest.assume(D.neg(e))
        if rest is not None:
            many.append((rest, env, ins[4], blk))
        self.note(f, blk, loop, True, [x[2] for x in many])
        return ('many', many)

    def note(self, f, blk, loop, symbolic, targets):
        """bookkeeping for the unroll-or-generalise decision"""
        ce = getattr(self, 'concrete_exit', None)
        if not ce:
            return
        for h, body in f.loops.items():
            key = (f.file, f.name, h)
            if key in ce and blk in body:
                a, b = ce[key]
                if symbolic:
                    ce[key] = (a, True)

    def branch(self, f, st, env, blk, c, a, b, loop):
        t = c if type(c) is int else st.truth(c)
        if t is not None:
            ce = getattr(self, 'concrete_exit', None)
            if ce:
                for h, body in f.loops.items():
                    key = (f.file, f.name, h)
                    if key in ce and blk in body and (a not in body or b not in body) and not any(g != h and blk in bd and len(bd) < len(body) for g, bd in f.loops.items()):
                        ce[key] = (True, ce[key][1])
            return ('next', a if t else b)
        self.note(f, blk, loop, True, (a, b))
        s2 = st.fork()
        e2 = dict(env)
        st.assume(c)
        s2.assume(D.neg(c))
        return ('many', [(st, env, a, blk), (s2, e2, b, blk)])

    # ---- values
    def ptr(self, v):
        if isinstance(v, Ptr):
            return v
        raise Stuck('not a pointer: %r' % (v,))

    def val(self, f, st, env, v, t):
        k = v[0]
        if k == '%':
            return env[v[1]]
        if k == 'c':
            return D.sgn(v[1], t[1]) if t[1] > 1 else v[1] & 1
        if k == '@':
            return self.glob(st, v[1], f.file)
        if k == 'zero':
            if t[0] == 'p':
                return Ptr(None, 0)
            if t[0] == 'vec':
                w = t[2][1]
                return Vec(w, [0] * t[1])
            return 0
        if k == 'undef':
            if t[0] == 'vec':
                return Vec(t[2][1], [0] * t[1])
            if t[0] == 'p':
                return Ptr(None, 0)
            return 0
        if k == 'agg':
            return Vec(t[2][1], [self.val(f, st, env, x, t[2]) for x in v[1]])
        if k == 'cgep':
            idx = [self.val(f, st, env, x, ty) for ty, x in v[2]]
            return self.gep(v[1], idx[0], idx[1:])
        if k == 'ccast':
            return self.cast(v[1], v[2], v[4], self.val(f, st, env, v[3], v[2]))
        raise Stuck('value %r' % (v,))

    def gep(self, t, p, idx):
        p = self.ptr(p)
        off = p.off
        off = add(off, idx[0] if False else scale(idx[0], self.m.size(t))) if not isinstance(off, int) or not isinstance(idx[0], int) else off + idx[0] * self.m.size(t)
        for i in idx[1:]:
            while t[0] == 'n':
                t = self.m.types[t[1]]
            if t[0] in ('a', 'vec'):
                t = t[2]
                off = off + i * self.m.size(t) if type(off) is int and type(i) is int else add(off, scale(i, self.m.size(t)))
            else:
                o, t = self.m.field(t, i)
                off = add(off, o)
        return Ptr(p.o, off)

    def lanes(self, v, w, n):
        """the lanes of a vector at width w"""
        if isinstance(v, (int, Lin)):
            raise Stuck('vector expected')
        if v.w == w:
            return v.l
        return self.rewidth(v, w).l

    def rewidth(self, v, w):
        if v.w == w:
            return v
        l = []
        if v.w > w:
            if w == 1 or v.w % w:
                raise Stuck('vector width')
            k = v.w // w
            for x in v.l:
                if type(x) is int:
                    for j in range(k):
                        l.append(D.sgn(x >> (j * w), w))
                else:
                    b = D.bits(v.w, x)
                    for j in range(k):
                        l.append(D.frombits(w, b[j * w:j * w + w]))
        else:
            k = w // v.w
            if v.w == 1:
                raise Stuck('vector width')
            for j in range(0, len(v.l), k):
                p = v.l[j:j + k]
                if all(type(x) is int for x in p):
                    t = 0
                    for m, x in enumerate(p):
                        t |= (x & ((1 << v.w) - 1)) << (m * v.w)
                    l.append(D.sgn(t, w))
                else:
                    b = []
                    for x in p:
                        b += D.bits(v.w, x)
                    l.append(D.frombits(w, b))
        return Vec(w, l)

    def binop(self, f, ins, a, b):
        t = ins[4]
        op = ins[3]
        if t[0] == 'vec':
            w = t[2][1]
            if w == 1:
                la, lb = self.lanes(a, 1, t[1]), self.lanes(b, 1, t[1])
                return Vec(1, [self.bool(op, x, y) for x, y in zip(la, lb)])
            if op in ('and', 'or', 'xor'):
                # bitwise: at the finer width of the operands
                w = min(w, a.w, b.w) if min(a.w, b.w) >= 8 else w
                if a.w == b.w and a.w > 1:
                    w = a.w
            la, lb = self.lanes(a, w, t[1]), self.lanes(b, w, t[1])
            return Vec(w, [self.scalar(op, w, x, y, None) for x, y in zip(la, lb)])
        w = t[1]
        if w == 1:
            return self.bool(op, a, b)
        return self.scalar(op, w, a, b, (f, ins) if ins[7] else None)

    def bool(self, op, a, b):
        if op == 'and':
            return D.c_and([a, b])
        if op == 'or':
            return D.c_or([a, b])
        if op in ('xor', 'add'):
            return D.ite(a, D.neg(b), b)
        raise Stuck('boolean ' + op)

    def scalar(self, op, w, a, b, nsw):
        if isinstance(a, tuple):
            a = D.b2i(a)
        if isinstance(b, tuple):
            b = D.b2i(b)
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptrarith(op, w, a, b)
            raise Stuck('arithmetic on %r, %r' % (a, b))
        if op == 'add':
            if nsw:
                a, b = D.asS(w, a), D.asS(w, b)
                r = add(a, b)
                self.chk(nsw, w, r)
                return D.norm(w, r)
            return D.norm(w, add(a, b))
        if op == 'sub':
            if nsw:
                a, b = D.asS(w, a), D.asS(w, b)
                r = add(a, b, -1)
                self.chk(nsw, w, r)
                return D.norm(w, r)
            return D.norm(w, add(a, b, -1))
        if op == 'mul':
            if nsw:
                a, b = D.asS(w, a), D.asS(w, b)
                (al, ah), (bl, bh) = iv(a), iv(b)
                ps = (al * bl, al * bh, ah * bl, ah * bh)
                if min(ps) < -(1 << (w - 1)) or max(ps) >= 1 << (w - 1):
                    self.ovf(nsw, w, min(ps), max(ps))
            return D.mul(w, a, b)
        if op == 'and':
            return D.band(w, a, b)
        if op == 'or':
            return D.bor(w, a, b)
        if op == 'xor':
            return D.norm(w, D.bxor(w, a, b))
        if op == 'shl':
            if type(b) is not int:
                raise Stuck('shift by a variable amount')
            b &= (1 << w) - 1
            if b >= w:
                return 0
            if nsw:
                a = D.asS(w, a)
                self.chk(nsw, w, scale(a, 1 << b))
            if type(a) is int:
                return D.sgn(a << b, w)
            x = scale(a, 1 << b)
            lo, hi = x.iv
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)) or lo >= 0 and hi < (1 << w):
                return x
            if iv(a)[0] >= 0:
                bb = D.bits(w, a)
                return D.frombits(w, [0] * b + bb[:w - b])
            return D.norm(w, x)
        if op in ('lshr', 'ashr'):
            if type(b) is not int:
                raise Stuck('shift by a variable amount')
            b &= (1 << w) - 1
            if op == 'lshr':
                if b >= w:
                    return 0
                x = D.asU(w, a)
                if type(x) is not int and iv(D.asS(w, a))[0] < 0 and b and type(a) is not int and a.iv[0] < 0:
                    # the sign and the top bits of a negative number
                    bb = D.bits(w, a)
                    return D.frombits(w, bb[b:] + [0] * b)
            else:
                b = min(b, w - 1)
                x = D.asS(w, a)
            return D.shr(x, b)
        if type(a) is int and type(b) is int:
            if op in ('udiv', 'urem'):
                m = (1 << w) - 1
                a, b = a & m, b & m
                if b == 0:
                    raise Stuck('division by zero')
                return D.sgn(a // b if op == 'udiv' else a % b, w)
            if b == 0:
                raise Stuck('division by zero')
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return D.sgn(q if op == 'sdiv' else a - q * b, w)
        if type(b) is int and b and op in ('udiv', 'urem', 'sdiv', 'srem'):
            x, b = (D.asU(w, a), b & ((1 << w) - 1)) if op[0] == 'u' else (D.asS(w, a), b)
            n = abs(b)
            lo, hi = D.tight(x) if isinstance(x, Lin) else (x, x)
            if max(hi, 0) // n + max(-lo, 0) // n <= 64:
                # the quotient counts the multiples passed, towards zero
                q = 0
                for k in range(1, hi // n + 1):
                    q = add(q, D.b2i(D.ge(add(x, -k * n))))
                for k in range(1, -lo // n + 1):
                    q = add(q, D.b2i(D.ge(add(D.scale(x, -1), -k * n))), -1)
                return D.norm(w, add(x, q, -n) if op[1:] == 'rem' else D.scale(q, 1 if b > 0 else -1))
        raise Stuck('variable division')

    def chk(self, nsw, w, r):
        lo, hi = iv(r)
        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
            self.ovf(nsw, w, lo, hi)

    def ovf(self, nsw, w, lo, hi):
        f, ins = nsw
        k = (f.name, ins[1], ins[3])
        o = self.overflow.get(k)
        self.overflow[k] = (f.file, w, min(lo, o[2]) if o else lo, max(hi, o[3]) if o else hi)

    def ptrarith(self, op, w, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.o == b.o:
            return add(a.off, b.off, -1)
        if isinstance(a, Ptr) and isinstance(b, (int, Lin)) and op in ('add', 'sub'):
            return Ptr(a.o, add(a.off, b, 1 if op == 'add' else -1))
        if isinstance(a, Ptr) and op == 'and' and isinstance(b, int):
            # an alignment test
            if b > 0 and type(a.off) is int:
                return a.off & b
        raise Stuck('pointer arithmetic')

    def icmp(self, pr, t, a, b):
        if t[0] == 'vec':
            w = t[2][1]
            la, lb = self.lanes(a, w, t[1]), self.lanes(b, w, t[1])
            return Vec(1, [self.cmp(pr, w, x, y) for x, y in zip(la, lb)])
        if t[0] == 'p':
            if a.o != b.o:
                if pr == 'eq':
                    return 0
                if pr == 'ne':
                    return 1
                raise Stuck('pointer comparison')
            return self.cmp(pr, 64, a.off, b.off)
        return self.cmp(pr, t[1], a, b)

    def cmp(self, pr, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.icmp(pr, ('p',), a, b)
        if w == 1:
            if pr == 'eq':
                return D.ite(a, b, D.neg(b))
            if pr == 'ne':
                return D.ite(a, D.neg(b), b)
            a, b = D.b2i(a), D.b2i(b)
            return self.cmp(pr, 8, a, b)
        if isinstance(a, tuple):
            a = D.b2i(a)
        if isinstance(b, tuple):
            b = D.b2i(b)
        if pr in ('eq', 'ne'):
            (al, ah), (bl, bh) = iv(a), iv(b)
            if not (al >= 0 and bl >= 0):
                a, b = D.asS(w, a), D.asS(w, b)
            c = D.eq(add(a, b, -1))
            return c if pr == 'eq' else D.neg(c)
        if pr[0] == 's':
            a, b = D.asS(w, a), D.asS(w, b)
        else:
            a, b = D.asU(w, a), D.asU(w, b)
        p = pr[1:]
        if p == 'ge':
            return D.ge(add(a, b, -1))
        if p == 'gt':
            return D.ge(add(add(a, b, -1), -1))
        if p == 'le':
            return D.ge(add(b, a, -1))
        return D.ge(add(add(b, a, -1), -1))

    def cast(self, op, t, t2, a):
        if op == 'bitcast':
            if t2[0] == 'vec':
                if isinstance(a, Vec):
                    if a.w == 1:
                        raise Stuck('bitcast of conditions')
                    return a
                if isinstance(a, (int, Lin)):
                    return self.rewidth(Vec(t[1], [a]), min(t[1], t2[2][1]))
                return a
            if isinstance(a, Vec):
                if a.w == 1:
                    if all(type(x) is int for x in a.l):
                        return D.sgn(sum(x << i for i, x in enumerate(a.l)), t2[1])
                    r = 0
                    for i, x in enumerate(a.l):
                        r = add(r, D.b2i(x), 1 << i)
                    return r
                return self.rewidth(a, t2[1]).l[0]
            return a
        if op in ('ptrtoint', 'inttoptr'):
            return a
        if t[0] == 'vec':
            w, w2 = t[2][1], t2[2][1]
            return Vec(w2, [self.cast1(op, w, w2, x) for x in self.lanes(a, w, t[1])])
        return self.cast1(op, t[1], t2[1], a)

    def cast1(self, op, w, w2, a):
        if isinstance(a, Ptr):
            return a
        if w == 1:
            x = D.b2i(a)
            return x if op == 'zext' else scale(x, -1)
        if op == 'zext':
            return D.asU(w, a)
        if op == 'sext':
            return D.asS(w, a)
        if op == 'trunc':
            if w2 == 1:
                b = D.bits(1, a)[0]
                if type(b) is int:
                    return b
                return D.neg(D.eq(D.frombits(1, [b])))
            if type(a) is int:
                return D.sgn(a, w2)
            lo, hi = a.iv
            if lo >= -(1 << (w2 - 1)) and hi < (1 << (w2 - 1)) or lo >= 0 and hi < (1 << w2):
                return a
            if lo >= 0 or w2 == 8:
                return D.frombits(w2, D.bits(w2, a))
            x = D.wrap(w2, a)
            return x
        raise Stuck('cast ' + op)

    def vecop(self, f, st, env, ins):
        t = ins[3]
        w = t[2][1] if t[2][0] in ('i', 'f') else 64
        if ins[0] == 'extractelement':
            a = self.lanes(self.val(f, st, env, ins[4], t), w, t[1])
            i = self.val(f, st, env, ins[5], ('i', 64))
            if type(i) is not int:
                raise Stuck('variable lane')
            return a[i]
        if ins[0] == 'insertelement':
            a = list(self.lanes(self.val(f, st, env, ins[4], t), w, t[1]))
            i = self.val(f, st, env, ins[6], ('i', 64))
            if type(i) is not int:
                raise Stuck('variable lane')
            a[i] = self.val(f, st, env, ins[5], t[2])
            return Vec(w, a)
        a = self.val(f, st, env, ins[4], t)
        b = self.val(f, st, env, ins[5], t)
        # keep a finer granularity if both operands have it
        g = w
        if a.w == b.w and a.w < w and a.w > 1:
            g = a.w
        elif w > 1 and 1 < min(a.w, b.w) < w:
            g = min(a.w, b.w)
        la, lb = self.lanes(a, g, 0), self.lanes(b, g, 0)
        k = w // g if g else 1
        m = ins[7]
        if m[0] == 'zero':
            idx = [0] * ins[6][1]
        elif m[0] == 'undef':
            idx = [0] * ins[6][1]
        else:
            idx = [x[1] if x[0] == 'c' else 0 for x in m[1]]
        l = []
        both = list(la) + list(lb)
        for x in idx:
            l += both[x * k:x * k + k]
        return Vec(g, l)

    def docall(self, f, st, env, ins):
        fn = ins[4]
        if fn[0] != '@':
            raise Stuck('indirect call')
        name = fn[1]
        args = [self.val(f, st, env, v, t) if t[0] != 'metadata' else None for t, v in ins[5]]
        if name.startswith('llvm.'):
            return [(st, self.intrinsic(st, name, ins, args))]
        return self.call(st, name, args, f.file, ins[1])

    def intrinsic(self, st, name, ins, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.copy(st, self.ptr(args[0]), self.ptr(args[1]), args[2])
            return None
        if name.startswith('llvm.memset'):
            p, v, n = args[0], args[1], args[2]
            if type(n) is not int:
                raise Stuck('memset of symbolic length')
            if type(p.off) is not int:
                raise Stuck('memset')
            o = st.w(p.o)
            o.ver = 0
            self.clear(o, p.off, n)
            if v == 0 and p.off % 4 == 0 and n % 4 == 0:
                for j in range(0, n, 4):
                    o.cells[p.off + j] = (4, 0)
            else:
                for j in range(n):
                    o.cells[p.off + j] = (1, v)
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume'):
            return None
        r = self.x86(name, ins, args)
        if r is NotImplemented:
            raise Stuck('intrinsic ' + name)
        return r

    def x86(self, name, ins, args):
        import cvec
        return cvec.intrinsic(self, name, ins, args)
