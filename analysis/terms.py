"""Abstract values: hash-consed provenance terms, affine integers, bit vectors of provenance bits,
byte ropes, aggregates and references.  Everything is immutable."""
import sys
sys.setrecursionlimit(20000)


class T:
    """Opaque provenance term (value-numbering node)."""
    __slots__ = ('op', 'args', 'ty', 'id', '_h')
    table = {}
    count = 0

    def __new__(cls, op, *args, ty=None):
        key = (op, args)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.ty = op, args, ty
            t._h = hash(key)
            cls.count += 1
            t.id = cls.count
            cls.table[key] = t
        elif t.ty is None and ty is not None:
            t.ty = ty
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


class Lin:
    """const + sum coef*atom, over T atoms."""
    __slots__ = ('c', 'ts', '_h')

    def __init__(self, c, ts):
        self.c, self.ts = c, ts
        self._h = hash((c, ts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.ts == o.ts

    def __repr__(self):
        return show(self)


def lin(v):
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        return v.c, dict(v.ts)
    return 0, {v: 1}


def mklin(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return Lin(c, tuple(sorted(d.items(), key=lambda kv: getattr(kv[0], 'id', 0) or hash(kv[0]))))


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, da = lin(a)
    cb, db = lin(b)
    for k, x in db.items():
        da[k] = da.get(k, 0) + x
    return mklin(ca + cb, da)


def lscale(a, n):
    if isinstance(a, int):
        return a * n
    c, d = lin(a)
    return mklin(c * n, {k: x * n for k, x in d.items()})


def lsub(a, b):
    return ladd(a, lscale(b, -1))


class BV:
    """Bit vector; bits (LSB first) are 0, 1 or a frozenset of atoms (their XOR); an atom is (T, bit).
    The constant 1 inside a XOR is the atom (None, 0)."""
    __slots__ = ('bits', '_h')

    def __init__(self, bits):
        self.bits = tuple(bits)
        self._h = hash(('bv', self.bits))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, BV) and self.bits == o.bits

    def __repr__(self):
        return show(self)


ONE = (None, 0)


def bits_of(v, n):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(n))
    if isinstance(v, BV):
        b = v.bits[:n]
        return b + (0,) * (n - len(b))
    w = getattr(v, 'ty', None)
    m = n
    if isinstance(v, T) and v.op in ('byte', 'elem'):
        m = min(n, 8)
    elif isinstance(v, T) and w is not None and getattr(w, 'k', None) == 'int' and not w.signed:
        m = min(n, w.bits)
    return tuple(frozenset([(v, i)]) for i in range(m)) + (0,) * (n - m)


def mkbv(bits, n=None):
    bits = tuple(bits)
    if all(isinstance(b, int) for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    # whole value of one term?
    src = None
    for i, b in enumerate(bits):
        if b == 0:
            continue
        if isinstance(b, frozenset) and len(b) == 1:
            (t, j), = b
            if j == i and t is not None and (src is None or src is t):
                src = t
                continue
        src = False
        break
    if src:
        full = bits_of(src, len(bits))
        if full == bits:
            return src
    return BV(bits)


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    fa = frozenset([ONE]) if a == 1 else a
    fb = frozenset([ONE]) if b == 1 else b
    r = fa ^ fb
    if not r:
        return 0
    if r == frozenset([ONE]):
        return 1
    return r


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    return frozenset([(T('and', *sorted([frozenkey(a), frozenkey(b)], key=repr)), 0)])


def bor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1 or b == 1:
        return 1
    if a == b:
        return a
    return frozenset([(T('or', *sorted([frozenkey(a), frozenkey(b)], key=repr)), 0)])


def frozenkey(a):
    return ('bit', a)


# ---------------------------------------------------------------- byte ropes
# segments: ('c', bytes) | ('t', term, off, len) | ('x', frozenset of segs, len) | ('v', value) one byte
#           ('upd', rope, idx, value, len) pending elementwise write
class Bytes:
    __slots__ = ('segs', '_h')

    def __init__(self, segs):
        self.segs = tuple(segs)
        self._h = hash(('bytes', self.segs))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.segs == o.segs

    def __repr__(self):
        return show(self)

    @property
    def len(self):
        n = 0
        for s in self.segs:
            n = ladd(n, seglen(s))
        return n

    def const(self):
        """python bytes if fully constant"""
        if not self.segs:
            return b''
        if len(self.segs) == 1 and self.segs[0][0] == 'c':
            return self.segs[0][1]
        return None


def seglen(s):
    k = s[0]
    if k == 'c':
        return len(s[1])
    if k == 't':
        return s[3]
    if k == 'x':
        return s[2]
    if k == 'v':
        return 1
    return s[4]


def tb(term, n):
    if n == 0:
        return Bytes(())
    return Bytes((('t', term, 0, n),))


def segmerge(a, b):
    if a[0] == 'c' and b[0] == 'c':
        return ('c', a[1] + b[1])
    if a[0] == 't' and b[0] == 't' and a[1] is b[1] and ladd(a[2], a[3]) == b[2]:
        return ('t', a[1], a[2], ladd(a[3], b[3]))
    if a[0] == 'x' and b[0] == 'x' and len(a[1]) == len(b[1]):
        out = []
        bs = set(b[1])
        for s in a[1]:
            hit = None
            for u in bs:
                m = segmerge(s, u)
                if m is not None and s[0] == u[0] and (s[0] != 'c'):
                    hit = (u, m)
                    break
            if hit is None:
                for u in bs:
                    if s[0] == 'c' and u[0] == 'c':
                        hit = (u, ('c', s[1] + u[1]))
                        break
            if hit is None:
                return None
            bs.discard(hit[0])
            out.append(hit[1])
        return ('x', frozenset(out), ladd(a[2], b[2]))
    return None


def norm(segs):
    out = []
    for s in segs:
        l = seglen(s)
        if l == 0:
            continue
        if out:
            m = segmerge(out[-1], s)
            if m is not None:
                out[-1] = m
                continue
        out.append(s)
    return Bytes(out)


def bcat(*bs):
    segs = []
    for b in bs:
        segs.extend(b.segs)
    return norm(segs)


def subseg(s, off, ln):
    k = s[0]
    if k == 'c':
        if isinstance(off, int) and isinstance(ln, int):
            return ('c', s[1][off:off + ln])
        return ('t', T('bytes', s), off, ln)
    if k == 't':
        return ('t', s[1], ladd(s[2], off), ln)
    if k == 'x':
        return ('x', frozenset(subseg(u, off, ln) for u in s[1]), ln)
    if k == 'v':
        return s
    if off == 0 and ln == s[4]:
        return s
    return ('t', T('bytes', s), off, ln)


def nonneg(v, facts=None):
    """True / False / None (unknown) for v >= 0; lengths are nonnegative."""
    if isinstance(v, int):
        return v >= 0
    c, d = lin(v)
    if c >= 0 and all(x > 0 and isinstance(k, T) and k.op in ('len', 'idx#', 'count') for k, x in d.items()):
        return True
    if c < 0 and all(x < 0 and isinstance(k, T) and k.op in ('len', 'idx#', 'count') for k, x in d.items()):
        return False
    return None


def bslice(b, off, ln):
    if ln == 0:
        return Bytes(())
    if off == 0 and ln == b.len:
        return b
    if len(b.segs) == 1:
        return norm([subseg(b.segs[0], off, ln)])
    out = []
    cum = 0
    need = ln
    pos = off
    for i, s in enumerate(b.segs):
        l = seglen(s)
        # start of s is cum; pos is the next wanted offset
        rel = lsub(pos, cum)
        skip = nonneg(lsub(rel, l))
        if skip is True and not (isinstance(lsub(rel, l), int) and False):
            cum = ladd(cum, l)
            continue
        if skip is None:
            # unknown: symbolic-length segment; accept when the offset is zero or provably inside
            if rel != 0 and i + 1 < len(b.segs) and nonneg(lsub(ladd(rel, need), l)) is not False:
                if not isinstance(rel, int):
                    return tb(T('slice', b, off, ln), ln)
        avail = lsub(l, rel)
        over = lsub(need, avail)
        if over == 0:
            out.append(subseg(s, rel, avail))
            return norm(out)
        ov = nonneg(over)
        if ov is None:
            # the slice ends at the end of a later segment
            acc = 0
            for u in b.segs[i + 1:]:
                acc = ladd(acc, seglen(u))
                if acc == over:
                    ov = True
                    break
        if ov is False or (ov is None and i + 1 == len(b.segs)):
            out.append(subseg(s, rel, need))
            return norm(out)
        if ov is None:
            # need may or may not exceed this segment: if need is const and seg symbolic -> assume inside
            if isinstance(need, int) and not isinstance(avail, int):
                out.append(subseg(s, rel, need))
                return norm(out)
            return tb(T('slice', b, off, ln), ln)
        out.append(subseg(s, rel, avail))
        pos = ladd(cum, l)
        cum = ladd(cum, l)
        need = over
    if need == 0:
        return norm(out)
    return tb(T('slice', b, off, ln), ln)


def bytexor(vals):
    """value of a byte as a XOR of whole bytes: returns set of (kind) segs or None"""
    return None


def byteval(s, k):
    """scalar value of byte k (const) of segment s"""
    if s[0] == 'c':
        return s[1][k]
    if s[0] == 't':
        return T('byte', s[1], ladd(s[2], k))
    if s[0] == 'v':
        return s[1]
    if s[0] == 'x':
        bits = (0,) * 8
        for u in s[1]:
            ub = bits_of(byteval(u, k), 8)
            bits = tuple(bxor(x, y) for x, y in zip(bits, ub))
        return mkbv(bits)
    return T('byte', T('bytes', s), k)


def elem(b, i):
    if isinstance(i, int):
        x = bslice(b, i, 1)
        if len(x.segs) == 1:
            return byteval(x.segs[0], 0)
        return T('byte', T('bytes', b), i)
    if len(b.segs) == 1 and b.segs[0][0] == 'upd' and b.segs[0][2] is i:
        return b.segs[0][3]
    if len(b.segs) == 1 and b.segs[0][0] == 't':
        return T('byte', b.segs[0][1], ladd(b.segs[0][2], i))
    if len(b.segs) == 1 and b.segs[0][0] == 'x':
        return byteval(b.segs[0], i)
    return T('byte', T('bytes', b), i)


def valseg(v):
    """one-byte segment holding scalar v"""
    if isinstance(v, int):
        return ('c', bytes([v & 255]))
    if isinstance(v, T) and v.op == 'byte':
        if v.args[0].op == 'bytes' and isinstance(v.args[0].args[0], Bytes):
            return ('v', v)
        return ('t', v.args[0], v.args[1], 1)
    x = xorbytes(v)
    if x is not None:
        terms, c = x
        fs = [('t', t.args[0], t.args[1], 1) for t in terms]
        if c:
            fs.append(('c', bytes([c])))
        if len(fs) == 1:
            return fs[0]
        return ('x', frozenset(fs), 1)
    return ('v', v)


def xorbytes(v):
    """BV that is a bitwise XOR of whole byte terms and a constant -> (set of terms, const)"""
    if not isinstance(v, BV):
        return None
    bits = v.bits[:8]
    if any(b != 0 for b in v.bits[8:]) or len(bits) < 8:
        return None
    terms = None
    c = 0
    for i, b in enumerate(bits):
        if b == 0:
            s = set()
        elif b == 1:
            s = set()
            c |= 1 << i
        else:
            s = set()
            for (t, j) in b:
                if t is None:
                    c |= 1 << i
                    continue
                if j != i or t.op != 'byte':
                    return None
                s.add(t)
        if terms is None:
            terms = s
        elif terms != s:
            return None
    return frozenset(terms), c


def bstore_slice(b, off, ln, new):
    total = b.len
    end = ladd(off, ln)
    return bcat(bslice(b, 0, off), new, bslice(b, end, lsub(total, end)))


def bstore_elem(b, i, v):
    if isinstance(i, int):
        return bstore_slice(b, i, 1, Bytes((valseg(v),)))
    return Bytes((('upd', b, i, v, b.len),))


def bxor_ropes(a, b):
    """bytewise xor of two ropes of equal length (aligned on segment boundaries)"""
    out = []
    offs = 0
    total = a.len
    ends = []
    for r in (a, b):
        cum, l = 0, []
        for s in r.segs:
            cum = ladd(cum, seglen(s))
            l.append(cum)
        ends.append(l)
    ea, eb = ends
    i = j = 0
    ordered = []
    while i < len(ea) and j < len(eb):
        x, y = ea[i], eb[j]
        if x == y:
            ordered.append(x)
            i, j = i + 1, j + 1
            continue
        first = None
        if nonneg(lsub(y, x)) is True:
            first = 0
        elif nonneg(lsub(x, y)) is True:
            first = 1
        elif i + 1 == len(ea) and j + 1 < len(eb):
            first = 1          # x is the common end
        elif j + 1 == len(eb) and i + 1 < len(ea):
            first = 0
        else:
            first = 0 if isinstance(x, int) else 1
        if first == 0:
            ordered.append(x)
            i += 1
        else:
            ordered.append(y)
            j += 1
    prev = 0
    for c in ordered:
        ln = lsub(c, prev)
        x = bslice(a, prev, ln)
        y = bslice(b, prev, ln)
        prev = c
        sx, sy = set(), set()
        for r, dst in ((x, sx), (y, sy)):
            if len(r.segs) == 1:
                s = r.segs[0]
                if s[0] == 'x':
                    dst |= set(s[1])
                else:
                    dst.add(s)
            elif r.segs:
                dst.add(('t', T('bytes', r), 0, ln))
        z = sx ^ sy
        z = {s for s in z if not (s[0] == 'c' and not any(s[1]))}
        cs = [s for s in z if s[0] == 'c']
        if len(cs) > 1:
            acc = bytes(len(cs[0][1]))
            for s in cs:
                acc = bytes(p ^ q for p, q in zip(acc, s[1]))
                z.discard(s)
            if any(acc):
                z.add(('c', acc))
        if not z:
            out.append(('c', bytes(ln)) if isinstance(ln, int) else ('t', T('zeros'), 0, ln))
        elif len(z) == 1:
            out.append(next(iter(z)))
        else:
            out.append(('x', frozenset(z), ln))
    return norm(out)


# ---------------------------------------------------------------- aggregates
class Seq:
    __slots__ = ('vs', '_h')

    def __init__(self, vs):
        self.vs = tuple(vs)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(('seq', self.vs))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Seq) and self.vs == o.vs

    def __repr__(self):
        return show(self)


class Agg:
    __slots__ = ('path', 'vi', 'vn', 'fs', 'names', '_h')

    def __init__(self, path, vi, vn, fs, names=None):
        self.path, self.vi, self.vn, self.fs, self.names = path, vi, vn, tuple(fs), names
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.path, self.vi, self.fs))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Agg) and self.path == o.path and self.vi == o.vi and self.fs == o.fs

    def __repr__(self):
        return show(self)

    def get(self, name):
        return self.fs[self.names.index(name)]


class Ref:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, tuple(path)

    def __hash__(self):
        return hash((self.obj, self.path))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.obj == o.obj and self.path == o.path

    def __repr__(self):
        return '&%s%s' % (self.obj, ''.join('.' + str(p) for p in self.path))


class FnVal:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def __hash__(self):
        return hash(self.fn.get('full'))

    def __eq__(self, o):
        return isinstance(o, FnVal) and self.fn.get('full') == o.fn.get('full')

    def __repr__(self):
        return 'fn:' + self.fn.get('path', '?')


class Closure:
    __slots__ = ('key', 'caps')

    def __init__(self, key, caps):
        self.key, self.caps = key, tuple(caps)

    def __hash__(self):
        return hash((self.key, self.caps))

    def __eq__(self, o):
        return isinstance(o, Closure) and self.key == o.key and self.caps == o.caps

    def __repr__(self):
        return 'closure'


class It:
    """iterator value"""
    __slots__ = ('k', 'a', 'snap')

    def __init__(self, k, *a, snap=None):
        self.k, self.a, self.snap = k, a, snap

    def __hash__(self):
        return hash((self.k, self.a))

    def __eq__(self, o):
        return isinstance(o, It) and self.k == o.k and self.a == o.a

    def __repr__(self):
        return 'iter:' + self.k


UNIT = Agg('()', 0, '', ())


def tup(*vs):
    return Agg('()', 0, '', vs)


def some(v):
    return Agg('Option', 1, 'Some', (v,))


NONE = Agg('Option', 0, 'None', ())


def ok(v):
    return Agg('Result', 0, 'Ok', (v,))


def err(v):
    return Agg('Result', 1, 'Err', (v,))


# ---------------------------------------------------------------- printing / traversal
def show(v, d=0):
    if d > 7:
        return '..'
    if isinstance(v, bytes):
        try:
            s = v.decode()
            if s.isprintable() and len(s) > 1:
                return repr(s)
        except Exception:
            pass
        return 'x' + v.hex() if len(v) <= 16 else 'x%s..[%d]' % (v[:8].hex(), len(v))
    if isinstance(v, T):
        if not v.args:
            return v.op
        return '%s(%s)' % (v.op, ', '.join(show(a, d + 1) for a in v.args))
    if isinstance(v, Lin):
        return '(' + '+'.join([str(v.c)] * bool(v.c) + ['%s%s' % ('' if c == 1 else '%d*' % c, show(t, d + 1)) for t, c in v.ts]) + ')'
    if isinstance(v, Bytes):
        return '<' + '|'.join(showseg(s, d) for s in v.segs) + '>'
    if isinstance(v, Seq):
        return '[' + ', '.join(show(x, d + 1) for x in v.vs[:6]) + (']' if len(v.vs) <= 6 else ', ..%d]' % len(v.vs))
    if isinstance(v, Agg):
        n = v.path.split('::')[-1] + ('::' + v.vn if v.vn and v.vn != v.path.split('::')[-1] else '')
        if v.path == '()':
            n = ''
        return n + '(' + ', '.join(show(x, d + 1) for x in v.fs) + ')'
    if isinstance(v, BV):
        return 'bv[%d]' % len(v.bits)
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in v) + ')'
    return repr(v) if isinstance(v, (int, str)) else str(v)


def showseg(s, d):
    if s[0] == 'c':
        return show(s[1])
    if s[0] == 't':
        full = s[2] == 0
        return show(s[1], d + 1) + ('' if full else '[%s..+%s]' % (show(s[2], d + 1), show(s[3], d + 1)))
    if s[0] == 'x':
        return 'XOR{' + ', '.join(sorted(showseg(u, d) for u in s[1])) + '}'
    if s[0] == 'v':
        return 'byte(' + show(s[1], d + 1) + ')'
    return s[0]


def subterms(v, seen=None):
    """every T reachable inside v"""
    if seen is None:
        seen = set()
    stack = [v]
    vis = set()
    while stack:
        x = stack.pop()
        if isinstance(x, (int, str, bytes)) or x is None:
            continue
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, Lin):
            stack.extend(t for t, _ in x.ts)
        elif isinstance(x, Bytes):
            if id(x) in vis:
                continue
            vis.add(id(x))
            for s in x.segs:
                stack.append(s)
        elif isinstance(x, (Seq,)):
            stack.extend(x.vs)
        elif isinstance(x, Agg):
            stack.extend(x.fs)
        elif isinstance(x, BV):
            for b in x.bits:
                if isinstance(b, frozenset):
                    stack.extend(t for t, _ in b)
        elif isinstance(x, Closure):
            stack.extend(x.caps)
        elif isinstance(x, It):
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return seen


def contains(v, t):
    return t in subterms(v)
