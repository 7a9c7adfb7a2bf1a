"""Value domain of the C analysis: linear forms over atoms with intervals, bit compositions, conditions, residue classes mod q.

A scalar is a Python int (signed) or a Lin: an exact integer linear form over atoms.  Everything that is not linear is an atom
with a definition ('shr', 'sl' bit slice, 'sel' conditional, 'b2i' condition as 0/1, 'mul', 'wrap', ...).  Conditions are tuples:
('ge', L) L >= 0, ('eq', L) L == 0, ('ne', L), ('and', set), ('or', set), ('b', key)."""
import math

Q = 8380417

ATOM = []          # id -> definition
AIV = []           # id -> (lo, hi)
AID = {}
LINS = {}


def reset():
    del ATOM[:], AIV[:]
    AID.clear()
    LINS.clear()
    HULL.clear()
    CLS.clear()
    CACL.clear()
    VECS.clear()
    VID.clear()
    VKEY.clear()
    ABS.clear()
    LEAF.clear()


class Lin:
    __slots__ = ('t', 'c', 'iv_', 'bits_', 'nl_')

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.iv_ = None
        self.bits_ = None
        self.nl_ = None

    def __repr__(self):
        return show(self)

    @property
    def iv(self):
        r = self.iv_
        if r is None:
            lo = hi = self.c
            nl = False
            for a, k in self.t:
                l, h = AIV[a]
                if k > 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
                if ATOM[a][0] in NONLIN:
                    nl = True
            if nl and len(self.t) > 1:
                h = hull(self)
                if h:
                    lo, hi = max(lo, h[0]), min(hi, h[1])
            r = self.iv_ = (lo, hi)
        return r


NONLIN = {'shr', 'b2i', 'sel'}


def atom_id(d, lo, hi):
    i = AID.get(d)
    if i is None:
        i = AID[d] = len(ATOM)
        ATOM.append(d)
        AIV.append((lo, hi))
    return i


def atom(d, lo, hi):
    if lo == hi:
        return lo
    return lin(((atom_id(d, lo, hi), 1),), 0)


def lin(t, c):
    if not t:
        return c
    k = (t, c)
    r = LINS.get(k)
    if r is None:
        r = LINS[k] = Lin(t, c)
    return r


def add(a, b, kb=1):
    """a + kb * b"""
    if type(b) is int:
        if type(a) is int:
            return a + kb * b
        return lin(a.t, a.c + kb * b) if b else a
    if type(a) is int:
        if kb == 1:
            return lin(b.t, b.c + a)
        return lin(tuple((x, k * kb) for x, k in b.t), b.c * kb + a) if kb else a
    d = dict(a.t)
    for x, k in b.t:
        n = d.get(x, 0) + k * kb
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return lin(tuple(sorted(d.items())), a.c + kb * b.c)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return lin(tuple((x, n * k) for x, n in a.t), a.c * k)


def iv(a):
    return (a, a) if type(a) is int else a.iv


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def norm(w, x):
    """bring the result of an operation at width w into range"""
    if type(x) is int:
        return sgn(x, w)
    lo, hi = x.iv
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)) or lo >= 0 and hi < (1 << w):
        return x
    lo, hi = tight(x)
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)) or lo >= 0 and hi < (1 << w):
        return x
    return wrap(w, x)


def modlin(x, w):
    """the form modulo 2^w: coefficients reduced, inner wraps at width >= w opened"""
    if type(x) is int:
        return sgn(x, w)
    again = True
    while again:
        again = False
        for a, k in x.t:
            d = ATOM[a]
            if d[0] in ('wrap', 'u') and (d[1] >= w or (k << d[1]) % (1 << w) == 0):
                x = add(lin(tuple(p for p in x.t if p[0] != a), x.c), d[2], k)
                again = True
                break
            if d[0] == 'sl' and d[2] == 0 and (k << d[3]) % (1 << w) == 0 and not (d[1].iv[0] >= 0 and d[1].iv[1] < 1 << d[3]):
                x = add(lin(tuple(p for p in x.t if p[0] != a), x.c), d[1], k)
                again = True
                break
        if type(x) is int:
            return sgn(x, w)
    t = []
    for a, k in x.t:
        k = sgn(k, w)
        if k:
            t.append((a, k))
    return lin(tuple(t), sgn(x.c, w))


def wrap(w, x):
    x = modlin(x, w)
    if type(x) is int:
        return x
    lo, hi = x.iv
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return x
    return atom(('wrap', w, x), -(1 << (w - 1)), (1 << (w - 1)) - 1)


def asS(w, x):
    if type(x) is int:
        return sgn(x, w)
    lo, hi = x.iv
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return x
    lo, hi = tight(x)
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return x
    return wrap(w, x)


def asU(w, x):
    if type(x) is int:
        return x & ((1 << w) - 1)
    lo, hi = x.iv
    if lo >= 0:
        return x if hi < (1 << w) else add(0, ucut(w, x))
    lo, hi = tight(x)
    if lo >= 0 and hi < (1 << w):
        return x
    if hi < 0:
        return add(x, 1 << w)
    return ucut(w, x)


def ucut(w, x):
    x = modlin(x, w)
    if type(x) is int:
        return x & ((1 << w) - 1)
    lo, hi = tight(x)
    if lo >= 0 and hi < (1 << w):
        return x
    if lo >= 0:
        b = bits(w, x)
        if not (b[0] == (x, 0)):
            return frombits(w, b)
    return atom(('u', w, x), 0, (1 << w) - 1)


def mul(w, a, b):
    if type(a) is int:
        return norm(w, scale(b, a)) if type(b) is not int else sgn(a * b, w)
    if type(b) is int:
        return norm(w, scale(a, b))
    a, b = asS(w, a), asS(w, b)
    if type(a) is int or type(b) is int:
        return mul(w, a, b)
    if (a.t, a.c) > (b.t, b.c):
        a, b = b, a
    (al, ah), (bl, bh) = a.iv, b.iv
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    return norm(w, atom(('mul', a, b), min(ps), max(ps)))


# ---- bits
def bits(w, x):
    """w bit references, lowest first: 0, 1 or (Lin, k)"""
    if type(x) is int:
        return [(x >> i) & 1 for i in range(w)]
    b = x.bits_
    if b is None:
        b = x.bits_ = bits_(x)
    if x.iv[1] < 0 and x.iv[0] >= -(1 << w) and b[0] and b[0][0] == (x, 0):
        y = add(x, 1 << w)
        c = y.bits_
        if c is None:
            c = y.bits_ = bits_(y)
        if c[0] and c[0][0] != (y, 0):
            return (list(c[0]) + [c[1]] * w)[:w]
    if len(b[0]) >= w:
        return b[0][:w]
    return b[0] + [b[1]] * (w - len(b[0]))


def bits_(x):
    g = x.c
    for a, k in x.t:
        g |= k
    s = (g & -g).bit_length() - 1
    if s > 0:
        # a multiple of a power of two
        y = lin(tuple((a, k >> s) for a, k in x.t), x.c >> s)
        r, tail = y.bits_ or bits_(y)
        y.bits_ = (r, tail)
        return [0] * s + list(r), tail
    for a, k in x.t:
        if ATOM[a][0] in ('ite', 'sel'):
            tight(lin(((a, 1),), 0))
    lo, hi = tight(x)
    if lo >= 0:
        # a disjoint composition?
        parts = []
        ok = x.c >= 0
        used = x.c
        if ok:
            for a, k in x.t:
                l, h = AIV[a]
                if k <= 0 or l < 0 or (k & (k - 1) and h != 1):
                    ok = False
                    break
                if k & (k - 1):
                    # one bit, repeated
                    if used & k:
                        ok = False
                        break
                    used |= k
                    parts += [(a, i, 1) for i in range(k.bit_length()) if k >> i & 1]
                    continue
                n = h.bit_length()
                m = ((1 << n) - 1) * k
                if used & m:
                    ok = False
                    break
                used |= m
                parts.append((a, k.bit_length() - 1, n))
        if ok and (len(parts) > 1 or x.c or (parts and (parts[0][1] or ATOM[parts[0][0]][0] in ('sl', 'shr')))):
            n = used.bit_length()
            r = [(x.c >> i) & 1 for i in range(n)]
            for a, j, m in parts:
                d = ATOM[a]
                if d[0] in ('sl', 'shr'):
                    src = [(d[1], d[2] + i) for i in range(m)]
                else:
                    la = lin(((a, 1),), 0)
                    src = [(la, i) for i in range(m)]
                r[j:j + m] = src
            return r, 0
        r = groups(x)
        if r is not None:
            return r, 0
        n = hi.bit_length()
        r = [(x, i) for i in range(n)]
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and ATOM[x.t[0][0]][0] == 'or':
            # the bits that only one operand has
            p, q = (bits(n, y) for y in ATOM[x.t[0][0]][2:4])
            r = [q[i] if p[i] == 0 else p[i] if q[i] == 0 else b for i, b in enumerate(r)]
        return r, 0
    if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
        d = ATOM[x.t[0][0]]
        if d[0] == 'wrap' and isinstance(d[2], Lin):
            y = d[2]
            if y.iv[0] < 0:
                z = lin(y.t, y.c % (1 << d[1]))
                if z.iv[0] >= 0:
                    y = z
            r, tail = bits_(y)
            r = (list(r) + [tail] * d[1])[:d[1]]
            return r, r[-1]
    n = max(hi.bit_length(), (-lo - 1).bit_length())
    r = [(x, i) for i in range(n + 1)]
    return r, r[-1]


def groups(x):
    """bits of a sum of fields that do not overlap, each a linear form of its own"""
    vs = {}
    for a, k in x.t:
        vs.setdefault((k & -k).bit_length() - 1, []).append((a, k))
    if len(vs) < 2:
        return None
    order = sorted(vs)
    c = x.c
    if order[0] or c & ((1 << order[0]) - 1):
        return None
    out = []
    acc, v = [], None
    for i, w in enumerate(order):
        if not acc:
            v = w
        acc += vs[w]
        g = lin(tuple(sorted((a, k >> v) for a, k in acc)), 0)
        lo, hi = g.iv
        if i + 1 < len(order):
            n = order[i + 1] - v
            if hi - lo >= 1 << n:
                lo, hi = tight(g)
                if hi - lo >= 1 << n:
                    continue
            k = (c >> v) & ((1 << n) - 1)
            k += ((-lo - k + (1 << n) - 1) >> n) << n         # the smallest constant of this class that makes the field non-negative
            if hi + k >= 1 << n:
                continue
            c -= k << v
        else:
            if not out:
                return None
            k = c >> v
            if lo + k < 0:
                lo, hi = tight(g)
                if lo + k < 0:
                    return None
            n = max(1, (hi + k).bit_length())
        acc = []
        out += bits(n, add(g, k))
    return out


def frombits(w, b):
    """the unsigned (or, with a sign tail, signed) value of w bit references"""
    t = 0
    i = 0
    while i < w:
        x = b[i]
        if type(x) is int:
            if x:
                t = add(t, 1 << i)
            i += 1
            continue
        p, k = x
        j = i + 1
        while j < w and b[j] == (p, k + j - i):
            j += 1
        n = j - i
        lo, hi = p.iv
        top = k + n - 1
        if lo < 0:
            s = max(hi.bit_length(), (-lo - 1).bit_length())      # index of the sign bit
            if top == s:
                e = j
                while e < w and b[e] == (p, s):
                    e += 1
                if e == w:
                    # a signed tail
                    t = add(t, p if k == 0 else shr(p, k), 1 << i)
                    return t if i == 0 else norm(w, t)
        if k == 0 and lo >= 0 and hi < (1 << n):
            t = add(t, p, 1 << i)
        else:
            t = add(t, sl(p, k, n), 1 << i)
        i = j
    return t


def sl(p, k, n):
    lo, hi = p.iv
    if lo >= 0 and hi >> k == lo >> k and hi >> k < (1 << n):
        return lo >> k
    if lo >= 0 and hi >> k < (1 << n):
        return top(p, k)
    return atom(('sl', p, k, n), 0, (1 << n) - 1)


def base(p):
    return len(p.t) == 1 and p.c == 0 and p.t[0][1] == 1 and ATOM[p.t[0][0]][0] not in STRUCT


def top(p, k):
    """floor(p / 2^k) of a non-negative form"""
    lo, hi = p.iv
    if base(p):
        return atom(('sl', p, k, (hi >> k).bit_length()), 0, hi >> k)
    return atom(('shr', p, k), lo >> k, hi >> k)


def shr(x, k):
    """floor(x / 2^k) of the exact integer"""
    if type(x) is int:
        return x >> k
    if k == 0:
        return x
    lo, hi = x.iv
    if lo >> k == hi >> k:
        return lo >> k
    if (lo >> k, hi >> k) == (-1, 0):
        return scale(b2i(ge(add(-1, x, -1))), -1)
    if all(n % (1 << k) == 0 for _, n in x.t):
        return lin(tuple((a, n >> k) for a, n in x.t), x.c >> k)
    if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0 and ATOM[x.t[0][0]][0] == 'shr':
        d = ATOM[x.t[0][0]]
        return shr(d[1], d[2] + k)
    if lo >= 0:
        b = bits_(x) if x.bits_ is None else x.bits_
        x.bits_ = b
        if not (b[0] and b[0][0] == (x, 0)):
            return frombits(len(b[0]), b[0][k:] + [0] * k)
        return top(x, k)
    return atom(('shr', x, k), lo >> k, hi >> k)


def exact(x, k):
    """is x divisible by 2^k for every value of the atoms, seen through wraps"""
    m = modlin(x, k)
    return m == 0


# ---- conditions
def b2i(c):
    if type(c) is int:
        return 1 if c else 0
    if c[0] == 'ne' and c[1].iv == (0, 1) and len(c[1].t) == 1:
        return c[1]
    if c[0] == 'ge' and c[1].t[0][1] > 0:
        # one of the two ways of writing it
        n = neg(c)
        if type(n) is tuple and n[0] == 'ge':
            return add(1, atom(('b2i', n), 0, 1), -1)
    return atom(('b2i', c), 0, 1)


def ge(x):
    if type(x) is int:
        return int(x >= 0)
    lo, hi = x.iv
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    c = asbool(x)
    if c is not None:
        v0, v1, c = c
        return ite(c, int(v1 >= 0), int(v0 >= 0))
    return ('ge', x)


def eq(x):
    if type(x) is int:
        return int(x == 0)
    lo, hi = x.iv
    if lo > 0 or hi < 0:
        return 0
    c = asbool(x)
    if c is not None:
        v0, v1, c = c
        return ite(c, int(v1 == 0), int(v0 == 0))
    if x.t[0][1] < 0:
        x = scale(x, -1)
    return ('eq', x)


def asbool(x):
    """x as (value if not c, value if c, c)"""
    if len(x.t) == 1:
        d = ATOM[x.t[0][0]]
        if d[0] == 'b2i':
            return x.c, x.c + x.t[0][1], d[1]
    return None


def ite(c, a, b):
    """condition-valued if-then-else"""
    if type(c) is int:
        return a if c else b
    if a == b:
        return a
    if a == 1 and type(a) is int:
        return c_or([c, b])
    if a == 0 and type(a) is int:
        return c_and([neg(c), b])
    if b == 1 and type(b) is int:
        return c_or([neg(c), a])
    if b == 0 and type(b) is int:
        return c_and([c, a])
    return c_or([c_and([c, a]), c_and([neg(c), b])])


def neg(c):
    if type(c) is int:
        return int(not c)
    k = c[0]
    if k == 'ge':
        return ge(add(-1, c[1], -1))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return c_or([neg(x) for x in c[1]])
    if k == 'or':
        return c_and([neg(x) for x in c[1]])
    if k == 'b':
        return ('nb', c[1])
    return ('b', c[1])


def c_or(l):
    s = set()
    for c in l:
        if type(c) is int:
            if c:
                return 1
            continue
        if c[0] == 'or':
            s |= c[1]
        else:
            s.add(c)
    for c in s:
        if len(s) < 300 and neg(c) in s:
            return 1
    if not s:
        return 0
    if len(s) == 1:
        return next(iter(s))
    return ('or', frozenset(s))


def c_and(l):
    s = set()
    for c in l:
        if type(c) is int:
            if not c:
                return 0
            continue
        if c[0] == 'and':
            s |= c[1]
        else:
            s.add(c)
    for c in s:
        if len(s) < 300 and neg(c) in s:
            return 0
    if not s:
        return 1
    if len(s) == 1:
        return next(iter(s))
    return ('and', frozenset(s))


def sel(c, x):
    """c ? x : 0"""
    if type(c) is int:
        return x if c else 0
    if type(x) is int:
        return scale(b2i(c), x)
    if len(x.t) == 1 and x.c == 0 and ATOM[x.t[0][0]][0] == 'sel':
        a, k = x.t[0]
        return scale(sel(c_and([c, ATOM[a][1]]), ATOM[a][2]), k)
    if len(x.t) == 1 and x.c == 0 and ATOM[x.t[0][0]][0] == 'b2i':
        a, k = x.t[0]
        return scale(b2i(c_and([c, ATOM[a][1]])), k)
    g = math.gcd(x.c, *(k for _, k in x.t))
    if x.t[0][1] < 0:
        g = -g
    if g != 1:
        return scale(sel(c, lin(tuple((a, k // g) for a, k in x.t), x.c // g)), g)
    lo, hi = x.iv
    return atom(('sel', c, x), min(lo, 0), max(hi, 0))


def select(c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or a == b:
        return a
    if type(a) is int and type(b) is int:
        return add(b, b2i(c), a - b)
    if type(b) is int and b == 0:
        return sel(c, a)
    if type(a) is int and a == 0:
        return sel(neg(c), b)
    x = add(a, b, -1)
    if type(x) is int:
        return add(b, b2i(c), x)
    # hull of both
    (al, ah), (bl, bh) = iv(a), iv(b)
    return atom(('ite', c, a, b), min(al, bl), max(ah, bh))


def mask(x):
    """the condition c if x is -b2i(c), a mask"""
    if type(x) is int:
        return 0 if x == 0 else 1 if x == -1 else None
    b = asbool(x)
    if b and b[0] == 0 and b[1] == -1:
        return b[2]
    if b and b[0] == -1 and b[1] == 0:
        return neg(b[2])
    return None


def bit(x):
    """the condition c if x is b2i(c)"""
    b = asbool(x) if type(x) is not int else None
    if b and b[0] == 0 and b[1] == 1:
        return b[2]
    if b and b[0] == 1 and b[1] == 0:
        return neg(b[2])
    return None


def band(w, a, b):
    if type(a) is int and type(b) is int:
        return a & b
    for x, y in ((a, b), (b, a)):
        m = mask(x)
        if m is not None:
            my = mask(y)
            if my is not None:
                return scale(b2i(c_and([m, my])), -1)
            return sel(m, y)
    xa, xb = bit(a), bit(b)
    if xa is not None and xb is not None:
        return b2i(c_and([xa, xb]))
    for x, y in ((a, b), (b, a)):
        if type(y) is int:
            y &= (1 << w) - 1
            lo, hi = x.iv
            if lo >= 0 and y & (y + 1) == 0 and hi <= y:
                return x
            bb = bits(w, x)
            return frombits(w, [bb[i] if (y >> i) & 1 else 0 for i in range(w)])
    if a is b:
        return a
    ba, bb = bits(w, a), bits(w, b)
    r = []
    for x, y in zip(ba, bb):
        if x == 0 or y == 0:
            r.append(0)
        elif x == 1:
            r.append(y)
        elif y == 1 or x == y:
            r.append(x)
        else:
            return bitop('and', w, a, b)
    return frombits(w, r)


def bitop(op, w, a, b):
    if type(a) is int or (type(b) is not int and (a.t, a.c) > (b.t, b.c)):
        a, b = b, a
    (al, ah), (bl, bh) = iv(a), iv(b)
    if al >= 0 and bl >= 0:
        n = max(ah.bit_length(), bh.bit_length())
        lo, hi = 0, (1 << n) - 1
        if op == 'and':
            hi = min(ah, bh)
        if op == 'or':
            lo = max(al, bl)
    elif op == 'and' and (al >= 0 or bl >= 0):
        lo, hi = 0, ah if al >= 0 else bh
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return atom((op, w, a, b), lo, hi)


def bor(w, a, b):
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    if a is b:
        return a
    ma, mb = mask(a), mask(b)
    if ma is not None and mb is not None:
        return scale(b2i(c_or([ma, mb])), -1)
    xa, xb = bit(a), bit(b)
    if xa is not None and xb is not None:
        return b2i(c_or([xa, xb]))
    ba, bb = bits(w, a), bits(w, b)
    r = []
    for x, y in zip(ba, bb):
        if x == 0:
            r.append(y)
        elif y == 0 or x == y:
            r.append(x)
        elif x == 1 or y == 1:
            r.append(1)
        else:
            return bitop('or', w, a, b)
    return frombits(w, r)


def bxor(w, a, b):
    if type(a) is int and type(b) is int:
        return a ^ b
    if a is b:
        return 0
    for x, y in ((a, b), (b, a)):
        if type(y) is int and y == -1:
            return norm(w, add(-1, x, -1))
        if type(y) is int and y == 0:
            return x
    ma, mb = mask(a), mask(b)
    if ma is not None and mb is not None:
        return scale(b2i(ite(ma, neg(mb), mb)), -1)
    for x, y in ((a, b), (b, a)):
        if type(y) is not int and len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1:
            d = ATOM[y.t[0][0]]
            if d[0] == 'sel' and d[2] is x:
                return sel(neg(d[1]), x)
    ba, bb = bits(w, a), bits(w, b)
    r = []
    for x, y in zip(ba, bb):
        if x == 0:
            r.append(y)
        elif y == 0:
            r.append(x)
        elif x == y:
            r.append(0)
        else:
            return bitop('xor', w, a, b)
    return frombits(w, r)


# ---- expressions over named variables; interval evaluation with partitioning
ABS = {}


def abstract(e, cuts=()):
    """rewrite a value as a nested tuple over the variables ('X', i) for the given linear forms and ('A', n, lo, hi) for
    the remaining base atoms (numbered by first occurrence)"""
    key = (e, tuple(cuts))
    r = ABS.get(key)
    if r is None:
        names = {}
        r = ABS[key] = (abs_(e, cuts, names, {}), names)
        if len(ABS) > 400000:
            ABS.clear()
    return r


def abs_(e, cuts, names, memo):
    if type(e) is int:
        return e
    r = memo.get(e)
    if r is not None:
        return r
    terms = dict(e.t)
    c = e.c
    out = []
    for i, x in enumerate(cuts):
        a0, k0 = x.t[0]
        k = terms.get(a0)
        if k is None or k % k0:
            continue
        m = k // k0
        if all(terms.get(a, 0) == n * m for a, n in x.t):
            for a, n in x.t:
                del terms[a]
            c -= m * x.c
            out.append((m, ('X', i)))
    for a in sorted(terms):
        out.append((terms[a], absatom(a, cuts, names, memo)))
    if len(out) == 1 and out[0][0] == 1 and c == 0:
        r = out[0][1]
    else:
        r = ('lin', c, tuple(out))
    memo[e] = r
    return r


def absatom(a, cuts, names, memo):
    d = ATOM[a]
    k = d[0]
    if k in ('shr', 'sl'):
        return (k, abs_(d[1], cuts, names, memo)) + d[2:]
    if k in ('wrap', 'u'):
        return (k, d[1], abs_(d[2], cuts, names, memo))
    if k == 'b2i':
        return (k, abscond(d[1], cuts, names, memo))
    if k == 'sel':
        return (k, abscond(d[1], cuts, names, memo), abs_(d[2], cuts, names, memo))
    if k == 'ite':
        return (k, abscond(d[1], cuts, names, memo), abs_(d[2], cuts, names, memo), abs_(d[3], cuts, names, memo))
    if k == 'mul':
        return (k, abs_(d[1], cuts, names, memo), abs_(d[2], cuts, names, memo))
    if k in ('and', 'or', 'xor'):
        return (k, d[1], abs_(d[2], cuts, names, memo), abs_(d[3], cuts, names, memo))
    if k == 'fn':
        return (k, d[1]) + tuple(abs_(x, cuts, names, memo) for x in d[2:])
    n = names.setdefault(a, len(names))
    return ('A', n) + AIV[a]


def abscond(c, cuts, names, memo):
    if type(c) is int:
        return c
    if c[0] in ('and', 'or'):
        return (c[0], frozenset(abscond(x, cuts, names, memo) for x in sorted(c[1], key=str)))
    if c[0] in ('b', 'nb'):
        n = names.setdefault(('b', c[1]), len(names))
        return ('bv', n, c[0] == 'nb')
    return (c[0], abs_(c[1], cuts, names, memo))


class Prog:
    """an abstract expression (value or condition) as a straight-line program over intervals"""

    def __init__(self, e):
        self.ops = []
        self.memo = {}
        self.cond = type(e) is not int and (e[0] in ('ge', 'eq', 'ne', 'bv') or e[0] in ('and', 'or') and len(e) == 2)
        self.out = self.addc(e) if self.cond else self.add(e)
        self.vars = {}
        for i, o in enumerate(self.ops):
            if o[0] in ('X', 'A'):
                self.vars[o[1]] = (o[2], o[3]) if o[0] == 'A' else None
        self.keep = e

    def put(self, key, op):
        i = self.memo[key] = len(self.ops)
        self.ops.append(op)
        return i

    def add(self, e):
        if type(e) is int:
            i = self.memo.get(e)
            return i if i is not None else self.put(e, ('k', e))
        key = id(e)
        i = self.memo.get(('v', key))
        if i is not None:
            return i
        k = e[0]
        if k == 'X':
            op = ('X', e[1])
        elif k == 'A':
            op = ('A', ('A', e[1]), e[2], e[3])
        elif k == 'lin':
            op = ('lin', e[1], tuple((m, self.add(x)) for m, x in e[2]))
        elif k in ('shr', 'sl'):
            op = (k, self.add(e[1])) + e[2:]
        elif k in ('wrap', 'u'):
            op = (k, e[1], self.add(e[2]))
        elif k == 'b2i':
            op = (k, self.addc(e[1]))
        elif k == 'sel':
            op = (k, self.addc(e[1]), self.add(e[2]))
        elif k == 'ite':
            op = (k, self.addc(e[1]), self.add(e[2]), self.add(e[3]))
        elif k == 'mul':
            op = (k, self.add(e[1]), self.add(e[2]))
        elif k in ('and', 'or', 'xor'):
            op = (k, e[1], self.add(e[2]), self.add(e[3]))
        else:
            raise KeyError(k)
        return self.put(('v', key), op)

    def addc(self, c):
        if type(c) is int:
            i = self.memo.get(('c', c))
            return i if i is not None else self.put(('c', c), ('ck', int(bool(c))))
        i = self.memo.get(('cc', id(c)))
        if i is not None:
            return i
        k = c[0]
        if k in ('ge', 'eq', 'ne'):
            op = (k, self.add(c[1]))
        elif k in ('and', 'or'):
            op = ('c' + k, tuple(self.addc(x) for x in c[1]))
        else:
            op = ('c?',)
        return self.put(('cc', id(c)), op)

    def run(self, env):
        """(value, settled): value is an interval or a truth value; settled: no condition, shift or wrap is open"""
        L = []
        open_ = False
        for op in self.ops:
            k = op[0]
            if k == 'lin':
                lo = hi = op[1]
                for m, x in op[2]:
                    l, h = L[x]
                    if m > 0:
                        lo += m * l
                        hi += m * h
                    else:
                        lo += m * h
                        hi += m * l
                v = (lo, hi)
            elif k == 'X':
                v = env[op[1]]
            elif k == 'A':
                v = env.get(op[1])
                if v is None:
                    v = (op[2], op[3])
            elif k == 'k':
                v = (op[1], op[1])
            elif k == 'ck':
                v = op[1]
            elif k == 'ge':
                l, h = L[op[1]]
                v = 1 if l >= 0 else 0 if h < 0 else None
            elif k in ('eq', 'ne'):
                l, h = L[op[1]]
                if l > 0 or h < 0:
                    v = int(k == 'ne')
                else:
                    v = int(k == 'eq') if l == h else None
            elif k == 'cand':
                v = 1
                for x in op[1]:
                    if L[x] == 0:
                        v = 0
                        break
                    if L[x] is None:
                        v = None
            elif k == 'cor':
                v = 0
                for x in op[1]:
                    if L[x] == 1:
                        v = 1
                        break
                    if L[x] is None:
                        v = None
            elif k == 'c?':
                v = None
            elif k == 'shr':
                l, h = L[op[1]]
                v = (l >> op[2], h >> op[2])
                if v[0] != v[1]:
                    open_ = True
            elif k == 'sl':
                l, h = L[op[1]]
                l >>= op[2]
                h >>= op[2]
                n = op[3]
                if l >> n == h >> n:
                    m = (1 << n) - 1
                    v = (l & m, h & m)
                else:
                    v = (0, (1 << n) - 1)
                if v[0] != v[1]:
                    open_ = True
            elif k in ('wrap', 'u'):
                w = op[1]
                l, h = L[op[2]]
                o = (1 << (w - 1)) if k == 'wrap' else 0
                if (l + o) >> w == (h + o) >> w:
                    s = ((l + o) >> w) << w
                    v = (l - s, h - s)
                else:
                    v = (-o, (1 << w) - 1 - o)
                    open_ = True
            elif k == 'b2i':
                c = L[op[1]]
                v = (0, 1) if c is None else (c, c)
                if c is None:
                    open_ = True
            elif k == 'sel':
                c = L[op[1]]
                if c == 0:
                    v = (0, 0)
                else:
                    l, h = L[op[2]]
                    v = (l, h) if c else (min(l, 0), max(h, 0))
                    if c is None:
                        open_ = True
            elif k == 'ite':
                c = L[op[1]]
                if c is None:
                    a, b = L[op[2]], L[op[3]]
                    v = (min(a[0], b[0]), max(a[1], b[1]))
                    open_ = True
                else:
                    v = L[op[2]] if c else L[op[3]]
            elif k == 'mul':
                a, b = L[op[1]], L[op[2]]
                ps = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
                v = (min(ps), max(ps))
            else:
                a, b = L[op[2]], L[op[3]]
                if a[0] == a[1] and b[0] == b[1]:
                    x = a[0] & b[0] if k == 'and' else a[0] | b[0] if k == 'or' else a[0] ^ b[0]
                    v = (x, x)
                else:
                    open_ = True
                    w = op[1]
                    if a[0] >= 0 and b[0] >= 0:
                        n = max(a[1].bit_length(), b[1].bit_length())
                        if k == 'and':
                            v = (0, min(a[1], b[1]))
                        else:
                            v = ((max(a[0], b[0]) if k == 'or' else 0), (1 << n) - 1)
                    elif k == 'and' and (a[0] >= 0 or b[0] >= 0):
                        v = (0, (a[1] if a[0] >= 0 else b[1]))
                    else:
                        v = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            L.append(v)
        return L[self.out], not open_


PROGS = {}


def prog(e):
    p = PROGS.get(e)
    if p is None:
        p = PROGS[e] = Prog(e)
        if len(PROGS) > 20000:
            PROGS.clear()
    return p


def boxes(p, env, limit):
    """interval of a program over a box, by splitting the parts that may exceed the values already attained"""
    lo = hi = None
    st = [env]
    n = 0
    ulo, uhi = [], []
    while st:
        e = st.pop()
        n += 1
        v, settled = p.run(e)
        if lo is not None and v[0] >= lo and v[1] <= hi:
            continue
        w, _ = p.run({k: (((l + h) >> 1),) * 2 for k, (l, h) in e.items()})
        lo = w[0] if lo is None else min(lo, w[0])
        hi = w[1] if hi is None else max(hi, w[1])
        if v[0] >= lo and v[1] <= hi:
            continue
        # small variables first: they are enumerated
        k, (l, h) = max(e.items(), key=lambda x: (0 < x[1][1] - x[1][0] < 16, x[1][1] - x[1][0]))
        if n < limit and h > l and (not settled or h - l < 1 << 12):
            m = (l + h) >> 1
            st.append(e | {k: (l, m)})
            st.append(e | {k: (m + 1, h)})
            continue
        ulo.append(v[0])
        uhi.append(v[1])
    return min([lo] + ulo), max([hi] + uhi)


LEAF = {}


def leaves(x, cap=3):
    """the base atoms a form depends on, or None when there are more than cap"""
    if type(x) is int:
        return frozenset()
    if type(x) is tuple:
        if x[0] in ('and', 'or'):
            r = frozenset()
            for y in x[1]:
                l = leaves(y)
                if l is None or len(r | l) > cap:
                    return None
                r |= l
            return r
        if x[0] in ('ge', 'eq', 'ne'):
            return leaves(x[1])
        return None
    r = x.nl_
    if r is None:
        r = frozenset()
        for a, _ in x.t:
            l = LEAF.get(a, 0)
            if l == 0:
                d = ATOM[a]
                if d[0] in STRUCT:
                    l = frozenset()
                    for y in d[1:]:
                        if type(y) is int or not isinstance(y, (Lin, tuple)):
                            continue
                        z = leaves(y)
                        if z is None or len(l | z) > cap:
                            l = None
                            break
                        l |= z
                else:
                    l = frozenset((a,))
                LEAF[a] = l
            if l is None or len(r | l) > cap:
                r = 0
                break
            r |= l
        x.nl_ = r
    return None if r == 0 and type(r) is int else r


STRUCT = {'shr', 'sl', 'wrap', 'u', 'b2i', 'sel', 'ite', 'mul', 'and', 'or', 'xor'}
TIGHT = {}


def tight(x, limit=6000):
    """the exact interval of a form over few base atoms"""
    if type(x) is int:
        return x, x
    l = leaves(x)
    if not l or not any(ATOM[a][0] in STRUCT for a, _ in x.t):
        return x.iv
    e, names = abstract(x)
    r = TIGHT.get(e)
    if r is None:
        p = prog(e)
        r = boxes(p, dict(p.vars), limit)
        if len(l) > 1:
            h = hull(x)
            if h is not None:
                r = max(r[0], h[0]), min(r[1], h[1])
        TIGHT[e] = r
    lo, hi = x.iv
    r = max(lo, r[0]), min(hi, r[1])
    if r != x.iv:
        x.iv_ = r
        if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
            AIV[x.t[0][0]] = r
    return r


HULL = {}


def hull(x, limit=3000):
    """tight interval of a form with nonlinear atoms, by partitioning the argument of the first of them"""
    here = dict(x.t)
    lo, hi = None, None
    tried = 0
    for a, k in x.t:
        d = ATOM[a]
        cut = None
        if d[0] == 'shr' and k % (1 << d[2]) == 0:
            # m (p - 2^s floor(p / 2^s)) is m times a remainder
            m = -(k >> d[2])
            if all(b in here and here[b] * m > 0 for b, _ in d[1].t):
                r = add(add(x, d[1], -m), lin(((a, 1),), 0), -k)
                l0, h0 = iv(r)
                e0 = ((1 << d[2]) - 1) * m
                l0, h0 = l0 + min(0, e0), h0 + max(0, e0)
                lo = l0 if lo is None else max(lo, l0)
                hi = h0 if hi is None else min(hi, h0)
    for a, k in x.t:
        d = ATOM[a]
        cut = None
        if d[0] == 'shr':
            cut = d[1]
        elif d[0] in ('b2i', 'sel'):
            c = d[1]
            cut = c[1] if type(c) is not int and c[0] in ('ge', 'eq', 'ne') else None
        if cut is None or type(cut) is int or not all(b in here for b, _ in cut.t):
            continue
        # the argument of the nonlinear atom as one variable
        base = lin(cut.t, 0)
        g = base.t[0][1]
        if all(n % g == 0 for _, n in base.t):
            base = lin(tuple((a, n // g) for a, n in base.t), 0)
        e, _ = abstract(x, (base,))
        key = (e, base.iv)
        r = HULL.get(key)
        if r is None:
            r = HULL[key] = part(e, base.iv, limit)
        lo = r[0] if lo is None else max(lo, r[0])
        hi = r[1] if hi is None else min(hi, r[1])
        tried += 1
        if tried >= 3:
            break
    return None if lo is None else (lo, hi)


def part(e, ivx, limit):
    return boxes(prog(e), {0: ivx}, limit)


def pieces(e, var, lo, hi, env=None, limit=20000):
    """partition [lo, hi] of variable var into maximal pieces on which the abstract expression (value or condition) is
    constant; list of (lo, hi, value) or None if it does not settle within the limit"""
    p = prog(e)
    cond = p.cond
    out = []
    st = [(lo, hi)]
    n = 0
    while st:
        l, h = st.pop()
        n += 1
        if n > limit:
            return None
        en = dict(env or {})
        en[var] = (l, h)
        v, _ = p.run(en)
        if not cond:
            v = v[0] if v[0] == v[1] else None
        if v is None:
            if l == h:
                return None
            m = (l + h) // 2
            st.append((m + 1, h))
            st.append((l, m))
            continue
        if out and out[-1][2] == v and out[-1][1] == l - 1:
            out[-1] = (out[-1][0], h, v)
        else:
            out.append((l, h, v))
    return out


# ---- residue classes modulo q: polynomials over class atoms
CLS = {}
CACL = {}
VECS = []      # vector id -> (kind, tuple of values)
VID = {}
VKEY = {}


def vec(kind, vals):
    k = (kind, vals)
    i = VID.get(k)
    if i is None:
        i = VID[k] = len(VECS)
        VECS.append(k)
    return i


def cls(x):
    """{monomial: coefficient mod q}, as a sorted tuple"""
    if type(x) is int:
        x %= Q
        return ((( ), x),) if x else ()
    r = CLS.get(x)
    if r is None:
        d = {}
        if x.c % Q:
            d[()] = x.c % Q
        for a, k in x.t:
            k %= Q
            if k:
                for m, n in clsatom(a):
                    v = (d.get(m, 0) + k * n) % Q
                    if v:
                        d[m] = v
                    else:
                        d.pop(m, None)
        r = CLS[x] = tuple(sorted(d.items()))
    return r


def pmul(a, b):
    d = {}
    for m, k in a:
        for n, l in b:
            t = tuple(sorted(m + n))
            v = (d.get(t, 0) + k * l) % Q
            if v:
                d[t] = v
            else:
                d.pop(t, None)
    return tuple(sorted(d.items()))


def padd(a, b, k=1):
    d = dict(a)
    for m, n in b:
        v = (d.get(m, 0) + n * k) % Q
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return tuple(sorted(d.items()))


def clsatom(a):
    d = ATOM[a]
    k = d[0]
    if k == 'mul':
        return pmul(cls(d[1]), cls(d[2]))
    if k == 'shr' and exact(d[1], d[2]):
        i = pow(pow(2, d[2], Q), Q - 2, Q)
        return tuple((m, n * i % Q) for m, n in cls(d[1]))
    if k == 'mred':
        i = pow(pow(2, 32, Q), Q - 2, Q)
        return tuple((m, n * i % Q) for m, n in cls(d[1]))
    if k == 'sel':
        return pmul(cls(b2i(d[1])), cls(d[2]))
    if k == 'ite':
        b = cls(d[3])
        return padd(b, pmul(cls(b2i(d[1])), padd(cls(d[2]), b, Q - 1)))
    if k == 'b2i' and type(d[1]) is tuple and d[1][0] == 'ne':
        return cls(add(1, b2i(neg(d[1])), -1))
    if k == 'el':
        kind, vals = VECS[d[1]]
        key = VKEY.get(d[1])
        if key is None:
            key = VKEY[d[1]] = ('el', kind, tuple(cls(v) for v in vals)) if kind in ('ntt', 'invntt', 'nttunpack') else ('el', kind, vals)
        n = CACL.setdefault(key, len(CACL))
        return ((((n, d[2]),), 1),)
    return ((((-1, a),), 1),)


def show(x, depth=3):
    if type(x) is int:
        return str(x)
    if isinstance(x, tuple):
        if x and x[0] in ('ge', 'eq', 'ne'):
            return '%s %s 0' % (show(x[1], depth), {'ge': '>=', 'eq': '==', 'ne': '!='}[x[0]])
        if x and x[0] in ('and', 'or'):
            return '(' + (' %s ' % x[0]).join(show(c, depth) for c in list(x[1])[:4]) + (' ...' if len(x[1]) > 4 else '') + ')'
        return str(x)[:80]
    s = []
    for a, k in x.t[:6]:
        s.append(('%d*' % k if k != 1 else '') + showatom(a, depth))
    if len(x.t) > 6:
        s.append('... %d terms' % len(x.t))
    if x.c:
        s.append(str(x.c))
    return ' + '.join(s)


def showatom(a, depth):
    d = ATOM[a]
    k = d[0]
    if depth <= 0:
        return '..'
    if k == 'shr':
        return '(%s >> %d)' % (show(d[1], depth - 1), d[2])
    if k == 'sl':
        return '(%s)[%d..%d]' % (show(d[1], depth - 1), d[2], d[2] + d[3])
    if k == 'b2i':
        return '[%s]' % show(d[1], depth - 1)
    if k == 'sel':
        return '(%s ? %s : 0)' % (show(d[1], depth - 1), show(d[2], depth - 1))
    if k == 'mul':
        return '(%s * %s)' % (show(d[1], depth - 1), show(d[2], depth - 1))
    if k == 'el':
        return '%s#%d[%s]' % (VECS[d[1]][0], d[1], d[2])
    return '.'.join(str(y)[:30] for y in d)
