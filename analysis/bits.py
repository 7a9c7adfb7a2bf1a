"""Bit-provenance value domain for straight-line integer code.

A value of width w is a Python int (known) or a V: an integer-linear form
  c + sum(coef * atom)  (mod 2^w)
whose atoms are hash-consed: single bits (an input bit, an XOR of bits, an OR of bits, one
bit of some linear form), whole words, or products of words.  The form of a value says which input
bits reach it, at which position and with which weight; two values with the same form
are the same function of the inputs.
"""

KIND = [None]          # node id -> ('a', origin) | ('x', lits) | ('o', lits) | ('w', origin, bits) | ('p', a, b)
IDS = {}
TAINT = [frozenset()]


def node(d, taint):
    i = IDS.get(d)
    if i is None:
        i = len(KIND)
        IDS[d] = i
        KIND.append(d)
        TAINT.append(taint)
    return i


# ---- bits: literals are 2*node + complement; 0 = false, 1 = true
def bitatom(origin, taint=frozenset()):
    return 2 * node(('a', origin), taint)


def lit_taint(l):
    return TAINT[l >> 1]


def mk_xor(ls):
    neg = 0
    s = set()
    for l in ls:
        neg ^= l & 1
        n = l >> 1
        if n == 0:
            continue
        if KIND[n][0] == 'x':
            for m in KIND[n][1]:
                s.symmetric_difference_update((m,))
        else:
            s.symmetric_difference_update((n,))
    if not s:
        return neg
    if len(s) == 1:
        return 2 * s.pop() | neg
    t = tuple(sorted(s))
    d = ('x', t)
    i = IDS.get(d)
    if i is None:
        i = node(d, frozenset().union(*[TAINT[m] for m in t]))
    return 2 * i | neg


def assume(l, n, v, depth=3):
    """the literal l with node n set to v (v is 0 or 1), a shallow rewrite"""
    m = l >> 1
    if m == n:
        return v ^ (l & 1)
    if depth == 0 or m == 0:
        return l
    k = KIND[m]
    if k[0] == 'x':
        if n in k[1]:
            return mk_xor([2 * a for a in k[1] if a != n] + [v]) ^ (l & 1)
        return l
    if k[0] == 'o':
        new = [assume(a, n, v, depth - 1) for a in k[1]]
        if new != list(k[1]):
            return mk_or(new) ^ (l & 1)
    return l


def mk_or(ls):
    s = set()
    ls = list(ls)
    if 1 < len(ls) <= 6 and any(l > 1 and not l & 1 and KIND[l >> 1][0] == 'o' and len(KIND[l >> 1][1]) > 40 for l in ls):
        # absorption before a big or is flattened
        for i, r in enumerate(ls):
            if r > 1 and KIND[r >> 1][0] == 'x':
                for a in ls:
                    if a >> 1 != r >> 1 and a >> 1 in KIND[r >> 1][1]:
                        r = assume(r, a >> 1, a & 1, 1)
                    if r <= 1 or KIND[r >> 1][0] != 'x':
                        break
                ls[i] = r
    for l in ls:
        if l == 1:
            return 1
        if l == 0:
            continue
        if not l & 1 and KIND[l >> 1][0] == 'o':
            s.update(KIND[l >> 1][1])
        else:
            s.add(l)
    for l in s:
        if l ^ 1 in s:
            return 1
    if len(s) > 1 and len(s) <= 40 and any(KIND[l >> 1][0] in 'xo' for l in s):
        # absorption: under an or, the other operands may be taken as false
        changed = True
        while changed:
            changed = False
            for l in list(s):
                if KIND[l >> 1][0] not in 'xo':
                    continue
                if l not in s:
                    continue
                r = l
                for a in s:
                    if a != l and a >> 1 != r >> 1:
                        ka, kr = KIND[a >> 1], KIND[r >> 1]
                        if ka[0] == 'x' and kr[0] == 'x' and len(ka[1]) < len(kr[1]) and set(ka[1]) <= set(kr[1]):
                            r = mk_xor([r, a])
                        else:
                            r = assume(r, a >> 1, a & 1, 1)
                if r != l:
                    s.discard(l)
                    if r == 1:
                        return 1
                    if r != 0:
                        if not r & 1 and KIND[r >> 1][0] == 'o':
                            s.update(KIND[r >> 1][1])
                        else:
                            s.add(r)
                    changed = True
        for l in s:
            if l ^ 1 in s:
                return 1
    if not s:
        return 0
    if len(s) == 1:
        return s.pop()
    t = tuple(sorted(s))
    d = ('o', t)
    i = IDS.get(d)
    if i is None:
        i = node(d, frozenset().union(*[TAINT[m >> 1] for m in t]))
    return 2 * i


def mk_and(ls):
    return mk_or([l ^ 1 for l in ls]) ^ 1


# ---- words
class V:
    __slots__ = ('w', 'c', 't', 'b', 'key_')

    def __init__(self, w, c, t, b=None):
        self.w = w
        self.c = c
        self.t = t
        self.b = b
        self.key_ = None

    def key(self):
        if self.key_ is None:
            self.key_ = (self.c, tuple(sorted(self.t.items())))
        return self.key_

    def __eq__(self, o):
        return isinstance(o, V) and self.w == o.w and self.key() == o.key()

    def __hash__(self):
        return hash((self.w, self.key()))

    def __repr__(self):
        return 'V%d(%s)' % (self.w, show(self))


def key(v):
    return v.key() if isinstance(v, V) else (v, ())


def show(v, n=4):
    if isinstance(v, int):
        return str(v)
    out = []
    if v.b is not None or all(KIND[a][0] in 'axo' for a in v.t):
        bs = bits(v)
        return '[%s]' % ' '.join(show_lit(l) for l in bs[:8])
    for a, k in list(v.t.items())[:n]:
        out.append('%s*%s' % (k if k < 1 << (v.w - 1) else k - (1 << v.w), show_node(a)))
    return ' + '.join(out + ([str(v.c)] if v.c else [])) + (' + …%d' % (len(v.t) - n) if len(v.t) > n else '')


def show_node(n, depth=2):
    k = KIND[n]
    if k[0] in 'aw':
        o = k[1]
        if isinstance(o, tuple) and o[0] == 'bit':
            return 'bit%d(…)' % o[2]
        return '.'.join(str(x) for x in o) if isinstance(o, tuple) and len(str(o)) < 60 else str(o)[:40]
    if depth == 0:
        return '…'
    if k[0] == 'p':
        return '*'.join(show_node(a, depth - 1) for a in k[1:])
    return ('^' if k[0] == 'x' else '|').join(show_node(l if k[0] == 'x' else l >> 1, depth - 1) for l in k[1][:4])


def show_lit(l):
    return str(l) if l < 2 else ('!' if l & 1 else '') + show_node(l >> 1)


def mk(w, c, t):
    m = (1 << w) - 1
    c &= m
    t = {a: k & m for a, k in t.items() if k & m}
    if not t:
        return c
    return V(w, c, t)


def word(origin, nbits, w, taint=frozenset()):
    """an opaque input word of nbits bits held in a value of width w"""
    return V(w, 0, {node(('w', origin, nbits), taint): 1})


def product(k1, k2, w, taint):
    a, b = (k1, k2) if repr(k1) <= repr(k2) else (k2, k1)
    return V(w, 0, {node(('w', ('mul', w, a, b), w), taint): 1})


def amax(a):
    k = KIND[a]
    return (1 << k[2]) - 1 if k[0] == 'w' else 1 if k[0] in 'axo' else None


def vmax(v):
    """largest value of the integer form (coefficients read as unsigned), or None"""
    if isinstance(v, int):
        return v
    s = v.c
    for a, k in v.t.items():
        m = amax(a)
        if m is None:
            return None
        s += k * m
    return s


def taint(v):
    if isinstance(v, int):
        return frozenset()
    return frozenset().union(*[TAINT[a] for a in v.t])


def frombits(w, bs):
    """value with the given bit literals (low first)"""
    c = 0
    t = {}
    for i, l in enumerate(bs):
        if l == 0:
            continue
        if l & 1:
            c += 1 << i
            if l != 1:
                t[l >> 1] = t.get(l >> 1, 0) - (1 << i)
        else:
            t[l >> 1] = t.get(l >> 1, 0) + (1 << i)
    r = mk(w, c, t)
    if isinstance(r, V):
        r.b = list(bs) + [0] * (w - len(bs))
    return r


def decode(w, c, t):
    """bit literals of a form whose atoms are single bits at distinct positions, or None"""
    bs = [0] * w
    M = 1 << w
    for a, k in t.items():
        kd = KIND[a]
        if kd[0] == 'w':
            if k & (k - 1) == 0:
                i = k.bit_length() - 1
                n = kd[2]
                if any(bs[i:min(w, i + n)]):
                    return None
                for j in range(n):
                    if i + j < w:
                        bs[i + j] = wordbit(a, j)
                continue
            return None
        if kd[0] == 'p':
            return None
        if k & (k - 1) == 0:
            i = k.bit_length() - 1
            if bs[i]:
                if k == M >> 1 and c >> i & 1 == 0:
                    return None
                return None
            bs[i] = 2 * a
        else:
            q = M - k
            if q & (q - 1) == 0:
                i = q.bit_length() - 1
                if bs[i] or not c >> i & 1:
                    return None
                bs[i] = 2 * a | 1
                c -= 1 << i
            else:
                return None
    for i in range(w):
        if c >> i & 1:
            if bs[i] == 0:
                bs[i] = 1
            elif i == w - 1:
                bs[i] ^= 1
            else:
                return None
    return bs


def wordbit(a, j):
    return 2 * node(('a', ('bit', (0, ((a, 1),)), j)), TAINT[a])


def bits(v, w=None):
    if isinstance(v, int):
        return [v >> i & 1 for i in range(w)]
    if v.b is not None:
        return v.b
    b = decode(v.w, v.c, v.t)
    if b is None:
        M = 1 << v.w
        n = neg(v)
        nb = decode(n.w, n.c, n.t) if isinstance(n, V) else None
        if nb is None and isinstance(n, V) and n.b is not None:
            nb = n.b
        if nb is not None:
            b = []
            for i in range(v.w):
                b.append(mk_xor([nb[i], mk_or(nb[:i])]))
        else:
            d = mk(v.w, v.c + 1, v.t)
            db = decode(d.w, d.c, d.t) if isinstance(d, V) else None
            if db is not None:
                b = []
                for i in range(v.w):
                    b.append(mk_xor([db[i], 1, mk_or(db[:i])]))
    if b is None and v.c:
        # c - x == (c + 1) + ~x ... only the all-ones case is exact: 2^w-1 - x = ~x
        pass
    if b is None:
        b = [formbit(v, i) for i in range(v.w)]
    v.b = b
    return b


def formbit(v, i):
    m = (2 << i) - 1
    c = v.c & m
    t = {a: k & m for a, k in v.t.items() if k & m}
    if not t:
        return c >> i & 1
    # common power of two
    g = min((k & -k) for k in t.values())
    j = g.bit_length() - 1
    if j:
        c >>= j
        t = {a: k >> j for a, k in t.items()}
        i -= j
        if i < 0:
            return c >> 0 & 1 if False else 0
    b = decode(i + 1, c, t)
    if b is not None:
        return b[i]
    if i == 0:
        # the lowest bit of a sum is a xor, when all its atoms are bits
        if all(KIND[a][0] in 'axo' for a in t):
            return mk_xor([c & 1] + [2 * a for a in t])
    k = (c, tuple(sorted(t.items())))
    return 2 * node(('a', ('bit', k, i)), frozenset().union(*[TAINT[a] for a in t]))


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        return V(w, (a.c + b) & ((1 << w) - 1), a.t)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    m = (1 << w) - 1
    for x, k in b.t.items():
        n = (t.get(x, 0) + k) & m
        if n:
            t[x] = n
        else:
            t.pop(x, None)
    c = (a.c + b.c) & m
    return V(w, c, t) if t else c


def neg(a):
    if isinstance(a, int):
        return -a
    m = (1 << a.w) - 1
    return V(a.w, -a.c & m, {x: -k & m for x, k in a.t.items()})


def sub(a, b, w):
    if isinstance(b, int):
        return add(a, -b & ((1 << w) - 1), w)
    return add(a, neg(b), w)


def scale(a, k, w):
    if isinstance(a, int):
        return a * k & ((1 << w) - 1)
    return mk(w, a.c * k, {x: q * k for x, q in a.t.items()})


def mul(a, b, w):
    if isinstance(a, int):
        return scale(b, a, w)
    if isinstance(b, int):
        return scale(a, b, w)
    if len(a.t) == 1 and len(b.t) == 1 and not a.c and not b.c:
        (x, p), = a.t.items()
        (y, q), = b.t.items()
        kx, ky = KIND[x][0], KIND[y][0]
        if kx in 'axo' and ky in 'axo':
            return mk(w, *_litterm(mk_and([2 * x, 2 * y]), p * q))
        if kx == 'w' and ky == 'w':
            if x > y:
                x, y = y, x
            return mk(w, 0, {node(('p', x, y), TAINT[x] | TAINT[y]): p * q})
    if len(a.t) == 1 and len(b.t) > 1:
        a, b = b, a
    if len(b.t) == 1 and not b.c:
        # a single bit times a word: select
        (y, q), = b.t.items()
        if KIND[y][0] in 'axo' and q == 1:
            return frombits(w, [mk_and([l, 2 * y]) for l in bits(a)])
    return product(key(a), key(b), w, taint(a) | taint(b))


def _litterm(l, k):
    if l < 2:
        return k * l, {}
    if l & 1:
        return k, {l >> 1: -k}
    return 0, {l >> 1: k}


def shl(a, k, w):
    if k >= w:
        return 0
    r = scale(a, 1 << k, w)
    if isinstance(r, V) and isinstance(a, V) and a.b is not None:
        r.b = ([0] * k + a.b)[:w]
    return r


def shr(a, k, w):
    if isinstance(a, int):
        return a >> k
    if k == 0:
        return a
    if k >= w:
        return 0
    if a.b is not None:
        return frombits(w, a.b[k:])
    mx = vmax(a)
    if mx is not None and mx < 1 << w:
        lowc = a.c & ((1 << k) - 1)
        low = lowc
        hi = {}
        for x, q in a.t.items():
            if q & ((1 << k) - 1) == 0:
                hi[x] = q >> k
            else:
                low += q * amax(x)
        if low < 1 << k:
            return mk(w, a.c >> k, hi)
    return frombits(w, bits(a)[k:])


def band(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        full = (1 << w) - 1
        if b == full:
            return a
        if b == 0:
            return 0
        if b & (b + 1) == 0:
            n = b.bit_length()
            if a.b is None:
                r = {x: q & b for x, q in a.t.items() if q & b}
                if not r:
                    return a.c & b
                rv = V(w, a.c & b, r)
                mx = vmax(rv)
                if mx is not None and mx <= b:
                    return rv
        return frombits(w, [l if b >> i & 1 else 0 for i, l in enumerate(bits(a))])
    if a == b:
        return a
    return frombits(w, [mk_and([x, y]) for x, y in zip(bits(a), bits(b))])


def bor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, V) and a == b:
        return a
    return frombits(w, [mk_or([x, y]) for x, y in zip(bits(a, w), bits(b, w))])


def bxor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return frombits(w, [mk_xor([x, y]) for x, y in zip(bits(a, w), bits(b, w))])


def bnot(a, w):
    if isinstance(a, int):
        return ~a & ((1 << w) - 1)
    if a.b is None:
        r = sub((1 << w) - 1, a, w)
        return r
    return frombits(w, [l ^ 1 for l in a.b])


def cast(a, wf, wt):
    if isinstance(a, int):
        return a & ((1 << wt) - 1)
    if wt == wf:
        return a
    if wt < wf:
        if a.b is not None:
            return frombits(wt, a.b[:wt])
        return mk(wt, a.c, a.t)
    if a.b is None:
        mx = vmax(a)
        if mx is not None and mx < 1 << wf:
            return V(wt, a.c, a.t)
    return frombits(wt, bits(a) + [0] * (wt - wf))


def subst(l, m, memo, true_or=None):
    """literal l under a node -> bit assignment m (deep); true_or: literals at least one of which is true"""
    n = l >> 1
    if n == 0:
        return l
    if n in m:
        return m[n] ^ (l & 1)
    if n in memo:
        return memo[n] ^ (l & 1)
    k = KIND[n]
    if k[0] == 'x':
        r = mk_xor([subst(2 * a, m, memo, true_or) for a in k[1]])
    elif k[0] == 'o':
        if true_or is not None and len(k[1]) >= len(true_or) and true_or <= set(k[1]):
            r = 1
        else:
            r = mk_or([subst(a, m, memo, true_or) for a in k[1]])
    else:
        r = 2 * n
    memo[n] = r
    return r ^ (l & 1)


def atoms_of(v, seen=None):
    """origins of the input atoms a value is built from (through or/xor, products and form bits)"""
    out = set()
    stack = list(v.t) if isinstance(v, V) else []
    seen = seen if seen is not None else set()
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        k = KIND[n]
        if k[0] == 'x':
            stack.extend(k[1])
        elif k[0] == 'o':
            stack.extend(l >> 1 for l in k[1])
        elif k[0] == 'p':
            stack.extend(k[1:])
        elif k[0] == 'a' and isinstance(k[1], tuple) and k[1][0] == 'bit':
            stack.extend(a for a, _ in k[1][1][1])
        elif k[0] == 'w' and isinstance(k[1], tuple) and k[1][0] == 'mul':
            stack.extend(a for a, _ in k[1][2][1])
            stack.extend(a for a, _ in k[1][3][1])
        else:
            out.add(k[1])
    return out
