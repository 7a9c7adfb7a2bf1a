"""Abstract interpreter for loop-bounded integer code (the Saber crate), over its MIR.

Control flow has to be the same for every input: a branch, an index or a panic condition that is not a
constant in the domain of bits.py is reported (Stuck), never explored both ways and never given to a solver.
"""
import sys
import bits as B
from bits import V

sys.setrecursionlimit(100000)


class Undecided(Exception):
    pass


class Stuck(Exception):
    """control depends on a value that is not constant"""
    def __init__(self, what, span, fn, value):
        Exception.__init__(self, '%s at %s in %s' % (what, span, fn))
        self.what, self.span, self.fn, self.value = what, span, fn, value
        self.taint = B.taint(value) if isinstance(value, V) else frozenset()


class Panic(Exception):
    def __init__(self, why, span, fn):
        Exception.__init__(self, '%s at %s in %s' % (why, span, fn))
        self.why, self.span, self.fn = why, span, fn


class Agg:
    __slots__ = ('n', 'vi', 'f')

    def __init__(self, n, f, vi=0):
        self.n, self.f, self.vi = n, f, vi

    def __repr__(self):
        return '%s#%d%r' % (self.n, self.vi, self.f if len(self.f) < 6 else '[%d]' % len(self.f))


class Ref:
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def set(self, v):
        self.c[self.k] = v


class LList(list):
    """a caller-supplied byte string whose length is being classified"""


class Slice:
    __slots__ = ('l', 'lo', 'hi')

    def __init__(self, l, lo, hi):
        self.l, self.lo, self.hi = l, lo, hi

    def __len__(self):
        return self.hi - self.lo

    def length(self):
        n = self.hi - self.lo
        return LInt(n) if isinstance(self.l, LList) and n == len(self.l) else n

    def items(self):
        return self.l[self.lo:self.hi]


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Len(object):
    """a slice of unknown length: only its length may be looked at, through recorded comparisons"""
    __slots__ = ('n', 'log', 'data')


class FnVal:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Opaque:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Opaque(%s)' % (self.t,)


UNIT = Agg('()', [])


def copy(v):
    if isinstance(v, Agg):
        f = v.f
        for x in f:
            if isinstance(x, (Agg, It)):
                return Agg(v.n, [copy(x) for x in f], v.vi)
            break
        else:
            return Agg(v.n, list(f), v.vi)
        if v.n == 'array':
            return Agg(v.n, list(f), v.vi)
        return Agg(v.n, [copy(x) for x in f], v.vi)
    if isinstance(v, It):
        return v.copy()
    return v


def some(v):
    return Agg('Option', [v], 1)


def none():
    return Agg('Option', [], 0)


def ok(v):
    return Agg('Result', [v], 0)


def err(v):
    return Agg('Result', [v], 1)


# ---- iterators
class It:
    def copy(self):
        import copy as c
        return c.copy(self)


class SliceIt(It):
    def __init__(self, s):
        self.l, self.i, self.j = s.l, s.lo, s.hi

    def next(self, E):
        if self.i >= self.j:
            return None
        self.i += 1
        return Ref(self.l, self.i - 1)

    def back(self, E):
        if self.i >= self.j:
            return None
        self.j -= 1
        return Ref(self.l, self.j)

    def count(self):
        return self.j - self.i


class ChunkIt(It):
    def __init__(self, s, n, exact, skip=None, win=False):
        self.s, self.n, self.exact, self.i, self.win = s, n, exact, s.lo, win
        self.j = s.hi if not exact else s.lo + len(s) // n * n
        self.step = 1 if win else n

    def next(self, E):
        if self.win:
            if self.i + self.n > self.j:
                return None
        elif self.i >= self.j:
            return None
        lo = self.i
        self.i += self.step
        return Slice(self.s.l, lo, min(lo + self.n, self.j))

    def back(self, E):
        if self.win or self.i >= self.j:
            return None
        r = (self.j - self.i) % self.n or self.n
        self.j -= r
        return Slice(self.s.l, self.j, self.j + r)

    def count(self):
        return -(-(self.j - self.i) // self.n)


class Zip(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def copy(self):
        return Zip(copy(self.a), copy(self.b))

    def next(self, E):
        x = E.inext(self.a)
        if x is None:
            return None
        y = E.inext(self.b)
        if y is None:
            return None
        return Agg('()', [x, y])

    def back(self, E):
        n, m = E.icount(self.a), E.icount(self.b)
        while n > m:
            E.iback(self.a)
            n -= 1
        while m > n:
            E.iback(self.b)
            m -= 1
        if n == 0:
            return None
        return Agg('()', [E.iback(self.a), E.iback(self.b)])


class Enum(It):
    def __init__(self, a):
        self.a, self.i = a, 0

    def copy(self):
        r = Enum(copy(self.a))
        r.i = self.i
        return r

    def next(self, E):
        x = E.inext(self.a)
        if x is None:
            return None
        self.i += 1
        return Agg('()', [self.i - 1, x])

    def back(self, E):
        n = E.icount(self.a)
        if n == 0:
            return None
        return Agg('()', [self.i + n - 1, E.iback(self.a)])


class Rev(It):
    def __init__(self, a):
        self.a = a

    def copy(self):
        return Rev(copy(self.a))

    def next(self, E):
        return E.iback(self.a)

    def back(self, E):
        return E.inext(self.a)


class Map(It):
    def __init__(self, a, f):
        self.a, self.f = a, f

    def copy(self):
        return Map(copy(self.a), self.f)

    def next(self, E):
        x = E.inext(self.a)
        return None if x is None else E.callf(self.f, [x])

    def back(self, E):
        x = E.iback(self.a)
        return None if x is None else E.callf(self.f, [x])


class Filter(It):
    def __init__(self, a, f):
        self.a, self.f = a, f

    def copy(self):
        return Filter(copy(self.a), self.f)

    def next(self, E):
        while True:
            x = E.inext(self.a)
            if x is None:
                return None
            c = E.callf(self.f, [Ref([x], 0)])
            if isinstance(c, V):
                raise Stuck('filter', None, 'filter', c)
            if c:
                return x


class Deref(It):
    def __init__(self, a):
        self.a = a

    def copy(self):
        return Deref(copy(self.a))

    def next(self, E):
        x = E.inext(self.a)
        return None if x is None else copy(E.deref(x))

    def back(self, E):
        x = E.iback(self.a)
        return None if x is None else copy(E.deref(x))


class Cap(It):
    """take / skip / step_by / chain / once / repeat, materialised lazily"""
    def __init__(self, gen):
        self.gen = gen

    def next(self, E):
        return next(self.gen, None)

    def copy(self):
        raise Undecided('clone of a lazy iterator')


class ListIt(It):
    def __init__(self, l):
        self.l, self.i, self.j = l, 0, len(l)

    def next(self, E):
        if self.i >= self.j:
            return None
        self.i += 1
        return self.l[self.i - 1]

    def back(self, E):
        if self.i >= self.j:
            return None
        self.j -= 1
        return self.l[self.j]


BINW = {'Add': B.add, 'Sub': B.sub, 'Mul': B.mul, 'BitAnd': B.band, 'BitOr': B.bor, 'BitXor': B.bxor}
CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b,
       'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}


def width(t):
    """bit width of an integer-like type, or None"""
    if t is None:
        return None
    if t.k == 'int':
        return t.bits
    if t.k == 'bool':
        return 1
    if t.k == 'char':
        return 32
    s = t.s
    i = s.rfind('::')
    n = s[i + 2:] if i >= 0 else s
    if n and n[0] in 'UI' and n[1:].isdigit() and (t.crate == 'secret_integers' or 'secret_integers' in s):
        return int(n[1:])
    return None


HASH_IDS = {}       # (algorithm, input forms) -> id, shared by all engines: equal inputs give equal outputs
HASH_INPUTS = {}
POLY_IDS = {}


class LInt(int):
    """a length whose comparisons are recorded"""


class Engine:
    def __init__(self, P, crate='saber', hooks=None, steps=40000000):
        self.P = P
        self.crate = crate
        self.code = {}
        self.steps = steps
        self.used = set()          # functions interpreted
        self.draws = []            # (source, length)
        self.events = []           # (kind, span, fn, taint)
        self.summaries = {}
        self.ring_reports = []
        self.ring_cache = POLY_IDS
        self.lens = set()
        self.lenops = []
        self.depth = 0
        self.calls = 0
        self.models = set()
        self.lenlog = None
        self.nosum = False
        import bimodels
        self.M = bimodels

    # -- helpers
    def deref(self, v):
        if isinstance(v, Ref):
            return v.c[v.k]
        return v

    def inext(self, it):
        it = self.unref(it)
        if isinstance(it, It):
            return it.next(self)
        if isinstance(it, Agg) and it.n.endswith('Range'):
            a, b = it.f
            if isinstance(a, V) or isinstance(b, V):
                raise Stuck('loop bound', None, 'range', a if isinstance(a, V) else b)
            if a < b:
                it.f[0] = a + 1
                return a
            return None
        if isinstance(it, Agg) and it.n.endswith('RangeInclusive'):
            a, b = it.f[0], it.f[1]
            if isinstance(a, V) or isinstance(b, V):
                raise Stuck('loop bound', None, 'range', a if isinstance(a, V) else b)
            if a <= b and not it.f[2]:
                it.f[0] = a + 1
                return a
            return None
        if isinstance(it, Agg) and it.n.endswith('RangeFrom'):
            a = it.f[0]
            it.f[0] = a + 1
            return a
        if isinstance(it, Agg):
            # an iterator of the crate itself
            raise Undecided('iterator %s' % it.n)
        raise Undecided('iterator %r' % (it,))

    def iback(self, it):
        it = self.unref(it)
        if isinstance(it, It) and hasattr(it, 'back'):
            return it.back(self)
        if isinstance(it, Agg) and it.n.endswith('Range'):
            a, b = it.f
            if a < b:
                it.f[1] = b - 1
                return b - 1
            return None
        if isinstance(it, Agg) and it.n.endswith('RangeInclusive'):
            a, b = it.f[0], it.f[1]
            if a <= b:
                it.f[1] = b - 1
                return b
            return None
        raise Undecided('reverse iteration of %r' % (it,))

    def icount(self, it):
        it = self.unref(it)
        if isinstance(it, Agg) and it.n.endswith('Range'):
            return max(0, it.f[1] - it.f[0])
        if isinstance(it, Agg) and it.n.endswith('RangeInclusive'):
            return max(0, it.f[1] - it.f[0] + 1)
        if hasattr(it, 'count'):
            return it.count()
        for a in ('a',):
            if isinstance(it, Zip):
                return min(self.icount(it.a), self.icount(it.b))
            if isinstance(it, (Enum, Rev, Map, Deref)):
                return self.icount(it.a)
        if isinstance(it, ListIt):
            return it.j - it.i
        raise Undecided('length of %r' % (it,))

    def unref(self, v):
        while isinstance(v, Ref):
            v = v.c[v.k]
        return v

    def callf(self, f, args):
        """call a closure / fn item value with positional args"""
        g = self.unref(f)
        if isinstance(g, FnVal):
            return self.call_const(g.d, list(args), None, None, None)
        if isinstance(g, Agg) and g.n.startswith('closure:'):
            k = g.n[8:]
            fn = self.P.fns.get((self.crate, k)) or self.P.fns.get(k)
            if fn is None:
                raise Undecided('closure without body ' + k)
            self_t = fn.locals[1]
            env = f if self_t.k == 'ref' and isinstance(f, Ref) else Ref([g], 0) if self_t.k == 'ref' else copy(g)
            return self.run(fn, [env] + list(args))
        raise Undecided('call of %r' % (g,))

    # -- compiled code
    def place(self, p, fn):
        """compile a place into f(frame) -> (container, key) or (None, Slice)"""
        l = p['l']
        pr = p['p']
        if not pr:
            return lambda fr: (fr, l)
        steps = []
        for e in pr:
            k = e['k']
            if k == 'deref':
                steps.append((0, None))
            elif k == 'field':
                steps.append((1, e['i']))
            elif k == 'index':
                steps.append((2, e['l']))
            elif k == 'cindex':
                steps.append((3, (e['off'], e['from_end'])))
            elif k == 'subslice':
                steps.append((4, (e['from'], e['to'], e['from_end'])))
            elif k == 'downcast':
                pass
            else:
                raise Undecided('projection ' + k)
        name = fn.key

        def go(fr):
            c, k = fr, l
            for op, x in steps:
                if op == 0:
                    v = c[k]
                    if isinstance(v, Ref):
                        c, k = v.c, v.k
                    elif isinstance(v, Slice):
                        c, k = None, v
                    elif isinstance(v, Agg) and v.n == 'Box':
                        c, k = v.f, 0
                    elif isinstance(v, (Str, Opaque, Len)):
                        c, k = [v], 0
                    else:
                        raise Undecided('deref of %r in %s' % (v, name))
                elif op == 1:
                    v = c[k]
                    if not isinstance(v, Agg):
                        raise Undecided('field of %r in %s' % (v, name))
                    c, k = v.f, x
                    if k >= len(c):
                        raise Undecided('field %d of %r in %s' % (k, v, name))
                elif op == 2 or op == 3:
                    if op == 2:
                        i = fr[x]
                        if isinstance(i, V):
                            raise Stuck('memory index', None, name, i)
                    if c is None:
                        s = k
                        if op == 3:
                            i = len(s) - x[0] if x[1] else x[0]
                        if i >= len(s):
                            raise Panic('index out of bounds', None, name)
                        c, k = s.l, s.lo + i
                    else:
                        v = c[k]
                        if not isinstance(v, Agg):
                            raise Undecided('index of %r in %s' % (v, name))
                        if op == 3:
                            i = len(v.f) - x[0] if x[1] else x[0]
                        if i >= len(v.f):
                            raise Panic('index out of bounds', None, name)
                        c, k = v.f, i
                else:
                    s = k if c is None else Slice(c[k].f, 0, len(c[k].f))
                    hi = s.hi - x[1] if x[2] else s.lo + x[1]
                    c, k = None, Slice(s.l, s.lo + x[0], hi)
            return c, k
        return go

    def operand(self, o, fn):
        k = o['k']
        if k in ('copy', 'move'):
            p = o['p']
            mv = k == 'move'
            if not p['p']:
                l = p['l']
                if mv:
                    return lambda fr: fr[l]

                def gl(fr):
                    v = fr[l]
                    return copy(v) if isinstance(v, (Agg, It)) else v
                return gl
            pl = self.place(p, fn)

            def g(fr):
                c, k = pl(fr)
                if c is None:
                    return k
                v = c[k]
                return v if mv or not isinstance(v, (Agg, It)) else copy(v)
            return g
        if k == 'const':
            v = self.const(o, fn)
            if isinstance(v, (Agg,)):
                return lambda fr: copy(v)
            return lambda fr: v
        if k == 'runtimechecks':
            return lambda fr: 0
        raise Undecided('operand ' + k)

    def cmem(self, m):
        if m is None:
            raise Undecided('constant memory')
        if 'int' in m:
            return m['int'] if isinstance(m['int'], int) else int(m['int'])
        if 'bytes' in m:
            return Agg('array', list(bytes.fromhex(m['bytes'])))
        if 'ref' in m:
            v = self.cmem(m['ref'])
            return Ref([v], 0)
        if 'array' in m:
            return Agg('array', [self.cmem(x) for x in m['array']])
        if 'tuple' in m:
            return UNIT
        if 'struct' in m:
            n = m['struct']
            fs = [self.cmem(x[1]) for x in m['fields']]
            if n.split('::')[-1][:1] in 'UI' and n.split('::')[-1][1:].isdigit():
                return fs[0]
            return Agg(n, fs)
        if 'enumdiscr' in m:
            return Agg('enum', [], int(m['enumdiscr']))
        raise Undecided('constant %s' % str(m)[:60])

    def const(self, o, fn):
        if 'fn' in o:
            return FnVal(o['fn'])
        t = fn.tys[o['ty']] if o.get('ty') is not None else None
        if 'int' in o and o['int'] is not None:
            v = int(o['int'])
            w = width(t)
            return v & ((1 << w) - 1) if w else v
        if o.get('zst'):
            if t is not None and t.k == 'closure':
                return Agg('closure:' + (t.key or ''), [])
            if t is not None and t.k == 'fndef' and t.callee:
                return FnVal(t.callee)
            return Agg(t.s if t is not None else '()', [])
        if 'mem' in o:
            m = o['mem']
            if t is not None and t.k == 'ref' and t.elem.k == 'str':
                h = m['ref'].get('bytes', '')
                return Str(bytes.fromhex(h).decode('utf8', 'replace'))
            v = self.cmem(m)
            if t is not None and t.k == 'ref' and t.elem.k == 'slice':
                a = v.c[v.k]
                return Slice(a.f, 0, len(a.f))
            return v
        if o.get('pkey'):
            f = self.P.fns.get((self.crate, o['pkey'])) or self.P.fns.get(o['pkey'])
            if f:
                return self.run(f, [])
        raise Undecided('constant %s in %s' % ({k: o[k] for k in o if k not in ('k', 'ty')}, fn.key))

    def rvalue(self, r, fn):
        k = r['k']
        if k == 'use':
            return self.operand(r['o'], fn)
        if k == 'repeat':
            g = self.operand(r['o'], fn)
            n = r['n']
            if not isinstance(n, int):
                raise Undecided('array length')

            def rep(fr):
                v = g(fr)
                if isinstance(v, Agg):
                    return Agg('array', [copy(v) for _ in range(n)])
                return Agg('array', [v] * n)
            return rep
        if k in ('ref', 'rawptr'):
            pl = self.place(r['p'], fn)

            def ref(fr):
                c, kk = pl(fr)
                if c is None:
                    return kk
                if isinstance(c[kk], (Str, Len)) and c is not fr:
                    return c[kk]
                return Ref(c, kk)
            return ref
        if k == 'cast':
            g = self.operand(r['o'], fn)
            tf, tt = fn.tys[r['from']], fn.tys[r['ty']]
            if 'Unsize' in r['ck']:
                def uns(fr):
                    v = g(fr)
                    if isinstance(v, Ref):
                        a = v.c[v.k]
                        if isinstance(a, Agg) and a.n == 'array':
                            return Slice(a.f, 0, len(a.f))
                    return v
                return uns
            wf, wt = width(tf), width(tt)
            if wf and wt:
                sg = tf.signed

                def cst(fr):
                    v = g(fr)
                    if sg and wt > wf:
                        if isinstance(v, int):
                            return (v - (1 << wf) if v >> (wf - 1) & 1 else v) & ((1 << wt) - 1)
                        b = B.bits(v)
                        return B.frombits(wt, b + [b[-1]] * (wt - wf))
                    return B.cast(v, wf, wt)
                return cst
            return g
        if k == 'bin':
            return self.binop(r, fn)
        if k == 'un':
            g = self.operand(r['o'], fn)
            t = fn.tys[r['ty']]
            if r['op'] == 'PtrMetadata':
                def meta(fr):
                    v = g(fr)
                    if isinstance(v, Slice):
                        return v.length()
                    if isinstance(v, Len):
                        return self.len_of(v)
                    if isinstance(v, Ref) and isinstance(v.c[v.k], Agg):
                        return len(v.c[v.k].f)
                    raise Undecided('length of %r' % (v,))
                return meta
            w = width(t)
            if r['op'] == 'Not':
                return lambda fr: B.bnot(g(fr), w)
            if r['op'] == 'Neg':
                def ng(fr):
                    v = g(fr)
                    return B.neg(v) if isinstance(v, V) else -v & ((1 << w) - 1)
                return ng
            raise Undecided('unary ' + r['op'])
        if k == 'discr':
            pl = self.place(r['p'], fn)
            t = fn.tys[r['p'].get('ty')] if r['p'].get('ty') is not None else None

            def dis(fr):
                c, kk = pl(fr)
                v = c[kk]
                if isinstance(v, Agg):
                    return v.vi
                raise Undecided('discriminant of %r' % (v,))
            return dis
        if k == 'agg':
            gs = [self.operand(o, fn) for o in r['ops']]
            a = r['a']
            if a == 'array':
                return lambda fr: Agg('array', [g(fr) for g in gs])
            if a == 'tuple':
                return lambda fr: Agg('()', [g(fr) for g in gs])
            if a == 'closure':
                n = 'closure:' + r['key']
                return lambda fr: Agg(n, [g(fr) for g in gs])
            if a == 'adt':
                n, vi = r['path'], r['vi']
                return lambda fr: Agg(n, [g(fr) for g in gs], vi)
            raise Undecided('aggregate ' + a)
        raise Undecided('rvalue ' + k)

    def len_of(self, v):
        return v

    def binop(self, r, fn):
        ga, gb = self.operand(r['a'], fn), self.operand(r['b'], fn)
        op = r['op']
        t = fn.tys[r['ty']]
        w = width(t) or 64
        sg = t.signed
        if op in BINW:
            f = BINW[op]
            return lambda fr: f(ga(fr), gb(fr), w)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op.endswith('WithOverflow'):
            f = BINW[base]

            def ov(fr):
                a, b = ga(fr), gb(fr)
                v = f(a, b, w)
                if isinstance(a, int) and isinstance(b, int):
                    x = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
                    fl = 0 if 0 <= x < 1 << w else 1
                    if sg:
                        fl = 0
                else:
                    ma, mb = B.vmax(a), B.vmax(b)
                    mx = None
                    if ma is not None and mb is not None and base != 'Sub':
                        mx = ma + mb if base == 'Add' else ma * mb
                    if mx is not None and mx < 1 << w:
                        fl = 0
                    else:
                        fl = B.frombits(1, [B.bitatom(('overflow', base, B.key(a), B.key(b)), B.taint(a) | B.taint(b))])
                return Agg('()', [v, fl])
            return ov
        if op in CMP:
            f = CMP[op]
            return lambda fr: self.compare(op, ga(fr), gb(fr), w, sg)
        if base in ('Shl', 'Shr'):
            tb = None

            def sh(fr):
                a, b = ga(fr), gb(fr)
                if isinstance(b, V):
                    raise Stuck('shift amount', None, fn.key, b)
                b &= w - 1
                if base == 'Shl':
                    return B.shl(a, b, w)
                if sg and isinstance(a, int) and a >> (w - 1):
                    return (a - (1 << w) >> b) & ((1 << w) - 1)
                if sg and isinstance(a, V):
                    bs = B.bits(a)
                    return B.frombits(w, bs[b:] + [bs[-1]] * b)
                return B.shr(a, b, w)
            return sh
        if op in ('Div', 'Rem'):
            def dv(fr):
                a, b = ga(fr), gb(fr)
                if isinstance(b, int) and b and b & (b - 1) == 0 and not sg:
                    return B.shr(a, b.bit_length() - 1, w) if op == 'Div' else B.band(a, b - 1, w)
                if isinstance(a, int) and isinstance(b, int):
                    return a // b if op == 'Div' else a % b
                raise Stuck('division', None, fn.key, a if isinstance(a, V) else b)
            return dv
        if op == 'Offset':
            raise Undecided('pointer arithmetic')
        raise Undecided('binary ' + op)

    def compare(self, op, a, b, w, sg=False):
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(a, LInt) or isinstance(b, LInt):
                self.lens.add(int(b) if isinstance(a, LInt) else int(a))
            if sg:
                h = 1 << (w - 1)
                a, b = (a ^ h) - h, (b ^ h) - h
            return 1 if CMP[op](a, b) else 0
        if isinstance(a, V) and isinstance(b, V) and a == b:
            return 1 if op in ('Eq', 'Le', 'Ge') else 0
        if not isinstance(a, (int, V)) or not isinstance(b, (int, V)):
            if isinstance(a, Ref) and isinstance(b, Ref):
                return self.compare(op, a.get(), b.get(), w, sg)
            raise Undecided('comparison of %r and %r' % (a, b))
        ba, bb = B.bits(a, w), B.bits(b, w)
        if op in ('Eq', 'Ne'):
            l = B.mk_or([B.mk_xor([x, y]) for x, y in zip(ba, bb)])
            l = l ^ 1 if op == 'Eq' else l
        elif not sg and isinstance(b, int) and op in ('Lt', 'Ge') and b and b & (b - 1) == 0:
            n = b.bit_length() - 1
            l = B.mk_or(ba[n:])
            l = l ^ 1 if op == 'Lt' else l
        else:
            l = B.bitatom(('cmp', op, sg, B.key(a), B.key(b)), B.taint(a) | B.taint(b))
        return B.frombits(1, [l])

    def compile(self, fn):
        blocks = []
        for bi, b in enumerate(fn.blocks):
            if b is None:
                blocks.append(None)
                continue
            blocks.append([b, None, None, None])
        self.code[fn] = blocks
        return blocks

    def comp_block(self, fn, blk):
        b = blk[0]
        out = []
        for st in b['s']:
            p, r, sp = st
            if r['k'] == 'setdiscr':
                pl = self.place(p, fn)
                vi = r['vi']

                def sd(fr, pl=pl, vi=vi):
                    c, k = pl(fr)
                    c[k].vi = vi
                out.append((None, sd, sp))
                continue
            g = self.rvalue(r, fn)
            if not p['p']:
                out.append((p['l'], g, sp))
            else:
                pl = self.place(p, fn)

                def asg(fr, pl=pl, g=g):
                    v = g(fr)
                    c, k = pl(fr)
                    c[k] = v
                out.append((None, asg, sp))
        t = b['t']
        k = t['k']
        sp = t.get('sp')
        if k == 'goto':
            tt = (0, t['t'])
        elif k == 'drop':
            tt = (0, t['t'])
        elif k == 'return':
            tt = (1,)
        elif k == 'switch':
            tt = (2, self.operand(t['d'], fn), {int(a): c for a, c in t['ts']}, t['other'], sp)
        elif k == 'assert':
            tt = (3, self.operand(t['c'], fn), 1 if t['e'] else 0, t['t'], sp, t.get('m'))
        elif k == 'call':
            f = t['f']
            args = [self.operand(o, fn) for o in t['a']]
            d = t['d']
            pl = self.place(d, fn) if d['p'] else d['l']
            at = [fn.tys[i] if i is not None else None for i in t['at']]
            dt = fn.tys[t['dt']] if t.get('dt') is not None else None
            if f['k'] == 'const' and 'fn' in f:
                tt = (4, f['fn'], args, pl, t['t'], at, dt, sp)
            else:
                tt = (5, self.operand(f, fn), args, pl, t['t'], at, dt, sp)
        elif k == 'unreachable':
            tt = (6, sp)
        else:
            raise Undecided('terminator ' + k)
        blk[1], blk[2] = out, tt

    def run(self, fn, args):
        code = self.code.get(fn)
        if code is None:
            code = self.compile(fn)
        self.used.add(fn.key)
        self.depth += 1
        if self.depth > 200:
            raise Undecided('recursion in ' + fn.key)
        fr = [None] * len(fn.locals)
        fr[0] = UNIT
        for i, a in enumerate(args):
            fr[i + 1] = a
        if len(args) != fn.argc:
            # closures receive their arguments as a tuple in the caller's view
            if len(args) == 2 and isinstance(args[1], Agg) and args[1].n == '()' and len(args[1].f) + 1 == fn.argc:
                for i, a in enumerate(args[1].f):
                    fr[i + 2] = a
            else:
                raise Undecided('argument count of ' + fn.key)
        bi = 0
        sp = None
        try:
            while True:
                blk = code[bi]
                if blk[2] is None:
                    self.comp_block(fn, blk)
                for l, g, sp in blk[1]:
                    if l is None:
                        g(fr)
                    else:
                        fr[l] = g(fr)
                self.steps -= len(blk[1]) + 1
                if self.steps < 0:
                    raise Undecided('step budget exhausted in ' + fn.key)
                t = blk[2]
                op = t[0]
                if op == 0:
                    bi = t[1]
                elif op == 1:
                    self.depth -= 1
                    return fr[0]
                elif op == 2:
                    v = t[1](fr)
                    sp = t[4]
                    if isinstance(v, V):
                        raise Stuck('branch', t[4], fn.key, v)
                    if not isinstance(v, int):
                        raise Undecided('branch on %r in %s' % (v, fn.key))
                    if isinstance(v, LInt):
                        self.lens.update(t[2])
                    bi = t[2].get(v, t[3])
                elif op == 3:
                    v = t[1](fr)
                    sp = t[4]
                    if isinstance(v, V):
                        self.events.append(('assert', t[4], fn.key, B.taint(v)))
                    elif v != t[2]:
                        raise Panic(str(t[5])[:60], t[4], fn.key)
                    bi = t[3]
                elif op == 4 or op == 5:
                    sp = t[7]
                    a = [g(fr) for g in t[2]]
                    if op == 4:
                        v = self.call_const(t[1], a, t[5], t[6], t[7], fn)
                    else:
                        v = self.callf(t[1](fr), a)
                    if t[4] is None:
                        raise Panic('diverging call', t[7], fn.key)
                    pl = t[3]
                    if isinstance(pl, int):
                        fr[pl] = v
                    else:
                        c, k = pl(fr)
                        c[k] = v
                    bi = t[4]
                else:
                    raise Panic('unreachable', t[1], fn.key)
        except (Stuck, Panic) as e:
            if e.span is None:
                e.span = sp
                e.fn = fn.key
            raise

    def call_const(self, d, args, at, dt, sp, caller=None):
        self.calls += 1
        if 'ctor' in d:
            return Agg(d['ctor'], list(args), d['vi'])
        k = d.get('key')
        if k:
            fn = self.P.fns.get((self.crate, k)) or self.P.fns.get(k)
            if fn is not None:
                s = self.ring(fn, args)
                if s is not None:
                    return s[0]
                return self.run(fn, args)
        return self.M.call(self, d, args, at, dt, sp)

    # -- ring-level summaries
    def ring(self, fn, args):
        s = self.summaries.get(fn, 0)
        if s is None or self.nosum:
            return None
        if s == 0:
            self.summaries[fn] = None
            s = self.summaries[fn] = self.summarise(fn)
            if s is None:
                return None
        return s(args)

    def is_poly(self, t):
        return (t is not None and t.k == 'adt' and not t.enum and t.variants and len(t.variants[0][2]) == 1
                and t.variants[0][2][0][1] is not None and t.variants[0][2][0][1].k == 'array'
                and t.variants[0][2][0][1].len == 256 and width(t.variants[0][2][0][1].elem) == 16)

    def summarise(self, fn):
        tys = fn.locals[1:1 + fn.argc]
        kinds = []
        for t in tys:
            if self.is_poly(t):
                kinds.append('v')
            elif t is not None and t.k == 'ref' and self.is_poly(t.elem):
                kinds.append('m' if t.mut else 'r')
            else:
                return None
        if len(kinds) < 2:
            return None
        rt = fn.locals[0]
        ret = self.is_poly(rt)
        if not ret and 'm' not in kinds:
            return None
        n = len(kinds)
        pol = [Agg('Poly', [Agg('array', [B.word(('poly', i, j), 16, 16) for j in range(256)])]) for i in range(n)]
        nid = {(i, j): next(iter(pol[i].f[0].f[j].t)) for i in range(n) for j in range(256)}
        cells = [[p] for p in pol]
        a = [p if k == 'v' else Ref(c, 0) for p, k, c in zip(pol, kinds, cells)]
        self.nosum = True
        try:
            r = self.run(fn, a)
        except (Undecided, Stuck, Panic):
            return None
        finally:
            self.nosum = False
        outs = []
        if ret:
            outs.append((-1, r))
        for i, k in enumerate(kinds):
            if k == 'm':
                outs.append((i, cells[i][0]))
        forms = []
        prod = False
        inv = {v: k for k, v in nid.items()}
        for i, o in outs:
            cs = o.f[0].f
            lin, quad = {}, {}
            t0 = cs[0].t if isinstance(cs[0], V) else {}
            for x, k in t0.items():
                kd = B.KIND[x]
                if kd[0] == 'w' and x in inv and inv[x][1] == 0:
                    lin[inv[x][0]] = k
                elif kd[0] == 'p' and kd[1] in inv and kd[2] in inv:
                    if inv[kd[1]][1] == 0 and inv[kd[2]][1] == 0:
                        quad[(inv[kd[1]][0], inv[kd[2]][0])] = k
                elif kd[0] != 'p':
                    return None
            if any(kd[0] == 'p' for x in (cs[1].t if isinstance(cs[1], V) else {}) for kd in [B.KIND[x]]):
                prod = True
            if quad:
                prod = True
            forms.append((i, lin, quad, cs))
        if not prod:
            return None
        for i, lin, quad, cs in forms:
            if not quad:
                quad = {(0, 1): 1} if n >= 2 else {}
            bad = None
            nq = {}
            for (p, q), c in quad.items():
                nq[(min(p, q), max(p, q))] = c
            for k in range(256):
                exp = {}
                for p, c in lin.items():
                    exp[nid[(p, k)]] = c
                for (p, q), c in nq.items():
                    for j in range(256):
                        jj = (k - j) % 256
                        x, y = nid[(p, j)], nid[(q, jj)]
                        if x > y:
                            x, y = y, x
                        if p == q and j > jj:
                            pass
                        s = c if j <= k else -c & 0xffff
                        z = B.node(('p', x, y), frozenset())
                        exp[z] = exp.get(z, 0) + s & 0xffff
                got = cs[k].t if isinstance(cs[k], V) else {}
                gc = cs[k].c if isinstance(cs[k], V) else cs[k]
                if got != {x: s for x, s in exp.items() if s} or gc:
                    bad = k
                    break
            self.ring_reports.append((fn.key, fn.span, bad))
            for q in nq:
                pass
            quad.clear()
            quad.update(nq)
        rule = [(i, lin, dict(quad)) for i, lin, quad, _ in forms]

        def apply(args):
            ps = [self.deref(x) if isinstance(x, Ref) else x for x in args]
            ids = [self.poly_id(p) for p in ps]
            res = []
            for i, lin, quad in rule:
                cs = []
                taint = frozenset()
                for (p, q) in quad:
                    taint |= self.poly_taint(ids[p], ps[p]) | self.poly_taint(ids[q], ps[q])
                for k in range(256):
                    v = 0
                    for p, c in lin.items():
                        v = B.add(v, B.scale(ps[p].f[0].f[k], c, 16), 16)
                    for (p, q), c in quad.items():
                        x, y = sorted((ids[p], ids[q]))
                        if x == self.zero_id() or y == self.zero_id():
                            continue
                        v = B.add(v, B.scale(B.word(('ring', x, y, k), 16, 16, taint), c, 16), 16)
                    cs.append(v)
                res.append((i, Agg(ps[0].n, [Agg('array', cs)])))
            out = UNIT
            for i, v in res:
                if i < 0:
                    out = v
                else:
                    args[i].set(v)
            return (out,)
        return apply

    def zero_id(self):
        return self.ring_cache.setdefault(tuple([(0, ())] * 256), len(self.ring_cache))

    def poly_id(self, p):
        k = tuple(B.key(c) for c in p.f[0].f)
        i = self.ring_cache.get(k)
        if i is None:
            i = self.ring_cache[k] = len(self.ring_cache)
        return i

    def poly_taint(self, i, p):
        t = getattr(self, '_pt', None)
        if t is None:
            t = self._pt = {}
        r = t.get(i)
        if r is None:
            r = frozenset().union(*[B.taint(c) for c in p.f[0].f])
            t[i] = r
        return r
