"""P32: the SHAKE code is the sponge construction, however input and output are split."""
import multiprocessing
import os
import re
import sys
import threading

import cir
import sponge
from sponge import Ptr, Aff, Quo, By, Interp, State, Stuck, DataAddr, atom, bx, ZERO, BIG, isopaque

RATES = {'shake128': 168, 'shake256': 136, 'sha3_256': 136, 'sha3_384': 104, 'sha3_512': 72}
FULL = [('common', a) for a in ('shake128', 'shake256', 'sha3_384', 'sha3_512')]
DIGEST = {'sha3_256': 32, 'sha3_384': 48, 'sha3_512': 64}
FILES = {k: v + '/fips202.c' for k, v in cir.SHARED.items()}


def perms(m):
    """the permutation of one state"""
    out = {}
    for k, f in m.fns.items():
        if f.name == 'KeccakF1600_StatePermute':
            out[k] = 1
    if not out:
        for k, f in m.fns.items():
            n = sum(len(b) for b in f.blocks.values())
            calls = any(i[0] == 'call' for b in f.blocks.values() for i in b)
            if len(f.params) == 1 and f.params[0][0] == ('p',) and n > 300 and not calls:
                out[k] = 1
    for n in m.decl:
        if n.endswith('f1600x4'):
            out[n] = 4
    return out


def straight(f):
    """the branch conditions of a function that read memory"""
    defs = {}
    for b in f.blocks.values():
        for i in b:
            if i[0] not in ('store', 'br', 'ret', 'switch', 'unreachable') and i[2]:
                defs[i[2]] = i
    bad = []
    for b in f.blocks.values():
        for i in b:
            if i[0] == 'br' and i[3] is not None or i[0] == 'switch' or i[0] in ('load', 'store'):
                # conditions and addresses
                work = list(regs(i[2] if i[0] == 'br' else i[3] if i[0] == 'switch' else i[4] if i[0] == 'load' else i[5]))
                if i[0] == 'store':
                    work = list(regs(i[5]))
                seen = set()
                while work:
                    r = work.pop()
                    if r in seen:
                        continue
                    seen.add(r)
                    d = defs.get(r)
                    if d is None:
                        continue
                    if d[0] in ('load', 'call', 'select'):
                        bad.append((i[0], i[1]))
                        break
                    work.extend(regs(d[3:]))
    return bad


def regs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == '%':
            yield x[1]
        else:
            for y in x:
                yield from regs(y)
    elif isinstance(x, list):
        for y in x:
            yield from regs(y)


def uses(i):
    k = i[0]
    if k == 'br':
        return set() if i[3] is None else set(regs(i[2]))
    if k in ('store', 'switch', 'ret'):
        return set(regs(i[2:]))
    return set(regs(i[3:]))


def live(f, blk, idx):
    """registers whose value may still be read after instruction idx of a block"""
    out = getattr(f, 'liveout', None)
    if out is None:
        use, de, succ, phi = {}, {}, {}, {}
        for b, l in f.blocks.items():
            u, d = set(), set()
            for i in l:
                if i[0] == 'phi':
                    for v, p in i[4]:
                        phi.setdefault((p, b), set()).update(regs(v))
                elif i[0] != 'unreachable':
                    u |= uses(i) - d
                if i[0] not in ('store', 'br', 'ret', 'switch', 'unreachable') and i[2]:
                    d.add(i[2])
            use[b], de[b] = u, d
            t = l[-1]
            succ[b] = ([t[2]] if t[3] is None else [t[3], t[4]]) if t[0] == 'br' else [t[4]] + [x[1] for x in t[5]] if t[0] == 'switch' else []
        out = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                o = set()
                for s in succ[b]:
                    o |= (use[s] | (out[s] - de[s])) | phi.get((b, s), set())
                if o != out[b]:
                    out[b] = o
                    ch = True
        f.liveout = out
    r = set(out[blk])
    for i in reversed(f.blocks[blk][idx + 1:]):
        if i[0] not in ('store', 'br', 'ret', 'switch', 'unreachable', 'phi'):
            r.discard(i[2])
        if i[0] not in ('unreachable', 'phi'):
            r |= uses(i)
    return r


class Ref:
    """the sponge itself"""

    def __init__(self, I, r, s=None, pos=0):
        self.I, self.r, self.pos = I, r, pos
        self.s = list(s) if s else [ZERO] * 200

    def copy(self):
        return Ref(self.I, self.r, self.s, self.pos)

    def absorb(self, l):
        for b in l:
            self.s[self.pos] = bx(self.s[self.pos], b)
            self.pos += 1
            if self.pos == self.r:
                self.s = self.I.F(self.s)
                self.pos = 0

    def pad(self):
        self.s[self.pos] = bx(self.s[self.pos], (self.I.suffix, frozenset()))
        self.s[self.r - 1] = bx(self.s[self.r - 1], (0x80, frozenset()))
        self.pos = self.r

    def squeeze(self, n):
        out = []
        while n:
            if self.pos == self.r:
                self.s = self.I.F(self.s)
                self.pos = 0
            k = min(n, self.r - self.pos)
            out += self.s[self.pos:self.pos + k]
            self.pos += k
            n -= k
        return out


class Rep:
    def __init__(self, pre):
        self.pre = pre
        self.ob, self.viol, self.und, self.fns, self.nodes, self.info = [], [], [], set(), 0, {}

    def check(self, cond, key, where, msg, ob=None, detail=None):
        self.ob.append((ob or key, bool(cond)))
        if not cond and not any(v[0] == self.pre + key for v in self.viol):
            self.viol.append((self.pre + key, where, msg, detail or []))
        return cond

    def undecided(self, what):
        if self.pre + what not in self.und:
            self.und.append(self.pre + what)


def show(b):
    c, s = b
    l = ['0x%02x' % c] if c or not s else []
    for a in sorted(s, key=str):
        l.append('input[%d]' % a[2] if a[0] == 'm' and a[1] == 'm' else 'F%d[%d]' % a[1:] if a[0] == 'F' else str(a)[:60])
    return ' ^ '.join(l)


class Ctx:
    """a context object of one algorithm, driven through the public functions"""

    def __init__(self, m, alg, rep):
        self.m, self.alg, self.r, self.rep = m, alg, RATES[alg], rep
        self.I = Interp(m, perms(m))
        self.digest = DIGEST.get(alg)
        self.like = None
        self.I.suffix = 6 if self.digest else 0x1f

    def positions(self, lo, hi):
        """the positions in the block from which to follow a call of any length: all, unless the function does its work in
        the same code, for the same rate, as one followed from all"""
        if not self.like:
            return list(range(lo, hi))
        r = self.r
        return sorted(p for p in {0, 1, 7, 8, 9, 15, r // 2 + 1, r - 9, r - 8, r - 1, r} if lo <= p < hi)

    def finish(self, st, c, n):
        """finalise and take n bytes: (the state after it, the bytes, how many they should be)"""
        o = st.new('h')
        if self.digest:
            s = self.one(st, '_inc_finalize', [Ptr(o, 0), c])
            n = self.digest
        else:
            s = self.one(st, '_inc_finalize', [c])
            s = self.one(s, '_inc_squeeze', [Ptr(o, 0), n, c])
        return s, [s.mem[o].get(i) for i in range(max(n, len(s.mem[o])))], n

    def where(self, fn):
        return '%s: %s' % (FILES[self.m.scheme], self.alg + fn if fn.startswith('_') or not fn else fn)

    def one(self, st, fn, args):
        """a call whose lengths are numbers: its single outcome"""
        self.I.cut = None
        l = self.I.run(st, self.alg + fn, args)
        if len(l) != 1 or l[0].data:
            self.rep.check(False, 'data/%s' % fn, self.where(fn), 'the control flow of %s%s depends on the data it processes' % (self.alg, fn), ob='no branch on data')
            raise Stuck('%s%s has several outcomes' % (self.alg, fn))
        return l[0]

    def buf(self, st, name):
        return st.new(name)

    def csize(self, kind):
        t = '%struct.' + self.alg + kind
        return self.m.size(('n', t)) if t in self.m.types else 8

    def ctx0(self):
        st = State()
        c = st.new('ctx', self.csize('incctx'))
        st = self.one(st, '_inc_init', [Ptr(c, 0)])
        return st, Ptr(c, 0)

    def input(self, st, name):
        o = st.new(name)
        return Ptr(o, 0)

    def state(self, st, c):
        """(200 bytes of the state, everything else the context holds)"""
        p = self.I.load(st, c, 8)
        return p

    def split(self, st, c, at):
        """the bytes of the state at `at` = (object, offset) and the rest of the memory the context owns"""
        o, off = at
        b = [st.mem[o].get(off + i) for i in range(200)]
        rest = []
        seen = set()
        work = [c.o]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for k, v in sorted(st.mem[x].items()):
                if x == o and off <= k < off + 200:
                    continue
                if v[0] == 'W' and isinstance(v[1], Ptr):
                    rest.append((x, k, 'pointer', v[1].off))
                    work.append(v[1].o)
                elif v[0] == 'w':
                    continue
                elif v[0] == 'W':
                    rest.append((x, k, 'length', v[1].s * st.lo + v[1].k if st.lo == st.hi else repr(v[1])))
                else:
                    rest.append((x, k, v))
        return b, self.fold(rest)

    def fold(self, rest):
        """written as eight bytes or as one number is the same"""
        out = []
        for x in rest:
            if x[2] == 'length' and isinstance(x[3], int):
                out += [(x[0], x[1] + i, ((x[3] >> (8 * i)) & 255, frozenset())) for i in range(8)]
            else:
                out.append(x)
        return tuple(sorted(out, key=str))


def slots(b):
    return list(b)


def same(a, b):
    return [i for i, (x, y) in enumerate(zip(a, b)) if x != y]


def absorb_canon(X, st, c, n, name='m'):
    i = X.input(st, name)
    return X.one(st, '_inc_absorb', [c, i, n])


def state_at(X, st, c):
    """where the permutation is applied: from the last permutation seen"""
    return st.events[-1] if st.events else None


def prepare(X):
    """contexts after r + p bytes of input, for every p in [0, r)"""
    st, c = X.ctx0()
    mi = X.input(st, 'a')
    out = []
    at = None
    for p in range(X.r):
        s = X.one(st, '_inc_absorb', [c, mi, X.r + p])
        if len(s.events) < 1:
            fallback(X, st, c)
            raise Stuck('the permutation comes later than at the full block')
        at = s.events[0]
        out.append(s)
    return c, out, at


def fallback(X, st, c):
    """contexts of another kind: compare what comes out, for pieces that end around the end of a block"""
    r = X.r
    for p in (0, 1, 7, 8, r - 1, r):
        for n in sorted({0, 1, 9, max(r - p - 1, 0), max(r - p, 0), r - p + 1, 2 * r - p, 2 * r - p + 1}):
            s = X.one(st, '_inc_absorb', [c, X.input(st, 'a'), p])
            s = X.one(s, '_inc_absorb', [c, X.input(s, 'm'), n])
            ref = Ref(X.I, r)
            ref.absorb([atom('m', 'a', i) for i in range(p)] + [atom('m', 'm', i) for i in range(n)])
            if n in (0, r - p + 1) and not X.digest:
                # and squeezed in pieces
                s2 = X.one(s, '_inc_finalize', [c])
                q2 = ref.copy()
                q2.pad()
                for k in (1, 7, r - 9, 1, 1, r, r + 1, 0, r - 1):
                    o = s2.new('h')
                    s2 = X.one(s2, '_inc_squeeze', [Ptr(o, 0), k, c])
                    X.rep.check([s2.mem[o].get(i) for i in range(k)] == q2.squeeze(k), 'squeeze/pieces', X.where('_inc_squeeze'), 'an output squeezed in pieces is not that of the sponge construction', ob='squeeze: pieces')
            X.rep.check(observe(X, s, c, ref), 'absorb/full', X.where('_inc_absorb'), 'an input absorbed in pieces of %d and %d bytes is not hashed as the sponge construction does' % (p, n), ob='absorb: pieces around a full block')


class Induct:
    """collects what the code remembers at its permutations, to see that later blocks are treated like the second"""

    def __init__(self, X, first, names, step=None):
        """first: bytes used at the first permutation; names: the buffers that move on with n; step: how far n moves in one block"""
        self.X, self.first, self.names, self.sig, self.ok = X, first, names, {}, True
        self.step = step
        self.reached = False

    def __call__(self, st, j):
        if st.lo == st.hi or st.hi <= (4 * self.X.r + 1 if self.step is None else 4):
            # the path of one length, or of short ones
            return False
        if st.data:
            self.ok = False
        used = self.first + (j - 1) * self.X.r
        self.usedn = used if self.step is None else (j - 1) * self.step
        if j in (2, 3):
            self.sig[st.hi, j] = self.norm(st, used)
        if j == 3:
            self.reached = True
            if not ((st.hi, 2) in self.sig and self.alike(self.sig[st.hi, 2], self.sig[st.hi, 3])):
                self.ok = False
        return j >= 4

    def alike(self, a, b):
        """every value is the same relative to the bytes used, or the same outright, or a counter that moves with the blocks"""
        if len(a[0]) != len(b[0]):
            return False
        for (f, fa, la), (g, fb, lb) in zip(a[0], b[0]):
            if f is not g or fa != fb or set(la) != set(lb):
                return False
            for k in la:
                x, y = la[k], lb[k]
                if x[0] == y[0] or x[1] == y[1]:
                    continue
                if isinstance(x[2], int) and isinstance(y[2], int) and self.counter(f, k, y[2] - x[2], lb):
                    continue
                return False
        if set(a[1]) != set(b[1]):
            return False
        return all(a[1][k][0] == b[1][k][0] or a[1][k][1] == b[1][k][1] for k in a[1])

    def counter(self, f, reg, d, env):
        """a number that grows by d in each block: nothing but addresses and comparisons with the length may come of it"""
        if d <= 0 or d % 8:
            return False
        work, seen = [reg], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for b in f.blocks.values():
                for i in b:
                    if i[0] == 'phi':
                        if any(v == ('%', x) for v, _ in i[4]):
                            work.append(i[2])
                        continue
                    if i[0] == 'unreachable' or x not in uses(i):
                        continue
                    if i[0] in ('cast', 'gep'):
                        work.append(i[2])
                    elif i[0] == 'load' or i[0] == 'store' and x in regs(i[5]) and x not in regs(i[4]):
                        continue
                    elif i[0] == 'bin' and i[3] in ('add', 'sub', 'mul', 'shl'):
                        work.append(i[2])
                    elif i[0] == 'bin' and i[3] in ('and', 'urem') and i[6][0] == 'c' and i[6][1] in (7, 8):
                        continue
                    elif i[0] == 'icmp':
                        o = i[6] if i[5] == ('%', x) else i[5]
                        if not (o[0] == '%' and (isinstance(env.get(o[1], (0, 0, 0))[2], (Aff, Ptr)))):
                            return False
                    elif i[0] == 'call' and i[4][0] == '@' and i[4][1].startswith(('llvm.x86', 'llvm.mem', 'mem')):
                        continue
                    else:
                        return False
        return True

    def norm(self, st, used):
        """(frames, memory): for each value (relative to what was used, outright, the value)"""
        def nv(v):
            if isinstance(v, int):
                return v, v, v
            if isinstance(v, Aff):
                return ('n', v.s, v.k + v.s * self.usedn), ('abs', v.s, v.k), v
            if isinstance(v, Quo):
                return ('n/', v.k + self.usedn, v.d), ('abs/', v.k, v.d), v
            if isinstance(v, Ptr):
                off = v.off
                if isinstance(off, Aff):
                    off = nv(off)[0]
                elif v.o.split('#')[0] in self.names and isinstance(off, int):
                    off -= used
                return ('p', v.o, off), ('abs', v.o, v.off), v
            if isinstance(v, sponge.Vec):
                l = [nv(x) for x in v]
                return tuple(x[0] for x in l), tuple(x[1] for x in l), None
            return 'data', 'data', None
        fr = []
        for f in st.frames:
            lv = live(f[0], f[2], f[3])
            fr.append((f[0], (f[2], f[3]), {k: nv(v) for k, v in f[1].items() if k in lv}))
        mem = {}
        for o, c in st.mem.items():
            if o.split('#')[0] in self.names:
                continue
            for k, v in c.items():
                if v[0] == 'W':
                    mem[o, k] = nv(v[1])
                elif v[0] == 'w' or v[1]:
                    continue
                else:
                    mem[o, k] = (v[0], v[0], v[0])
        return fr, mem, st.lo - self.usedn


def absorb_rule(X, part, nparts):
    """absorbing n more bytes at position p, for every p and every n"""
    rep, r = X.rep, X.r
    w = X.where('_inc_absorb')
    c, pre, at = prepare(X)
    canon = [X.split(s, c, at)[1] for s in pre]
    ref0 = Ref(X.I, r)
    ref0.absorb([atom('m', 'a', i) for i in range(r)])
    refs = []
    for p in range(r):
        q = ref0.copy()
        q.absorb([atom('m', 'a', r + i) for i in range(p)])
        refs.append(q)
    if part == 0:
        for p, s in enumerate(pre):
            b, _ = X.split(s, c, at)
            d = same(b, refs[p].s)
            rep.check(not d, 'absorb/first', w, 'after absorbing %d bytes into a fresh context byte %s of the state is not what the sponge construction gives' % (r + p, d[:1]),
                      ob='absorb: one call of r+p bytes', detail=[show(b[d[0]]) if d and b[d[0]] else '', 'expected ' + show(refs[p].s[d[0]]) if d else ''])
            if d:
                raise Stuck('absorb')
    inductive = True
    for p in X.positions(0, r)[part::nparts]:
        s0 = pre[p]
        mi = X.input(s0, 'm')
        ind = Induct(X, r - p, ('m',))
        X.I.cut = ind
        try:
            outs = X.I.run(s0, X.alg + '_inc_absorb', [c, mi, Aff(1, 0)], 0, BIG)
        except Stuck as e:
            if isinstance(e, DataAddr):
                rep.check(False, 'absorb/address', w, 'with %d bytes of the block used and some lengths of the piece, the bytes processed decide which memory is accessed' % p, ob='no address depends on the data')
            if os.environ.get('VERIF_DEBUG'):
                print('unbounded:', e)
            ind.ok = False
            X.I.cut = None
            far(X, s0, X.alg + '_inc_absorb', [c, mi, Aff(1, 0)], 3 * r, 'absorb', w, 'absorb')
            outs = X.I.run(s0, X.alg + '_inc_absorb', [c, mi, Aff(1, 0)], 0, 3 * r)
        X.I.cut = None
        inductive = inductive and ind.ok and ind.reached and not X.I.dropped
        ref = refs[p].copy()
        want = {0: ref.copy()}
        for n in range(1, max([4 * r + 1] + [o.lo for o in outs if o.lo == o.hi <= 60000]) + 1):
            ref.absorb([atom('m', 'm', n - 1)])
            want[n] = ref.copy()
        got = set()
        for o in outs:
            if o.lo > 4 * r and not o.lo == o.hi <= 60000:
                rep.check(False, 'absorb/stops', w, 'an input of %d or more bytes is not absorbed to its end' % o.lo, ob='absorb: every length')
                continue
            if o.hi > 4 * r + 1 and o.lo != o.hi:
                rep.check(False, 'absorb/stops', w, 'inputs of %d and more bytes are all treated the same' % o.lo, ob='absorb: every length')
                continue
            if o.oob:
                rep.check(False, 'absorb/bounds', w, 'absorbing %d bytes at position %d writes outside an object: %s' % (o.lo, p, o.oob[0]), ob='absorb: stays inside the context')
                continue
            b, rest = X.split(o, c, at)
            for n in range(o.lo, o.hi + 1):
                got.add(n)
                d = same(b, want[n].s)
                e = rest != canon[(p + n) % r]
                if d and any(isopaque(b[i]) for i in d if b[i]) and not o.data:
                    rep.undecided('absorb: operations on single bits are not followed')
                elif d:
                    dt = ['byte %d of the state: %s' % (d[0], show(b[d[0]]) if b[d[0]] else 'not written'), 'expected: ' + show(want[n].s[d[0]])]
                    rep.check(False, 'absorb/bytes', w, 'absorbing %d bytes when %d of %d bytes of the block are filled does not give the state of the sponge construction' % (n, p, r), ob='absorb: state', detail=dt)
                elif e:
                    if observe(X, o, c, want[n]):
                        rep.undecided('absorb: contexts that behave the same are not equal')
                    else:
                        rep.check(False, 'absorb/position', w, 'after absorbing %d bytes when %d of %d bytes of the block are filled the context does not remember the position %d' % (n, p, r, (p + n) % r),
                                  ob='absorb: position')
                else:
                    rep.check(True, 'absorb', w, '', ob='absorb: state and position after n bytes at position p')
        rep.check(got >= set(range(0, 3 * r - p)), 'absorb/lengths', w, 'no outcome for an input of %s bytes at position %d' % (sorted(set(range(0, 3 * r - p)) - got)[:1], p), ob='absorb: every length is handled')
    if inductive:
        rep.check(True, 'absorb/induction', w, '', ob='absorb: the third block is treated like the second (induction over the length)')
    else:
        rep.undecided('absorb: lengths beyond three blocks (no induction)')


def observe(X, st, c, ref):
    """does the context behave like the reference from here on?"""
    try:
        ref = ref.copy()
        s = st
        s.lo = s.hi
        h = X.input(s, 'x')
        ref.absorb([atom('m', 'x', i) for i in range(3)])
        s = X.one(s, '_inc_absorb', [c, h, 3])
        ref.pad()
        s, got, k = X.finish(s, c, X.r + 2)
        return got == ref.squeeze(k)
    except Stuck:
        return False


def digest_rule(X, part, nparts):
    """the digest after an input that ends at any position"""
    rep, r = X.rep, X.r
    w = X.where('_inc_finalize')
    c, pre, at = prepare(X)
    ref0 = Ref(X.I, r)
    ref0.absorb([atom('m', 'a', i) for i in range(r)])
    for p in X.positions(0, r)[part::nparts]:
        q = ref0.copy()
        q.absorb([atom('m', 'a', r + i) for i in range(p)])
        q.pad()
        s, got, k = X.finish(pre[p], c, 0)
        want = q.squeeze(k)
        d = same(got, want) or ([k] if len(got) != k else [])
        rep.check(not d, 'digest', w, 'the digest of an input that ends at position %d of the block is wrong at byte %s' % (p, d[:1]), ob='digest: padding and output at position p')
        rep.check(not s.oob, 'digest/bounds', w, 'finalising at position %d writes outside an object' % p, ob='digest: bounds')


def squeeze_rule(X, part, nparts):
    rep, r = X.rep, X.r
    w = X.where('_inc_finalize')
    c, pre, at = prepare(X)
    ref0 = Ref(X.I, r)
    ref0.absorb([atom('m', 'a', i) for i in range(r)])
    fin = []
    rest0 = None
    for p in range(r):
        q = ref0.copy()
        q.absorb([atom('m', 'a', r + i) for i in range(p)])
        s = X.one(pre[p], '_inc_finalize', [c])
        q.pad()
        b, rest = X.split(s, c, at)
        if s.events:
            # an eager permutation: compare what comes out
            o = s.new('h')
            s2 = X.one(s, '_inc_squeeze', [Ptr(o, 0), r + 1, c])
            good = [s2.mem[o].get(i) for i in range(r + 1)] == q.copy().squeeze(r + 1)
            rep.check(good, 'finalize/pad', w, 'the output after an input that ends at position %d is not that of the sponge construction' % p, ob='finalize: padding')
            rep.undecided('finalize permutes')
        else:
            d = same(b, q.s)
            rep.check(not d, 'finalize/pad', w, 'the padding of an input that ends at position %d of the block is wrong at byte %s of the state' % (p, d[:1]), ob='finalize: padding at position p',
                      detail=[show(b[d[0]]) if d and b[d[0]] else '', 'expected ' + show(q.s[d[0]]) if d else ''])
        if rest0 is None:
            rest0 = rest
        rep.check(rest == rest0, 'finalize/reset', w, 'after finalising an input that ends at position %d the context is not ready to squeeze a first block' % p, ob='finalize: ready to squeeze')
        rep.check(not s.oob, 'finalize/bounds', w, 'finalising at position %d writes outside an object' % p, ob='finalize: bounds')
        fin.append((s, q))
    # squeezing
    w = X.where('_inc_squeeze')
    s0, ref = fin[5]
    starts = [(0, s0, ref.copy())]
    canon = {}
    ho = X.input(s0, 'g')
    for q in range(1, r + 1):
        s = X.one(s0, '_inc_squeeze', [ho, q, c])
        rr = ref.copy()
        out = rr.squeeze(q)
        got = [s.mem[ho.o].get(i) for i in range(q)]
        d = same(got, out)
        rep.check(not d and len(s.mem[ho.o]) == q, 'squeeze/first', w, 'squeezing %d bytes from a fresh context does not write exactly the first %d bytes of the output (byte %s)' % (q, q, d[:1]), ob='squeeze: one call of q bytes')
        b, rest = X.split(s, c, at)
        canon[q] = rest
        rep.check(b == rr.s, 'squeeze/state', w, 'squeezing %d bytes does not leave the state of the sponge construction' % q, ob='squeeze: state')
        starts.append((q, s, rr))
    inductive = True
    ps = X.positions(0, r + 1)
    for q, s, rr in [x for x in starts if x[0] in ps][part::nparts]:
        h = X.input(s, 'h')
        ind = Induct(X, r - q if q else 0, ('h',))
        ind.first = (r - q) if q else 0
        X.I.cut = ind
        try:
            outs = X.I.run(s, X.alg + '_inc_squeeze', [h, Aff(1, 0), c], 0, BIG)
        except Stuck as e:
            if isinstance(e, DataAddr):
                rep.check(False, 'squeeze/address', w, 'with %d bytes of the block used and some lengths of the piece, the bytes processed decide which memory is accessed' % q, ob='no address depends on the data')
            if os.environ.get('VERIF_DEBUG'):
                print('unbounded:', e)
            ind.ok = False
            X.I.cut = None
            far(X, s, X.alg + '_inc_squeeze', [h, Aff(1, 0), c], 3 * r, 'squeeze', w, 'squeeze')
            outs = X.I.run(s, X.alg + '_inc_squeeze', [h, Aff(1, 0), c], 0, 3 * r)
        X.I.cut = None
        inductive = inductive and ind.ok and ind.reached and not X.I.dropped
        long = rr.copy()
        stream = []
        states = {0: rr.copy()}
        for n in range(1, max([4 * r + 1] + [o.lo for o in outs if o.lo == o.hi <= 60000]) + 1):
            stream += long.squeeze(1)
            states[n] = long.copy()
        seen = set()
        for o in outs:
            if o.hi > 4 * r + 1 and not o.lo == o.hi <= 60000:
                rep.check(False, 'squeeze/stops', w, 'requests for %d or more bytes are not filled' % o.lo, ob='squeeze: every length')
                continue
            if o.oob:
                rep.check(False, 'squeeze/bounds', w, 'squeezing %d bytes after %d writes outside an object: %s' % (o.lo, q, o.oob[0]), ob='squeeze: stays inside the context')
                continue
            cells = o.mem[h.o]
            b, rest = X.split(o, c, at)
            for n in range(o.lo, o.hi + 1):
                seen.add(n)
                got = [cells.get(i) for i in range(n)]
                d = same(got, stream[:n])
                extra = [k for k in cells if not 0 <= k < n]
                if d and any(got[i] and got[i][0] not in ('W', 'w') and isopaque(got[i]) for i in d) and not o.data:
                    rep.undecided('squeeze: operations on single bits are not followed')
                    continue
                if not rep.check(not d and not extra, 'squeeze/bytes', w, 'squeezing %d bytes after %d of the block were taken: byte %s of the output is not the next byte of the stream' % (n, q, (d + extra)[:1]),
                                 ob='squeeze: bytes', detail=['%s, expected %s' % (show(got[d[0]]) if got[d[0]] else 'not written', show(stream[d[0]]))] if d else []):
                    continue
                t = q + n
                if t == 0:
                    ok = b == states[n].s and rest == rest0
                else:
                    ok = b == states[n].s and rest == canon[(t - 1) % r + 1]
                if not ok:
                    # what comes next decides
                    try:
                        o2 = o
                        o2.lo = o2.hi
                        k = o2.new('k')
                        s2 = X.one(o2, '_inc_squeeze', [Ptr(k, 0), r + 2, c])
                        good = [s2.mem[k].get(i) for i in range(r + 2)] == states[n].copy().squeeze(r + 2)
                    except Stuck:
                        good = False
                    if good:
                        rep.undecided('squeeze: contexts that behave the same are not equal')
                    else:
                        rep.check(False, 'squeeze/position', w, 'after squeezing %d bytes when %d of the block were taken the context does not continue at the right byte' % (n, q), ob='squeeze: position')
                else:
                    rep.check(True, 'squeeze', w, '', ob='squeeze: bytes and position after n more bytes')
        need = set(range(0, 3 * r - q))
        rep.check(seen >= need, 'squeeze/lengths', w, 'no outcome for a request of %s bytes' % sorted(need - seen)[:1], ob='squeeze: every length is handled')
    if inductive:
        rep.check(True, 'squeeze/induction', w, '', ob='squeeze: the third block is treated like the second (induction over the length)')
    else:
        rep.undecided('squeeze: lengths beyond three blocks (no induction)')


def misc_rule(X, part, nparts):
    """a fresh context, a copied context, the one-shot functions, the permutation"""
    rep, r, m = X.rep, X.r, X.m
    for k in perms(m):
        f = m.fns.get(k)
        if f is not None:
            bad = straight(f)
            rep.check(not bad, 'permutation/branch', '%s: %s' % (FILES[X.m.scheme], f.name), 'the permutation branches on, or addresses memory by, the state (line %s)' % (bad[0][1] if bad else ''), ob='permutation: no branch and no address depends on the state')
            rep.fns.add(f.name)
    # short inputs into a fresh context
    st, c = X.ctx0()
    mi = X.input(st, 'a')
    w = X.where('_inc_absorb')
    for n in list(range(0, 20)) + [r - 9, r - 8, r - 1, r, r + 1]:
        s = X.one(st, '_inc_absorb', [c, mi, n])
        s, got, k = X.finish(s, c, r + 1)
        ref = Ref(X.I, r)
        ref.absorb([atom('m', 'a', i) for i in range(n)])
        ref.pad()
        rep.check(got == ref.squeeze(k), 'init', X.where('_inc_init'), 'a fresh context does not hash an input of %d bytes as the sponge construction does' % n, ob='init: fresh context')
    # copies
    fn = X.alg + '_inc_ctx_clone'
    if fn in m.fns:
        for n in (0, 5, r - 1, r + 9):
            s = X.one(st, '_inc_absorb', [c, mi, n])
            c2 = s.new('copy', X.csize('incctx'))
            s = X.one(s, '_inc_ctx_clone', [Ptr(c2, 0), c])
            ref = Ref(X.I, r)
            ref.absorb([atom('m', 'a', i) for i in range(n)])
            # the original goes on by itself
            s = X.one(s, '_inc_absorb', [c, X.input(s, 'b'), 7])
            if X.digest:
                s, got, k = X.finish(s, c, 0)
            s, got, k = X.finish(s, Ptr(c2, 0), r + 1)
            ref.pad()
            rep.check(got == ref.squeeze(k), 'clone', X.where('_inc_ctx_clone'), 'a copy of a context that has absorbed %d bytes is not an independent copy' % n, ob='clone: independent copy')
    # one-shot functions
    w = X.where('')
    for name, inr, outr in (('input', None, X.digest or 3), ('output', 7, None)):
        if X.digest and name == 'output':
            continue
        st = State()
        i, h = X.input(st, 'm'), X.input(st, 'h')
        a = [h, Aff(1, 0) if name == 'output' else outr, i, Aff(1, 0) if name == 'input' else inr]
        if X.digest:
            a = [h, i, Aff(1, 0)]
        outs = sweep(X, 'one-shot %s' % name, st, X.alg, a, Induct(X, r if name == 'input' else 0, ('m', 'h')), w, 'oneshot/' + name)
        for o, n in outs:
            ref = Ref(X.I, r)
            ref.absorb([atom('m', 'm', j) for j in range(n if name == 'input' else inr)])
            ref.pad()
            k = n if name == 'output' else outr
            want = ref.squeeze(k)
            got = [o.mem[h.o].get(j) for j in range(k)]
            d = same(got, want)
            rep.check(not d and len(o.mem[h.o]) == k and not o.oob, 'oneshot/' + name, w, '%s of an %s of %d bytes is not the sponge construction (output byte %s)' % (X.alg, name, n, d[:1]), ob='one-shot: %s of n bytes' % name,
                      detail=['%s, expected %s' % (show(got[d[0]]) if got[d[0]] else 'not written', show(want[d[0]]))] if d else [])
    # block-wise squeezing
    if X.alg + '_absorb' in m.fns and X.alg + '_squeezeblocks' in m.fns:
        w = X.where('_squeezeblocks')
        st = State()
        c = Ptr(st.new('ctx', X.csize('ctx')), 0)
        i, h = X.input(st, 'm'), X.input(st, 'h')
        X.I.cut = None
        outs = sweep(X, 'blocks input', st, X.alg + '_absorb', [c, i, Aff(1, 0)], Induct(X, r, ('m',)), X.where('_absorb'), 'blocks/input')
        for o, n in outs:
            if n not in (0, 1, 8, 33, r - 1, r, r + 1, 2 * r):
                continue
            o.lo = o.hi = n
            ref = Ref(X.I, r)
            ref.absorb([atom('m', 'm', j) for j in range(n)])
            ref.pad()
            q = o.new('h')
            s = X.one(o, '_squeezeblocks', [Ptr(q, 0), 1, c])
            rep.check([s.mem[q].get(j) for j in range(r)] == ref.squeeze(r) and len(s.mem[q]) == r, 'blocks/input', X.where('_absorb'), 'the first block after an input of %d bytes is not that of the sponge construction' % n, ob='blocks: first block')
            if n != 33:
                continue
            h = X.input(s, 'h')
            for o2, k in sweep(X, 'blocks output', s, X.alg + '_squeezeblocks', [h, Aff(1, 0), c], Induct(X, 0, ('h',), 1), w, 'blocks/output', 3):
                want = ref.copy().squeeze(k * r)
                d = same([o2.mem[h.o].get(j) for j in range(k * r)], want)
                rep.check(not d and len(o2.mem[h.o]) == k * r, 'blocks/output', w, 'squeezing %d blocks does not give the next blocks of the stream (byte %s)' % (k, d[:1]), ob='blocks: consecutive blocks')
                if k in (1, 2):
                    o2.lo = o2.hi
                    g = o2.new('g')
                    s3 = X.one(o2, '_squeezeblocks', [Ptr(g, 0), 1, c])
                    rf = ref.copy()
                    rf.squeeze(k * r)
                    rep.check([s3.mem[g].get(j) for j in range(r)] == rf.squeeze(r), 'blocks/next', w, 'a block squeezed after %d others is not the next block of the stream' % k, ob='blocks: the next call goes on')


def far(X, st, fn, args, span, key, w, what):
    """where all lengths could not be followed at once: lengths around the ends of the narrower integer types must not be cut
    short (a call that goes on for more than three blocks is left there)"""
    for base in (1 << 8, 1 << 16, 1 << 31, 1 << 32):
        if base <= 4 * span:
            continue
        X.I.cut = lambda st, j: j >= 4
        try:
            outs = X.I.run(st, fn, args, base, base + span)
        except (Stuck, DataAddr) as e:
            if os.environ.get('VERIF_DEBUG'):
                print('far', base, e)
            outs = []
            oob = getattr(getattr(e, 'st', None), 'oob', None)
            if not oob and re.search(r"\('\w+', '\w+', \d+\)", repr(getattr(e, 'bits', ''))):
                oob = ['input bytes become part of an address']
            if oob:
                X.I.cut = None
                X.rep.check(False, key + '-cut', w, '%s: with a length of %d or a little more the call accesses memory it must not: %s' % (what, base, oob[0]), ob=what + ': long inputs')
                return
        X.I.cut = None
        for o in outs:
            if X.rep.check(not o.lo >= base, key + '-cut', w, '%s: a length of %d is cut short: the call returns after at most three blocks' % (what, o.lo), ob=what + ': long inputs') is False:
                return


def sweep(X, what, st, fn, args, ind, w, key, unit=None):
    """[(outcome, n)] for every length n up to three blocks; longer ones by induction"""
    rep, r = X.rep, X.r
    top = 4 * r + 1 if unit is None else unit + 1
    need = range(3 * r) if unit is None else range(unit)
    X.I.dropped = False
    X.I.cut = ind
    try:
        outs = X.I.run(st, fn, args, 0, BIG)
    except Stuck as e:
        if isinstance(e, DataAddr):
            raise
        if os.environ.get('VERIF_DEBUG'):
            print('unbounded:', what, e)
        ind.ok = False
        X.I.cut = None
        far(X, st, fn, args, 3 * r if unit is None else 3, key, w, what)
        outs = X.I.run(st, fn, args, 0, 3 * r if unit is None else 3)
    X.I.cut = None
    got = []
    for o in outs:
        if o.lo == o.hi <= 60000 and unit is None:
            got.append((o, o.lo))
            continue
        if not rep.check(o.hi <= top, key + '-length', w, '%s: lengths of %d and more are not processed to their end' % (what, o.lo), ob=what + ': every length'):
            continue
        got += [(o, n) for n in range(o.lo, o.hi + 1)]
    seen = {n for _, n in got}
    rep.check(seen >= set(need), key + '-lengths', w, '%s: no outcome for length %s' % (what, sorted(set(need) - seen)[:1]), ob=what + ': every length is handled')
    if ind.ok and not X.I.dropped and ind.reached:
        rep.check(True, key + '-induction', w, '', ob=what + ': the third block is treated like the second (induction over the length)')
    else:
        rep.undecided(what + ': lengths beyond three blocks (no induction)')
    return got


def closure(m, fn):
    """the functions reached from fn, as text without line numbers; None if a call cannot be named"""
    out, work = {}, [fn]
    while work:
        n = work.pop()
        f = m.fns.get(n)
        if n in out:
            continue
        if f is None:
            out[n] = None
            continue
        out[n] = repr([(b, [i[:1] + tuple(i[2:]) for i in l]) for b, l in f.blocks.items()] + [f.params])
        out[n] += repr([(k, v) for k, v in sorted(m.globals.items(), key=str) if repr(k if isinstance(k, str) else k[-1]) in out[n]])
        for l in f.blocks.values():
            for i in l:
                if i[0] == 'call':
                    if i[4][0] != '@':
                        return None
                    work.append(i[4][1])
    return out


def core(m, fn):
    """a function that only passes its arguments on: (the function it calls, the numbers it passes, the code reached)"""
    f = m.fns.get(fn)
    if f is None or len(f.blocks) != 1:
        return None
    calls = [i for l in f.blocks.values() for i in l if i[0] == 'call']
    other = [i[0] for l in f.blocks.values() for i in l if i[0] not in ('call', 'gep', 'load', 'ret')]
    if len(calls) != 1 or other or calls[0][4][0] != '@':
        return None
    c = closure(m, calls[0][4][1])
    return None if c is None else (calls[0][4][1], [(j, a[1]) for j, a in enumerate(calls[0][5]) if a[1][0] != '%'], c)


def alike(kind, alg, scheme, m):
    """an algorithm that is followed from every position and whose code is the same, if there is one"""
    fn = {'absorb': '_inc_absorb', 'squeeze': '_inc_squeeze'}.get(kind)
    if fn is None or kind == 'squeeze' and alg in DIGEST:
        return None
    c = core(m, alg + fn)
    for s, a in FULL:
        if c is not None and RATES[a] == RATES[alg] and (s, a) != (scheme, alg) and not (kind == 'squeeze' and a in DIGEST):
            if core(m if s == scheme else cir.load_common(s), a + fn) == c:
                return s, a
    return None


class X4(Ctx):
    def __init__(self, m, alg, rep, scheme):
        Ctx.__init__(self, m, alg, rep)
        self.ns = 'PQCLEAN_%s_AVX2_' % scheme.upper()
        self.file = 'pqcrypto/pqclean/crypto_sign/%s/avx2/fips202x4.c' % scheme

    def where(self, fn):
        return '%s: %s' % (self.file, self.alg + fn)


def x4_rule(X, part, nparts):
    """each lane of the four-way functions is the sponge construction on its own"""
    rep, r, m = X.rep, X.r, X.m
    base = X.ns + X.alg + 'x4'
    w = X.where('x4_absorb_once')
    if not rep.check(base + '_absorb_once' in m.fns and base + '_squeezeblocks' in m.fns, 'x4/missing', X.file, 'the four-way SHAKE functions are missing', ob='x4: present'):
        return
    sz = 800

    def ref(l, n):
        q = Ref(X.I, r)
        q.absorb([atom('m', 'm%d' % l, j) for j in range(n)])
        q.pad()
        return q
    st = State()
    c = Ptr(st.new('state', sz), 0)
    ins = [X.input(st, 'm%d' % l) for l in range(4)]
    outs = sweep(X, 'x4 absorb', st, base + '_absorb_once', [c] + ins + [Aff(1, 0)], Induct(X, r, ('m0', 'm1', 'm2', 'm3')), w, 'x4/absorb')
    for o, n in outs:
        rep.check(not o.oob, 'x4/bounds', w, 'absorbing %d bytes writes outside the state: %s' % (n, o.oob[:1]), ob='x4: stays inside the state')
        for l in range(4):
            b = [o.mem[c.o].get(32 * (j // 8) + 8 * l + j % 8) for j in range(200)]
            want = ref(l, n).s
            d = same(b, want)
            rep.check(not d, 'x4/absorb', w, 'lane %d after absorbing %d bytes: byte %s of the state is not what the sponge construction gives' % (l, n, d[:1]), ob='x4 absorb: lane state after n bytes',
                      detail=['%s, expected %s' % (show(b[d[0]]) if b[d[0]] else 'not written', show(want[d[0]]))] if d else [])
    # squeezing
    w = X.where('x4_squeezeblocks')
    l0 = [o for o, n in outs if n == 34]
    if l0:
        s = l0[0]
        s.lo = s.hi = 34
        refs = [ref(l, 34) for l in range(4)]
        s = s.fork()
        hs = [X.input(s, 'h%d' % l) for l in range(4)]
        for o, nb in sweep(X, 'x4 squeeze', s, base + '_squeezeblocks', hs + [Aff(1, 0), c], Induct(X, 0, ('h0', 'h1', 'h2', 'h3'), 1), w, 'x4/squeeze', 3):
            for l in range(4):
                q = refs[l].copy()
                want = q.squeeze(nb * r)
                cells = o.mem[hs[l].o]
                d = same([cells.get(j) for j in range(nb * r)], want)
                rep.check(not d and len(cells) == nb * r, 'x4/squeeze', w, 'lane %d of %d blocks: byte %s is not the byte of its stream' % (l, nb, d[:1]), ob='x4 squeeze: lane bytes')
                b = [o.mem[c.o].get(32 * (j // 8) + 8 * l + j % 8) for j in range(200)]
                rep.check(b == q.s, 'x4/squeeze-state', w, 'lane %d after %d blocks: the state is not that of its stream' % (l, nb), ob='x4 squeeze: lane state')
    # one-shot
    if base in m.fns:
        w = X.where('x4')
        st = State()
        hs = [X.input(st, 'h%d' % l) for l in range(4)]
        ins = [X.input(st, 'm%d' % l) for l in range(4)]
        for o, n in sweep(X, 'x4 one-shot', st, base, hs + [Aff(1, 0)] + ins + [33], Induct(X, 0, ('h0', 'h1', 'h2', 'h3')), w, 'x4/oneshot'):
            for l in range(4):
                cells = o.mem[hs[l].o]
                want = ref(l, 33).squeeze(n)
                d = same([cells.get(j) for j in range(n)], want)
                rep.check(not d and len(cells) == n, 'x4/oneshot', w, 'lane %d of an output of %d bytes: byte %s is not the byte of its stream' % (l, n, d[:1]), ob='x4 one-shot: lane bytes')


def worker(job):
    kind, alg, scheme, part, nparts = job
    rep = Rep('%s/%s:' % (scheme, alg))
    box = []

    def go():
        try:
            if scheme in FILES:
                m = cir.load_common(scheme)
                need = [alg + s for s in ('_inc_init', '_inc_absorb', '_inc_finalize', '_inc_squeeze', '') if s != '_inc_squeeze' or alg not in DIGEST]
                miss = [n for n in need if n not in m.fns]
                if not rep.check(not miss, 'missing', FILES[scheme], 'public functions are missing: %s' % miss, ob='public functions exist'):
                    return
                X = Ctx(m, alg, rep)
                if (scheme, alg) not in FULL:
                    X.like = alike(kind, alg, scheme, m)
                if not X.I.perm:
                    rep.undecided('the permutation was not found')
                    return
                {'absorb': absorb_rule, 'squeeze': digest_rule if X.digest else squeeze_rule, 'misc': misc_rule}[kind](X, part, nparts)
            else:
                m = cir.load(scheme, 'avx2', only=('fips202x4.c',))
                X = X4(m, alg, rep, scheme)
                x4_rule(X, part, nparts)
            rep.fns |= {('%s/' % scheme) + n for n in X.I.fns}
            rep.nodes += X.I.steps
        except DataAddr as e:
            rep.check(False, kind + '/address', FILES[scheme] if scheme in FILES else scheme + '/avx2/fips202x4.c', 'in some call of the %s functions the bytes processed, or memory never written, decide which memory is accessed' % alg, ob='no address depends on the data')
        except (Stuck, cir.IRError, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided('%s: the analysis could not follow the code: %s: %s (%s:%d)' % (kind, type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        except cir.Broken as e:
            box.append(str(e))
    go()
    return rep, box


def jobs():
    l = []
    for s in FILES:
        for alg in RATES:
            n = 4 if (s, alg) in FULL else 1
            l += [('absorb', alg, s, i, n) for i in range(n)]
            n = 1 if alg in DIGEST else n
            l += [('squeeze', alg, s, i, n) for i in range(n)]
            l.append(('misc', alg, s, 0, 1))
    l += [('x4', alg, s, 0, 1) for alg in RATES if alg not in DIGEST for s in ('dilithium2', 'dilithium3', 'dilithium5')]
    return l


def p32(W, R):
    from world import BuildFailed, Violation
    for s in FILES:
        cir.load_common(s)
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for rep, broken in pool.imap(worker, jobs(), 1):
            if broken:
                raise BuildFailed(broken[0])
            R.obligations += rep.ob
            R.undecided += [u for u in rep.und if u not in R.undecided]
            R.functions |= rep.fns
            R.nodes += rep.nodes
            for k, w, m, dt in rep.viol:
                if not any(v.key == k for v in R.violations):
                    R.violations.append(Violation(k, w, m, dt))
