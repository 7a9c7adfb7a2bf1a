"""Rule on the samplers of Dilithium: which stream bytes become which coefficients."""
import cdom as D
import cint
import csum
from cdom import Lin, iv, add
from rules_dil import Q, proves, gefacts, expand, within, abstract_cond, pieces, single, done, loops

N = 256


class Kind:
    """how candidates are taken from the stream"""

    def __init__(self, d, name):
        self.name = name
        if name == 'uniform':
            self.top, self.ok, self.per, self.alg, self.rate, self.seed = (1 << 23) - 1, Q - 1, 3, 'shake128', 168, 32
        else:
            self.top, self.ok, self.per, self.alg, self.rate, self.seed = 15, 14 if d.ETA == 2 else 8, 1, 'shake256', 136, 64
        self.eta = d.ETA

    def value(self, t):
        return t if self.name == 'uniform' else self.eta - (t % 5 if self.eta == 2 else t)

    def cands(self, buf, p, n):
        """the candidates in n bytes of the buffer"""
        out = []
        ld = lambda i: D.atom(('ld', buf, add(p, i), 1), 0, 255)
        if self.name == 'uniform':
            for i in range(0, n, 3):
                out.append(D.frombits(32, D.bits(8, ld(i)) + D.bits(8, ld(i + 1)) + D.bits(8, ld(i + 2))[:7] + [0] * 9))
        else:
            for i in range(n):
                b = D.bits(8, ld(i))
                out += [D.frombits(8, b[:4] + [0] * 4), D.frombits(8, b[4:] + [0] * 4)]
        return out


def outermost(f):
    return [h for h in f.loops if not any(h in b for g, b in f.loops.items() if g != h)]


def find(d, name):
    """the function of that name, which may be static"""
    f = d.m.fns.get(d.ns + name)
    if f:
        return f
    c = [f for k, f in d.m.fns.items() if type(k) is tuple and k[1] == name]
    return c[0] if len(c) == 1 else None


def path(d, f):
    return 'pqcrypto/pqclean/crypto_sign/%s/%s/%s: %s' % (d.scheme, d.variant, f.file, f.name.replace(d.ns, ''))


# ---- the loops that take candidates from a buffer
class Seg:
    pass


def stretches(I, outs, f):
    """the stretches of a function between its entry, the headers of its generic loops and its return: (from, to, state, values
    of the loop variables at the target, events)"""
    byid = {i['id']: i for i in I.generic_loops if i['fn'] == f.name}

    def mine(ev):
        return [e[1] for e in ev if e[0] == 'loop' and e[1]['fn'] == f.name]
    live, work = {}, []
    for st, v in outs:
        work += mine(st.eventlist())
    while work:
        i = work.pop()
        if i['id'] in live:
            continue
        live[i['id']] = i
        work += mine(i['start'].eventlist())
        if i['outer'] in byid:
            work.append(byid[i['outer']])
        for tr, ph, ev, st in i['back']:
            work += mine(st.eventlist())
    out = []

    def put(outer, to, st, vals):
        ev = st.eventlist()
        l = mine(ev[len(outer['start'].eventlist()) if outer else 0:])
        frm = l[-1] if l else outer
        out.append((frm, to, st, vals, ev[len(frm['start'].eventlist()) if frm else 0:]))
    for i in live.values():
        put(live.get(i['outer']), i, i['start'], i['init'])
        for tr, ph, ev, st in i['back']:
            put(i, i, st, ph)
    for st, v in outs:
        put(None, None, st, v)
    return out, list(live.values())


def segments(I, outs, a, f):
    """the same with the stores to one object and the facts of each stretch"""
    segs = []
    l, infos = stretches(I, outs, f)
    for frm, to, st, vals, ev in l:
        s = Seg()
        s.frm, s.to, s.vals, s.st = frm, to, vals, st
        s.stores = [e for e in ev if e[0] in ('store', 'symstore') and e[1] == a.o]
        s.squeezes = [e for e in ev if e[0] == 'squeeze']
        s.conds = list(expand(st.known))
        segs.append(s)
    return segs, infos


def word(e):
    """offset and values of a store as 32-bit words"""
    off, size, v = e[2], e[3], e[4]
    if size == 4:
        return [(off, v)]
    if size == 8:
        b = D.bits(64, v)
        return [(off, D.frombits(32, b[:32])), (add(off, 4), D.frombits(32, b[32:]))]
    return None


def under(conds, x, lo, hi):
    """the sub-ranges of x left by the conditions that depend on it alone; None if one relates it to something else"""
    base = D.leaves(x, cap=8) or frozenset()
    mine = []
    for c in conds:
        l = D.leaves(c, cap=8)
        if not l or not l & base:
            continue
        e, names = abstract_cond(c, x)
        if not names:
            mine.append(c)
        elif 0 in D.prog(e).vars:
            return None
    return within(mine, x, lo, hi)


def accepts(conds, k, t):
    """'yes', 'no', or the ranges of the candidate on which the path runs"""
    r = under(conds, t, 0, k.top)
    if r is None:
        return None
    if all(b <= k.ok for a, b in r):
        return 'yes'
    if all(a > k.ok for a, b in r):
        return 'no'
    return r


class Inner:
    """one function that fills coefficients from a buffer of candidates"""

    def __init__(self, d, R, name, kind):
        self.d, self.R, self.kind, self.name = d, R, kind, name
        self.tabs = {}

    def run(self, avx, lens):
        d, R = self.d, self.R
        f = find(d, self.name)
        if f is None:
            R.undecided('no function ' + self.name)
            return
        self.w = path(d, f)
        d.fresh()
        I = d.I
        for h in outermost(f):
            I.loopinfo[(f.file, f.name, h)] = 'generic'
        self.a = d.obj('a', None, 'undef')
        self.buf = d.obj('buf', None, 'in')
        I.logged.add(self.a.o)
        if avx:
            self.len, self.blen = N, None
            args = [self.a, self.buf]
        else:
            self.len = D.atom(('len', 'n'), 0, N)
            self.blen = D.atom(('len', 'b'), 0, 1 << 12)
            args = [self.a, self.len, self.buf, self.blen]
        if len(f.params) != len(args):
            R.undecided('%s takes %d arguments' % (self.name, len(f.params)))
            return
        outs = I.exec(f, args, d.st)
        segs, infos = segments(I, outs, self.a, f)
        if not infos:
            R.undecided('%s has no loop over its input' % self.name)
            return
        self.pos = {}
        for i in infos:
            cp = self.cursor(i, segs)
            if cp is None:
                R.undecided('%s: the position in the input or output is not a variable of its loop' % self.name)
                return
            self.pos[id(i)] = cp
        self.room = lambda facts, c4: proves(facts, add(c4, self.len, -4))
        ends = []
        for s in segs:
            r = self.segment(s)
            if r is None:
                return
            if r is not True:
                ends.append(r)
        R.check(ends, 'end:' + self.name, self.w, '%s never returns' % self.name, ob='loops of %s end' % self.name)
        # it stops only when it has enough or no whole candidate is left
        if avx:
            per = self.kind.per
            if not lens:
                return
            need = lens
            R.info['buffer'] = need
        for facts, c4, p in ends:
            if self.room(facts, c4):
                R.check(True, 'stop:' + self.name, self.w, '', ob='%s stops only when done or out of input' % self.name)
                continue
            ok = p is not None and proves(facts, add(add(p, self.kind.per), add(self.blen if self.blen is not None else lens, 1), -1))
            R.check(ok, 'stop:' + self.name, self.w, '%s can stop before it has all the coefficients asked for although the buffer has candidates left' % self.name,
                    ob='%s stops only when done or out of input' % self.name)
        for t in self.tabs.values():
            self.table(t)

    def cursor(self, i, segs):
        """the phis that hold the place in the output (in bytes) and in the buffer, as forms of their atoms"""
        at = {}
        for r, v in i['atoms'].items():
            x = v.off if isinstance(v, cint.Ptr) else v
            if len(x.t) == 1:
                at[x.t[0][0]] = (r, v)
        c = p = None
        for s in segs:
            if s.frm is not i:
                continue
            for e in s.stores:
                for a, k in (e[2].t if isinstance(e[2], Lin) else ()):
                    if a in at and c is None:
                        c = (at[a][0], k)
            out = []
            for e in s.stores:
                buffers(e[4], out)
            for x in s.conds:
                buffers(x, out)
            for o in out:
                for a, k in o.t:
                    if a in at and p is None:
                        p = (at[a][0], k)
        if c is None or p is None:
            return None
        return c, p

    def at(self, i, vals, which):
        r, k = self.pos[id(i)][which]
        v = vals[r]
        if isinstance(v, cint.Ptr):
            if v.o != (self.a if which == 0 else self.buf).o:
                raise cint.Stuck('cursor of another object')
            v = v.off
        return D.scale(v, k)

    def segment(self, s):
        d, R, k = self.d, self.R, self.kind
        nm = self.name
        c0 = self.at(s.frm, s.frm['atoms'] | {r: v for r, v in s.frm['init'].items() if r not in s.frm['atoms']}, 0) if s.frm else 0
        p0 = self.at(s.frm, s.frm['atoms'] | {r: v for r, v in s.frm['init'].items() if r not in s.frm['atoms']}, 1) if s.frm else 0
        facts = gefacts(s.conds)
        if s.to is not None:
            c1, p1 = self.at(s.to, s.vals, 0), self.at(s.to, s.vals, 1)
        else:
            if not isinstance(s.vals, (int, Lin)):
                raise cint.Stuck('return value of ' + nm)
            c1, p1 = D.scale(s.vals, 4), None
        words = []
        for e in s.stores:
            ws = word(e)
            if ws is None:
                R.undecided('%s stores its output in an unknown way' % nm)
                return None
            words += ws
        delta = add(c1, c0, -1)
        if p1 is not None:
            adv = add(p1, p0, -1)
            if type(adv) is not int:
                R.undecided('%s advances in its input by an amount that depends on it' % nm)
                return None
            if not R.check(adv >= 0 and adv % k.per == 0, 'advance:' + nm, self.w, '%s advances by %d bytes of input, which is no whole number of candidates' % (nm, adv), ob='%s consumes whole candidates' % nm):
                return None
            cands = k.cands('buf', p0, adv)
        elif not words and delta == 0:
            cands = []
        else:
            if not self.room(facts, c1):
                R.undecided('%s returns from within its loop' % nm)
                return None
            cands = k.cands('buf', p0, 64 * k.per)
        cur = c0
        i = j = 0
        while j < len(cands):
            if p1 is None and add(cur, c1, -1) == 0 and i == len(words):
                break
            t = cands[j]
            if i < len(words) and self.picked(words[i][1]):
                n = self.group(words[i:i + 8], cands[j:j + 8], cur, s, facts)
                if n is None:
                    return None
                cur = add(cur, D.scale(n, 4))
                i, j = i + 8, j + 8
                continue
            bit = self.bit(delta, t)
            if bit is not None:
                x, c = bit
                r = within([c], t, 0, k.top)
                if not R.check(r == [(0, k.ok)], 'accept:' + nm, self.w, '%s accepts the candidates %s instead of 0..%d' % (nm, r, k.ok), ob='%s accepts exactly the candidates in range' % nm):
                    return None
                if i >= len(words) or not self.put(words[i], cur, t, facts, exact=True):
                    return None
                i += 1
                cur = add(cur, D.scale(x, 4))
                j += 1
                continue
            a = accepts(s.conds, k, t)
            here = i < len(words) and add(words[i][0], cur, -1) == 0
            if a is None:
                R.undecided('%s: the condition on a candidate does not settle' % nm)
                return None
            if a == 'no':
                # perhaps stored, but not counted
                if here and isinstance(words[i][1], Lin) and D.leaves(words[i][1], cap=8) == D.leaves(t, cap=8):
                    e, names = D.abstract(words[i][1], (t,))
                    if not names:
                        i += 1
                j += 1
                continue
            if a == 'yes' and not here and self.room(facts, cur):
                j += 1
                continue
            if a == 'yes':
                if not R.check(here, 'skip:' + nm, self.w, '%s skips a candidate in range, or does not store it behind the previous ones' % nm, ob='%s keeps every candidate in range' % nm):
                    return None
                if not self.put(words[i], cur, t, facts):
                    return None
                i += 1
                cur = add(cur, 4)
            else:
                # the path does not distinguish: it must not exist for one of the two
                if not here and self.room(facts, cur):
                    j += 1
                    continue
                R.check(False, 'accept:' + nm, self.w, '%s %s candidates in %s, but 0..%d are the ones in range' % (nm, 'accepts' if here else 'rejects', list(a), k.ok),
                        ob='%s accepts exactly the candidates in range' % nm)
                return None
            j += 1
        if not R.check(i == len(words), 'extra:' + nm, self.w, '%s stores a coefficient that does not come from the next candidate' % nm, ob='%s stores candidates only' % nm):
            return None
        if not R.check(add(cur, c1, -1) == 0, 'count:' + nm, self.w, '%s counts a different number of coefficients than it keeps' % nm, ob='%s counts what it keeps' % nm):
            return None
        if s.to is None:
            return facts, c1, p0 if not cands else None
        return True

    def put(self, wd, cur, t, facts, exact=False):
        """the store of candidate t as the next coefficient"""
        R, k, nm = self.R, self.kind, self.name
        off, v = wd
        if not R.check(add(off, cur, -1) == 0, 'place:' + nm, self.w, '%s does not store a coefficient behind the previous one' % nm, ob='%s stores coefficients in order' % nm):
            return False
        R.check(proves(facts, add(add(D.scale(self.len, 4), -4), off, -1)), 'bound:' + nm, self.w, '%s can store behind the last coefficient asked for' % nm, ob='%s stays in its output' % nm)
        return self.value(v, t)

    def value(self, v, t):
        R, k, nm = self.R, self.kind, self.name
        if not isinstance(v, (int, Lin)):
            raise cint.Stuck('stored value')
        if k.name == 'uniform':
            ok, bad = add(v, t, -1) == 0, ''
        else:
            p = pieces(v, t, 0, 15) if isinstance(v, Lin) else [(0, 15, v)]
            if p is None:
                R.undecided('%s: the value of a coefficient is not a function of its candidate alone' % nm)
                return False
            bad = [(x, val) for a, b, val in p for x in range(a, b + 1) if x <= k.ok and D.sgn(val, 32) != k.value(x)]
            ok = not bad
            bad = ' (%d gives %d)' % bad[0] if bad else ''
        return R.check(ok, 'value:' + nm, self.w, '%s does not store the value of the candidate%s' % (nm, bad), ob='%s stores the value of the candidate' % nm)

    def bit(self, delta, t):
        """the 0/1 atom in the count that decides about the candidate"""
        if not isinstance(delta, Lin):
            return None
        base = D.leaves(t, cap=8)
        for a, k in delta.t:
            at = D.ATOM[a]
            if at[0] == 'b2i' and abs(k) == 4 and D.leaves(single(a), cap=8) == base:
                r = D.leaves(at[1], cap=8)
                if self.kind.name == 'eta' and (within([at[1]], t, 0, 15) is None):
                    continue
                return (single(a), at[1]) if k > 0 else (add(1, single(a), -1), D.neg(at[1]))
        return None

    # ---- eight candidates at once
    def picked(self, v):
        out = []
        picks(v, out)
        return len(out) == 1

    def group(self, words, cands, cur, s, facts):
        R, k, nm = self.R, self.kind, self.name
        if len(words) != 8 or len(cands) != 8:
            R.undecided('%s: a group of candidates is incomplete' % nm)
            return None
        lanes = bits = None
        for j, (off, v) in enumerate(words):
            out = []
            picks(v, out)
            if len(out) != 1:
                R.undecided('%s: a group of candidates is stored in an unknown way' % nm)
                return None
            at = D.ATOM[out[0]]
            ld = D.ATOM[at[2].t[0][0]] if isinstance(at[2], Lin) and len(at[2].t) == 1 and at[2].t[0][1] == 1 and at[2].c == 0 else None
            if ld is None or ld[0] != 'ld':
                R.undecided('%s: the order of a group does not come from a table' % nm)
                return None
            if not R.check(add(off, add(cur, 4 * j), -1) == 0, 'place:' + nm, self.w, '%s does not store a group behind the previous coefficients' % nm, ob='%s stores coefficients in order' % nm):
                return None
            R.check(proves(facts, add(add(D.scale(self.len, 4), -4), off, -1)), 'bound:' + nm, self.w, '%s can store behind the last coefficient asked for' % nm, ob='%s stays in its output' % nm)
            if lanes is None:
                lanes = at[1]
                bits = self.mask(add(ld[2], -j), cands)
                if bits is None:
                    R.undecided('%s: the table row is not chosen by one bit per candidate' % nm)
                    return None
            if not R.check(at[1] == lanes and add(add(ld[2], -j), bits[1], -1) == 0, 'row:' + nm, self.w, '%s takes the order of a group from the wrong row of the table' % nm, ob='%s looks up the order of a group' % nm):
                return None
            self.tabs[ld[1]] = ld[1]
            if not self.lanes(v, out[0], lanes, cands):
                return None
        for (x, c), t in zip(bits[0], cands):
            r = within([c], t, 0, k.top)
            if r is None:
                R.undecided('%s: the condition on a candidate of a group does not settle' % nm)
                return None
            if not R.check(r == [(0, k.ok)], 'accept:' + nm, self.w, '%s accepts the candidates %s instead of 0..%d' % (nm, r, k.ok), ob='%s accepts exactly the candidates in range' % nm):
                return None
        n = 0
        for x, c in bits[0]:
            n = add(n, x)
        return n

    def mask(self, row, cands):
        """the bits that make up the number of a table row: one per candidate"""
        own = {}
        for j, t in enumerate(cands):
            own.setdefault(D.leaves(t, cap=8), []).append(j)
        bits = [None] * 8
        row = add(row, 0)
        for a, k in (row.t if isinstance(row, Lin) else ()):
            at = D.ATOM[a]
            j = abs(k).bit_length() - 4
            if at[0] != 'b2i' or abs(k) != 8 << j or not 0 <= j < 8 or bits[j] is not None:
                return None
            bits[j] = (single(a), at[1]) if k > 0 else (add(1, single(a), -1), D.neg(at[1]))
        if any(b is None for b in bits):
            return None
        tot = 0
        for j, (x, c) in enumerate(bits):
            tot = add(tot, x, 8 << j)
        return bits, tot

    def lanes(self, v, a, lanes, cands):
        """the value stored for each element of the group"""
        R, k, nm = self.R, self.kind, self.name
        if k.name == 'uniform':
            ok = len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 and v.t[0][0] == a
            if not R.check(ok, 'value:' + nm, self.w, '%s does not store the value of the candidate' % nm, ob='%s stores the value of the candidate' % nm):
                return False
            return all(R.check(add(x, t, -1) == 0, 'lane:' + nm, self.w, '%s does not form candidate %d of a group from its three bytes' % (nm, j), ob='%s forms the candidates of a group' % nm) for j, (x, t) in enumerate(zip(lanes, cands)))
        lo = min(iv(x)[0] for x in lanes)
        hi = max(iv(x)[1] for x in lanes)
        g = pieces(v, single(a), lo, hi)
        if g is None:
            R.undecided('%s: the value of a coefficient of a group does not settle' % nm)
            return False
        for j, (x, t) in enumerate(zip(lanes, cands)):
            p = pieces(x, t, 0, 15) if isinstance(x, Lin) else [(0, 15, x)]
            if p is None:
                R.undecided('%s: a lane of a group is not a function of its candidate' % nm)
                return False
            for l, h, val in p:
                for y in range(l, min(h, k.ok) + 1):
                    got = [z for b, e, z in g if b <= val <= e]
                    if not R.check(got and D.sgn(got[0], 32) == k.value(y), 'value:' + nm, self.w, '%s does not store the value of the candidate (%d gives %s)' % (nm, y, got), ob='%s stores the value of the candidate' % nm):
                        return False
        return True

    def table(self, obj):
        d, R = self.d, self.R
        oid = obj[0] if isinstance(obj, tuple) else None
        for x in range(256):
            row = [d.I.load(d.st if oid in d.st.mem else self.any(oid), cint.Ptr(oid, 8 * x + j), 1) for j in range(8)]
            want = [j for j in range(8) if x >> j & 1]
            if not R.check(row[:len(want)] == want, 'table:' + self.name, self.w, 'row %d of the table of positions is %s' % (x, row), ob='table lists the set bits'):
                return

    def any(self, oid):
        st = cint.State()
        st.mem[oid] = self.d.I.globs[oid]
        return st


def buffers(x, out, seen=None):
    """the offsets at which a form reads the buffer"""
    seen = set() if seen is None else seen
    walk(x, lambda a, at: out.append(at[2]) if at[0] == 'ld' and at[1] == 'buf' and isinstance(at[2], Lin) else None, seen)


def picks(x, out):
    walk(x, lambda a, at: out.append(a) if at[0] == 'pick' else None, set(), stop='pick')


def walk(x, f, seen, stop=None):
    work = [x]
    while work:
        x = work.pop()
        if type(x) is tuple:
            work.extend(y for y in x if isinstance(y, (tuple, Lin)))
        elif isinstance(x, Lin):
            for a, _ in x.t:
                if a in seen:
                    continue
                seen.add(a)
                at = D.ATOM[a]
                f(a, at)
                if at[0] != stop:
                    work.extend(y for y in at[1:] if isinstance(y, (tuple, Lin)))


# ---- the functions that feed them from a hash
class Outer:
    """poly_uniform and the like: candidates are consecutive stream bytes, until 256 are accepted"""

    def __init__(self, d, R, kind):
        self.d, self.R, self.kind = d, R, kind

    def stream(self, seed, nonce):
        k = self.kind
        data = tuple(D.atom(('in', 'seed', i), 0, 255) for i in range(k.seed))
        b = D.bits(16, nonce)
        return k.alg, data + (D.frombits(8, b[:8]), D.frombits(8, b[8:]))

    def run(self, fn, four):
        d, R, k = self.d, self.R, self.kind
        self.fn = fn
        f = find(d, fn)
        if f is None:
            R.undecided('no function ' + fn)
            return
        self.w = path(d, f)
        off = {'poly_uniform', 'poly_uniform_eta', 'poly_uniform_gamma1'}
        d.fresh(off=off | {x + '_4x' for x in off})
        I = d.I
        for g in d.m.fns.values():
            if 'uniform' in g.name:
                I.peel.add(g.name)
        lanes = range(4 if four else 1)
        polys = [d.obj('a%d' % i, 1024, 'undef') for i in lanes]
        self.lane = {p.o: i for i, p in enumerate(polys)}
        seed = d.obj('seed', k.seed, 'in')
        nonces = [D.atom(('arg', 'nonce%d' % i), 0, 65535) for i in lanes]
        self.nx = 0

        def rej(I, st, name, a, line):
            if len(a) == 4:
                dst, n, buf, m = a
            elif len(a) == 2:
                (dst, buf), n, m = a, N, None
            else:
                raise cint.Stuck('arguments of ' + name)
            if not isinstance(dst, cint.Ptr) or dst.o not in self.lane:
                raise cint.Stuck('output of ' + name)
            if m is None:
                # reads what was squeezed before it
                m = self.full
            if type(m) is not int:
                raise cint.Stuck('buffer length of ' + name)
            x = dst.off
            data = I.bytes(st, buf, m)
            c = add(D.scale(n, 4), x)
            if not R.check(add(c, -4 * N) == 0, 'rest:' + fn, self.w, '%s asks for another number of coefficients than are missing behind those it has' % fn, ob='%s asks for the missing coefficients' % fn):
                raise cint.Stuck('length of ' + name)
            self.nx += 1
            t = D.atom(('got', self.nx, self.lane[dst.o]), 0, N)
            x = D.shr(x, 2)
            r = add(t, x, -1)
            st.learn(D.ge(r))
            st.ev(('rej', self.lane[dst.o], x, t, data, name))
            return r
        for nm in ('rej_' + k.name, 'rej_%s_avx' % k.name):
            setattr(d.S, 'f_' + nm, rej)
        self.full = k.rate * (5 if k.name == 'uniform' else 1 if d.ETA == 2 else 2)
        R.info['buffer'] = self.full
        args = polys + [seed] + nonces
        if len(f.params) != len(args):
            R.undecided('%s takes %d arguments' % (fn, len(f.params)))
            return
        outs = I.exec(f, args, d.st)
        self.want = {i: self.stream(seed, nonces[i]) for i in lanes}
        infos = [i for i in I.generic_loops]
        nb = 0
        for i in infos:
            if not any(e[0] == 'rej' for tr, ph, ev, st in i['back'] for e in ev):
                continue
            for tr, ph, ev, st in i['back']:
                if not self.line(st, i, ph, ev):
                    return
        R.check(outs, 'never:' + fn, self.w, '%s never returns' % fn, ob='%s returns' % fn)
        for st, v in outs:
            h = [e[1] for e in st.eventlist() if e[0] == 'loop']
            h = [x for x in h if any(e[0] == 'rej' for tr, ph, ev, s in x['back'] for e in ev)]
            last = h[-1] if h else None
            n = len(last['start'].eventlist()) if last else 0
            if last is not None and not self.line(last['start'], None, None, last['start'].eventlist(), last):
                return
            if not self.line(st, last, None, st.eventlist()[n:], 'out', frm=last):
                return

    def line(self, st, info, ph, ev, to=None, frm=None):
        """one stretch: from the entry (info None) or a loop header, to that header again, a loop or the return"""
        d, R, k, fn = self.d, self.R, self.kind, self.fn
        facts = gefacts(list(expand(st.known)))
        frm = info if frm is None else frm
        start = frm is None
        end = {}          # lane -> (number of coefficients, stream position behind the last candidate used)
        sid = {}
        for i in self.want:
            sid[i] = csum.HASH.get(self.want[i])
            if not R.check(sid[i] is not None, 'input:' + fn, self.w, '%s does not read the %s stream of its seed and nonce%s' % (fn, k.alg.upper(), ' %d' % i if len(self.want) > 1 else ''),
                           ob='%s hashes seed and nonce' % fn):
                return False
            end[i] = (0 if start else None, 0 if start else self.squeezed(ev, sid[i]))
        for e in ev:
            if e[0] != 'rej':
                continue
            _, i, x, t, data, name = e
            have, pos = end[i]
            if have is None:
                have = x                     # tied to the header below
            if not R.check(add(have, x, -1) == 0, 'behind:' + fn, self.w, '%s does not put the next coefficients behind those it has' % fn, ob='%s appends' % fn):
                return False
            if pos is None:
                if to is None and frm is info and not any(q[0] == 'squeeze' for q in ev) and not proves(facts, add(x, -N)):
                    R.check(False, 'again:' + fn, self.w, '%s takes more candidates without drawing another block of its stream' % fn, ob='%s reads the stream in order' % fn)
                    return False
                if proves(facts, add(x, -N)):
                    end[i] = (t, None)
                    continue
                R.undecided('%s: the position in the stream is not known' % fn)
                return False
            bad = [j for j, b in enumerate(data) if add(b, csum.hb(sid[i], add(pos, j)), -1) != 0] if not proves(facts, add(x, -N)) else []
            if not R.check(not bad, 'stream:' + fn, self.w, '%s takes candidates from other bytes than the next ones of its stream (byte %d is %s)' % (fn, bad[0] if bad else 0, D.show(data[bad[0]]) if bad and isinstance(data[bad[0]], Lin) else bad and data[bad[0]]),
                           ob='%s reads the stream in order' % fn):
                return False
            left = len(data) % k.per
            pos = add(pos, len(data) - left)
            end[i] = (t, pos)
        if to == 'out':
            for i in self.want:
                have = end[i][0]
                if have is None:
                    have = self.header(frm, i)
                    if have is None:
                        return self.lost()
                R.check(proves(facts, add(have, -N)), 'full:' + fn, self.w, '%s can return before it has 256 coefficients' % fn, ob='%s returns with 256 coefficients' % fn)
            return True
        tgt = to if to is not None else info
        vals = tgt['init'] if to is not None else ph
        for i in self.want:
            have, pos = end[i]
            h = self.header(tgt, i, reg=True)
            if h is None:
                return self.lost()
            reg, own = h
            if have is None:
                have = own
            if not R.check(add(self.val(vals[reg]), have, -1) == 0, 'kept:' + fn, self.w, '%s loses count of its coefficients from one block to the next' % fn, ob='%s carries its count along' % fn):
                return False
            if proves(facts, add(have, -N)):
                continue
            at = self.last(st, sid[i])
            if at is None or pos is None:
                R.undecided('%s: the position in the stream is not known' % fn)
                return False
            R.check(add(at, pos, -1) == 0, 'unused:' + fn, self.w, '%s drops stream bytes between two blocks' % fn, ob='%s uses every block' % fn)
        return True

    def lost(self):
        self.R.undecided('%s: the number of coefficients is not a variable of its loop' % self.fn)
        return False

    def val(self, v):
        return D.shr(v.off, 2) if isinstance(v, cint.Ptr) else v

    def header(self, info, lane, reg=False):
        """the loop variable that counts the coefficients of a polynomial"""
        for tr, ph, ev, st in info['back']:
            for e in ev:
                if e[0] == 'rej' and e[1] == lane:
                    for r, v in info['atoms'].items():
                        if add(self.val(v), e[2], -1) == 0:
                            return (r, self.val(v)) if reg else self.val(v)
                    for r, v in info['init'].items():
                        # never changes
                        if isinstance(v, (int, Lin)) and r not in info['atoms'] and add(v, e[2], -1) == 0:
                            return (r, v) if reg else v
                    break
        return None

    def squeezed(self, ev, sid):
        """the stream position at the start of a stretch"""
        for e in ev:
            if e[0] == 'squeeze' and e[1] == sid:
                return e[2]
        return None

    def last(self, st, sid):
        l = [e[3] for e in st.eventlist() if e[0] == 'squeeze' and e[1] == sid]
        return l[-1] if l else None


# ---- masks
def gamma1_rule(d, R):
    """consecutive fields of the stream, subtracted from gamma1"""
    for fn, n in (('poly_uniform_gamma1', 1), ('poly_uniform_gamma1_4x', 4)):
        if n == 4 and d.variant == 'clean':
            continue
        f = find(d, fn)
        if f is None:
            R.undecided('no function ' + fn)
            continue
        w = path(d, f)
        d.fresh(off={'poly_uniform_gamma1', 'poly_uniform_gamma1_4x'})
        polys = [d.obj('a%d' % i, 1024, 'undef') for i in range(n)]
        seed = d.obj('seed', 64, 'in')
        nonces = [D.atom(('arg', 'nonce%d' % i), 0, 65535) for i in range(n)]
        if len(f.params) != 2 * n + 1:
            R.undecided('%s takes %d arguments' % (fn, len(f.params)))
            continue
        outs = d.I.exec(f, polys + [seed] + nonces, d.st)
        R.check(outs, 'never:' + fn, w, '%s never returns' % fn, ob='%s returns' % fn)
        k = Kind(d, 'eta')
        o = Outer(d, R, k)
        for st, v in outs:
            for j in range(n):
                sid = csum.HASH.get(o.stream(seed, nonces[j]))
                if not R.check(sid is not None, 'input:' + fn, w, '%s does not read the SHAKE256 stream of its seed and nonce%s' % (fn, ' %d' % j if n > 1 else ''), ob='%s hashes seed and nonce' % fn):
                    break
                bits = []
                for b in range(32 * d.ZB):
                    bits += D.bits(8, csum.hb(sid, b))
                got = csum.rd(d.I, st, polys[j])
                bad = [i for i in range(N) if add(add(got[i], D.frombits(32, bits[d.ZB * i:d.ZB * i + d.ZB] + [0] * (32 - d.ZB))), -d.GAMMA1) != 0]
                R.check(not bad, 'field:' + fn, w, '%s: coefficient %d is not gamma1 minus its field of the stream' % (fn, bad[0] if bad else 0), ob='%s decodes field i of the stream' % fn)


# ---- challenges
def subst(x, m):
    r = x.c if isinstance(x, Lin) else x
    for a, k in (x.t if isinstance(x, Lin) else ()):
        r = add(r, m.get(a, single(a)), k)
    return r


def edge(I, x, to, st, vals):
    """the value of a form over the variables of a loop where the loop is entered or continued"""
    m = {}
    for a, k in (x.t if isinstance(x, Lin) else ()):
        at = D.ATOM[a]
        if at[0] == 'gen' and at[1] == to['id']:
            m[a] = vals[at[2]]
        elif at[0] == 'hv' and at[1] == to['id']:
            n, v = st.mem[at[2]].cells[at[3]]
            if isinstance(v, cint.Ghost):
                m[a] = v.v[2]
            else:
                size = (at[5].bit_length() + 7) // 8
                m[a] = v if n == size else I.load(st, cint.Ptr(at[2], at[3]), size)
    return subst(x, m)


def lowbit(x, main):
    """the variable whose lowest bit an atom is"""
    at = D.ATOM[x]
    if at[0] == 'sl' and at[2:] == (0, 1) and isinstance(at[1], Lin) and len(at[1].t) == 1:
        v = D.ATOM[at[1].t[0][0]]
        if v[0] in ('gen', 'hv') and v[1] == main['id']:
            return at[1]
    return None


def signbit(v, conds, main):
    """the variable whose lowest bit decides the sign v, and whether v is 1 - 2 times that bit"""
    if isinstance(v, Lin):
        l = [lowbit(a, main) for a, _ in v.t]
        if len(l) == 1 and l[0] is not None:
            return l[0], v.c == 1 and v.t[0][1] == -2
        return None
    if type(v) is not int:
        return None
    for c in conds:
        if c[0] not in ('eq', 'ne', 'ge') or not isinstance(c[1], Lin) or len(c[1].t) != 1:
            continue
        z = c[1]
        sg, k = lowbit(z.t[0][0], main), z.t[0][1]
        if sg is None:
            continue
        holds = [b for b in (0, 1) if (z.c + k * b >= 0 if c[0] == 'ge' else (z.c + k * b == 0) == (c[0] == 'eq'))]
        if len(holds) == 1:
            return sg, v == 1 - 2 * holds[0]
    return None


def challenge_rule(d, R):
    fn = 'poly_challenge'
    f = find(d, fn)
    if f is None or len(f.params) != 2:
        R.undecided('no function ' + fn)
        return
    w = path(d, f)
    d.fresh(off={fn})
    I = d.I
    c = d.obj('c', 1024, 'undef')
    seed = d.obj('seed', None, 'in')
    I.logged.add(c.o)
    outs = I.exec(f, [c, seed], d.st)
    segs, infos = segments(I, outs, c, f)
    sid = csum.HASH.get(('shake256', tuple(D.atom(('in', 'seed', i), 0, 255) for i in range(32))))
    if not R.check(sid is not None, 'input:' + fn, w, 'the challenge is not drawn from the SHAKE256 stream of its 32 byte seed', ob='challenge hashes its seed'):
        return
    last = {id(s.frm): s.frm for s in segs if s.to is None}
    if len(last) != 1 or next(iter(last.values())) is None:
        R.undecided('the challenge is not drawn in one loop over the positions')
        return
    main = next(iter(last.values()))
    heads = [i for i in infos]
    # what each stretch reads of the stream
    for s in segs:
        out = []
        n0 = len(s.frm['start'].known) if s.frm else 0
        new = [x for x in s.conds if s.frm is None or x not in s.frm['start'].known]
        seen = set()
        for x in new + [e[2] for e in s.stores] + [e[4] for e in s.stores]:
            walk(x, lambda a, at: out.append(at[2]) if at[0] == 'h' and at[1] == sid and isinstance(at[2], Lin) else None, seen)
        # bytes read before belong to the stretches before
        s.reads = []
        for p in out:
            own = s.frm is not None and any(D.ATOM[a][0] in ('gen', 'hv') and D.ATOM[a][1] == s.frm['id'] for a, _ in p.t)
            if own and p not in s.reads:
                s.reads.append(p)
        if len(s.reads) > 1:
            R.undecided('the challenge draws several bytes at a time')
            return
        s.facts = gefacts(s.conds)
    # the next unread byte at each header
    U = {}
    for s in segs:
        if s.reads and not s.squeezes:
            U.setdefault(id(s.frm), s.reads[0])
    for _ in heads:
        for s in segs:
            if s.frm is not None and s.to is not None and id(s.frm) not in U and id(s.to) in U and not s.reads:
                U[id(s.frm)] = edge(I, U[id(s.to)], s.to, s.st, s.vals)
    def stale():
        """a position taken from beyond what was squeezed"""
        filled = [n for n in (D.add(e[3], e[2], -1) for s in segs for e in s.squeezes) if type(n) is int]
        for s in segs:
            if s.frm is None or s.reads:
                continue
            at = []
            seen = set()
            for x in s.conds + [e[2] for e in s.stores]:
                walk(x, lambda a, t: at.append(t) if t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] != c.o else None, seen)
            for t in at:
                if not isinstance(t[2], Lin) or not filled:
                    continue
                hi = I.bounded(s.st, t[2])[1]
                if proves(s.facts, add(t[2], -min(filled))) or hi >= min(filled) and any(D.ATOM[a][0] == 'gen' and D.ATOM[a][1] == s.frm['id'] for a, _ in t[2].t):
                    R.check(False, 'stale:' + fn, w, 'the challenge takes a position from beyond the %d bytes of the buffer that are filled' % min(filled), ob='challenge reads the stream in order')
                    return True
        return False

    if any(id(h) not in U for h in heads):
        if stale():
            return
        R.undecided('the place of the challenge in its stream is not known at every loop')
        return

    def equal(s, x, y):
        z = add(x, y, -1)
        lo, hi = (z, z) if type(z) is int else I.bounded(s.st, z)
        if (lo, hi) == (0, 0):
            return True
        return False if lo > 0 or hi < 0 else None

    def inorder(s, x, y):
        r = equal(s, x, y)
        if r is None:
            if stale():
                return False
            R.undecided('the place of the challenge in its stream is not known at every loop')
            return False
        return R.check(r, 'next:' + fn, w, 'the challenge does not take its positions from consecutive stream bytes behind the first 8', ob='challenge reads the stream in order')
    ipos = sign = None
    for s in segs:
        have = U[id(s.frm)] if s.frm is not None else 8
        if s.reads:
            if not inorder(s, s.reads[0], have):
                return
            have = add(have, 1)
        if s.to is not None:
            if not inorder(s, edge(I, U[id(s.to)], s.to, s.st, s.vals), have):
                return
        if s.stores and s.frm is not None:
            if len(s.stores) != 2 or not s.reads or s.to is not main:
                R.undecided('the challenge does not place one sign per round')
                return
            e1, e2 = s.stores
            b = csum.hb(sid, s.reads[0])
            if add(e1[2], D.scale(b, 4), -1) == 0 and add(e2[2], D.scale(b, 4), -1) != 0:
                R.check(False, 'order:' + fn, w, 'the challenge overwrites the coefficient at the position drawn before it is moved', ob='challenge moves, then places')
                return
            if not R.check(add(e2[2], D.scale(b, 4), -1) == 0, 'where:' + fn, w, 'the challenge does not place its sign at the position drawn', ob='challenge places the sign at the position drawn'):
                return
            i = D.shr(e1[2], 2)
            if not isinstance(i, Lin) or not all(D.ATOM[a][0] in ('gen', 'hv') and D.ATOM[a][1] == main['id'] for a, _ in i.t):
                R.undecided('the upper end of the positions of the challenge is not a loop variable')
                return
            if ipos is not None and add(ipos, i, -1) != 0:
                R.undecided('the upper end of the positions of the challenge differs between paths')
                return
            ipos = i
            v = e1[4]
            at = D.ATOM[v.t[0][0]] if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 else None
            ok = at is not None and at[0] == 'ld' and isinstance(at[1], tuple) and at[1][0] == c.o and add(at[2], D.scale(b, 4), -1) == 0
            if not R.check(ok, 'move:' + fn, w, 'the challenge does not move the coefficient at the position drawn to the end of the range', ob='challenge moves the coefficient it replaces'):
                return
            sg = signbit(e2[4], s.conds, main)
            if sg is None:
                R.undecided('the sign placed is computed in an unknown way')
                return
            if not R.check(sg[1], 'sign:' + fn, w, 'the sign placed is not 1 - 2 times the next sign bit', ob='challenge signs are the sign bits'):
                return
            sg = sg[0]
            if sign is not None and add(sign, sg, -1) != 0:
                R.undecided('the sign bits of the challenge differ between paths')
                return
            sign = sg
    if ipos is None:
        R.check(False, 'none:' + fn, w, 'the challenge places no sign', ob='challenge places signs')
        return
    zero = all(I.load(main['start'], cint.Ptr(c.o, 4 * j), 4) == 0 for j in range(N))
    R.check(zero, 'zero:' + fn, w, 'the challenge does not start from the zero polynomial', ob='challenge starts from zero')
    bits = []
    for j in range(8):
        bits += D.bits(8, csum.hb(sid, j))
    for s in segs:
        if s.to is main:
            i1 = edge(I, ipos, main, s.st, s.vals)
            s1 = edge(I, sign, main, s.st, s.vals)
            if s.frm is None:
                R.check(i1 == N - d.TAU, 'first:' + fn, w, 'the challenge starts with position %s instead of %d' % (D.show(i1) if isinstance(i1, Lin) else i1, N - d.TAU), ob='challenge places tau signs')
                R.check(D.bits(64, s1) == bits, 'signs:' + fn, w, 'the sign bits are not the first 8 stream bytes', ob='challenge signs are the first 8 stream bytes')
            elif not s.stores and s.frm is main:
                R.check(add(i1, ipos, -1) == 0, 'step:' + fn, w, 'the challenge skips a position', ob='challenge places tau signs')
                R.check(add(s1, sign, -1) == 0, 'shift:' + fn, w, 'the challenge skips a sign bit', ob='challenge signs are the sign bits')
            else:
                R.check(add(add(i1, ipos, -1), -1) == 0, 'step:' + fn, w, 'the challenge does not go through the positions one by one', ob='challenge places tau signs')
                R.check(add(s1, D.shr(sign, 1), -1) == 0, 'shift:' + fn, w, 'the challenge does not use the sign bits one after the other', ob='challenge signs are the sign bits')
        elif s.to is None:
            R.check(proves(s.facts, add(ipos, -N)), 'last:' + fn, w, 'the challenge can end before its last position', ob='challenge places tau signs')
        if s.frm is main and s.to is not None or s.reads:
            R.check(proves(s.facts, add(N - 1, ipos, -1)), 'range:' + fn, w, 'the challenge goes beyond the last position', ob='challenge places tau signs')
        if s.reads:
            b = csum.hb(sid, s.reads[0])
            if s.stores:
                R.check(proves(s.facts, add(ipos, b, -1)), 'accept:' + fn, w, 'the challenge accepts a position above the current one', ob='challenge accepts the bytes up to the current position')
            else:
                R.check(proves(s.facts, add(add(b, ipos, -1), -1)), 'reject:' + fn, w, 'the challenge rejects a position up to the current one', ob='challenge rejects the bytes above the current position')


def p30(d, R):
    lens = {}
    for name in ('uniform', 'eta'):
        k = Kind(d, name)

        def go(d, R):
            Inner(d, R, 'rej_' + name, k).run(False, None)
        done(d, R, go)
        if d.variant == 'avx2':
            n = 840 if name == 'uniform' else 136 if d.ETA == 2 else 272

            def go(d, R):
                Inner(d, R, 'rej_%s_avx' % name, k).run(True, n)
            done(d, R, go)

        def go(d, R):
            Outer(d, R, k).run('poly_uniform' + ('_eta' if name == 'eta' else ''), False)
        done(d, R, go)
        if d.variant == 'avx2':
            def go(d, R):
                Outer(d, R, k).run('poly_uniform' + ('_eta' if name == 'eta' else '') + '_4x', True)
            done(d, R, go)
    done(d, R, gamma1_rule)
    done(d, R, challenge_rule)
