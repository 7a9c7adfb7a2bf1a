"""Rules on the Dilithium (ML-DSA round 3) C sources that the Rust bindings call."""
import multiprocessing
import math
import os
import sys
import threading

import cdom as D
import cint
import cir
import csum
from cdom import Lin, iv, add

Q = D.Q
SETS = {
    'dilithium2': dict(K=4, L=4, ETA=2, TAU=39, BETA=78, GAMMA1=1 << 17, GAMMA2=(Q - 1) // 88, OMEGA=80, CT=32),
    'dilithium3': dict(K=6, L=5, ETA=4, TAU=49, BETA=196, GAMMA1=1 << 19, GAMMA2=(Q - 1) // 32, OMEGA=55, CT=48),
    'dilithium5': dict(K=8, L=7, ETA=2, TAU=60, BETA=120, GAMMA1=1 << 19, GAMMA2=(Q - 1) // 32, OMEGA=75, CT=64),
}
for _p in SETS.values():
    _p['ZB'] = 18 if _p['GAMMA1'] == 1 << 17 else 20
    _p['WB'] = 6 if _p['GAMMA2'] == (Q - 1) // 88 else 4
    _p['SB'] = 3 if _p['ETA'] == 2 else 4
    _p['PK'] = 32 + 320 * _p['K']
    _p['SK'] = 32 + 32 + 64 + 32 * _p['SB'] * (_p['K'] + _p['L']) + 416 * _p['K']
    _p['SIG'] = _p['CT'] + 32 * _p['ZB'] * _p['L'] + _p['OMEGA'] + _p['K']
VARIANTS = ('clean', 'avx2')
FAMILY = [(s, v) for s in SETS for v in VARIANTS]


class Dil:
    """one parameter set and implementation"""

    def __init__(self, scheme, variant):
        self.scheme, self.variant = scheme, variant
        self.p = SETS[scheme]
        self.__dict__.update(self.p)
        self.m = cir.load(scheme, variant)
        self.fns, self.steps, self.unknown = set(), 0, set()
        self.ns = 'PQCLEAN_%s_%s_' % (scheme.upper(), variant.upper())
        self.fresh()

    def fresh(self, off=()):
        if hasattr(self, 'I'):
            self.fns |= self.I.fns
            self.steps += self.I.steps
            self.unknown |= set(self.I.unknown)
        D.reset()
        csum.reset()
        self.S = csum.Sum(self.m, self.p)
        self.S.off |= set(off)
        self.I = cint.Interp(self.m, self.S)
        self.st = cint.State()
        return self

    def obj(self, name, size=None, kind='in'):
        return self.I.new(self.st, name, size, kind)

    def len(self, name):
        return D.atom(('len', name), 0, (1 << 47) - 1)

    def call(self, fn, args):
        return self.I.call(self.st, self.ns + fn, args)

    def has(self, fn):
        return self.ns + fn in self.m.fns

    def where(self, fn):
        f = self.m.fns.get(self.ns + fn)
        return 'pqcrypto/pqclean/crypto_sign/%s/%s/%s: %s' % (self.scheme, self.variant, f.file if f else '?', fn)


class Rep:
    """what one worker found; picklable"""

    def __init__(self, pre):
        self.pre = pre
        self.ob, self.viol, self.und, self.fns, self.nodes, self.info = [], [], [], set(), 0, {}

    def check(self, cond, key, where, msg, ob=None, detail=None):
        self.ob.append((ob or key, bool(cond)))
        if not cond and not any(v[0] == self.pre + key for v in self.viol):
            self.viol.append((self.pre + key, where, msg, detail or []))
        return cond

    def undecided(self, what):
        self.und.append(self.pre + what)


def worker(arg):
    rule, scheme, variant = arg
    rep = Rep('%s/%s:' % (scheme, variant))
    box = []

    def go():
        try:
            d = Dil(scheme, variant)
            rule(d, rep)
            rep.fns = {'%s/%s/%s' % (scheme, variant, n) for n in set(d.I.fns) | d.fns} | rep.fns
            rep.nodes += d.I.steps + d.steps
            un = set(d.I.unknown) | d.unknown
            if un:
                rep.undecided('calls of functions without a summary: ' + ', '.join(sorted(map(str, un))[:8]))
        except (cint.Stuck, cir.IRError, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, cint.Restart) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided('the analysis could not follow the code: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        except cir.Broken as e:
            box.append(str(e))
    sys.setrecursionlimit(150000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return rep, box


def each(R, rule, jobs=FAMILY):
    from world import BuildFailed, Violation
    with multiprocessing.get_context('fork').Pool(min(len(jobs), 6)) as pool:
        for rep, broken in pool.imap(worker, [(rule, s, v) for s, v in jobs]):
            if broken:
                raise BuildFailed(broken[0])
            R.obligations += rep.ob
            R.undecided += rep.und
            R.functions |= rep.fns
            R.nodes += rep.nodes
            for k, w, m, dt in rep.viol:
                if not any(v.key == k for v in R.violations):
                    R.violations.append(Violation(k, w, m, dt))
            for k, x in rep.info.items():
                R.info.setdefault(k, []).append(x)


# ---- facts
def nonzero(x):
    if isinstance(x, Lin) and x.t and x.c % math.gcd(*(k for _, k in x.t)):
        return True
    lo, hi = D.tight(x) if isinstance(x, Lin) else (x, x)
    return lo > 0 or hi < 0


def expand(conds, cap=400000):
    """the atomic conditions implied by a set of conditions"""
    out = {}
    work = list(conds)
    seen = set()
    while work:
        c = work.pop()
        if type(c) is int or c in seen:
            continue
        seen.add(c)
        if len(seen) > cap:
            break
        if c[0] == 'and':
            work.extend(c[1])
            continue
        out[c] = True
        if c[0] == 'eq':
            x = c[1]
            # a sum of parts of one sign is zero only if each of them is
            if x.c == 0 and len(x.t) > 1 and (all(k * D.AIV[a][0] >= 0 and k * D.AIV[a][1] >= 0 for a, k in x.t) or all(k * D.AIV[a][0] <= 0 and k * D.AIV[a][1] <= 0 for a, k in x.t)):
                work.extend(D.eq(D.lin(((a, 1),), 0)) for a, k in x.t)
            if len(x.t) == 1:
                a, k = x.t[0]
                d = D.ATOM[a]
                if d[0] == 'b2i':
                    # c + k * b == 0
                    if x.c == 0:
                        work.append(D.neg(d[1]))
                    elif x.c == -k:
                        work.append(d[1])
                elif x.c == 0 and d[0] in ('or',):
                    work += [D.eq(d[2]), D.eq(d[3])]
                elif x.c == 0 and d[0] == 'xor':
                    work.append(D.eq(D.add(d[2], d[3], -1)))
                elif d[0] == 'ite' and (x.c == 0 or x.c % k == 0):
                    t = -x.c // k
                    p, r = D.add(d[2], -t), D.add(d[3], -t)
                    if nonzero(p):
                        work += [D.neg(d[1]), D.eq(r)]
                    if nonzero(r):
                        work += [d[1], D.eq(p)]
                elif d[0] == 'sel' and x.c == 0 and nonzero(d[2]):
                    work.append(D.neg(d[1]))
                elif d[0] in ('u', 'wrap') and x.c == 0:
                    lo, hi = iv(d[2])
                    if -(1 << d[1]) < lo and hi < 1 << d[1]:
                        work.append(D.eq(d[2]))
        elif c[0] == 'ne' and len(c[1].t) == 1:
            a, k = c[1].t[0]
            d = D.ATOM[a]
            if d[0] == 'b2i':
                if c[1].c == 0:
                    work.append(d[1])
                elif c[1].c == -k:
                    work.append(D.neg(d[1]))
    return out


def proves(facts, goal, depth=9):
    """is the form goal >= 0 a consequence (a sum) of the known facts"""
    lo, _ = iv(goal)
    if lo >= 0:
        return True
    if type(goal) is int or not depth:
        return False
    bad = [(a, k) for a, k in goal.t if (k < 0 and D.AIV[a][1] > 0) or (k > 0 and D.AIV[a][0] < 0)] + [(a, k) for a, k in goal.t if k > 0 and D.AIV[a][0] >= 0]
    for a, k in bad[:3]:
        for f in facts.get(a, ()):
            kk = dict(f.t).get(a)
            if kk is None or k % kk or k // kk <= 0:
                continue
            g = add(goal, f, -(k // kk))
            if type(g) is not int and len(g.t) > len(goal.t) + 1:
                continue
            if proves(facts, g, depth - 1):
                return True
    return False


def gefacts(conds):
    """index of the known forms >= 0 by atom"""
    d = {}
    for c in conds:
        if c[0] in ('ge', 'eq'):
            for x in ((c[1],) if c[0] == 'ge' else (c[1], D.scale(c[1], -1))):
                for a, _ in x.t:
                    d.setdefault(a, []).append(x)
    return d


def accepting(d, outs):
    """the outcomes in which 0 may have been returned, with the facts implied by that"""
    out = []
    for st, v in outs:
        if type(v) is int:
            if v & 0xffffffff == 0:
                out.append(st)
            continue
        if not isinstance(v, Lin):
            raise cint.Stuck('return value')
        lo, hi = D.tight(v)
        if lo > 0 or hi < 0:
            continue
        st = st.fork()
        st.learn(D.eq(v))
        out.append(st)
    return out


def loops(st):
    return [e[1:] for e in st.eventlist() if e[0] == 'loop']


def bitsof(l):
    out = []
    for b in l:
        out += D.bits(8, b)
    return out


def fields(bytes_, w, n):
    """the n little-endian w-bit fields of a byte string"""
    b = bitsof(bytes_)
    return [D.frombits(w, b[i * w:(i + 1) * w]) for i in range(n)]


def inb(name, off, n):
    return [D.atom(('in', name, off + i), 0, 255) for i in range(n)]


# ---- the specification's rounding functions, on integers
def cmod(r, a):
    r %= a
    return r - a if r > a // 2 else r


def decompose(r, g2):
    r %= Q
    r0 = cmod(r, 2 * g2)
    if r - r0 == Q - 1:
        return 0, r0 - 1
    return (r - r0) // (2 * g2), r0


def usehint(h, r, g2):
    m = (Q - 1) // (2 * g2)
    r1, r0 = decompose(r, g2)
    if not h:
        return r1
    return (r1 + 1) % m if r0 > 0 else (r1 - 1) % m


def power2round(r):
    r %= Q
    r0 = cmod(r, 1 << 13)
    return (r - r0) >> 13, r0


SPEC = {}


def spec_pieces(key, f, step, lo, hi, extra=()):
    """maximal pieces of a step function of r mod q whose steps are next to multiples of step and step/2"""
    r = SPEC.get(key)
    if r is not None:
        return r
    cuts = {lo, hi + 1}
    for base in range(-2 * Q, 2 * Q + 1, Q):
        for k in range(Q // step + 2):
            for x in (k * step, k * step + step // 2):
                for e in (-1, 0, 1, 2):
                    cuts.add(base + x + e)
        for e in range(-3, 4):
            cuts.add(base + e)
    cuts = sorted(c for c in cuts if lo <= c <= hi + 1)
    out = []
    for a, b in zip(cuts, cuts[1:]):
        v = f(a)
        assert f(b - 1) == v
        if out and out[-1][2] == v:
            out[-1] = (out[-1][0], b - 1, v)
        else:
            out.append((a, b - 1, v))
    SPEC[key] = out
    return out


PIECES = {}


def pieces(x, base, lo, hi, others=()):
    """the form x as a step function of base, for given values of the other leaves: list of pieces or None"""
    e, names = D.abstract(x, (base,) + tuple(others))
    if names:
        return None
    key = (e, lo, hi)
    r = PIECES.get(key)
    if r is None:
        r = PIECES[key] = D.pieces(e, 0, lo, hi, limit=60000) or 0
    return r or None


def elatom(x, kind):
    """the leaf of a form that is an element of a vector of the given kind, and the other leaves"""
    l = D.leaves(x)
    if l is None:
        return None, None
    e = [a for a in l if D.ATOM[a][0] == 'el' and D.VECS[D.ATOM[a][1]][0] == kind]
    if len(e) != 1:
        return None, None
    return e[0], [a for a in l if a != e[0]]


def single(a):
    return D.lin(((a, 1),), 0)


def ranges(d, R, ctx):
    """the range obligations met on the way"""
    for what, b, lim, line in sorted(set(d.S.notes)):
        R.check(b <= lim, '%s-%s' % (ctx, what.replace(' ', '-')), d.where('sign'), '%s: a coefficient may reach %d where the %s requires at most %d' % (ctx, b, what, lim),
                ob='range of ' + what)


def vecs(kind, vals):
    v = D.vec(kind, tuple(vals))
    return v


def el(v, i, lo=-Q + 1, hi=Q - 1):
    return D.atom(('elspec', v, i), lo, hi)


def celt(v, i):
    """residue class of an element of a vector"""
    kind, vals = D.VECS[v]
    key = D.VKEY.get(v)
    if key is None:
        key = D.VKEY[v] = ('el', kind, tuple(D.cls(x) for x in vals)) if kind in ('ntt', 'invntt', 'nttunpack') else ('el', kind, vals)
    n = D.CACL.setdefault(key, len(D.CACL))
    return ((((n, i),), 1),)


RINV = pow(pow(2, 32, Q), Q - 2, Q)


def cmont(a, b):
    return tuple((m, n * RINV % Q) for m, n in D.pmul(a, b))


class ClassVec:
    """vectors built by the specification, identified by the residue classes of their elements"""

    @staticmethod
    def key(kind, classes):
        return D.CACL.setdefault(('el', kind, tuple(classes)), len(D.CACL))

    @staticmethod
    def elem(kind, classes, n=256):
        k = ClassVec.key(kind, classes)
        return [((((k, i),), 1),) for i in range(n)]


def matrix(d, seed, k, l):
    """residue classes of A[k][l] in the order the implementation's transform uses"""
    v = D.vec('uniform', tuple(seed) + ((k << 8) + l,))
    a = [celt(v, i) for i in range(256)]
    if d.variant == 'avx2':
        return ClassVec.elem('nttunpack', a)
    return a


def cntt(vals):
    return ClassVec.elem('ntt', [v if isinstance(v, tuple) else D.cls(v) for v in vals])


def cinvntt(classes):
    return ClassVec.elem('invntt', classes)


def czero():
    return ()


# ---- verification
def chain_ids(st):
    return {e[2]: e for e in st.eventlist() if e[0] == 'hash'}


def hid_of(x):
    """(hash id, position) of a hash output byte"""
    if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        a = D.ATOM[x.t[0][0]]
        if a[0] == 'h':
            return a[1], a[2]
    return None


def whole_hash(l):
    """the id of the hash whose first bytes are exactly l"""
    h = [hid_of(x) for x in l]
    if not h or None in h or any(x != (h[0][0], i) for i, x in enumerate(h)):
        return None
    return h[0][0]


def hash_is(i, alg, data):
    return i is not None and csum.HASHES[i][0] == alg and tuple(csum.HASHES[i][1]) == tuple(data)


def describe(l):
    return ' '.join(D.show(x, 2) if not isinstance(x, tuple) else str(x) for x in list(l)[:4]) + (' ... (%d)' % len(l) if len(l) > 4 else '')


def mu_bytes(d, tr, m, mlen):
    """the message representative of the specification: H(tr || m)"""
    i = csum.HASH.get(('shake256', tuple(tr) + (('seg', m, 0, mlen),)))
    return None if i is None else [csum.hb(i, j) for j in range(64)]


def p25(d, R):
    """verification"""
    sig, pk = d.obj('sig', d.SIG), d.obj('pk', d.PK)
    m, mlen, siglen = d.obj('m'), d.len('mlen'), d.len('siglen')
    fn = 'crypto_sign_verify'
    if not d.has(fn):
        R.check(False, 'missing', d.where(fn), 'the verification function the bindings call does not exist')
        return
    outs = d.call(fn, [sig, siglen, m, mlen, pk])
    acc = accepting(d, outs)
    w = d.where(fn)
    R.info['outcomes'] = '%s/%s: %d outcomes of verification, %d accepting' % (d.scheme, d.variant, len(outs), len(acc))
    R.check(acc, 'never-accepts', w, 'no execution of verification returns 0', ob='an accepting execution exists')
    for st in acc:
        accept(d, R, st, w, siglen, mlen)
    ranges(d, R, 'verify')
    opening(d, R)


def accept(d, R, st, w, siglen, mlen):
    facts = expand(st.known)
    ge = gefacts(facts)
    # 1. length
    R.check(D.eq(add(siglen, -d.SIG)) in facts, 'siglen', w, 'verification can return 0 for a signature whose length is not the length of a signature (%d)' % d.SIG,
            ob='signature length is checked')
    for e in st.eventlist():
        if e[0] == 'oob':
            R.check(False, 'oob', w, 'verification reads %s at offset %s, outside the object' % (e[1], e[2]))
    # 2. norm of z
    zoff = d.CT
    zbytes = 32 * d.ZB
    F = []
    byb = {}
    for l in range(d.L):
        fs = fields(inb('sig', zoff + l * zbytes, zbytes), d.ZB, 256)
        F.append(fs)
        for i, f in enumerate(fs):
            byb[frozenset(D.leaves(f))] = (l, i)
    cond = {}
    for c in facts:
        if c[0] not in ('ge', 'eq', 'ne', 'or'):
            continue
        lv = D.leaves(c)
        k = byb.get(lv) if lv else None
        if k is not None:
            cond.setdefault(k, []).append(c)
    n = 1 << d.ZB
    bound = d.GAMMA1 - d.BETA
    shape = {}
    for l in range(d.L):
        for i in range(256):
            f = F[l][i]
            ok = [(0, n - 1)]
            cs = []
            for c in cond.get((l, i), []):
                e, names = D.abstract(c, (f,)) if False else abstract_cond(c, f)
                if not names:
                    cs.append(e)
            key = tuple(sorted(cs, key=str))
            r = shape.get(key)
            if r is None:
                r = shape[key] = allowed(key, n)
            want = (d.GAMMA1 - (bound - 1), d.GAMMA1 + bound - 1)
            lo, hi = (r[0][0], r[-1][1]) if r else (1, 0)
            R.check(r is not None and r == [want], 'z-norm', w,
                    'verification accepts z[%d][%d] = %s, the bound requires |z| < %d' % (l, i, '?' if r is None else ', '.join('%d..%d' % (d.GAMMA1 - b, d.GAMMA1 - a) for a, b in r[::-1]) or 'nothing', bound),
                    ob='infinity norm of z is bounded')
    # 3. hints
    hoff = zoff + d.L * zbytes
    hints(d, R, st, w, facts, ge, hoff)
    # 4. the challenge
    eqs = {}
    for c in facts:
        if c[0] == 'eq' and c[1].c == 0 and len(c[1].t) == 2 and sorted(k for _, k in c[1].t) == [-1, 1]:
            a, b = [D.ATOM[x] for x, _ in c[1].t]
            if a[0] == 'h':
                a, b = b, a
            if a[0] == 'in' and a[1] == 'sig' and b[0] == 'h':
                eqs.setdefault(a[2], []).append((b[1], b[2]))
    hs = {h for l in eqs.values() for h, j in l}
    best = max(hs, key=lambda h: sum((h, b) in eqs.get(b, ()) for b in range(d.CT)), default=None)
    for b in range(d.CT):
        R.check(best is not None and (best, b) in eqs.get(b, ()), 'challenge-compare', w,
                'verification can return 0 although byte %d of the challenge hash differs from the signature' % b, ob='challenge bytes are compared')
    if best is None:
        return
    alg, data = csum.HASHES[best]
    data = list(data)
    pkb = inb('pk', 0, d.PK)
    tr = csum.HASH.get(('shake256', tuple(pkb)))
    R.check(tr is not None, 'tr', w, 'no hash of the whole public key is computed', ob='hash of the public key')
    mu = None
    if tr is not None:
        mu = mu_bytes(d, [csum.hb(tr, j) for j in range(64)], 'm', mlen)
    R.check(alg == 'shake256' and mu is not None and data[:64] == mu, 'mu', w,
            'the challenge is not bound to H(H(pk) || message): it hashes %s' % describe(data[:64]), ob='challenge hash binds public key and message')
    wb = 32 * d.WB
    if len(data) != 64 + d.K * wb:
        R.check(False, 'w1-length', w, 'the challenge hash covers %d bytes instead of %d' % (len(data), 64 + d.K * wb), ob='challenge hash covers w1')
        return
    # 5. w1
    z = [[D.scale(add(f, -d.GAMMA1), -1) for f in fs] for fs in F]
    zh = [cntt(x) for x in z]
    ch = D.vec('challenge', tuple(inb('sig', 0, 32)))
    chh = cntt([celt(ch, i) for i in range(256)])
    rho = inb('pk', 0, 32)
    for k in range(d.K):
        t1 = [D.scale(f, 1 << 13) for f in fields(inb('pk', 32 + 320 * k, 320), 10, 256)]
        th = cntt(t1)
        acc = [()] * 256
        for l in range(d.L):
            a = matrix(d, rho, k, l)
            acc = [D.padd(x, cmont(p, q)) for x, p, q in zip(acc, a, zh[l])]
        acc = [D.padd(x, cmont(p, q), Q - 1) for x, p, q in zip(acc, chh, th)]
        want = cinvntt(acc)
        us = fields(data[64 + k * wb:64 + (k + 1) * wb], d.WB, 256)
        for i, u in enumerate(us):
            if not w1coef(d, R, w, st, k, i, u, want[i]):
                break


def abstract_cond(c, f):
    names = {}
    return D.abscond(c, (f,), names, {}), names


def allowed(conds, n):
    """the sub-ranges of [0, n) on which all conditions on variable 0 hold"""
    cur = [(0, n - 1)]
    for c in conds:
        p = D.pieces(c, 0, 0, n - 1)
        if p is None:
            continue
        new = []
        for a, b in cur:
            for l, h, v in p:
                if v and max(a, l) <= min(b, h):
                    new.append((max(a, l), min(b, h)))
        cur = new
    out = []
    for a, b in sorted(cur):
        if out and out[-1][1] == a - 1:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def w1coef(d, R, w, st, k, i, u, want):
    if not isinstance(u, Lin):
        return R.check(False, 'w1', w, 'coefficient %d of row %d of w1 is the constant %s' % (i, k, u), ob='w1 is UseHint(h, Az - c t1 2^d)')
    e, others = elatom(u, 'invntt')
    if e is None:
        R.undecided('w1[%d][%d] is not a function of one coefficient of Az - c t1 2^d' % (k, i))
        return False
    got = D.clsatom(e)
    if not R.check(got == want, 'w', w, 'w[%d][%d] is not A z - c t1 2^d modulo q' % (k, i), ob='w = Az - c t1 2^d modulo q'):
        return False
    if len(others) != 1 or not hintatom(d, st, k, i, others[0]):
        return R.check(False, 'hint-used', w, 'w1[%d][%d] does not use hint bit %d of row %d' % (k, i, i, k), ob='each coefficient uses its hint bit')
    lo, hi = D.AIV[e]
    for h in (0, 1):
        p = hpieces(u, single(e), single(others[0]), h, lo, hi)
        if p is None:
            R.undecided('UseHint of w[%d][%d] does not settle' % (k, i))
            return False
        sp = spec_pieces(('uh', d.GAMMA2, h, lo, hi), lambda r: usehint(h, r, d.GAMMA2), 2 * d.GAMMA2, lo, hi)
        if not R.check(p == sp, 'use-hint', w, 'w1[%d][%d] is not UseHint(%d, w)%s' % (k, i, h, firstdiff(p, sp)), ob='UseHint equals the specification on all residues'):
            return False
    return True


def firstdiff(p, q):
    pv, qv = iter(p), iter(q)
    for a, b in zip(p, q):
        if a != b:
            x = max(a[0], b[0]) if a[0] != b[0] else min(a[1], b[1])
            if a[:2] != b[:2] and a[2] == b[2]:
                x = min(a[1], b[1]) + 1
            f = lambda l: next((v for s, e, v in l if s <= x <= e), None)
            return ': for w = %d it is %s, the specification has %s' % (x, f(p), f(q))
    return ''


HP = {}


def hpieces(u, base, hint, h, lo, hi):
    e, names = D.abstract(u, (base, hint))
    if names:
        return None
    key = (e, h, lo, hi)
    r = HP.get(key)
    if r is None:
        r = HP[key] = D.pieces(e, 0, lo, hi, env={1: (h, h)}, limit=100000) or 0
    return r or None


def hintatom(d, st, k, i, a):
    """is the atom the value of coefficient i of the hint polynomial that the loop for row k fills"""
    x = D.ATOM[a]
    if x[0] != 'hv' or D.AIV[a][0] < 0 or D.AIV[a][1] > 1:
        return False
    g, obj, off = x[1], x[2], x[3]
    r = st.__dict__.get('hintrows') or {}
    if k not in r:
        return True
    return r[k] == (g, obj, off - 4 * i)


def ldpos(d, x):
    """the index form of a load of one signature byte at a variable position"""
    if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
        a = D.ATOM[x.t[0][0]]
        if a[0] == 'ld' and a[1] == 'sig':
            return a[2]
    return None


def loads(x, out, seen=None):
    """all signature loads in a form or condition"""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        if x[0] in ('and', 'or'):
            for y in x[1]:
                loads(y, out, seen)
        else:
            loads(x[1], out, seen)
        return
    if not isinstance(x, Lin) or x in seen:
        return
    seen.add(x)
    for a, k in x.t:
        t = D.ATOM[a]
        if t[0] == 'ld' and t[1] == 'sig':
            out.add(a)
        for y in t[1:]:
            if isinstance(y, Lin) or isinstance(y, tuple) and y and y[0] in ('ge', 'eq', 'ne', 'and', 'or'):
                loads(y, out, seen)


def hints(d, R, st, w, facts, ge, hoff):
    cnt = [D.atom(('in', 'sig', hoff + d.OMEGA + k), 0, 255) for k in range(d.K)]
    prev = 0
    for k in range(d.K):
        if k:
            R.check(proves(ge, add(cnt[k], prev, -1)), 'hint-monotone', w, 'verification accepts hint counters that decrease at row %d' % k, ob='hint counters do not decrease')
        R.check(proves(ge, add(d.OMEGA, cnt[k], -1)), 'hint-count', w, 'verification accepts a hint counter above %d at row %d' % (d.OMEGA, k), ob='hint counters are at most omega')
        prev = cnt[k]
    rows = {}
    padded = None
    unknown = []
    for info, nx, kind in loops(st):
        ctr = [(r, a) for r, a in info['atoms'].items()]
        sts = [e for _, _, ev, _ in info['back'] for e in ev if e[0] == 'symstore']
        pos = set()
        for e in sts:
            off = e[2]
            for a, n in off.t:
                t = D.ATOM[a]
                if t[0] == 'ld' and t[1] == 'sig':
                    pos.add((e[1], n, a, add(off, single(a), -n)))
        if pos:
            # a loop that sets hint coefficients
            row = find_row(d, R, st, w, info, pos, cnt, hoff)
            if row is None:
                unknown.append(info)
            else:
                rows[row[0]] = row[1]
            continue
        ls = set()
        for tr, _, _, _ in info['back']:
            for c in tr:
                loads(c, ls)
        if ls and len(ctr) == 1:
            p = padding(d, R, w, info, ctr[0], cnt[-1], hoff, facts, ge)
            if p:
                padded = info
    if unknown or (len(rows) < d.K and any(True for _ in loops(st))):
        R.undecided('hint decoding loops were not recognised for all rows (%d of %d)' % (len(rows), d.K))
    else:
        R.check(len(rows) == d.K, 'hint-order', w, 'the hint positions of the signature are not decoded row by row', ob='hint decoding loops found')
    st.__dict__['hintrows'] = {} if unknown else rows
    if padded is None:
        # some other way of looking at the unused positions?
        other = any(anyload(ph) or not any(e[0] == 'symstore' for e in ev) and anycond(tr) for i, _, _ in loops(st) for tr, ph, ev, _ in i['back'])
        if other:
            R.undecided('the check of the unused hint positions was not recognised')
        else:
            R.check(False, 'hint-padding', w, 'verification accepts signatures whose unused hint positions are not zero', ob='unused hint positions are zero')


def anyload(ph):
    s = set()
    for v in ph.values():
        if isinstance(v, Lin):
            loads(v, s)
    return s


def anycond(tr):
    s = set()
    for c in tr:
        loads(c, s)
    return s


def counter(info):
    if len(info['atoms']) != 1:
        return None
    (r, a), = info['atoms'].items()
    return r, a, info['init'][r]


def uview(a):
    """the counter as the unsigned number it is used as"""
    return D.asU(32, a)


def steps_by(info, r, a, n):
    for _, ph, _, _ in info['back']:
        x = D.modlin(add(ph[r], a, -1), 32) if isinstance(ph[r], Lin) else None
        if x != n:
            return False
    return True


def steps_by_one(info, r, a):
    return steps_by(info, r, a, 1)


def find_row(d, R, st, w, info, pos, cnt, hoff):
    """check the loop that decodes the hint positions of one row; (row, (loop id, object, base offset))"""
    c = counter(info)
    if c is None or len(pos) != 1:
        return None
    r, a, init = c
    (obj, n, ld, base), = pos
    if n != 4 or type(base) is not int:
        return None
    k = next((k for k in range(d.K) if (0 if k == 0 else cnt[k - 1]) == init), None)
    if k is None:
        # a counter may not start where the previous row ended
        R.check(False, 'hint-start', w, 'a hint loop starts at %s, not where the previous row ended' % D.show(init, 2), ob='each row starts where the previous one ended')
        return None
    j = D.ATOM[ld][2]
    js = add(j, -hoff)
    if not (D.modlin(add(js, a, -1), 32) == 0 and steps_by_one(info, r, a)):
        return None
    ok = True
    for tr, ph, ev, bs in info['back']:
        f = gefacts(expand(tr))
        first = proves(f, add(init, js, -1)) or any(c[0] == 'eq' and isinstance(c[1], Lin) and 0 in (D.modlin(add(add(c[1], a, s), init, -s), 32) for s in (1, -1)) for c in expand(tr))
        here, before = single(ld), D.atom(('ld', 'sig', add(j, -1), 1), 0, 255)
        inc = proves(f, add(add(here, before, -1), -1))
        # the previous index may be formed with a wrapping subtraction
        if not inc:
            for c in tr:
                s = set()
                loads(c, s)
                for x in s:
                    jj = D.ATOM[x][2]
                    if x != ld and D.modlin(add(add(jj, j, -1), 1), 32) == 0 and proves(f, add(add(here, single(x), -1), -1)):
                        inc = True
        ok &= R.check(first or inc, 'hint-order', w, 'verification accepts hint positions of row %d that are not strictly increasing' % k, ob='hint positions increase strictly')
        R.check(proves(f, add(add(cnt[k], js, -1), -1)), 'hint-end', w, 'the hint loop of row %d runs beyond its counter' % k, ob='hint loop stays below the counter')
        for e in ev:
            if e[0] == 'symstore':
                R.check(e[4] == 1, 'hint-one', w, 'the hint loop of row %d stores %s' % (k, e[4]), ob='hint loop stores one')
        if not any(e[0] == 'symstore' for e in ev):
            R.check(False, 'hint-skip', w, 'the hint loop of row %d can pass over a position' % k, ob='every position sets its coefficient')
    ex = gefacts(expand(st.known))
    R.check(proves(ex, add(js, cnt[k], -1)), 'hint-stop', w, 'the hint loop of row %d can stop before its counter' % k, ob='hint loop reaches the counter')
    return k, (info['id'], obj, base)


def padding(d, R, w, info, ctr, last, hoff, facts, ge):
    c = counter(info)
    r, a, init = c
    down = steps_by(info, r, a, -1)
    if not down and not steps_by_one(info, r, a):
        return False
    seen = False
    js = None
    for tr, _, _, _ in info['back']:
        f = expand(tr)
        s = set()
        for x in tr:
            loads(x, s)
        for x in s:
            j = add(D.ATOM[x][2], -hoff)
            if D.modlin(add(j, a, -1), 32) == 0 or down and D.modlin(add(add(j, a, -1), 1), 32) == 0:
                js = j
                seen = True
    if not seen:
        return False
    off = D.modlin(add(js, a, -1), 32)
    for tr, _, _, _ in info['back']:
        f = expand(tr)
        z = D.eq(D.atom(('ld', 'sig', add(js, hoff), 1), 0, 255))
        R.check(z in f, 'hint-padding', w, 'verification can skip over an unused hint position that is not zero', ob='unused hint positions are zero')
    if down:
        # from the last position down to the one after the last hint
        R.check(isinstance(init, (int, Lin)) and add(init, off) == d.OMEGA - 1, 'hint-padding-end', w, 'the check of the unused hint positions starts below position %d' % d.OMEGA, ob='check of unused positions covers all')
        R.check(proves(ge, add(add(last, js, -1), -1)) or proves(ge, add(add(last, D.asU(32, a), -1), -1 - off)), 'hint-padding-start', w, 'the check of the unused hint positions can stop before it reaches the last hint', ob='check of unused positions starts after the last hint')
        return True
    R.check(init == last, 'hint-padding-start', w, 'the check of the unused hint positions starts at %s' % D.show(init, 2), ob='check of unused positions starts after the last hint')
    R.check(proves(ge, add(js, -d.OMEGA)), 'hint-padding-end', w, 'the check of the unused hint positions can stop before position %d' % d.OMEGA, ob='check of unused positions covers all')
    return True


def opening(d, R):
    """crypto_sign_open"""
    fn = 'crypto_sign_open'
    if not d.has(fn):
        return
    d.fresh()
    calls = []

    def verify(I, st, name, a, line):
        r = D.atom(('verified', len(calls)), -1, 0)
        calls.append(a)
        st.ev(('verify', a, r))
        return r
    d.S.f_crypto_sign_verify = verify
    smlen = d.len('smlen')
    m, ml, sm, pk = d.obj('m', None, 'undef'), d.obj('mlen', 8, 'undef'), d.obj('sm'), d.obj('pk', d.PK)
    outs = d.call(fn, [m, ml, sm, smlen, pk])
    w = d.where(fn)
    acc = accepting(d, outs)
    R.check(acc, 'open-never', w, 'opening never succeeds', ob='an accepting execution exists')
    for st in acc:
        f = expand(st.known)
        vs = [e for e in st.eventlist() if e[0] == 'verify']
        good = [e for e in vs if D.eq(e[2]) in f]
        if not R.check(good, 'open-unverified', w, 'opening returns 0 although verification failed or was not called', ob='opening requires verification'):
            continue
        a = good[0][1]
        n = D.add(smlen, -d.SIG)
        ptr = lambda p, o, off: isinstance(p, cint.Ptr) and p.o == o.o and p.off == off
        R.check(ptr(a[0], sm, 0) and a[1] == d.SIG, 'open-sig', w, 'opening does not verify the first %d bytes as the signature' % d.SIG, ob='signature argument of verify')
        R.check(ptr(a[2], sm, d.SIG) and D.modlin(add(a[3], n, -1), 64) == 0, 'open-msg', w, 'opening verifies another message than the bytes after the signature', ob='message argument of verify')
        R.check(ptr(a[4], pk, 0), 'open-pk', w, 'opening verifies under another key', ob='key argument of verify')
        R.check(proves(gefacts(f), n), 'open-short', w, 'opening accepts input shorter than a signature', ob='length checked before opening')
        got = d.I.load(st, ml, 8)
        R.check(isinstance(got, (int, Lin)) and D.modlin(add(got, n, -1), 64) == 0, 'open-mlen', w, 'the message length returned is not the input length less the signature', ob='message length returned')
        copied(d, R, st, m, 0, sm, 'sm', d.SIG, n, 'open-copy', w, 'the opened message')
    for st, v in outs:
        vs = [e for e in st.eventlist() if e[0] == 'verify']
        if vs:
            ok = proves(gefacts(expand(st.known)), add(smlen, -d.SIG))
            R.check(ok, 'open-underflow', w, 'verification is called with a message length below zero', ob='length checked before opening')


def copied(d, R, st, dst, doff, src, sname, soff, n, key, w, what, before=None):
    """n bytes are copied from src + soff to dst + doff (before the given kind of event): one copy of the whole segment or a
    loop over every index, in either direction"""
    evs = st.eventlist()
    if before:
        k = next((i for i, e in enumerate(evs) if e[0] == before), len(evs))
        evs = evs[:k]
    ob = 'the whole message is copied'
    off = lambda x, y: isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and D.modlin(add(x, y, -1), 64) == 0
    f = gefacts(expand(st.known))
    seen = []
    for e in evs:
        if e[0] == 'segcopy' and e[1] == dst.o and e[4] == src.o:
            if off(e[2], doff) and off(e[3], n) and off(e[5], soff):
                R.check(True, key, w, '', ob=ob)
                return
            seen.append('a copy of %s bytes' % D.show(e[3], 2))
        if e[0] != 'loop' or not e[1]['atoms']:
            continue
        info = e[1]
        for tr, ph, ev, bs in info['back']:
            ss = [x for x in ev if x[0] == 'symstore' and x[1] == dst.o]
            if len(ss) != 1 or ss[0][3] != 1 or not isinstance(ss[0][4], Lin):
                continue
            v = ss[0][4]
            a = D.ATOM[v.t[0][0]] if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
            if not a or a[0] != 'ld' or a[1] != sname:
                continue
            to = add(ss[0][2], doff, -1)
            fro = next((add(y, soff, -1) for y in a[2:] if isinstance(y, (int, Lin))), None)
            if fro is None:
                continue
            if len(info['back']) != 1:
                seen.append('a loop with several paths')
                continue
            if not off(to, fro):
                seen.append('the bytes go to other positions than they come from')
                continue
            hit = wrong = False
            for r, x in info['atoms'].items():
                step = D.modlin(add(ph[r], x, -1), 64) if isinstance(ph[r], Lin) else None
                if step is None or not isinstance(step, int):
                    continue
                init = info['init'][r]
                left = lambda form: any(off(g, form(x)) or off(g, form(D.asU(64, x))) or off(g, form(D.asS(64, x))) for g in geforms(st))
                neg = lambda form: left(form) or any(c[0] == 'eq' and off(add(c[1], form(x)), 0) for c in expand(st.known))
                if step == 1 and (off(to, x) or off(add(add(to, x), add(n, -1), -1), 0)):
                    # upwards, the index being the counter or its mirror image: left only when the counter has reached n
                    good = off(init, 0) and neg(lambda x: add(x, n, -1))
                elif step == -1 and off(add(to, 1), x):
                    # downwards from n, the index being the counter less one: left only at zero
                    good = off(init, n) and neg(lambda x: D.scale(x, -1))
                elif step == -1 and off(to, x):
                    good = off(init, add(n, -1)) and left(lambda x: add(D.scale(x, -1), -1))
                else:
                    continue
                hit |= good
                wrong |= not good
            if hit:
                R.check(True, key, w, '', ob=ob)
                return
            if not wrong:
                continue
            seen.append('the loop does not visit every index below the length')
    if seen:
        R.check(False, key, w, '%s is not copied completely: %s' % (what, seen[0]), ob=ob)
        return
    st_ = list(st.eventlist())
    for e in st.eventlist():
        if e[0] == 'loop':
            for tr, ph, ev, bs in e[1]['back']:
                st_ += ev
    if any(e[0] in ('symstore', 'segcopy', 'symcopy') and e[1] == dst.o for e in st_):
        R.undecided('the copy of %s was not recognised' % what)
    elif not proves(f, D.scale(n, -1)):
        R.check(False, key, w, '%s is not copied' % what, ob=ob)


def geforms(st):
    return [c[1] for c in expand(st.known) if c[0] in ('ge', 'eq')]


def signed_message(d, R):
    """crypto_sign"""
    fn = 'crypto_sign'
    if not d.has(fn):
        return
    d.fresh()
    w = d.where(fn)

    def signature(I, st, name, a, line):
        st.ev(('signature', a))
        I.store(st, a[1], 8, d.SIG)
        return 0
    d.S.f_crypto_sign_signature = signature
    mlen = d.len('mlen')
    sm, sl, m, sk = d.obj('sm', None, 'undef'), d.obj('smlen', 8, 'undef'), d.obj('m'), d.obj('sk', d.SK)
    outs = d.call(fn, [sm, sl, m, mlen, sk])
    ptr = lambda p, o, off: isinstance(p, cint.Ptr) and p.o == o.o and p.off == off
    for st in accepting(d, outs):
        es = [e for e in st.eventlist() if e[0] == 'signature']
        if not R.check(len(es) == 1, 'sign-calls', w, 'crypto_sign signs %d times' % len(es), ob='one signature is made'):
            continue
        a = es[0][1]
        R.check(ptr(a[0], sm, 0), 'sign-to', w, 'the signature is not written at the start of the signed message', ob='signature argument of crypto_sign_signature')
        R.check((ptr(a[2], sm, d.SIG) or ptr(a[2], m, 0)) and D.modlin(add(a[3], mlen, -1), 64) == 0, 'sign-msg', w, 'crypto_sign signs something else than the whole message', ob='message argument of crypto_sign_signature')
        R.check(ptr(a[4], sk, 0), 'sign-key', w, 'crypto_sign signs with another key', ob='key argument of crypto_sign_signature')
        copied(d, R, st, sm, d.SIG, m, 'm', 0, mlen, 'sign-copy', w, 'the message in the signed message', 'signature' if ptr(a[2], sm, d.SIG) else None)
        got = d.I.load(st, sl, 8)
        R.check(isinstance(got, (int, Lin)) and D.modlin(add(add(got, mlen, -1), -d.SIG), 64) == 0, 'sign-len', w, 'the length returned is not that of signature and message', ob='signed message length returned')


# ---- signing
def modular(d):
    """summaries for the norm check, the hint computation and (where it is a function) the signature encoder"""
    S = d.S

    def chknorm(I, st, name, a, line):
        v = csum.rd(I, st, a[0])
        r = D.atom(('norm', D.vec('norm', v), a[1]), 0, 1)
        return r

    def make_hint(I, st, name, a, line):
        x, y = csum.rd(I, st, a[1]), csum.rd(I, st, a[2])
        k = D.vec('hint', (x, y))
        if d.variant == 'clean':
            for i in range(256):
                I.store(st, cint.Ptr(a[0].o, add(a[0].off, 4 * i)), 4, D.atom(('el', k, i), 0, 1))
        else:
            I.putbytes(st, a[0], [D.atom(('hintpos', k, i), 0, 255) for i in range(256)])
        return D.atom(('nhint', k), 0, 256)

    def pack_sig(I, st, name, a, line):
        c = I.bytes(st, a[1], d.CT)
        z = [csum.rd(I, st, cint.Ptr(a[2].o, add(a[2].off, 1024 * l))) for l in range(d.L)]
        h = [csum.rd(I, st, cint.Ptr(a[3].o, add(a[3].off, 1024 * l))) for l in range(d.K)]
        st.ev(('pack_sig', a[0], c, z, h))

    def polyz_pack(I, st, name, a, line):
        # what the encoder does for coefficients in range is decided on its own; the range is an obligation on every release
        b = []
        for x in csum.rd(I, st, a[1]):
            b += D.bits(d.ZB, add(d.GAMMA1, x, -1))
        I.putbytes(st, a[0], [D.frombits(8, b[j:j + 8]) for j in range(0, len(b), 8)])
    S.f_polyz_pack = polyz_pack
    S.f_poly_chknorm = chknorm
    S.f_poly_make_hint = make_hint
    if d.variant == 'clean':
        S.f_pack_sig = pack_sig


def skparts(d):
    """the parts of the secret key: rho, key, tr, s1, s2, t0 (coefficients as forms)"""
    o = 0
    rho = inb('sk', 0, 32)
    key = inb('sk', 32, 32)
    tr = inb('sk', 64, 64)
    o = 128
    w = 32 * d.SB
    s1 = [[D.scale(add(f, -d.ETA), -1) for f in fields(inb('sk', o + w * l, w), d.SB, 256)] for l in range(d.L)]
    o += w * d.L
    s2 = [[D.scale(add(f, -d.ETA), -1) for f in fields(inb('sk', o + w * l, w), d.SB, 256)] for l in range(d.K)]
    o += w * d.K
    t0 = [[D.scale(add(f, -(1 << 12)), -1) for f in fields(inb('sk', o + 416 * l, 416), 13, 256)] for l in range(d.K)]
    return rho, key, tr, s1, s2, t0


def p26(d, R):
    """signing"""
    fn = 'crypto_sign_signature'
    if not d.has(fn):
        R.check(False, 'missing', d.where(fn), 'the signing function the bindings call does not exist')
        return
    modular(d)
    sig, sl, sk = d.obj('sig', d.SIG, 'undef'), d.obj('siglen', 8, 'undef'), d.obj('sk', d.SK)
    m, mlen = d.obj('m'), d.len('mlen')
    outs = d.call(fn, [sig, sl, m, mlen, sk])
    acc = accepting(d, outs)
    w = d.where(fn)
    R.info['outcomes'] = '%s/%s: %d outcomes of signing, %d releasing a signature' % (d.scheme, d.variant, len(outs), len(acc))
    R.check(acc, 'never-signs', w, 'no execution of signing returns 0', ob='a releasing execution exists')
    for st in acc:
        release(d, R, st, w, sig, sl, mlen)
    ranges(d, R, 'sign')
    signed_message(d, R)


def release(d, R, st, w, sig, sl, mlen):
    facts = expand(st.known)
    ge = gefacts(facts)
    I = d.I
    for e in st.eventlist():
        if e[0] == 'oob':
            R.check(False, 'oob', w, 'signing touches %s at offset %s, outside the object' % (e[1], e[2]))
    got = I.load(st, sl, 8)
    R.check(got == d.SIG, 'siglen', w, 'the signature length returned is %s' % (got,), ob='signature length returned')
    rho, key, tr, s1, s2, t0 = skparts(d)
    pk = [e for e in st.eventlist() if e[0] == 'pack_sig']
    if pk:
        _, dst, ctil, z, h = pk[-1]
        R.check(dst == sig, 'pack-to', w, 'the signature is encoded elsewhere than in the output', ob='signature is encoded into the output')
    else:
        ctil = I.bytes(st, sig, d.CT)
        z = None
        h = None
        zb = 32 * d.ZB
        Z = []
        for l in range(d.L):
            fs = fields(I.bytes(st, cint.Ptr(sig.o, d.CT + l * zb), zb), d.ZB, 256)
            Z.append([unfield(d, f) for f in fs])
        z = Z
    # the challenge
    hid = whole_hash(ctil)
    if not R.check(hid is not None and csum.HASHES[hid][0] == 'shake256', 'challenge', w, 'the first bytes of the signature are not the output of one hash', ob='challenge is a hash output'):
        return
    data = list(csum.HASHES[hid][1])
    mu = mu_bytes(d, tr, 'm', mlen)
    R.check(mu is not None and data[:64] == mu, 'mu', w, 'the challenge does not hash H(tr || message)', ob='challenge binds key and message')
    wb = 32 * d.WB
    if not R.check(len(data) == 64 + d.K * wb, 'w1-length', w, 'the challenge hashes %d bytes' % len(data), ob='challenge hashes w1'):
        return
    # the commitment randomness
    zero = [0] * 32
    rp = None if mu is None else csum.HASH.get(('shake256', tuple(key) + tuple(zero) + tuple(mu)))
    ch = D.vec('challenge', tuple(ctil[:32]))
    chh = cntt([celt(ch, i) for i in range(256)])
    ys = []
    nonces = []
    for l in range(d.L):
        y = None
        for i in range(256):
            x = z[l][i]
            if not isinstance(x, Lin):
                R.undecided('z[%d][%d] is not a form' % (l, i))
                return
            yl = [D.ATOM[a] for a, k in x.t if D.ATOM[a][0] == 'el' and D.VECS[D.ATOM[a][1]][0] == 'gamma1']
            cs = [a for a, k in x.t if D.ATOM[a][0] == 'el' and D.VECS[D.ATOM[a][1]][0] == 'invntt']
            if len(yl) != 1:
                R.check(False, 'z-form', w, 'z[%d][%d] is not masked by one coefficient of a freshly sampled vector' % (l, i), ob='z is y + c s1')
                return
            if y is None:
                y = yl[0][1]
            R.check(yl[0][1] == y and yl[0][2] == i, 'z-y', w, 'z[%d][%d] is masked by another coefficient of y' % (l, i), ob='z is y + c s1')
        ys.append(y)
        want = cinvntt([cmont(p, q) for p, q in zip(chh, cntt(s1[l]))])
        yc = [celt(y, i) for i in range(256)]
        for i in range(256):
            if not R.check(D.cls(z[l][i]) == D.padd(yc[i], want[i]), 'z', w, 'z[%d][%d] is not y + c s1 modulo q' % (l, i), ob='z is y + c s1'):
                break
        seed = D.VECS[y][1]
        R.check(rp is not None and whole_hash(seed[:64]) == rp and len(seed) == 65, 'y-seed', w,
                'y[%d] is not sampled from H(key || rnd || mu)' % l, ob='y is derived from key and message')
        nonces.append(seed[-1])
    nonce(d, R, st, w, nonces)
    norms(d, R, w, facts, st, z, 'z', d.GAMMA1 - d.BETA)
    # w = A y and its high bits
    W = []
    for k in range(d.K):
        acc = [()] * 256
        for l in range(d.L):
            a = matrix(d, rho, k, l)
            yh = cntt([celt(ys[l], i) for i in range(256)])
            acc = [D.padd(x, cmont(p, q)) for x, p, q in zip(acc, a, yh)]
        want = cinvntt(acc)
        us = fields(data[64 + k * wb:64 + (k + 1) * wb], d.WB, 256)
        els = []
        for i, u in enumerate(us):
            e, others = elatom(u, 'invntt')
            if e is None or others:
                R.undecided('w1[%d][%d] is not a function of one coefficient of A y' % (k, i))
                return
            els.append(e)
            if not R.check(D.clsatom(e) == want[i], 'w', w, 'w[%d][%d] is not A y modulo q' % (k, i), ob='w is A y modulo q'):
                return
            lo, hi = D.AIV[e]
            p = pieces(u, single(e), lo, hi)
            if p is None:
                R.undecided('HighBits of w[%d][%d] does not settle' % (k, i))
                return
            sp = spec_pieces(('hb', d.GAMMA2, lo, hi), lambda r: decompose(r, d.GAMMA2)[0], 2 * d.GAMMA2, lo, hi)
            if not R.check(p == sp, 'high-bits', w, 'w1[%d][%d] is not HighBits(w)%s' % (k, i, firstdiff(p, sp)), ob='HighBits equals the specification on all residues'):
                return
        W.append((us, els))
    # low bits and hints
    T = []
    hvs = sorted({D.ATOM[a][1] for a in ge if D.ATOM[a][0] == 'nhint'})
    total = 0
    seen = []
    for k in range(d.K):
        us, els = W[k]
        cs2 = cinvntt([cmont(p, q) for p, q in zip(chh, cntt(s2[k]))])
        ct0 = cinvntt([cmont(p, q) for p, q in zip(chh, cntt(t0[k]))])
        low = [D.padd(D.clsatom(e), D.cls(u), (-2 * d.GAMMA2) % Q) for e, u in zip(els, us)]
        r0 = [D.padd(a, b, Q - 1) for a, b in zip(low, cs2)]
        v0 = find_norm(d, facts, r0, d.GAMMA2 - d.BETA)
        R.check(v0 is not None, 'r0-norm', w, 'a signature can be released although LowBits(w) - c s2 of row %d is not below gamma2 - beta' % k, ob='low bits are bounded before release')
        v1 = find_norm(d, facts, ct0, d.GAMMA2)
        R.check(v1 is not None, 'ct0-norm', w, 'a signature can be released although c t0 of row %d is not below gamma2' % k, ob='c t0 is bounded before release')
        want = [D.padd(a, b) for a, b in zip(r0, ct0)]
        hv = next((v for v in hvs if v not in seen and [D.cls(x) for x in D.VECS[v][1][0]] == want and list(D.VECS[v][1][1]) == us), None)
        R.check(hv is not None, 'hint', w, 'the hints of row %d are not MakeHint(LowBits(w) - c s2 + c t0, w1)' % k, ob='hints are computed from w0 - c s2 + c t0 and w1')
        if hv is None:
            return
        seen.append(hv)
        total = add(total, D.atom(('nhint', hv), 0, 256))
        if v0 is not None and v1 is not None:
            # the low part handed to MakeHint is the one whose norms were checked
            same = all(add(add(x, a, -1), b, -1) == 0 for x, a, b in zip(D.VECS[hv][1][0], D.VECS[v0][1], D.VECS[v1][1]))
            R.check(same, 'hint-low', w, 'MakeHint of row %d does not use the values whose norms were checked' % k, ob='hints use the checked values')
        if h is not None:
            R.check([D.ATOM[x.t[0][0]] if isinstance(x, Lin) else None for x in h[k]] == [('el', hv, i) for i in range(256)], 'hint-packed', w,
                    'the hints encoded for row %d are not the computed ones' % k, ob='computed hints are encoded')
    R.check(proves(ge, add(d.OMEGA, total, -1)), 'hint-weight', w, 'a signature with more than %d hints can be released' % d.OMEGA, ob='number of hints is bounded before release')
    if h is None:
        hint_out(d, R, st, w, sig, seen, ge)


def unfield(d, f):
    """the coefficient behind a field gamma1 - z of the encoding"""
    if isinstance(f, Lin) and len(f.t) == 1 and f.t[0][1] == 1 and f.c == 0:
        a = D.ATOM[f.t[0][0]]
        if a[0] == 'sl' and a[2] == 0:
            f = a[1]
        elif a[0] == 'u':
            f = a[2]
    return D.scale(add(f, -d.GAMMA1), -1) if isinstance(f, Lin) else f


def find_norm(d, facts, classes, bound):
    """a vector with these residue classes whose norm check against the bound has been passed"""
    for c in facts:
        if c[0] == 'eq' and len(c[1].t) == 1:
            a = D.ATOM[c[1].t[0][0]]
            if a[0] == 'norm' and a[2] == bound and c[1].c == 0:
                v = D.VECS[a[1]][1]
                if D.cls(v[0]) == classes[0] and all(D.cls(x) == y for x, y in zip(v, classes)):
                    return a[1]
    return None


def norms(d, R, w, facts, st, z, name, bound):
    have = set()
    for c in facts:
        if c[0] == 'eq' and len(c[1].t) == 1 and c[1].c == 0:
            a = D.ATOM[c[1].t[0][0]]
            if a[0] == 'norm' and type(a[2]) is int and a[2] <= bound:
                have.add((D.VECS[a[1]][1]))
    for l, v in enumerate(z):
        R.check(tuple(v) in have, '%s-norm' % name, w, 'a signature can be released although %s[%d] was not checked against the bound %d' % (name, l, bound), ob='norm of z is bounded before release')


def nonce(d, R, st, w, nonces):
    """the nonces of one iteration are distinct and no later iteration uses them again"""
    base = nonces[0]
    for l, n in enumerate(nonces):
        R.check(D.modlin(add(add(n, base, -1), -l), 16) == 0, 'nonce-step', w, 'the polynomials of y do not use consecutive nonces', ob='nonces within one attempt are distinct')
    lp = [i for i, n, k in loops(st)]
    info = next((i for i in lp if i['fn'].endswith('crypto_sign_signature') and i['atoms']), None)
    if info is None:
        if any(i['fn'].endswith('crypto_sign_signature') for i in lp):
            R.check(False, 'nonce-reuse', w, 'the nonce is the same in every attempt', ob='nonces are not reused in later attempts')
        else:
            R.undecided('the rejection loop was not recognised')
        return
    base = D.modlin(base, 16)
    at = [(a, k) for a, k in base.t] if isinstance(base, Lin) else []
    hit = None
    for r, x in info['atoms'].items():
        xb = x.t[0][0]
        if len(at) == 1 and at[0][0] == xb:
            hit = (r, x, at[0][1])
    if hit is None:
        R.check(False, 'nonce-reuse', w, 'the nonce %s does not change between attempts' % D.show(nonces[0], 2), ob='nonces are not reused in later attempts')
        return
    r, x, k = hit
    for tr, ph, ev, bs in info['back']:
        n = ph[r]
        R.check(isinstance(n, Lin) and D.modlin(add(D.scale(add(n, x, -1), k), -d.L), 16) == 0, 'nonce-reuse', w,
                'a later attempt may use nonces of an earlier one', ob='nonces are not reused in later attempts')


def hint_out(d, R, st, w, sig, hvs, ge):
    """the hint part of the signature, written in place"""
    off = d.CT + 32 * d.ZB * d.L
    cps = [e for e in st.eventlist() if e[0] == 'symcopy' and e[1] == sig.o]
    pos = 0
    for k, hv in enumerate(hvs):
        n = D.atom(('nhint', hv), 0, 256)
        c = next((e for e in cps if add(e[2], add(off, pos), -1) == 0 and add(e[3], n, -1) == 0), None)
        R.check(c is not None and c[4] and c[4][0] == D.atom(('hintpos', hv, 0), 0, 255), 'hint-positions', w,
                'the hint positions of row %d are not copied behind those of the previous rows' % k, ob='hint positions are encoded in order')
        if c is not None:
            behind = [x for j, x in enumerate(c[6], c[5]) if off <= j < off + d.OMEGA]
            clean = all(type(x) is int and x == 0 or isinstance(x, Lin) and D.ATOM[x.t[0][0]][0] == 'weak' and len(D.ATOM[x.t[0][0]]) == 4 for x in behind)
            R.check(clean and (k or len(behind) == d.OMEGA), 'hint-padding', w, 'the unused hint positions are not zero when the positions of row %d are written' % k, ob='unused hint positions are zero')
        pos = add(pos, n)
        v = d.I.load(st, cint.Ptr(sig.o, off + d.OMEGA + k), 1)
        R.check(isinstance(v, Lin) and D.modlin(add(v, pos, -1), 8) == 0, 'hint-counter', w, 'the hint counter of row %d is not the number of hints so far' % k, ob='hint counters are encoded')


# ---- key generation
def p27(d, R):
    """key generation"""
    fns = [('crypto_sign_keypair', None)]
    if d.variant == 'clean':
        fns.append(('crypto_sign_keypair_det', 32))
    for fn, n in fns:
        d.fresh()
        w = d.where(fn)
        if not d.has(fn):
            R.check(False, 'missing', w, 'the key generation function %s that the bindings call does not exist' % fn)
            continue
        pk, sk = d.obj('pk', d.PK, 'undef'), d.obj('sk', d.SK, 'undef')
        args = [pk, sk]
        if n:
            args = [d.obj('coins', n)] + args
        outs = d.call(fn, args)
        acc = accepting(d, outs)
        R.info['outcomes ' + fn] = '%s/%s: %d outcomes of %s, %d returning 0' % (d.scheme, d.variant, len(outs), fn, len(acc))
        R.check(len(acc) == len(outs) and acc, '%s:returns' % fn, w, '%s may return something else than 0' % fn, ob='key generation succeeds')
        for st in acc:
            generated(d, R, st, fn, w, pk, sk, n)
        ranges(d, R, fn)


def generated(d, R, st, fn, w, pk, sk, det):
    K = lambda s: '%s:%s' % (fn, s)
    for e in st.eventlist():
        if e[0] == 'oob':
            R.check(False, K('oob'), w, '%s touches %s at offset %s, outside the object' % (fn, e[1], e[2]))
    I = d.I
    P = I.bytes(st, pk, d.PK)
    S = I.bytes(st, sk, d.SK)
    h = hid_of(P[0])
    if not R.check(h is not None and csum.HASHES[h[0]][0] == 'shake256' and h[1] == 0, K('rho'), w, 'the public key does not start with the first bytes of a hash', ob='rho comes from the seed'):
        return
    hid = h[0]
    hb = lambda a, b: [csum.hb(hid, j) for j in range(a, b)]
    data = list(csum.HASHES[hid][1])
    if det:
        R.check(data == inb('coins', 0, det), K('seed'), w, 'the keys are not expanded from the %d coins alone' % det, ob='keys are expanded from exactly the 32 coins')
    else:
        at = [D.ATOM[x.t[0][0]] if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None for x in data]
        R.check(len(at) == 32 and all(a and a[0] == 'rnd' and a[1] == at[0][1] and a[2] == j for j, a in enumerate(at)), K('seed'), w,
                'the keys are not expanded from 32 fresh random bytes', ob='keys are expanded from 32 random bytes')
    R.check(list(P[:32]) == hb(0, 32), K('rho'), w, 'rho is not the first 32 bytes of the expanded seed', ob='rho comes from the seed')
    R.check(list(S[:32]) == hb(0, 32), K('sk-rho'), w, 'the secret key does not start with rho', ob='secret key holds rho, key and tr')
    R.check(list(S[32:64]) == hb(96, 128), K('key'), w, 'the signing key part of the secret key is not bytes 96..128 of the expanded seed', ob='secret key holds rho, key and tr')
    tr = whole_hash(S[64:128])
    R.check(hash_is(tr, 'shake256', P), K('tr'), w, 'tr is not the hash of the whole public key', ob='secret key holds rho, key and tr')
    rho, rhop = hb(0, 32), hb(32, 96)
    # the secret vectors
    o = 128
    eb = 32 * d.SB
    vs = []
    for j in range(d.L + d.K):
        name = 's1[%d]' % j if j < d.L else 's2[%d]' % (j - d.L)
        fs = fields(S[o:o + eb], d.SB, 256)
        o += eb
        v = D.vec('eta', tuple(rhop) + (j,))
        for i, f in enumerate(fs):
            x = add(f, -d.ETA)
            a = D.ATOM[x.t[0][0]] if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == -1 and x.c == 0 else None
            if not R.check(a == ('el', v, i), K('s'), w, 'the coefficient %d of %s in the secret key is not that of the vector sampled from rho\' with nonce %d' % (i, name, j), ob='secret vectors are sampled from the seed with distinct nonces'):
                return
        vs.append(v)
    # t = A s1 + s2
    for k in range(d.K):
        acc = [()] * 256
        for l in range(d.L):
            a = matrix(d, rho, k, l)
            sh = cntt([celt(vs[l], i) for i in range(256)])
            acc = [D.padd(x, cmont(p, q)) for x, p, q in zip(acc, a, sh)]
        want = cinvntt(acc)
        hi = fields(P[32 + 320 * k:32 + 320 * (k + 1)], 10, 256)
        lo = fields(S[o:o + 416], 13, 256)
        o += 416
        for i in range(256):
            f = hi[i]
            e, others = elatom(f, 'invntt')
            if e is None or len(others) != 1 or D.ATOM[others[0]] != ('el', vs[d.L + k], i):
                if e is not None and len(others) <= 1:
                    R.check(False, K('t'), w, 't1[%d][%d] is not a function of one coefficient of A s1 and the same coefficient of s2' % (k, i), ob='t is A s1 + s2 modulo q')
                else:
                    R.undecided('%s: t1[%d][%d] is not a function of one coefficient of A s1 + s2' % (fn, k, i))
                return
            if not R.check(D.clsatom(e) == want[i], K('t'), w, 'the coefficient %d of t[%d] is not that of A s1 + s2 modulo q' % (i, k), ob='t is A s1 + s2 modulo q'):
                return
            base = add(single(e), single(others[0]))
            l0, h0 = base.iv
            p = pieces(f, base, l0, h0)
            if p is None:
                R.undecided('%s: Power2Round of t[%d][%d] does not settle' % (fn, k, i))
                return
            q = spec_pieces(('t1', l0, h0), lambda r: power2round(r)[0], 1 << 13, l0, h0)
            if not R.check(p == q, K('t1'), w, 't1[%d][%d] is not the high part of Power2Round%s' % (k, i, firstdiff(p, q)), ob='Power2Round equals the specification on all residues'):
                return
            low = lowpart(lo[i])
            if low is None:
                R.undecided('%s: t0[%d][%d] may be cut off when it is encoded: %s' % (fn, k, i, D.show(lo[i], 3)[:200]))
                return
            t = D.padd(want[i], celt(vs[d.L + k], i))
            if not R.check(D.cls(low) == D.padd(t, D.cls(f), (-1 << 13) % Q), K('t0'), w, 't0[%d][%d] in the secret key is not t - t1 2^13' % (k, i), ob='t0 is t - t1 2^d'):
                return


def lowpart(f):
    """the coefficient behind a 13-bit field 2^12 - t0 that loses nothing"""
    if isinstance(f, Lin) and len(f.t) == 1 and f.t[0][1] == 1 and f.c == 0 and D.ATOM[f.t[0][0]][0] in ('sl', 'u'):
        a = D.ATOM[f.t[0][0]]
        if a[0] == 'sl' and a[2] != 0 or (a[3] if a[0] == 'sl' else a[1]) < 13:
            return None
        x = a[1] if a[0] == 'sl' else a[2]
        lo, hi = D.hull(x)
        if lo < 0 or hi >= 1 << 13:
            return None
        f = x
    return D.scale(add(f, -(1 << 12)), -1) if isinstance(f, Lin) else None


# ---- helpers the signing and verification rules take as functions of their inputs
REDUCED = 6283009        # largest absolute value after reduce32


def symbolic(d, name, lo, hi, n=1, kind='undef'):
    """n polynomials with arbitrary coefficients in [lo, hi]"""
    p = d.obj(name, 1024 * n, kind)
    out = []
    for l in range(n):
        v = D.vec(name, (l,))
        xs = []
        for i in range(256):
            x = lo if lo == hi else D.atom(('el', v, i), lo, hi)
            d.I.store(d.st, cint.Ptr(p.o, 1024 * l + 4 * i), 4, x)
            xs.append(x)
        out.append(xs)
    return p, out


def within(conds, x, lo, hi):
    """the sub-ranges of [lo, hi] of the coefficient x on which all the conditions hold; None if one is not decided"""
    cur = [(lo, hi)]
    for c in conds:
        e, names = abstract_cond(c, x)
        if names:
            return None
        k = ('w', e, lo, hi)
        p = PIECES.get(k)
        if p is None:
            p = PIECES[k] = D.pieces(e, 0, lo, hi, limit=60000) or 0
        if not p:
            return None
        cur = [(max(a, l), min(b, h)) for a, b in cur for l, h, v in p if v and max(a, l) <= min(b, h)]
    out = []
    for a, b in sorted(cur):
        if out and out[-1][1] == a - 1:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def p28(d, R):
    """norm check, hints, encoders and transforms"""
    done(d, R, chknorm_rule)
    done(d, R, make_hint_rule)
    done(d, R, polyz_rule)
    if d.variant == 'clean':
        done(d, R, pack_sig_rule)
        done(d, R, ntt_rule)


def done(d, R, f):
    """one part of a rule; what stops it does not stop the others"""
    d.fresh()
    try:
        f(d, R)
    except (cint.Stuck, cint.Restart) as e:
        R.undecided('%s: the analysis could not follow the code: %s' % (f.__name__, str(e)[:200]))


def chknorm_rule(d, R):
    fn = 'poly_chknorm'
    if not d.has(fn):
        R.undecided('no function ' + fn)
        return
    w = d.where(fn)
    for what, B in (('gamma1 - beta', d.GAMMA1 - d.BETA), ('gamma2 - beta', d.GAMMA2 - d.BETA), ('gamma2', d.GAMMA2)):
        d.fresh()
        p, (xs,) = symbolic(d, 'a', -REDUCED, REDUCED)
        outs = d.call(fn, [p, B])
        acc = accepting(d, outs)
        if not R.check(acc, 'norm-never', w, 'the norm check never passes for the bound %s' % what, ob='norm check passes'):
            continue
        allowed_ = {i: [] for i in range(256)}
        for st in acc:
            by = {}
            for c in expand(st.known):
                lv = D.leaves(c) if c[0] in ('ge', 'eq', 'ne', 'or', 'and') else None
                if lv and len(lv) == 1:
                    by.setdefault(next(iter(lv)), []).append(c)
                elif lv:
                    R.undecided('the norm check relates several coefficients')
                    return
            for i, x in enumerate(xs):
                r = within(by.get(x.t[0][0], []), x, -REDUCED, REDUCED)
                if r is None:
                    R.undecided('a condition of the norm check does not settle')
                    return
                allowed_[i].append(r)
        for i in range(256):
            lo = min(a for r in allowed_[i] for a, b in r) if any(allowed_[i]) else 0
            hi = max(b for r in allowed_[i] for a, b in r) if any(allowed_[i]) else -1
            want = (-B + 1, B - 1)
            if len(acc) == 1:
                ok = allowed_[i][0] == [want]
            else:
                ok = want[0] <= lo and hi <= want[1]
            if not R.check(ok, 'norm', w, 'the norm check with bound %s passes for coefficient %d in %d..%d' % (what, i, lo, hi), ob='norm check passes exactly below the bound'):
                break


def hint_cond(d, R, c, x, zero, w, i):
    """is the condition that of MakeHint for the low part x?"""
    g = d.GAMMA2
    r = within([c], x, -REDUCED, REDUCED)
    if r is None:
        R.undecided('the hint condition of coefficient %d does not settle' % i)
        return False
    want = [(-REDUCED, -g - 1), (g + 1, REDUCED)] if zero else [(-REDUCED, -g), (g + 1, REDUCED)]
    return R.check(r == want, 'make-hint', w, 'the hint of coefficient %d is set for low parts in %s%s, the specification sets it in %s' %
                   (i, r, ' (high part 0)' if zero else '', want), ob='hint condition equals MakeHint')


def make_hint_rule(d, R):
    fn = 'poly_make_hint'
    if not d.has(fn):
        R.undecided('no function ' + fn)
        return
    w = d.where(fn)
    top = (Q - 1) // (2 * d.GAMMA2) - 1
    for zero in (True, False):
        d.fresh()
        a0, (xs,) = symbolic(d, 'a0', -REDUCED, REDUCED)
        a1, _ = symbolic(d, 'a1', 0 if zero else 1, 0 if zero else top)
        h = d.obj('h', 1024 if d.variant == 'clean' else 256, 'undef')
        d.I.logged.add(h.o)
        outs = d.call(fn, [h, a0, a1])
        if len(outs) != 1 or not isinstance(outs[0][1], (int, Lin)):
            R.undecided('%d outcomes of hint creation' % len(outs))
            return
        st, n = outs[0]
        if d.variant == 'clean':
            hs = [d.I.load(st, cint.Ptr(h.o, 4 * i), 4) for i in range(256)]
            tot = 0
            for i, x in enumerate(hs):
                if not isinstance(x, Lin):
                    R.check(False, 'make-hint', w, 'the hint of coefficient %d is always %s' % (i, x), ob='hint condition equals MakeHint')
                    return
                p = pieces(x, xs[i], -REDUCED, REDUCED)
                if p is None:
                    R.undecided('the hint of coefficient %d does not settle' % i)
                    return
                g = d.GAMMA2
                e = -g - 1 if zero else -g
                want = [(-REDUCED, e, 1), (e + 1, g, 0), (g + 1, REDUCED, 1)]
                if not R.check(p == want, 'make-hint', w, 'the hint of coefficient %d%s is %s, the specification has %s' % (i, ' (high part 0)' if zero else '', p[:4], want), ob='hint condition equals MakeHint'):
                    return
                tot = add(tot, x)
            R.check(add(tot, n, -1) == 0, 'hint-count', w, 'the number returned is not the number of hints', ob='hint count returned')
        else:
            hint_positions(d, R, st, n, xs, zero, h, w)


def hint_positions(d, R, st, n, xs, zero, h, w):
    """the number returned is the number of hints, and they are listed in increasing order"""
    own = {x.t[0][0]: i for i, x in enumerate(xs)}
    bits = {}
    for a, k in (n.t if isinstance(n, Lin) else ()):
        at = D.ATOM[a]
        lv = D.leaves(single(a))
        if at[0] != 'b2i' or k not in (1, -1) or not lv or len(lv) != 1 or next(iter(lv)) not in own or own[next(iter(lv))] in bits:
            R.undecided('the number of hints is not a sum of one bit per coefficient')
            return
        bits[own[next(iter(lv))]] = (single(a), at[1]) if k == 1 else (add(1, single(a), -1), D.neg(at[1]))
    tot = 0
    for x, _ in bits.values():
        tot = add(tot, x)
    if not R.check(len(bits) == 256 and add(tot, n, -1) == 0, 'hint-count', w, 'the number of hints returned counts %d coefficients' % len(bits), ob='hint count returned'):
        return
    for i in range(256):
        if not hint_cond(d, R, bits[i][1], xs[i], zero, w, i):
            return
    # the positions: groups of eight coefficients, looked up in a table of set bits
    ws = [e for e in st.eventlist() if e[0] in ('store', 'symstore') and e[1] == h.o]
    flat = []
    for e in ws:
        if e[3] == 1:
            flat.append((e[2], e[4]))
        elif type(e[2]) is int:
            b = D.bits(8 * e[3], e[4])
            flat += [(e[2] + j, D.frombits(8, b[8 * j:8 * j + 8])) for j in range(e[3])]
        else:
            R.undecided('the hint positions are stored in an unknown way')
            return
    if len(flat) != 256:
        R.undecided('the hint positions are stored in an unknown way (%d bytes)' % len(flat))
        return
    tabs = {}
    base = 0
    for g in range(32):
        bad = 0
        for j in range(8):
            bad = add(bad, bits[8 * g + j][0], 1 << j)
        for j in range(8):
            off, v = flat[8 * g + j]
            at = D.ATOM[v.t[0][0]] if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 else None
            if at is None or at[0] != 'ld':
                R.undecided('the hint positions do not come from a table')
                return
            obj, lo = at[1], at[2]
            R.check(add(add(off, base, -1), -j) == 0, 'hint-place', w, 'the hints of group %d are not stored behind those of the previous groups' % g, ob='hints of a group follow those before')
            if not R.check(v.c == 8 * g and add(lo, add(D.scale(bad, 8), j), -1) == 0, 'hint-index', w, 'the positions of group %d are not looked up for its own hints' % g, ob='positions of a group are looked up'):
                return
            tabs[obj] = obj
        for j in range(8):
            base = add(base, bits[8 * g + j][0])
    for obj in tabs:
        oid = obj[0] if isinstance(obj, tuple) else next((k for k, o in st.mem.items() if o.name == obj), None)
        for x in range(256):
            row = [d.I.load(st, cint.Ptr(oid, 8 * x + j), 1) for j in range(8)]
            want = [j for j in range(8) if x >> j & 1]
            if not R.check(row[:len(want)] == want and all(type(y) is int and 0 <= y < 8 for y in row), 'hint-table', w, 'row %d of the position table is %s' % (x, row), ob='position table lists the set bits'):
                return


def polyz_rule(d, R):
    """the encoder of z"""
    fn = 'polyz_pack'
    if not d.has(fn):
        R.undecided('no function ' + fn)
        return
    w = d.where(fn)
    a, (xs,) = symbolic(d, 'z', -d.GAMMA1 + 1, d.GAMMA1)
    s = d.obj('out', 32 * d.ZB, 'undef')
    outs = d.call(fn, [s, a])
    for st, v in outs:
        fs = fields(d.I.bytes(st, s, 32 * d.ZB), d.ZB, 256)
        for i, f in enumerate(fs):
            if not R.check(add(add(f, xs[i]), -d.GAMMA1) == 0, 'polyz-pack', w, 'the encoding of coefficient %d of z is not gamma1 - z' % i, ob='z is encoded as gamma1 - z'):
                return


def pack_sig_rule(d, R):
    """the encoder of signatures"""
    fn = 'pack_sig'
    if not d.has(fn):
        R.undecided('no function ' + fn)
        return
    w = d.where(fn)
    s, c = d.obj('s', d.SIG, 'undef'), d.obj('c', d.CT)
    z, zs = symbolic(d, 'z', -d.GAMMA1 + 1, d.GAMMA1, d.L)
    h = d.obj('h', 1024 * d.K)
    outs = d.call(fn, [s, c, z, h])
    if len(outs) != 1:
        R.undecided('%d outcomes of the signature encoder' % len(outs))
        return
    st = outs[0][0]
    rows = []
    for e in st.eventlist():
        if e[0] == 'loop' and any(x[0] == 'symstore' and x[1] == s.o for b in e[1]['back'] for x in b[2]):
            rows.append(e[1])
    if len(rows) != d.K:
        R.undecided('the loops that encode the hints were not recognised (%d)' % len(rows))
        return
    hoff = d.CT + 32 * d.ZB * d.L
    S = rows[0]['start']
    got = d.I.bytes(S, s, d.CT)
    R.check(list(got) == inb('c', 0, d.CT), 'pack-c', w, 'the signature does not start with the challenge bytes', ob='challenge is encoded')
    for l in range(d.L):
        o = d.CT + 32 * d.ZB * l
        fs = fields(d.I.bytes(S, cint.Ptr(s.o, o), 32 * d.ZB), d.ZB, 256)
        for i, f in enumerate(fs):
            if not R.check(isinstance(f, (int, Lin)) and add(add(f, zs[l][i]), -d.GAMMA1) == 0, 'pack-z', w, 'the coefficient %d of z[%d] is not encoded as gamma1 - z at its place' % (i, l), ob='z is encoded'):
                break
    R.check(all(x == 0 for x in d.I.bytes(S, cint.Ptr(s.o, hoff), d.OMEGA)), 'pack-zero', w, 'the hint part is not zero before the hints are written', ob='unused hint positions are zero')
    prev = 0
    for k, info in enumerate(rows):
        ob = 'hint positions of a row are encoded in order'
        eqm = lambda x, y, wd: isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and D.modlin(add(x, y, -1), wd) == 0
        hits = []
        for tr, ph, ev, bs in info['back']:
            for x in ev:
                if x[0] == 'symstore' and x[1] == s.o:
                    hits.append((tr, ph, ev, x))
        tr, ph, ev, x = hits[0]
        pos = next((r for r, a in info['atoms'].items() if eqm(x[2], add(a, hoff), 31)), None)
        idx = next((r for r, a in info['atoms'].items() if eqm(x[4], a, 8)), None)
        if not R.check(pos is not None and idx is not None and pos != idx, 'pack-hint', w, 'the hints of row %d are not stored at the next free position' % k, ob=ob):
            return
        J, P = info['atoms'][idx], info['atoms'][pos]
        R.check(info['init'][idx] == 0 and eqm(info['init'][pos], prev, 31), 'pack-start', w, 'row %d does not start with coefficient 0 behind the hints of the previous rows' % k, ob='rows of hints follow each other')
        for tr, ph, ev, bs in info['back']:
            st_ = [y for y in ev if y[0] == 'symstore' and y[1] == s.o]
            cond = None
            for q in expand({t: True for t in tr}):
                if q[0] in ('eq', 'ne') and isinstance(q[1], Lin) and q[1].c == 0:
                    at = hload(q[1])
                    if at is not None and (at[1] == 'h' or isinstance(at[1], tuple) and at[1][0] == h.o):
                        cond = (q[0], at[2])
            if cond is None:
                R.undecided('the condition on the hint of row %d was not recognised' % k)
                return
            R.check(eqm(cond[1], add(D.scale(J, 4), 1024 * k), 31), 'pack-cond', w, 'the encoder of row %d looks at another hint than the one it writes' % k, ob=ob)
            R.check(eqm(ph[idx], add(J, 1), 31), 'pack-step', w, 'the encoder of row %d does not visit every coefficient' % k, ob=ob)
            if cond[0] == 'ne':
                ok = len(st_) == 1 and st_[0][3] == 1 and eqm(st_[0][2], add(P, hoff), 31) and eqm(st_[0][4], J, 8) and eqm(ph[pos], add(P, 1), 31)
                R.check(ok, 'pack-hint', w, 'a hint of row %d is not written as its position behind the previous one' % k, ob=ob)
            else:
                R.check(not st_ and eqm(ph[pos], P, 31), 'pack-hint', w, 'row %d writes a position where there is no hint' % k, ob=ob)
        R.check(any(q[0] in ('ge', 'eq') and (add(q[1], add(J, -256), -1) == 0 or add(q[1], add(D.asU(32, J), -256), -1) == 0 or add(q[1], add(D.asU(64, J), -256), -1) == 0) for q in expand(st.known)),
                'pack-end', w, 'the encoder of row %d does not visit all 256 coefficients' % k, ob=ob)
        after = rows[k + 1]['start'] if k + 1 < d.K else st
        v = d.I.load(after, cint.Ptr(s.o, hoff + d.OMEGA + k), 1)
        R.check(eqm(v, P, 8), 'pack-counter', w, 'the counter of row %d is not the number of hints so far' % k, ob='hint counters are encoded')
        prev = P


def hload(x):
    """the load behind a coefficient read at a computed offset, as a whole or byte by byte"""
    if len(x.t) == 4:
        l = {}
        for a, k in x.t:
            at = D.ATOM[a]
            if at[0] != 'ld' or at[3] != 1 or abs(k) not in (1, 1 << 8, 1 << 16, 1 << 24):
                return None
            l[abs(k)] = at
        if len(l) == 4 and all(l[1 << 8 * i][1] == l[1][1] and add(add(l[1 << 8 * i][2], l[1][2], -1), -i) == 0 for i in range(4)):
            return l[1]
        return None
    if len(x.t) != 1:
        return None
    a = D.ATOM[x.t[0][0]]
    while a[0] in ('wrap', 'u', 'sl') and isinstance(a[2] if a[0] != 'sl' else a[1], Lin):
        y = a[2] if a[0] != 'sl' else a[1]
        if len(y.t) != 1 or y.c or y.t[0][1] != 1:
            return None
        a = D.ATOM[y.t[0][0]]
    return a if a[0] == 'ld' else None


def ntt_rule(d, R):
    """the portable transforms: evaluation at the roots of x^256 + 1 and back"""
    roots = None
    for fn, lim in (('ntt', (1 << 31) - 1 - 8 * Q), ('invntt_tomont', Q - 1)):
        d.fresh(('ntt', 'invntt_tomont'))
        if not d.has(fn):
            R.undecided('no function ' + fn)
            return
        w = d.where(fn)
        p, (xs,) = symbolic(d, 'a', -lim, lim)
        outs = d.call(fn, [p])
        if len(outs) != 1:
            R.undecided('%d outcomes of %s' % (len(outs), fn))
            return
        st = outs[0][0]
        o = [d.I.load(st, cint.Ptr(p.o, 4 * i), 4) for i in range(256)]
        roots = transform(d, R, fn, w, xs, o, roots, lim)
        if roots is None:
            return


def transform(d, R, fn, w, xs, o, roots, lim):
    """decide that the forms o are the transform of the coefficients xs"""
    at = {D.cls(x)[0][0]: i for i, x in enumerate(xs)}
    M = []
    for i, x in enumerate(o):
        row = [0] * 256
        for m, k in D.cls(x):
            j = at.get(m)
            if j is None:
                R.check(False, fn, w, 'output %d of %s is not a linear function of the coefficients modulo q (an operation may overflow)' % (i, fn), ob='%s is linear' % fn)
                return None
            row[j] = k
        M.append(row)
        R.check(True, fn, w, '', ob='%s is linear' % fn)
    top = max(max(abs(a) for a in iv(x)) for x in o)
    lim2 = lim + 8 * Q if fn.startswith('ntt') else csum.INVMAX
    R.check(top <= lim2, fn + '-range', w, 'the output of %s may reach %d' % (fn, top), ob='range of the output of %s' % fn)
    if roots is None:
        roots = [row[1] for row in M]
        for i, row in enumerate(M):
            r = roots[i]
            ok = pow(r, 256, Q) == Q - 1
            v = 1
            for j in range(256):
                ok = ok and row[j] == v
                v = v * r % Q
            if not R.check(ok, fn, w, 'output %d of %s is not the value of the polynomial at a root of x^256 + 1' % (i, fn), ob='%s evaluates at a root of x^256 + 1' % fn):
                return None
        R.check(len(set(roots)) == 256, fn, w, '%s evaluates twice at the same root' % fn, ob='roots are distinct')
        return roots
    # the inverse, times 2^32: M[k][i] = 2^32 / 256 * r_i^-k
    c = pow(2, 32, Q) * pow(256, Q - 2, Q) % Q
    inv = [pow(r, Q - 2, Q) for r in roots]
    cur = [c] * 256
    for k, row in enumerate(M):
        if not R.check(row == cur, fn, w, 'output %d of %s is not 2^32 times the coefficient interpolated from the values at the roots' % (k, fn), ob='%s interpolates' % fn):
            return None
        cur = [x * y % Q for x, y in zip(cur, inv)]
    return roots
