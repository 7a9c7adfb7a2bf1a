"""Queries over provenance terms: which bytes of a source reach a value, what authenticates what,
what is secret."""
from terms import *


# ---------------------------------------------------------------- lengths
class Env:
    """lengths that the path conditions of a state fix exactly"""

    def __init__(self, st):
        self.ex = {}
        for k, v in st.facts.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] == 'bd' and v[0] is not None and v[0] == v[1]:
                self.ex[k[1]] = v[0]

    def num(self, v):
        if isinstance(v, int):
            return v
        c, d = lin(v)
        out = {}
        for a, k in d.items():
            if a in self.ex:
                c += k * self.ex[a]
            else:
                out[a] = k
        return mklin(c, out)


NOENV = Env.__new__(Env)
NOENV.ex = {}


def srcsegs(v, want, env=NOENV, skip=()):
    """{source term: set of (off, len)} for every source term selected by want(T) that flows into v.
    Terms whose op is in skip are not entered; lengths are control, not data."""
    out = {}
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x is None or isinstance(x, (int, str, bytes)):
            continue
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'len' or x.op in skip:
                continue
            if want(x):
                out.setdefault(x, set()).add((0, None))
                continue
            if x.op == 'byte' and isinstance(x.args[0], T) and want(x.args[0]):
                out.setdefault(x.args[0], set()).add((env.num(x.args[1]), 1))
                continue
            stack.extend(x.args)
        elif isinstance(x, Bytes):
            for s in x.segs:
                stack.append(('seg', s))
        elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'seg':
            s = x[1]
            k = s[0]
            if k == 't':
                if isinstance(s[1], T) and want(s[1]):
                    if s[1].op not in skip:
                        out.setdefault(s[1], set()).add((env.num(s[2]), env.num(s[3])))
                else:
                    stack.append(s[1])
            elif k == 'x':
                for u in s[1]:
                    stack.append(('seg', u))
            elif k == 'v':
                stack.append(s[1])
            elif k == 'upd':
                stack.append(s[1])
                stack.append(s[3])
        elif isinstance(x, Lin):
            pass
        elif isinstance(x, Seq):
            stack.extend(x.vs)
        elif isinstance(x, Agg):
            stack.extend(x.fs)
        elif isinstance(x, BV):
            for b in x.bits:
                if isinstance(b, frozenset):
                    stack.extend(t for t, _ in b)
        elif isinstance(x, Closure):
            stack.extend(x.caps)
        elif isinstance(x, It):
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset, list)):
            stack.extend(x)
    return out


def union(*rs):
    out = {}
    for r in rs:
        for k, v in r.items():
            out.setdefault(k, set()).update(v)
    return out


def covered(ranges, lo, hi):
    """do the (off, len) ranges cover [lo, hi)?  None as len means everything"""
    if ranges is None:
        return False
    if any(l is None for _, l in ranges):
        return True
    # every range is a slice that exists on the path, so its end is not before its start: a range that
    # starts where the covered part ends always extends it
    frontier = [lo]
    seen = {lo}
    while frontier:
        pos = frontier.pop()
        if pos == hi or (isinstance(pos, int) and isinstance(hi, int) and pos >= hi):
            return True
        if not isinstance(hi, int) and nonneg(lsub(pos, hi)) is True:
            return True
        for o, l in ranges:
            if o == pos or nonneg(lsub(pos, o)) is True:
                e = ladd(o, l)
                if e not in seen and nonneg(lsub(pos, e)) is not True:
                    seen.add(e)
                    frontier.append(e)
    return False


def gaps(ranges, lo, hi):
    """human-readable description of the part of [lo, hi) not covered"""
    ints = sorted((o, l) for o, l in (ranges or ()) if isinstance(o, int) and isinstance(l, int))
    pos = lo
    out = []
    for o, l in ints:
        if o > pos:
            out.append('%d..%d' % (pos, o))
        pos = max(pos, o + l)
    if isinstance(hi, int):
        if pos < hi:
            out.append('%d..%d' % (pos, hi))
    else:
        out.append('%s..%s' % (pos, show(hi)))
    return ', '.join(out)


def isin(t):
    return t.op == 'in'


def isparam(name):
    return lambda t: t.op == 'param' and t.args[0] == name


def inputs(v, env=NOENV):
    return srcsegs(v, isin, env)


def has(v, pred):
    return any(pred(t) for t in subterms(v))


def rngleaf(t):
    return t.op in ('rng', 'fresh') or (t.op == 'param' and str(t.args[0]).startswith('rng'))


def random_leaves(v):
    return {t for t in subterms(v) if rngleaf(t)}


# ---------------------------------------------------------------- secrecy
PUBLIC_CALL = ('mul_base', 'verifying_key', 'public_key')


def secret_terms(extra=()):
    """-> function deciding whether a value carries secret material that was not passed through a one-way map"""
    memo = {}

    def tystr(t):
        return (getattr(t.ty, 's', None) or getattr(t.ty, 'path', None) or '') if t.ty is not None else ''

    def sec(v):
        if v is None or isinstance(v, (int, str, bytes)):
            return False
        if isinstance(v, T):
            r = memo.get(v)
            if r is None:
                memo[v] = False
                r = memo[v] = st(v)
            return r
        if isinstance(v, Bytes):
            return any(segsec(s) for s in v.segs)
        if isinstance(v, (Seq,)):
            return any(sec(x) for x in v.vs)
        if isinstance(v, Agg):
            return any(sec(x) for x in v.fs)
        if isinstance(v, BV):
            return any(sec(t) for b in v.bits if isinstance(b, frozenset) for t, _ in b)
        if isinstance(v, Closure):
            return any(sec(x) for x in v.caps)
        if isinstance(v, (tuple, frozenset, list)):
            return any(sec(x) for x in v)
        return False

    def segsec(s):
        k = s[0]
        if k == 't':
            return sec(s[1])
        if k == 'x':
            # masked by a keystream or a keyed permutation: a ciphertext
            if any(u[0] == 't' and isinstance(u[1], T) and u[1].op in ('keystream', 'deck') for u in s[1]):
                return False
            return any(segsec(u) for u in s[1])
        if k == 'v':
            return sec(s[1])
        if k == 'upd':
            return sec(s[1]) or sec(s[3])
        return False

    def st(t):
        op = t.op
        if t in extra:
            return True
        if op == 'param':
            n = str(t.args[0])
            return n.startswith('rng') or n in ('password', 'usk', 'initial_key', 'msk')
        if op == 'in' or op in ('len', 'sig', 'mac', 'parses', 'discr', 'verify', 'macverify', 'ct_eq', 'eq'):
            return False
        if op in ('rng', 'fresh'):
            return True
        if op == 'fld':
            b = t.args[0]
            # pairs of a public and a private half
            if isinstance(b, T) and b.op in ('fresh', 'call'):
                p = str(b.args[0]).split('::')[-1]
                if p.startswith(('keygen_', 'keypair')):
                    return t.args[1] != '0'
                if p.startswith('encapsulate'):
                    return t.args[1] != '1'
                if p.startswith(('gen_user_keypair', 'gen_main_keypair')):
                    return t.args[1] != '0'
                if p.startswith('start_') and 'spake2' in str(b.args[0]):
                    return t.args[1] == '0'
            s = tystr(t)
            if s.endswith('Scalar') or s.endswith('StaticSecret') or s.endswith('SigningKey'):
                return True
            return sec(b)
        if op == 'call':
            p = str(t.args[0])
            n = p.split('::')[-1]
            full = str(t.args[1])
            if n in PUBLIC_CALL or n in ('sign', 'detached_sign'):
                return False
            if n == 'from' and ('VerifyingKey' in full or 'PublicKey' in full):
                return False
            if n == 'packet' and 'pake_cpace' in p:
                return False
            if p.endswith('Pake::run'):
                return False        # what the inner protocol sends is its own responsibility
            if p.endswith('Pake::finalize'):
                return True
            return any(sec(a) for a in t.args[2:])
        if op == 'hkdf':
            return sec(t.args[0]) or sec(t.args[1])
        return any(sec(a) for a in t.args)

    return sec


# ---------------------------------------------------------------- authenticators
class Auth:
    """one check that a received value passed"""
    __slots__ = ('kind', 'key', 'data', 'tag', 'term', 'weak')

    def __init__(self, kind, key, data, tag, term, weak=False):
        self.kind, self.key, self.data, self.tag, self.term, self.weak = kind, key, data, tag, term, weak

    def whole(self):
        return (self.key, self.data, self.tag)


def received(v):
    """is v (at top level) made of received bytes only?"""
    if not isinstance(v, Bytes) or not v.segs:
        return False
    for s in v.segs:
        if s[0] == 't' and isinstance(s[1], T) and s[1].op == 'in':
            continue
        if s[0] == 'x' and any(u[0] == 't' and isinstance(u[1], T) and u[1].op == 'in' for u in s[1]):
            continue
        return False
    return True


def recv_part(v):
    """does some top-level segment of v consist of received bytes?"""
    if not isinstance(v, Bytes):
        return has(v, isin)
    for s in v.segs:
        if s[0] == 't' and isinstance(s[1], T) and s[1].op == 'in':
            return True
        if s[0] == 'x' and any(u[0] == 't' and isinstance(u[1], T) and u[1].op == 'in' for u in s[1]):
            return True
    return False


def auths(facts):
    """checks recorded as passed on this path"""
    out = []
    for a, b in facts.items():
        if not isinstance(a, T):
            continue
        if a.op == 'discr' and isinstance(a.args[0], T) and b == 0:
            t = a.args[0]
            if t.op == 'verify':
                out.append(Auth('sig', t.args[0], t.args[1], t.args[2], t))
            elif t.op == 'macverify':
                out.append(Auth('mac', t.args[0], t.args[1], t.args[2], t))
            elif t.op == 'mactrunc':
                out.append(Auth('mac', t.args[0], t.args[1], t.args[2], t, weak=True))
        elif a.op in ('ct_eq', 'eq', 'vareq') and b == 1 and len(a.args) >= 2:
            x, y = a.args[0], a.args[1]
            if not (isinstance(x, Bytes) and isinstance(y, Bytes)):
                continue
            if received(y) and not received(x):
                out.append(Auth('tag', None, x, y, a))
            elif received(x) and not received(y):
                out.append(Auth('tag', None, y, x, a))
    return out


def failed_checks(facts):
    """checks recorded as failed on this path"""
    out = []
    for a, b in facts.items():
        if not isinstance(a, T):
            continue
        if a.op == 'discr' and isinstance(a.args[0], T) and a.args[0].op in ('verify', 'macverify', 'mactrunc') and b != 0:
            out.append(a.args[0])
        elif a.op in ('ct_eq', 'eq', 'vareq') and b == 0 and len(a.args) >= 2:
            x, y = a.args[0], a.args[1]
            if isinstance(x, Bytes) and isinstance(y, Bytes) and (received(x) != received(y)):
                out.append(a)
    return out


class Eavesdropper:
    """what somebody who saw the given transmitted ropes can compute by himself (Dolev-Yao closure over the value terms):
    constants, received and public values, transmitted bytes, and every deterministic function of those"""

    def __init__(self, ropes, public=('ssid', 'mpk')):
        self.public = public
        self.ranges = {}
        self.terms = set()
        for r in ropes:
            if isinstance(r, Bytes):
                for s in r.segs:
                    if s[0] == 't':
                        self.ranges.setdefault(s[1], []).append((s[2], s[3]))
                        if isinstance(s[1], T) and s[1].op in ('compress', 'bytes_of') and s[2] == 0:
                            self.terms.add(s[1].args[0])
        self.memo = {}

    def knows(self, v):
        if v is None or isinstance(v, (int, str, bytes, bool)):
            return True
        if isinstance(v, T):
            r = self.memo.get(v)
            if r is None:
                self.memo[v] = False
                r = self.memo[v] = self.term(v)
            return r
        if isinstance(v, Bytes):
            return all(self.seg(s) for s in v.segs)
        if isinstance(v, Seq):
            return all(self.knows(x) for x in v.vs)
        if isinstance(v, Agg):
            return all(self.knows(x) for x in v.fs)
        if isinstance(v, (tuple, frozenset, list)):
            return all(self.knows(x) for x in v)
        if isinstance(v, Lin):
            return all(self.knows(t) for t in subterms(v))
        return False

    def seg(self, s):
        if s[0] == 'c':
            return True
        if s[0] == 't':
            o, l = s[2], s[3]
            rs = self.ranges.get(s[1])
            if rs and covered(rs, o, ladd(o, l)):
                return True
            return self.knows(s[1])
        if s[0] == 'x':
            return all(self.seg(u) for u in s[1])
        if s[0] == 'v':
            return self.knows(s[1])
        return False

    def term(self, t):
        if t in self.terms or t.op == 'in':
            return True
        if t.op == 'param':
            return t.args[0] in self.public
        if t.op in ('rng', 'rngnext', 'fresh', 'mut') or not t.args:
            return False
        return all(self.knows(a) for a in t.args)


def keyed(v):
    """hkdf/mac/deck terms in v together with the byte ranges used: {(term): set of ranges} at top level of a rope"""
    out = []
    if isinstance(v, Bytes):
        for s in v.segs:
            if s[0] == 't' and isinstance(s[1], T):
                out.append((s[1], s[2], s[3]))
    return out


def overlap(a, b):
    """may the (off, len) ranges overlap?"""
    (o1, l1), (o2, l2) = a, b
    d1 = lsub(o2, ladd(o1, l1))
    d2 = lsub(o1, ladd(o2, l2))
    for d in (d1, d2):
        if isinstance(d, int) and d >= 0:
            return False
        if nonneg(d) is True:
            return False
    return True
