"""The Rust bindings of Dilithium: what they hand to the C functions and what they make of the answer."""
import re
import cir
import models
from world import *
from terms import *
from rules_dil import SETS

TRAITS = ('PublicKey', 'SecretKey', 'SignedMessage', 'DetachedSignature')
AVX2 = 'std_detect::detect::arch::x86::__is_feature_detected::avx2'


def isval(v, name):
    return isinstance(v, Agg) and v.vn == name


def param(n):
    return T('param', n)


def field(n, f):
    return T('fld', param(n), f)


def sameterm(a, b):
    return isinstance(a, (T, Lin, int)) and (a == b or show(a) == show(b))


def starts(b, term):
    """the bytes begin at the start of the given object"""
    if not isinstance(b, Bytes):
        return False
    if not b.segs:
        return False
    s = b.segs[0]
    return s[0] == 't' and s[2] == 0 and sameterm(s[1], term)


def whole(b, term, n=None):
    """the bytes are exactly that object"""
    return isinstance(b, Bytes) and len(b.segs) == 1 and starts(b, term) and (n is None or b.segs[0][3] == n or sameterm(b.segs[0][3], n))


def prototypes(R):
    """{C function: (result, [parameter kinds])} of both implementations of every parameter set"""
    out = {}
    for s in SETS:
        for v in ('clean', 'avx2'):
            for f, text in cir.build(s, v).items():
                for mt in re.finditer(r'^define [^@\n]*?(\S+) @(PQCLEAN_\w+)\(([^\n]*?)\)[^\n]*\{', text, re.M):
                    ps = [p.split()[0] for p in re.sub(r'\([^()]*\)', '', mt.group(3)).split(',') if p.strip()]
                    out[mt.group(2)] = (mt.group(1), ps)
    return out


KIND = {'usize': 'i64', 'isize': 'i64', 'u64': 'i64', 'i64': 'i64', 'u32': 'i32', 'i32': 'i32', 'u8': 'i8', 'i8': 'i8', 'u16': 'i16', 'i16': 'i16', '()': 'void', 'c_int': 'i32'}


class Bind:
    def __init__(self, W, R, scheme, protos):
        self.W, self.R, self.scheme, self.protos = W, R, scheme, protos
        self.p = SETS[scheme]
        self.up = 'PQCLEAN_%s_' % scheme.upper()

    def fn(self, name):
        k = 'pqcrypto_dilithium::%s::%s' % (self.scheme, name)
        f = self.W.prog.fns.get(k)
        if f is None:
            self.R.fail('%s/%s/missing' % (self.scheme, name), 'pqcrypto/pqcrypto-dilithium/src/%s.rs' % self.scheme, 'the public function %s is gone' % name)
        return f

    def impl(self, ty, meth):
        k = 'pqcrypto_dilithium::<%s::%s as pqcrypto_traits::sign::%s>::%s' % (self.scheme, ty, ty, meth)
        f = self.W.prog.fns.get(k)
        if f is None:
            self.R.fail('%s/%s/%s/missing' % (self.scheme, ty, meth), 'pqcrypto/pqcrypto-dilithium/src/%s.rs' % self.scheme, '%s::%s is gone' % (ty, meth))
        return f

    def outs(self, fn, names):
        models.UNKNOWN_STD.clear()
        outs, I = self.W.call(fn, names, crates=())
        self.R.functions.update(k for k, _ in I.visited if isinstance(k, str))
        self.R.functions.add(fn.path)
        self.R.nodes += len(outs)
        self.und = bool(I.incomplete) or not outs
        for p in I.incomplete[:3]:
            self.R.undecided.append('%s: %s' % (fn.path, p))
        if not outs:
            self.R.undecided.append('%s: not followed' % fn.path)
        return outs

    def req(self, cond, key, fn, msg, detail=None, ob=None):
        if not cond and (self.und or any('loop(' in str(x) for x in detail or ())):
            self.R.undecided.append('%s: %s' % (fn.path, msg))
            return cond
        return self.R.check(cond, '%s/%s' % (self.scheme, key), loc(fn), msg, detail, ob='%s: %s' % (self.scheme, ob or key))

    # ------------------------------------------------------------------------------------------
    def ffi(self, st, fn, key, suffixes):
        """the C call an outcome rests on"""
        evs = [e for e in st.events() if e.k == 'ffi']
        names = {self.up + v + '_' + s: v for v in ('CLEAN', 'AVX2') for s in suffixes}
        if not self.req(len(evs) == 1, key + '/once', fn, 'expected exactly one C call, found %s' % ([e.name for e in evs] or 'none'), ob='%s: one C call per outcome' % key):
            return None
        e = evs[0]
        if not self.req(e.name in names, key + '/callee', fn, 'the C function called is %s, expected %s of the same parameter set' % (e.name, ' or '.join(suffixes)), ob='%s: the right C function' % key):
            return None
        if names[e.name] == 'AVX2':
            det = any(v == 1 and isinstance(k, T) and AVX2 in show(k) for k, v in st.facts.items())
            self.req(det, key + '/avx2', fn, 'the AVX2 code is called without having detected AVX2', ob='%s: AVX2 only when detected' % key)
        pr = self.protos.get(e.name)
        if self.req(pr is not None, key + '/defined', fn, 'there is no C function %s' % e.name, ob='%s: the C function exists' % key):
            got = ['ptr' if t and t[0] in ('ptr', 'ref') else KIND.get(t[1] if t else '', t and t[1]) for t in e.tys]
            ret = KIND.get(e.rty, e.rty)
            self.req((ret, got) == (pr[0], pr[1]), key + '/type', fn, 'the declaration of %s does not match its definition: %s(%s), defined as %s(%s)' % (e.name, ret, ', '.join(map(str, got)), pr[0], ', '.join(pr[1])),
                     ob='%s: declaration and definition agree' % key)
        return e

    def arg(self, e, i, fn, key, what, term=None, val=None, room=None):
        """one argument of the C call: a pointer to the start of an object, a value, or room for an output"""
        if i >= len(e.args):
            return self.req(False, '%s/%s' % (key, what), fn, 'the C call has no argument %d (%s)' % (i, what))
        k, v, cap, start = e.args[i]
        d = [show(v)[:300] if not isinstance(v, (int, type(None))) else str(v)]
        if term is not None:
            return self.req(k == 'ptr' and start and starts(v, term), '%s/%s' % (key, what), fn, 'argument %d of the C call is not the %s' % (i, what), d, ob='%s: passes the %s' % (key, what))
        if val is not None:
            return self.req(k == 'val' and sameterm(v, val), '%s/%s' % (key, what), fn, 'argument %d of the C call is not the %s' % (i, what), d, ob='%s: passes the %s' % (key, what))
        if room is not None:
            have = cap if cap is not None else (v.len if isinstance(v, Bytes) else None)
            ok_ = False
            if k == 'ptr' and start and have is not None:
                ok_ = have == room or nonneg(lsub(have, room)) is True
            return self.req(ok_, '%s/%s' % (key, what), fn, 'the buffer passed for the %s holds %s bytes, the C function writes up to %s' % (what, show(have) if have is not None else '?', show(room) if not isinstance(room, int) else room),
                            d, ob='%s: room for the %s' % (key, what))
        return self.req(k == 'ptr', '%s/%s' % (key, what), fn, 'argument %d of the C call is not a place for the %s' % (i, what), d, ob='%s: place for the %s' % (key, what))

    def ret(self, st, e):
        r = e.ret
        if r in st.facts:
            v = st.facts[r]
            if isinstance(v, int):
                return v if v < 1 << 31 else v - (1 << 32)
        ne = st.facts.get(('ne', r))
        if ne:
            return ('ne', {x if x < 1 << 31 else x - (1 << 32) for x in ne})
        for k, v in st.facts.items():
            if isinstance(k, T) and k.op in ('eq', 'ne') and r in k.args and 0 in k.args:
                if (k.op == 'eq') == (v == 0):
                    return ('ne', {0})
                return 0
        return None

    # ------------------------------------------------------------------------------------------
    def verify(self):
        fn = self.fn('verify_detached_signature')
        if fn is None:
            return
        seen = set()
        for st, v, a in self.outs(fn, ['sig', 'msg', 'pk']):
            e = self.ffi(st, fn, 'verify', ['crypto_sign_verify'])
            if e is None:
                continue
            self.arg(e, 0, fn, 'verify', 'signature', term=field('sig', '0'))
            self.arg(e, 1, fn, 'verify', 'length of the signature', val=field('sig', '1'))
            self.arg(e, 2, fn, 'verify', 'message', term=param('msg'))
            self.arg(e, 3, fn, 'verify', 'length of the message', val=T('len', param('msg')))
            self.arg(e, 4, fn, 'verify', 'public key', term=field('pk', '0'))
            self.verdict(st, v, e, fn, 'verify', seen)
        self.both(fn, 'verify', seen)

    def both(self, fn, key, seen):
        self.req({'Ok', 'Err'} <= seen, key + '/both', fn, 'there is no %s outcome' % ' and no '.join(sorted({'Ok', 'Err'} - seen)), ob='%s: can both accept and reject' % key)

    def verdict(self, st, v, e, fn, key, seen):
        r = self.ret(st, e)
        if not self.req(isval(v, 'Ok') or isval(v, 'Err'), key + '/result', fn, 'the result is neither Ok nor Err', [show(v)[:200]]):
            return
        seen.add(v.vn)
        if v.vn == 'Ok':
            self.req(r == 0, key + '/accept', fn, 'Ok although the C function has not returned 0 (%s)' % (r,), ob='%s: Ok only when the C function returned 0' % key)
        else:
            bad = (isinstance(r, int) and r != 0) or (isinstance(r, tuple) and 0 in r[1])
            self.req(bad, key + '/reject', fn, 'Err although the C function may have returned 0 (%s)' % (r,), ob='%s: Err only when the C function did not return 0' % key)
            er = v.fs[0]
            if isinstance(er, Agg) and bad:
                want = 'InvalidSignature' if r == -1 else 'UnknownVerificationError' if isinstance(r, tuple) and -1 in r[1] or isinstance(r, int) else None
                if want:
                    self.req(er.vn == want, key + '/kind', fn, 'the error is %s, expected %s' % (er.vn, want), ob='%s: the right kind of error' % key)

    def keypair(self):
        for name, suf in (('keypair', 'crypto_sign_keypair'), ('keypair_det', 'crypto_sign_keypair_det')):
            fn = self.fn(name)
            if fn is None:
                continue
            for st, v, a in self.outs(fn, ['coins'] if name == 'keypair_det' else []):
                e = self.ffi(st, fn, name, [suf])
                if e is None:
                    continue
                o = 0
                if name == 'keypair_det':
                    self.arg(e, 0, fn, name, 'coins', term=param('coins'))
                    n = e.args[0][1].len if isinstance(e.args[0][1], Bytes) else None
                    self.req(n == 32, name + '/coins32', fn, 'the coins are %s bytes, the C function reads 32' % (n,), ob='keypair_det: 32 bytes of coins')
                    o = 1
                self.arg(e, o, fn, name, 'public key', room=self.p['PK'])
                self.arg(e, o + 1, fn, name, 'secret key', room=self.p['SK'])
                self.req(self.ret(st, e) == 0, name + '/ret', fn, 'keys are returned although the C function may have failed', ob='%s: keys only on success' % name)
                ok_ = isinstance(v, Agg) and len(v.fs) == 2 and all(isinstance(x, Agg) and len(x.fs) == 1 for x in v.fs)
                if self.req(ok_, name + '/pair', fn, 'the result is not a pair of keys', [show(v)[:200]]):
                    for x, i, n, what in ((v.fs[0], o, self.p['PK'], 'public key'), (v.fs[1], o + 1, self.p['SK'], 'secret key')):
                        self.req(whole(x.fs[0], e.outs.get(i), n), '%s/out-%s' % (name, what), fn, 'the %s returned is not the one the C function wrote' % what, [show(x)[:300]], ob='%s: returns the whole %s' % (name, what))

    def signing(self):
        fn = self.fn('detached_sign')
        if fn is not None:
            for st, v, a in self.outs(fn, ['msg', 'sk']):
                e = self.ffi(st, fn, 'detached_sign', ['crypto_sign_signature'])
                if e is None:
                    continue
                self.arg(e, 0, fn, 'detached_sign', 'signature', room=self.p['SIG'])
                self.arg(e, 1, fn, 'detached_sign', 'length of the signature')
                self.arg(e, 2, fn, 'detached_sign', 'message', term=param('msg'))
                self.arg(e, 3, fn, 'detached_sign', 'length of the message', val=T('len', param('msg')))
                self.arg(e, 4, fn, 'detached_sign', 'secret key', term=field('sk', '0'))
                good = isinstance(v, Agg) and len(v.fs) == 2 and whole(v.fs[0], e.outs.get(0), self.p['SIG'])
                self.req(good, 'detached_sign/out', fn, 'the signature returned is not the one the C function wrote', [show(v)[:300]], ob='detached_sign: returns the signature')
                if good:
                    self.req(sameterm(v.fs[1], e.outs.get(1)) or v.fs[1] == self.p['SIG'], 'detached_sign/outlen', fn, 'the length of the signature returned is not the one the C function reported', [show(v.fs[1])[:200]], ob='detached_sign: returns its length')
        fn = self.fn('sign')
        if fn is not None:
            for st, v, a in self.outs(fn, ['msg', 'sk']):
                e = self.ffi(st, fn, 'sign', ['crypto_sign'])
                if e is None:
                    continue
                n = T('len', param('msg'))
                self.arg(e, 0, fn, 'sign', 'signed message', room=ladd(n, self.p['SIG']))
                self.arg(e, 1, fn, 'sign', 'length of the signed message')
                self.arg(e, 2, fn, 'sign', 'message', term=param('msg'))
                self.arg(e, 3, fn, 'sign', 'length of the message', val=n)
                self.arg(e, 4, fn, 'sign', 'secret key', term=field('sk', '0'))
                b = v.fs[0] if isinstance(v, Agg) and len(v.fs) == 1 else None
                self.req(whole(b, e.outs.get(0), e.outs.get(1)), 'sign/out', fn, 'the signed message returned is not the bytes the C function wrote, over the length it reported', [show(v)[:300]], ob='sign: returns exactly what was written')

    def opening(self):
        fn = self.fn('open')
        if fn is None:
            return
        seen = set()
        n = T('len', field('sm', '0'))
        for st, v, a in self.outs(fn, ['sm', 'pk']):
            e = self.ffi(st, fn, 'open', ['crypto_sign_open'])
            if e is None:
                continue
            self.arg(e, 0, fn, 'open', 'message', room=n)
            self.arg(e, 1, fn, 'open', 'length of the message')
            self.arg(e, 2, fn, 'open', 'signed message', term=field('sm', '0'))
            self.arg(e, 3, fn, 'open', 'length of the signed message', val=n)
            self.arg(e, 4, fn, 'open', 'public key', term=field('pk', '0'))
            self.verdict(st, v, e, fn, 'open', seen)
            if isval(v, 'Ok'):
                self.req(whole(v.fs[0], e.outs.get(0), e.outs.get(1)), 'open/out', fn, 'the message returned is not the bytes the C function wrote, over the length it reported', [show(v)[:300]], ob='open: returns exactly the signed message')
        self.both(fn, 'open', seen)

    def sizes(self):
        for name, n in (('public_key_bytes', self.p['PK']), ('secret_key_bytes', self.p['SK']), ('signature_bytes', self.p['SIG'])):
            fn = self.fn(name)
            if fn is None:
                continue
            for st, v, a in self.outs(fn, []):
                self.req(v == n, name, fn, '%s() is %s, the C code works with %d bytes' % (name, show(v), n), ob='%s' % name)

    def conversions(self):
        ln = T('len', param('bytes'))
        for ty, n, exact in (('PublicKey', self.p['PK'], True), ('SecretKey', self.p['SK'], True), ('DetachedSignature', self.p['SIG'], False), ('SignedMessage', None, None)):
            fn = self.impl(ty, 'from_bytes')
            if fn is not None:
                seen = set()
                for st, v, a in self.outs(fn, ['bytes']):
                    if not self.req(isval(v, 'Ok') or isval(v, 'Err'), ty + '/from_bytes/result', fn, 'the result is neither Ok nor Err', [show(v)[:200]]):
                        continue
                    seen.add(v.vn)
                    lo, hi = st.facts.get(('bd', ln), (0, None))
                    lo = max(lo or 0, 0)
                    if isinstance(st.facts.get(ln), int):
                        lo = hi = st.facts[ln]
                    if v.vn == 'Err':
                        if exact is None:
                            self.req(False, ty + '/from_bytes/reject', fn, 'a %s is refused' % ty)
                        elif exact:
                            out = (lo > n) or (hi is not None and hi < n) or n in (st.facts.get(('ne', ln)) or ()) or any(
                                isinstance(k, T) and k.op == 'eq' and set(map(show, [x if not isinstance(x, int) else T('n', x) for x in k.args])) == {show(ln), show(T('n', n))} and x == 0 for k, x in st.facts.items())
                            self.req(out, ty + '/from_bytes/reject', fn, 'a %s of the right length may be refused' % ty, ob='%s: the right length is accepted' % ty)
                        else:
                            self.req(lo > n, ty + '/from_bytes/reject', fn, 'a %s of a fitting length may be refused' % ty, ob='%s: fitting lengths are accepted' % ty)
                        continue
                    x = v.fs[0]
                    b = x.fs[0] if isinstance(x, Agg) and x.fs else None
                    if exact:
                        self.req((lo, hi) == (n, n), ty + '/from_bytes/length', fn, 'a %s is accepted with a length between %s and %s, expected %d only' % (ty, lo, hi, n), ob='%s: only the right length' % ty)
                        self.req(whole(b, param('bytes')), ty + '/from_bytes/content', fn, 'the %s does not hold the bytes it was made from' % ty, [show(x)[:300]], ob='%s: holds the bytes given' % ty)
                    elif exact is None:
                        self.req(whole(b, param('bytes')), ty + '/from_bytes/content', fn, 'the %s does not hold the bytes it was made from' % ty, [show(x)[:300]], ob='%s: holds the bytes given' % ty)
                    else:
                        self.req(hi is not None and hi <= n, ty + '/from_bytes/length', fn, 'a %s of up to %s bytes is accepted, there is room for %d' % (ty, hi, n), ob='%s: only fitting lengths' % ty)
                        good = isinstance(b, Bytes) and starts(b, param('bytes')) and (sameterm(b.segs[0][3], ln) or b.segs[0][3] == hi == lo)
                        self.req(good, ty + '/from_bytes/content', fn, 'the %s does not hold the bytes it was made from' % ty, [show(x)[:300]], ob='%s: holds the bytes given' % ty)
                        self.req(len(x.fs) > 1 and (sameterm(x.fs[1], ln) or (x.fs[1] == hi == lo)), ty + '/from_bytes/len', fn, 'the %s does not record the length it was made with' % ty, [show(x)[:300]], ob='%s: records its length' % ty)
                self.req('Ok' in seen, ty + '/from_bytes/none', fn, 'no %s can be made from bytes' % ty, ob='%s: can be made' % ty)
            fn = self.impl(ty, 'as_bytes')
            if fn is not None:
                for st, v, a in self.outs(fn, ['self']):
                    b = self.deref(fn, st, v)
                    want = field('self', '1') if ty == 'DetachedSignature' else n
                    self.req(whole(b, field('self', '0'), want), ty + '/as_bytes', fn, 'as_bytes of a %s is not its bytes' % ty, [show(b)[:300] if b is not None else show(v)[:200]], ob='%s: as_bytes gives them back' % ty)

    def deref(self, fn, st, v):
        from models import as_bytes
        I = new_interp(self.W.prog, crates=())
        try:
            return as_bytes(I, st, v)
        except Exception:
            return None


def randombytes(W, R):
    fn = W.prog.fns.get('pqcrypto_internals::PQCRYPTO_RUST_randombytes')
    if not R.check(fn is not None, 'randombytes/missing', 'pqcrypto/pqcrypto-internals/src/lib.rs', 'the source of randomness of the C code is gone', ob='randombytes: present'):
        return
    models.UNKNOWN_STD.clear()
    outs, I = W.call(fn, ['buf', 'len'], crates=())
    R.functions.add(fn.path)
    R.nodes += len(outs)
    for p in I.incomplete[:3]:
        R.undecided.append('%s: %s' % (fn.path, p))
    n = 0
    for st, v, a in outs:
        calls = [e for e in st.events() if e.k == 'call' and str(e.path).split('::')[0] == 'getrandom']
        good = False
        for e in calls:
            r = e.args[0] if e.args else None
            b = r if isinstance(r, Bytes) else None
            seg = b.segs[0] if b is not None and len(b.segs) == 1 else None
            if seg and seg[0] == 't' and seg[2] == 0 and isinstance(seg[1], T) and seg[1].op == 'call' and 'from_raw_parts_mut' in str(seg[1].args[0]):
                x = seg[1].args[2:]
                good |= len(x) == 2 and sameterm(x[0], param('buf')) and sameterm(x[1], param('len')) and st.facts.get(T('discr', e.ret)) == 0 and (sameterm(seg[3], param('len')) or isinstance(seg[3], T) and seg[3].op == 'len')
        if v == 0:
            n += 1
            R.check(good, 'randombytes/fill', loc(fn), 'success is reported without the operating system having filled the whole buffer', [str(e.args)[:300] for e in calls], ob='randombytes: success only with the whole buffer filled')
    if not I.incomplete:
        R.check(n, 'randombytes/success', loc(fn), 'randombytes never reports success', ob='randombytes: can succeed')


def p24(W, R):
    """The Rust bindings hand the C code the right objects and report its verdict."""
    protos = prototypes(R)
    for s in SETS:
        b = Bind(W, R, s, protos)
        b.verify()
        b.keypair()
        b.signing()
        b.opening()
        b.sizes()
        b.conversions()
    randombytes(W, R)
