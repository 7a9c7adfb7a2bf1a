"""Rules on the symmetric building blocks: authenticated encryption, the wide-block cipher, randomness, key files."""
from rules_auth import *


def fns(W, suffix, crate='latke'):
    """functions by path, each body once"""
    seen, out = set(), []
    for f in W.prog.find(crate, lambda f: f.path.endswith(suffix)):
        if id(f) not in seen:
            seen.add(id(f))
            out.append(f)
    return out


# ------------------------------------------------------------------------------------------------ P10
def p10(W, R):
    """Encrypt-then-MAC, on every ciphertext sent and every plaintext used"""
    key, msg = tb(T('param', 'key'), 64), tb(T('param', 'msg'), T('len', T('param', 'msg')))
    enc, dec = fns(W, 'auth_enc::auth_encrypt'), fns(W, 'auth_enc::auth_decrypt')
    if not enc or not dec:
        R.undecided.append('authenticated encryption functions not found')
    for f in enc[:1]:
        R.functions.add(f.path)
        outs_, I = W.call(f, ['rng', 'key', 'msg'], over={'key': key, 'msg': msg})
        R.check(outs_, 'enc/none', loc(f), 'encryption has no returning path', ob='encryption returns')
        for st, v, a in outs_:
            R.nodes += 1
            v = asb(I.reify(st, v))
            sealed(R, v, 'enc', loc(f), key)
            for d in dec[:1]:
                # decryption of what encryption made gives the message back, on every path
                o2, I2 = W.call(d, ['key', 'sealed'], over={'key': key, 'sealed': v})
                R.check(o2, 'roundtrip/none', loc(d), 'decryption of an honest ciphertext does not return', ob='decryption of an honest ciphertext returns')
                for s2, v2, a2 in o2:
                    R.nodes += 1
                    x = I2.reify(s2, v2)
                    if not feasible(s2):
                        continue
                    R.check(isinstance(x, Agg) and x.vn == 'Ok' and asb(x.fs[0]) == msg, 'roundtrip', loc(d), 'decrypting an honest ciphertext does not give the message back', [show(x)[:400]], ob='decrypt(encrypt(m)) = m')
    for f in dec[:1]:
        R.functions.add(f.path)
        o, I = W.call(f, ['key', 'sealed'], over={'key': key, 'sealed': Ref_in(W)})
        n = T('len', T('in', 'sealed'))
        for st, v, a in o:
            R.nodes += 1
            x = I.reify(st, v)
            if isinstance(x, Agg) and x.vn == 'Err':
                continue
            R.check(isinstance(x, Agg) and x.vn == 'Ok', 'dec/result', loc(f), 'decryption neither succeeds nor fails definitely', [show(x)[:300]], ob='decryption has a definite outcome')
            opened(R, st.facts, asb(x.fs[0]) if isinstance(x, Agg) else None, 'dec', loc(f), key, T('in', 'sealed'))
    # uses inside the protocols: every ciphertext sent, every plaintext used
    for s in [W.eue(r) for r in ROLES] + [s for k, s in sorted(W.sessions().items())]:
        if s is None:
            continue
        uses(W, R, s)


def uses(W, R, s):
    R.session(s)
    seen = set()
    for n in s.nodes:
        if n.kind not in ('ok', 'err'):
            continue
        for e in n.events():
            if e.k != 'keystream':
                continue
            d = e.d['data']
            if received(d):
                if isinstance(e.d['data'], Bytes) and e.d['data'].len == 0:
                    continue
                # decryption: the MAC over ciphertext and nonce was verified before
                ok_ = False
                before = []
                for e2 in n.allevents():
                    if e2 is e:
                        break
                    before.append(e2)
                for e2 in before:
                    if e2.k == 'macverify' and e2.d['full'] and n.st.facts.get(T('discr', e2.d['term'])) == 0 or (e2.k == 'macverify' and e2.d['full'] and e2.d['tag'] == tb(T('mac', e2.d['key'], e2.d['data']), 32)):
                        if e2.d['data'] == cat(d, e.d['nonce']):
                            ok_ = True
                R.check(ok_, 'use-dec/' + tag(s), where(s, n), 'a received ciphertext is decrypted although the MAC over exactly that ciphertext and nonce was not verified before (%s)' % e.span, [show(d)[:200]], ob='%s: decryption after verification' % tag(s, n))
            else:
                nonce = e.d['nonce']
                o = n.out
                ok_ = isinstance(nonce, Bytes) and fullrng(nonce, 12)
                R.check(ok_, 'use-nonce/' + tag(s), where(s, n), 'an encryption nonce is not 12 freshly drawn bytes (%s)' % e.span, [show(nonce)[:200]], ob='%s: nonce fully random' % tag(s, n))
                if n.kind == 'ok' and o is not None and isinstance(o, Bytes):
                    # ciphertext, nonce and a tag over exactly these appear in the message
                    ct = bxor_ropes(d, tb(T('keystream', e.d['key'], nonce, 0), d.len))
                    m = None
                    for e2 in n.events():
                        if e2.k == 'mac' and e2.d['data'] == cat(ct, nonce):
                            m = e2
                    good = m is not None and ropein(o, cat(ct, nonce, tb(T('mac', m.d['key'], m.d['data']), 32)))
                    R.check(good, 'use-enc/' + tag(s), where(s, n), 'a ciphertext is sent without a full MAC over exactly that ciphertext and its nonce (%s)' % e.span, [show(o)[:400]], ob='%s: ciphertext MACed' % tag(s, n))


def cat(*bs):
    segs = []
    for b in bs:
        segs += list(b.segs)
    return norm(segs)


def fullrng(b, n):
    """b is n bytes, every one of them straight from a generator and none of them twice"""
    if not isinstance(b, Bytes) or b.len != n:
        return False
    seen = []
    for s in b.segs:
        if s[0] != 't' or not isinstance(s[1], T) or not israndom(s[1]):
            return False
        for t, o, l in seen:
            if t is s[1] and overlap((o, l), (s[2], s[3])):
                return False
        seen.append((s[1], s[2], s[3]))
    return True


def israndom(t):
    if t.op == 'rng':
        return True
    if t.op in ('fresh', 'call') and any(isrngstate(a) for a in t.args[1:]):
        return True
    return t.op == 'fresh' and str(t.args[0]).split('::')[-1] in ('random', 'thread_rng', 'generate_nonce')


def isrngstate(a):
    return isinstance(a, T) and (a.op == 'rngnext' or (a.op == 'param' and str(a.args[0]).startswith('rng')) or (a.op == 'fresh' and str(a.args[0]).split('::')[-1] in ('thread_rng', 'from_entropy', 'from_os_rng')) or (a.op == 'mut' and isinstance(a.args[0], T) and any(isrngstate(x) for x in a.args[0].args[1:])))


def feasible(st):
    return True


def Ref_in(W):
    t = T('in', 'sealed')
    return tb(t, T('len', t))


def sealed(R, v, k, wh, key):
    """v = (message XOR keystream) | nonce | mac"""
    if not isinstance(v, Bytes):
        R.undecided.append('encryption result not understood')
        return
    msg = T('param', 'msg')
    n = T('len', msg)
    R.check(v.len == ladd(n, 44), k + '/len', wh, 'a ciphertext is not message plus 12 bytes of nonce plus 32 bytes of tag', [show(v)[:300]], ob='ciphertext length')
    ct, nonce, mac = bslice(v, 0, n), bslice(v, n, 12), bslice(v, ladd(n, 12), 32)
    R.check(fullrng(nonce, 12), k + '/nonce', wh, 'the nonce is not 12 freshly drawn bytes', [show(nonce)[:200]], ob='nonce fully random')
    ks = [x for s in ct.segs if s[0] == 'x' for x in s[1] if x[0] == 't' and x[1].op == 'keystream']
    good = len(ct.segs) == 1 and ct.segs[0][0] == 'x' and len(ct.segs[0][1]) == 2 and len(ks) == 1 and any(x[0] == 't' and x[1] is msg and x[2] == 0 for x in ct.segs[0][1])
    R.check(good, k + '/stream', wh, 'the ciphertext is not the message XOR one keystream', [show(ct)[:300]], ob='ciphertext = message XOR keystream')
    if good:
        kt = ks[0][1]
        R.check(kt.args[1] == nonce, k + '/streamnonce', wh, 'the keystream does not use the transmitted nonce', ob='keystream under the transmitted nonce')
        ek = kt.args[0]
        mt = [s[1] for s in mac.segs if s[0] == 't' and s[1].op == 'mac' and s[2] == 0 and s[3] == 32]
        R.check(len(mac.segs) == 1 and mt, k + '/mac', wh, 'the ciphertext does not end in a full-length MAC', [show(mac)[:200]], ob='full MAC')
        if mt:
            R.check(mt[0].args[1] == bslice(v, 0, ladd(n, 12)), k + '/macdata', wh, 'the MAC does not cover exactly ciphertext and nonce', [show(mt[0].args[1])[:300]], ob='MAC over ciphertext and nonce')
            keyparts(R, k, wh, ek, mt[0].args[0], key)


def keyparts(R, k, wh, ek, mk, key):
    a = [x for x in keyed(ek)]
    b = [x for x in keyed(mk)]
    sep = a and b and all(x[0] is not y[0] or not overlap(x[1:], y[1:]) for x in a for y in b)
    R.check(sep, k + '/keys', wh, 'encryption and MAC key overlap', [show(ek)[:100], show(mk)[:100]], ob='disjoint encryption and MAC keys')
    R.check(isinstance(mk, Bytes) and mk.len == 32 and isinstance(ek, Bytes) and ek.len == 32 and received_key(ek, key) and received_key(mk, key), k + '/keylen', wh, 'encryption or MAC key is not 32 bytes of the key', ob='32-byte keys from the key')


def received_key(b, key):
    return all(s[0] == 't' and s[1].op == 'param' and s[1].args[0] == 'key' for s in b.segs)


def opened(R, facts, pt, k, wh, key, src):
    """on a successful path: a MAC check on everything before the last 32 bytes"""
    n = T('len', src)
    whole = tb(src, n)
    mv = [a for a in auths(facts) if a.kind == 'mac' and not a.weak]
    good = [a for a in mv if a.data == bslice(whole, 0, lsub(n, 32)) and a.tag == bslice(whole, lsub(n, 32), 32)]
    R.check(good, k + '/verified', wh, 'a plaintext is returned although no full MAC check over the whole ciphertext and nonce succeeded', [show(a.data)[:200] for a in mv], ob='MAC verified before a plaintext is returned')
    if isinstance(pt, Bytes) and good:
        ks = [x for s in pt.segs if s[0] == 'x' for x in s[1] if x[0] == 't' and x[1].op == 'keystream']
        R.check(len(ks) == 1 and ks[0][1].args[1] == bslice(whole, lsub(n, 44), 12), k + '/nonce', wh, 'decryption does not use the transmitted nonce', [show(pt)[:300]], ob='decryption under the transmitted nonce')
        if len(ks) == 1:
            keyparts(R, k, wh, ks[0][1].args[0], good[0].key, key)


# ------------------------------------------------------------------------------------------------ P16
def p16(W, R):
    """the wide-block cipher is a permutation: decrypt after encrypt and encrypt after decrypt are the identity"""
    enc, dec = fns(W, 'ideal_cipher::wide_block_encrypt')[:1], fns(W, 'ideal_cipher::wide_block_decrypt')[:1]
    if not enc or not dec:
        R.undecided.append('wide-block cipher functions not found')
        R.check(True, 'present', 'ideal_cipher', '', ob='searched')
        return
    key = tb(T('param', 'key'), T('len', T('param', 'key')))
    msg = tb(T('param', 'msg'), T('len', T('param', 'msg')))

    def run(f, data):
        out = []
        o, I = W.call(f, ['key', 'inout'], over={'key': key, 'inout': data})
        for st, v, a in o:
            R.nodes += 1
            out.append((st, asb(I.load(st, a[1].obj, a[1].path))))
        R.functions.add(f.path)
        return out
    for f, g, nm in ((enc[0], dec[0], 'decrypt-encrypt'), (dec[0], enc[0], 'encrypt-decrypt')):
        o = run(f, msg)
        R.check(o, nm + '/none', loc(f), 'the cipher does not return', ob='%s returns' % f.path)
        for st, c in o:
            o2 = run(g, c)
            R.check(o2, nm + '/none2', loc(g), 'the cipher does not return on its own output', ob='%s returns' % g.path)
            for st2, p in o2:
                R.check(p == msg, nm, loc(g), 'the two directions of the wide-block cipher are not inverse', [show(p)[:400]], ob='%s is the identity' % nm)
            # every byte of the block depends on every other byte and on the key
            if f is enc[0]:
                diffusion(R, f, c, key)


def deckuse(c):
    return sorted({t for t in subterms(c) if t.op == 'deck'}, key=lambda t: len(show(t)))


def diffusion(R, f, c, key):
    ds = deckuse(c)
    R.check(len(ds) >= 4, 'rounds', loc(f), 'the wide-block cipher has fewer than four keyed rounds', ob='four rounds')
    for i in range(len(ds)):
        R.check(key == ds[i].args[0], 'key', loc(f), 'a round of the wide-block cipher does not use the whole key', [show(ds[i].args[0])[:200]], ob='round uses the whole key')
        for j in range(i):
            R.check(distinct(ds[i].args[1], ds[j].args[1]) or sep(ds[i].args[1], ds[j].args[1]), 'domain', loc(f), 'two rounds of the wide-block cipher are not domain separated', [show(ds[i])[:200], show(ds[j])[:200]], ob='rounds domain separated')
    src = T('param', 'msg')
    n = T('len', src)
    for seg in c.segs:
        b = norm([seg])
        rs = srcsegs(b, lambda t: t is src).get(src)
        R.check(covered(rs, 0, n), 'diffuse', loc(f), 'an output part of the wide-block cipher does not depend on the whole input block', [show(b)[:200]], ob='output part depends on the whole block')


def sep(a, b):
    """distinguished by first or last byte"""
    if not (a.segs and b.segs):
        return False
    fa, fb, la, lb = a.segs[0], b.segs[0], a.segs[-1], b.segs[-1]
    c = lambda x: x[1] if x[0] == 'c' else None
    F = lambda x: None if c(x) is None else c(x)[0]
    E = lambda x: None if c(x) is None else c(x)[-1]
    return (F(fa) is not None and F(fb) is not None and F(fa) != F(fb)) or (E(la) is not None and E(lb) is not None and E(la) != E(lb))
