"""Rules on the Saber KEM (LightSaber, Saber, FireSaber)."""
import bits as B
from bits import V
import bi
from bi import Engine, Agg, Ref, Slice, Undecided, Stuck, Panic, LList

# parameter sets of the Saber submission: rank, binomial parameter, reconciliation bits
SETS = {'lightsaber': (2, 10, 2), 'saber': (3, 8, 3), 'firesaber': (4, 6, 5)}
EPS_P, EPS_Q, N = 10, 13, 256


def sizes(v):
    K, MU, R = SETS[v]
    pv = K * 10 * N // 8
    return dict(pv=pv, pk=pv + 32, skcpa=K * 13 * N // 8, sk=K * 13 * N // 8 + pv + 32 + 64, rec=(R + 1) * N // 8, ct=pv + (R + 1) * N // 8)


def inbytes(name, n, taint=()):
    t = frozenset(taint)
    return [B.frombits(8, [B.bitatom((name, j, x), t) for x in range(8)]) for j in range(n)]


def sl(bs):
    l = list(bs)
    return Slice(l, 0, len(l))


def by(v):
    """the bytes of a newtype / array value"""
    while isinstance(v, (Agg, Ref)):
        if isinstance(v, Ref):
            v = v.get()
            continue
        if v.n in ('array', 'vec', 'ga'):
            return v.f
        if len(v.f) != 1:
            raise Undecided('not a byte string: %r' % (v,))
        v = v.f[0]
    if isinstance(v, Slice):
        return v.items()
    raise Undecided('not a byte string: %r' % (v,))


def bits_of(bs):
    out = []
    for b in bs:
        out += B.bits(b, 8)
    return out


def tobytes(bs):
    return [B.frombits(8, bs[i:i + 8]) for i in range(0, len(bs), 8)]


def diff(a, b):
    """byte positions at which two byte strings are different functions of the inputs"""
    if len(a) != len(b):
        return ['length %d instead of %d' % (len(a), len(b))]
    return [i for i in range(len(a)) if B.bits(a[i], 8) != B.bits(b[i], 8)]


def rng(d):
    if not d:
        return ''
    if isinstance(d[0], str):
        return d[0]
    return 'bytes %d..%d (%d of them)' % (d[0], d[-1] + 1, len(d))


def polys(v):
    """the coefficient arrays inside a value, in order"""
    if not isinstance(v, Agg):
        return []
    if v.n == 'array' and len(v.f) == N and not isinstance(v.f[0], Agg):
        return [v.f]
    return [p for x in v.f for p in polys(x)]


def part(v, name):
    if isinstance(v, Agg):
        if v.n.split('::')[-1] == name:
            return v
        for x in v.f:
            r = part(x, name)
            if r is not None:
                return r
    return None


class Kem:
    """one parameter set: the public operations of the crate, run on symbolic inputs"""

    def __init__(self, prog, v):
        self.P, self.v = prog, v
        self.K, self.MU, self.R = SETS[v]
        self.S = sizes(v)
        self.E = Engine(prog)
        self.problems = []
        self.memo = {}

    def fn(self, n):
        return self.P.fns.get(('saber', 'saber::%s::%s' % (self.v, n)))

    def call(self, n, args):
        f = self.fn(n)
        if f is None:
            raise KeyError(n)
        return self.E.run(f, args)

    def get(self, k, f):
        """memoised outcome: ('ok', value) or ('bad', exception)"""
        if k not in self.memo:
            e = self.E
            d0, v0 = len(e.draws), len(e.events)
            try:
                r = ('ok', f())
            except (Undecided, Stuck, Panic, KeyError) as x:
                r = ('bad', x)
            except (TypeError, AttributeError, IndexError, ValueError, RecursionError, ZeroDivisionError) as x:
                r = ('bad', Undecided('%s: %s' % (type(x).__name__, x)))
            self.memo[k] = r + (list(range(d0, len(e.draws))), e.events[v0:])
        return self.memo[k]

    # ---- operations
    def keygen(self):
        def go():
            sk = self.call('keygen', [])
            c = [sk]
            return by(self.call('SecretKey::to_bytes', [Ref(c, 0)]))
        return self.get('keygen', go)

    def keygen_cpa(self):
        def go():
            t = self.call('keygen_ind_cpa', [])
            c = list(t.f)
            sk = [y for p in polys(c[1]) for y in self.pack(p, 13)]
            return by(self.call('INDCPAPublicKey::to_bytes', [Ref(c, 0)])), sk
        return self.get('keygen_cpa', go)

    def parse(self, n, bs):
        r = self.call(n + '::from_bytes', [sl(bs)])
        if isinstance(r, Agg) and r.n.split('::')[-1] == 'Result':
            if r.vi != 0:
                raise Panic('%s::from_bytes rejects input of the right length' % n, '', '')
            return r.f[0]
        return r

    def pkb(self):
        return inbytes('pk', self.S['pk'])

    def ctb(self):
        return inbytes('ct', self.S['ct'])

    def skb(self):
        S = self.S
        return (inbytes('sk', S['skcpa'], ['secret key']) + self.pkb() + inbytes('hpk', 32) + inbytes('z', 32, ['secret z']))

    def encaps(self):
        def go():
            pk = self.parse('PublicKey', self.pkb())
            r = self.call('encapsulate', [Ref([pk], 0)])
            return by(r.f[0]), by(r.f[1])
        return self.get('encaps', go)

    def encaps_cpa(self):
        def go():
            pk = self.parse('INDCPAPublicKey', self.pkb())
            r = self.call('encapsulate_ind_cpa', [Ref([pk], 0)])
            return by(r.f[0]), by(r.f[1])
        return self.get('encaps_cpa', go)

    def decaps(self):
        def go():
            sk = self.parse('SecretKey', self.skb())
            ct = self.parse('Ciphertext', self.ctb())
            return by(self.call('decapsulate', [Ref([ct], 0), Ref([sk], 0)]))
        return self.get('decaps', go)

    def decaps_cpa(self):
        def go():
            sk = part(self.parse('SecretKey', self.skb()), 'INDCPASecretKey')
            ct = self.parse('Ciphertext', self.ctb())
            return by(self.call('decapsulate_ind_cpa', [Ref([ct], 0), Ref([sk], 0)]))
        return self.get('decaps_cpa', go)

    # ---- the specification, over the same domain
    def xof(self, seed, n):
        class D:
            pass
        import bimodels
        return bimodels.hash_out(self.E, 'Shake128', seed, n)

    def H(self, alg, data):
        import bimodels
        return bimodels.hash_out(self.E, alg, data, bimodels.ALGS[alg])

    def poly(self, cs):
        return Agg('poly', [Agg('array', cs)])

    def unpack(self, bs, x, n=N):
        b = bits_of(bs)
        return [B.frombits(16, b[x * i:x * i + x]) for i in range(n)]

    def polyvec(self, bs, x):
        return [self.unpack(bs[32 * x * i:32 * x * (i + 1)], x) for i in range(self.K)]

    def matrix(self, seed):
        K = self.K
        bs = self.xof(seed, K * K * 416)
        return [[self.unpack(bs[416 * (K * i + j):416 * (K * i + j + 1)], 13) for j in range(K)] for i in range(K)]

    def secret(self, seed):
        K, mu = self.K, self.MU
        b = bits_of(self.xof(seed, K * mu * N // 8))
        out = []
        for i in range(K):
            cs = []
            for j in range(N):
                o = mu * (N * i + j)
                x = 0
                for k in range(mu):
                    bit = B.V(16, 0, {b[o + k] >> 1: 1}) if b[o + k] > 1 else b[o + k]
                    x = B.add(x, bit, 16) if k < mu // 2 else B.sub(x, bit, 16)
                cs.append(x)
            out.append(cs)
        return out

    def ringmul(self, p, q):
        E = self.E
        P, Q = self.poly(p), self.poly(q)
        x, y = E.poly_id(P), E.poly_id(Q)
        t = E.poly_taint(x, P) | E.poly_taint(y, Q)
        x, y = sorted((x, y))
        return [B.word(('ring', x, y, k), 16, 16, t) for k in range(N)]

    def inner(self, ps, qs):
        acc = [0] * N
        for p, q in zip(ps, qs):
            acc = [B.add(a, b, 16) for a, b in zip(acc, self.ringmul(p, q))]
        return acc

    def rnd(self, p):
        return [B.shr(B.add(c, 4, 16), 3, 16) for c in p]

    def pack(self, p, x, lo=0):
        out = []
        for c in p:
            out += B.bits(c, 16)[lo:lo + x]
        return tobytes(out)

    def spec_keypair(self, seed, noise):
        A, s = self.matrix(seed), self.secret(noise)
        b = [self.rnd(self.inner(A[i], s)) for i in range(self.K)]
        pk = [y for p in b for y in self.pack(p, 10)] + list(seed)
        sk = [y for p in s for y in self.pack(p, 13)]
        return pk, sk

    def spec_enc(self, m, r, pk):
        K, R = self.K, self.R
        A, s = self.matrix(pk[self.S['pv']:]), self.secret(r)
        b1 = [self.rnd(self.inner([A[j][i] for j in range(K)], s)) for i in range(K)]
        ct = [y for p in b1 for y in self.pack(p, 10)]
        v = self.inner(self.polyvec(pk[:self.S['pv']], 10), s)
        mb = bits_of(m)
        mp = [B.add(B.frombits(16, [0] * 9 + [mb[i]]), v[i], 16) for i in range(N)]
        return ct + self.pack(mp, R + 1, EPS_P - R - 1)

    def spec_dec(self, skcpa, ct):
        R = self.R
        s = self.polyvec(skcpa, 13)
        b = self.polyvec(ct[:self.S['pv']], 10)
        v = self.inner(b, s)
        rec = self.unpack(ct[self.S['pv']:], R + 1)
        c0, c1 = EPS_P - R - 1, (1 << 8) - (1 << (8 - R))
        out = []
        for i in range(N):
            t = B.add(B.sub(v[i], B.shl(rec[i], c0, 16), 16), c1, 16)
            out.append(B.bits(t, 16)[9] if isinstance(t, V) else t >> 9 & 1)
        return tobytes(out)


def kems(W):
    return W.memo('kems', lambda: {v: Kem(W.prog, v) for v in SETS})


def start(W, R):
    ks = kems(W)
    out = {}
    for v, k in ks.items():
        if k.fn('keygen') is None and not any(isinstance(x, tuple) and x[0] == 'saber' and x[1].startswith('saber::%s::' % v) for x in W.prog.fns):
            R.fail('anchor/' + v, 'saber-rust/src', 'the parameter set %s is gone' % v)
            continue
        out[v] = k
    return out


def finish(R, ks):
    for k in ks.values():
        R.functions.update(k.E.used)
        R.nodes += len(k.E.used)
    R.info['calls_interpreted'] = sum(k.E.calls for k in ks.values())
    R.info['bit_nodes'] = len(B.KIND)


def outcome(R, k, op, r, key):
    """value of an operation, or None after reporting why there is none"""
    if r[0] == 'ok':
        return r[1]
    e = r[1]
    if isinstance(e, KeyError):
        R.fail('%s/%s/%s' % (key, k.v, op), 'saber-rust/src (%s)' % k.v, 'public function %s of %s not found' % (e, k.v))
    elif isinstance(e, Panic):
        R.fail('%s/%s/%s' % (key, k.v, op), '%s (%s)' % (e.fn, e.span), '%s of %s panics for every input: %s' % (op, k.v, e.why))
    elif isinstance(e, Stuck):
        R.undecided.append('%s %s: %s' % (k.v, op, e))
    else:
        R.undecided.append('%s %s: %s' % (k.v, op, e))
    return None


def where(k, n):
    f = k.fn(n)
    return '%s (%s)' % (f.path, f.span) if f is not None else k.v


def ringcheck(R, k):
    for key, span, bad in k.E.ring_reports:
        R.check(bad is None, 'poly-mul', '%s (%s)' % (key, span), 'coefficient %s of the polynomial product is not the one of multiplication modulo x^256+1' % bad, ob='%s: all 256 coefficients are those of the negacyclic product' % key)


def draw_of(b):
    """the random draw (number, first byte) of which a byte string is a contiguous part, or None"""
    ids = set()
    for j, x in enumerate(b):
        if not isinstance(x, V):
            return None
        bs = B.bits(x, 8)
        for i, l in enumerate(bs):
            if l & 1 or l < 2:
                return None
            o = B.KIND[l >> 1]
            if o[0] != 'a' or not isinstance(o[1], tuple) or o[1][0] != 'rng' or o[1][3] != i:
                return None
            ids.add((o[1][1], o[1][2] - j))
    return ids.pop() if len(ids) == 1 else None


def dtaint(d):
    return {('rng', d[0], d[1] // 32), ('rng', d[0], (d[1] + 31) // 32)}


def rb(i, n, b=0):
    t = frozenset([('rng', i, b // 32)])
    return [B.frombits(8, [B.bitatom(('rng', i, b + j, x), t) for x in range(8)]) for j in range(n)]


# ------------------------------------------------------------------------- P19
def p19(W, R):
    ks = start(W, R)
    for v, k in ks.items():
        S = k.S
        for n, bs in (('PublicKey', k.pkb()), ('SecretKey', k.skb()), ('INDCPAPublicKey', k.pkb())):
            def go(n=n, bs=bs):
                o = k.parse(n, bs)
                return by(k.call(n + '::to_bytes', [Ref([o], 0)]))
            out = outcome(R, k, n, k.get('rt' + n, go), 'roundtrip')
            if out is None:
                continue
            d = diff(out, bs)
            R.check(not d, 'roundtrip/%s/%s' % (v, n), where(k, n + '::to_bytes'), 'parsing %s %s and serialising it again changes %s' % (v, n, rng(d)), ob='%s: to_bytes(from_bytes(b)) = b' % n)
        for n, size in (('PublicKeyBytes', S['pk']), ('SecretKeyBytes', S['sk']), ('Ciphertext', S['ct'])):
            if k.fn(n + '::from_bytes') is None:
                continue

            def go(n=n, size=size):
                b = inbytes('nt', size)
                return by(k.parse(n, b)), b
            r = outcome(R, k, n, k.get('nt' + n, go), 'roundtrip')
            if r:
                d = diff(*r)
                R.check(not d, 'newtype/%s/%s' % (v, n), where(k, n + '::from_bytes'), '%s of %s does not hold the bytes it was made from: %s' % (n, v, rng(d)), ob='%s holds its input' % n)
    # the packings themselves, wherever they are in the crate: every pair pack_x / unpack_x on Poly
    import re
    k = next(iter(ks.values()), None)
    if k is not None:
        pairs = {}
        for x in W.prog.fns:
            if isinstance(x, tuple) and x[0] == 'saber':
                f = W.prog.fns[x]
                if f.d.get('ext'):
                    continue
                m = re.search(r'Poly::(read_bytes|from_bytes|from|read)_(\w+)$', f.key)
                if m:
                    pairs.setdefault(m.group(2).replace('bytes_', ''), {})[m.group(1).split('_')[0]] = f
        for x, p in sorted(pairs.items()):
            if set(p) != {'read', 'from'}:
                continue
            nb = 1 if x == 'msg' else int(re.match(r'\d+', x).group(0)) if re.match(r'\d+', x) else None
            if nb is None:
                continue
            E = Engine(W.prog)

            def go():
                pol = Agg('poly::Poly', [Agg('array', [B.word(('c', j), 16, 16) for j in range(N)])])
                buf = [0] * (32 * nb)
                E.run(p['read'], [pol, Slice(buf, 0, len(buf))])
                want = [B.frombits(8, y) for y in zip(*[iter([l for c in pol.f[0].f for l in B.bits(c, 16)[:nb]])] * 8)] if x != 'msg' else None
                q = E.run(p['from'], [Slice(buf, 0, len(buf))])
                src = inbytes('b', 32 * nb)
                back = [0] * (32 * nb)
                E.run(p['read'], [E.run(p['from'], [sl(src)]), Slice(back, 0, len(back))])
                return pol, buf, q, src, back
            r = k.get('pack' + x, go)
            val = outcome(R, k, 'packing ' + x, r, 'pack')
            if val is None:
                continue
            pol, buf, q, src, back = val
            lo = 9 if x == 'msg' else 0
            bad = [j for j in range(N) if B.bits(q.f[0].f[j], 16)[lo:lo + nb] != B.bits(pol.f[0].f[j], 16)[:nb] or any(B.bits(q.f[0].f[j], 16)[:lo] + B.bits(q.f[0].f[j], 16)[lo + nb:])]
            if x == 'msg':
                # packing takes bit 0 of each coefficient (others must not matter: they are 0 or 1 when called)
                bad = [j for j in range(N) if B.bits(q.f[0].f[j], 16)[9] != B.bits(pol.f[0].f[j], 16)[0] and not extra_ok(B.bits(q.f[0].f[j], 16)[9], pol.f[0].f, j)]
            R.check(not bad, 'unpack/' + x, '%s (%s)' % (p['from'].path, p['from'].span), 'unpacking the %s packing does not give back coefficient %s' % (x, bad[:4]), ob='%s: unpack(pack(c)) = c mod 2^%d for all 256 coefficients' % (x, nb))
            if x != 'msg':
                d = diff(back, src)
                R.check(not d, 'pack/' + x, '%s (%s)' % (p['read'].path, p['read'].span), 'packing what the %s unpacking read gives different bytes: %s' % (x, rng(d)), ob='%s: pack(unpack(b)) = b' % x)
        R.functions.update(E.used if pairs else [])
    finish(R, ks)


def extra_ok(l, coefs, j):
    """bit j of a packed message built by or-ing shifted coefficients: with 0/1 coefficients it is bit 0 of coefficient j"""
    m = {}
    for c in coefs:
        for b in B.bits(c, 16)[1:]:
            if b > 1:
                m[b >> 1] = 0
    return B.subst(l, m, {}) == B.bits(coefs[j], 16)[0]


# ------------------------------------------------------------------------- P20
def p20(W, R):
    ks = start(W, R)
    for v, k in ks.items():
        S = k.S
        r = k.keygen_cpa()
        val = outcome(R, k, 'keygen_ind_cpa', r, 'keygen')
        if val:
            keypair(R, k, val[0], val[1], r[2], 'keygen_ind_cpa')
        r = k.keygen()
        sk = outcome(R, k, 'keygen', r, 'keygen')
        if sk:
            if R.check(len(sk) == S['sk'], 'size/%s/sk' % v, where(k, 'keygen'), 'a %s secret key is %d bytes, not %d' % (v, len(sk), S['sk']), ob='sizes'):
                pk = sk[S['skcpa']:S['skcpa'] + S['pk']]
                keypair(R, k, pk, sk[:S['skcpa']], r[2], 'keygen')
                h = k.H('Sha3_256', pk)
                d = diff(sk[S['skcpa'] + S['pk']:-32], h)
                R.check(not d, 'hpk/' + v, where(k, 'keygen'), 'the stored public key hash is not SHA3-256 of the public key: %s' % rng(d), ob='secret key holds H(pk)')
        r = k.encaps_cpa()
        val = outcome(R, k, 'encapsulate_ind_cpa', r, 'enc')
        if val:
            m, ct = val
            best = None
            for i, b in ((i, b) for i in r[2] for b in range(0, k.E.draws[i][1] - 31, 32)):
                d = diff(ct, k.spec_enc(m, rb(i, 32, b), k.pkb()))
                if best is None or len(d) < len(best):
                    best = d
            if best is None:
                best = ['no 32-byte noise seed was drawn']
            R.check(not best, 'enc/' + v, where(k, 'encapsulate_ind_cpa'), 'the %s ciphertext is not the encryption of the message under the key: %s differ' % (v, rng(best)), ob='%s: every ciphertext bit is the specified function of message, noise seed and public key' % v)
        r = k.decaps_cpa()
        m = outcome(R, k, 'decapsulate_ind_cpa', r, 'dec')
        if m:
            d = diff(m, k.spec_dec(k.skb()[:S['skcpa']], k.ctb()))
            R.check(not d, 'dec/' + v, where(k, 'decapsulate_ind_cpa'), 'the %s decryption is not the reconciliation of the specification: %s differ' % (v, rng(d)), ob='%s: every message bit is the specified function of ciphertext and secret key' % v)
        ringcheck(R, k)
    finish(R, ks)


def keypair(R, k, pk, sk, draws, op):
    v, S = k.v, k.S
    ok = R.check(len(pk) == S['pk'] and len(sk) == S['skcpa'], 'size/%s/%s' % (v, op), where(k, op), '%s keys are %d and %d bytes, not %d and %d' % (v, len(pk), len(sk), S['pk'], S['skcpa']), ob='sizes')
    if not ok:
        return
    seed = pk[S['pv']:]
    best = None
    for i, b in ((i, b) for i in draws for b in range(0, k.E.draws[i][1] - 31, 32)):
        p, s = k.spec_keypair(seed, rb(i, 32, b))
        d = (diff(sk, s), diff(pk, p))
        if best is None or len(d[0]) + len(d[1]) < len(best[0]) + len(best[1]):
            best = d
    if best is None:
        best = (['no 32-byte noise seed was drawn'], [])
    R.check(not best[0], 'secret/%s/%s' % (v, op), where(k, op), 'the %s secret vector is not the centred binomial sample of its noise seed: %s differ' % (v, rng(best[0])), ob='%s: secret coefficients are differences of two sums of mu/2 distinct seed bits, packed in 13 bits' % v)
    if not best[0]:
        R.check(not best[1], 'public/%s/%s' % (v, op), where(k, op), 'the %s public key is not round(A s) with its seed: %s differ' % (v, rng(best[1])), ob='%s: every public key bit is the specified function of seed and secret' % v)


# ------------------------------------------------------------------------- P21
def hash_parts(bs, alg, off):
    """id of the hash the byte string is a slice of (from offset off), or None"""
    ids = set()
    for j, x in enumerate(bs):
        if not isinstance(x, V):
            return None
        for i, l in enumerate(B.bits(x, 8)):
            o = B.KIND[l >> 1]
            if l & 1 or o[0] != 'a' or not isinstance(o[1], tuple) or len(o[1]) != 3 or not isinstance(o[1][0], tuple) or o[1][0][0] != alg or o[1][1] != off + j or o[1][2] != i:
                return None
            ids.add(o[1][0])
    return ids.pop() if len(ids) == 1 else None


def p21(W, R):
    ks = start(W, R)
    for v, k in ks.items():
        S = k.S
        # encapsulation
        r = k.encaps()
        val = outcome(R, k, 'encapsulate', r, 'encaps')
        if val:
            key, ct = val
            w = where(k, 'encapsulate')
            h = hash_parts(key, 'Sha3_256', 0)
            inp = bi.HASH_INPUTS.get(h, [])
            if R.check(h is not None and len(inp) == 64, 'enc-key/' + v, w, 'the shared secret of %s is not SHA3-256 of 64 bytes' % v, ob='%s: shared secret is a hash output' % v):
                first = inp[:32]
                R.check(not diff(first, k.H('Sha3_256', ct)), 'enc-ct/' + v, w, 'the shared secret of %s is not bound to the hash of the whole ciphertext' % v, ob='%s: shared secret binds the ciphertext hash' % v)
                kr = hash_parts(inp[32:], 'Sha3_512', 32)
                src = bi.HASH_INPUTS.get(kr, [])
                good = kr is not None and len(src) == 64
                R.check(good, 'enc-k/' + v, w, 'the pre-key of %s is not the second half of SHA3-512 of public key hash and message' % v, ob='%s: pre-key is the second half of SHA3-512' % v)
                if good:
                    R.check(not diff(src[:32], k.H('Sha3_256', k.pkb())), 'enc-hpk/' + v, w, 'the pre-key of %s is not bound to the hash of the public key' % v, ob='%s: pre-key binds H(pk)' % v)
                    m = src[32:]
                    d = draw_of(m)
                    R.check(d is not None, 'enc-m/' + v, w, 'the message of %s is not 32 freshly drawn bytes' % v, ob='%s: the message is a full draw' % v)
                    if d is not None:
                        noise = k.H('Sha3_512', src)[:32]
                        bad = diff(ct, k.spec_enc(m, noise, k.pkb()))
                        R.check(not bad, 'enc-r/' + v, w, 'the %s ciphertext is not the encryption of the message with the noise derived from message and public key: %s differ' % (v, rng(bad)), ob='%s: encryption randomness is the first half of SHA3-512(H(pk), m)' % v)
        # decapsulation
        r = k.decaps()
        key = outcome(R, k, 'decapsulate', r, 'decaps')
        if not key:
            continue
        w = where(k, 'decapsulate')
        h = hash_parts(key, 'Sha3_256', 0)
        inp = bi.HASH_INPUTS.get(h, [])
        if not R.check(h is not None and len(inp) == 64, 'dec-key/' + v, w, 'the decapsulated secret of %s is not SHA3-256 of 64 bytes' % v, ob='%s: decapsulated secret is a hash output' % v):
            continue
        kr = hash_parts(inp[32:], 'Sha3_512', 32)
        src = bi.HASH_INPUTS.get(kr, [])
        if not R.check(kr is not None and len(src) == 64, 'dec-k/' + v, w, 'the decapsulated pre-key of %s is not the second half of SHA3-512 of public key hash and decrypted message' % v, ob='%s: pre-key re-derived' % v):
            continue
        skb, ctb = k.skb(), k.ctb()
        pk, hpk, z = skb[S['skcpa']:S['skcpa'] + S['pk']], skb[-64:-32], skb[-32:]
        R.check(not diff(src[:32], hpk) or not diff(src[:32], k.H('Sha3_256', pk)), 'dec-hpk/' + v, w, 'the decapsulated pre-key of %s is not bound to the public key hash of the secret key' % v, ob='%s: pre-key binds H(pk)' % v)
        m = src[32:]
        r2 = k.decaps_cpa()
        if r2[0] == 'ok':
            R.check(not diff(m, r2[1]), 'dec-m/' + v, w, 'the message the pre-key of %s is derived from is not the decryption of the ciphertext' % v, ob='%s: message is the decryption' % v)
        noise = k.H('Sha3_512', src)[:32]
        ct2 = k.spec_enc(m, noise, pk)
        X = bits_of(inp[:32])
        eq = [B.mk_xor([a, b]) for a, b in zip(bits_of(ct2), bits_of(ctb))]
        F = B.mk_or(eq)
        # accepted: F = 0; rejected: F = 1
        zb = bits_of(z)
        acc = [bits_of(k.H('Sha3_256', ct2)), bits_of(k.H('Sha3_256', ctb))]
        m0 = {F >> 1: F & 1}
        for l in B.KIND[F >> 1][1]:
            m0[l >> 1] = l & 1
        m1 = {F >> 1: 1 ^ (F & 1)}
        memo0, memo1 = {}, {}
        got0 = [B.subst(x, m0, memo0) for x in X]
        ors = set(B.KIND[F >> 1][1]) if not F & 1 and B.KIND[F >> 1][0] == 'o' else None
        got1 = [B.subst(x, m1, memo1, ors) for x in X]
        R.check(got1 == zb, 'reject/' + v, w, 'when the re-encryption differs from the ciphertext in any byte, the %s secret has to be derived from the stored random z; it is not' % v, [B.show_lit(x) for x in got1[:3]],
                ob='%s: any difference in any of %d ciphertext bytes selects z (all 256 bits)' % (v, S['ct']))
        R.check(got0 in acc, 'accept/' + v, w, 'when the re-encryption equals the ciphertext, the %s secret has to be derived from the ciphertext hash; it is not' % v, [B.show_lit(x) for x in got0[:3]],
                ob='%s: equality selects the ciphertext hash (all 256 bits)' % v)
        ringcheck(R, k)
    finish(R, ks)


# ------------------------------------------------------------------------- P22
def p22(W, R):
    ks = start(W, R)
    for v, k in ks.items():
        for op, r in (('keygen', k.keygen()), ('keygen_ind_cpa', k.keygen_cpa()), ('encapsulate', k.encaps()), ('encapsulate_ind_cpa', k.encaps_cpa()),
                      ('decapsulate', k.decaps()), ('decapsulate_ind_cpa', k.decaps_cpa())):
            st, val, draws, events = r
            pub = set()
            if op.startswith('keygen'):
                # the matrix seed is published
                b = None
                if st == 'ok':
                    b = val[k.S['skcpa'] + k.S['pv']:k.S['skcpa'] + k.S['pk']] if op == 'keygen' else val[0][k.S['pv']:]
                d = draw_of(b) if b else None
                if d is not None:
                    pub |= dtaint(d)
            if st == 'bad':
                if isinstance(val, Stuck):
                    t = val.taint - pub
                    if t:
                        R.fail('branch/%s/%s' % (v, val.what), '%s (%s)' % (val.fn, val.span), '%s of %s: a %s depends on secret data (%s)' % (op, v, val.what, names(t)), [str(val)])
                    else:
                        R.undecided.append('%s %s: %s' % (v, op, val))
                elif isinstance(val, KeyError):
                    R.undecided.append('%s %s not found' % (v, op))
                else:
                    R.undecided.append('%s %s: %s' % (v, op, val))
                continue
            bad = None
            for kind, sp, fn, t in events:
                if kind == 'declassify':
                    continue
                t = t - pub
                if t:
                    bad = (kind, sp, fn, t)
                    break
            R.check(bad is None, 'branch/%s/%s' % (v, op), '%s' % (where(k, op),), bad and '%s of %s: %s at %s depends on secret data (%s)' % (op, v, {'eq': 'an early-exit comparison', 'assert': 'a panic condition'}.get(bad[0], bad[0]), bad[1], names(bad[3])),
                    ob='%s: every branch, index, shift amount and panic condition on the way is the same for all secrets' % op)
    finish(R, ks)


def names(t):
    return ', '.join(sorted(x if isinstance(x, str) else 'random draw %s' % x[1] for x in t))


# ------------------------------------------------------------------------- P23
def p23(W, R):
    ks = start(W, R)
    for v, k in ks.items():
        S = k.S
        allsizes = set()
        for q in SETS:
            allsizes.update(sizes(q).values())
        for n, size in (('PublicKey', S['pk']), ('SecretKey', S['sk']), ('PublicKeyBytes', S['pk']), ('SecretKeyBytes', S['sk']), ('Ciphertext', S['ct']), ('INDCPASecretKey', S['skcpa'])):
            f = k.fn(n + '::from_bytes')
            if f is None:
                if n in ('PublicKey', 'SecretKey', 'Ciphertext'):
                    R.fail('anchor/%s/%s' % (v, n), v, 'public function %s::from_bytes not found' % n)
                continue
            rt = f.locals[0]
            if 'Result' not in rt.s:
                continue
            todo = {0, 1, size - 1, size, size + 1, 2 * size} | allsizes
            done = set()
            wrong = None
            E = Engine(W.prog)
            while todo - done and len(done) < 200:
                ln = min(todo - done)
                done.add(ln)
                l = LList(inbytes('in', ln))
                try:
                    r = E.run(f, [Slice(l, 0, ln)])
                except Panic as e:
                    wrong = wrong or (ln, 'panics (%s at %s)' % (e.why, e.span))
                    continue
                except (Undecided, Stuck, TypeError, AttributeError, IndexError, ValueError) as e:
                    R.undecided.append('%s %s::from_bytes on %d bytes: %s' % (v, n, ln, e))
                    continue
                okv = isinstance(r, Agg) and r.vi == 0
                if okv != (ln == size):
                    wrong = wrong or (ln, 'is accepted' if okv else 'is rejected')
                for c in E.lens:
                    if 0 <= c <= 100000:
                        todo.update(x for x in (c - 1, c, c + 1) if x >= 0)
            R.check(wrong is None, 'length/%s/%s' % (v, n), where(k, n + '::from_bytes'), wrong and '%s::from_bytes of %s on %d bytes (right length: %d) %s' % (n, v, wrong[0], size, wrong[1]),
                    ob='%s: length classes induced by the comparisons in from_bytes: right length accepted, all others an error' % n)
            k.E.used |= E.used
    finish(R, ks)


# ------------------------------------------------------------------------- P08 (called from rules_state)
def randomness(W, R):
    ks = start(W, R)
    for v, k in ks.items():
        S = k.S
        E = k.E

        def osrng(i, what, op):
            i = i[0]
            s = E.draws[i][0]
            R.check('OsRng' in s or 'thread_rng' in s or 'ThreadRng' in s or 'getrandom' in s, 'kem-source/%s/%s' % (v, what), '%s' % E.draws[i][2], 'the %s of %s %s is not drawn from the operating system but from %s' % (what, v, op, s), ob='saber: %s from OsRng' % what)
        for op, r in (('keygen', k.keygen()), ('keygen_ind_cpa', k.keygen_cpa())):
            if r[0] != 'ok':
                R.undecided.append('%s %s: %s' % (v, op, r[1]))
                continue
            w = where(k, op)
            if op == 'keygen':
                sk = r[1]
                pk, s, z = sk[S['skcpa']:S['skcpa'] + S['pk']], sk[:S['skcpa']], sk[-32:]
            else:
                (pk, s), z = r[1], None
            used = []
            d = draw_of(pk[S['pv']:])
            R.check(d is not None, 'kem-seed/%s/%s' % (v, op), w, 'the matrix seed of a %s key is not 32 freshly drawn bytes' % v, ob='saber: matrix seed is a whole draw')
            if d is not None:
                used.append(d)
                osrng(d, 'matrix seed', op)
            if z is not None:
                d = draw_of(z)
                R.check(d is not None, 'kem-z/%s' % v, w, 'the rejection secret z of a %s key is not 32 freshly drawn bytes' % v, ob='saber: z is a whole draw')
                if d is not None:
                    used.append(d)
                    osrng(d, 'rejection secret', op)
            # noise seed: the input of the hash the secret coefficients come from
            hs = set()
            for x in s:
                for o in B.atoms_of(x):
                    if isinstance(o, tuple) and isinstance(o[0], tuple):
                        hs.add(o[0])
                    else:
                        hs.add(None)
            nd = set()
            okn = True
            for h in hs:
                inp = bi.HASH_INPUTS.get(h)
                d = draw_of(inp) if inp else None
                if d is None or len(inp) < 32:
                    okn = False
                else:
                    nd.add(d)
            R.check(okn and len(nd) >= 1, 'kem-noise/%s/%s' % (v, op), w, 'the secret vector of a %s key is not expanded from a freshly drawn seed of 32 bytes' % v, ob='saber: noise seed is a whole draw')
            for d in nd:
                osrng(d, 'noise seed', op)
            used += list(nd)
            R.check(not any(a[0] == b[0] and abs(a[1] - b[1]) < 32 for i, a in enumerate(used) for b in used[:i]), 'kem-reuse/%s/%s' % (v, op), w, 'two secrets of a %s key share the same drawn bytes' % v, ob='saber: draws are used once')
        for op, r in (('encapsulate', k.encaps()), ('encapsulate_ind_cpa', k.encaps_cpa())):
            if r[0] != 'ok':
                R.undecided.append('%s %s: %s' % (v, op, r[1]))
                continue
            key, ct = r[1]
            w = where(k, op)
            if op == 'encapsulate':
                # every hash the shared secret rests on ends in a whole draw
                seen, ds = set(), set()
                stack = list(key)
                while stack:
                    for o in B.atoms_of(stack.pop()):
                        if isinstance(o, tuple) and isinstance(o[0], tuple) and o[0] not in seen:
                            seen.add(o[0])
                            inp = bi.HASH_INPUTS[o[0]]
                            for a in range(0, len(inp) - 31):
                                d = draw_of(inp[a:a + 32])
                                if d is not None:
                                    ds.add(d)
                            if len(inp) <= 200:
                                stack.extend(inp)
                R.check(len(ds) >= 1, 'kem-m/' + v, w, 'the shared secret of %s does not rest on a whole 32-byte draw of this encapsulation' % v, ob='saber: encapsulation message is a whole draw')
                for d in ds:
                    osrng(d, 'message', op)
            else:
                d = draw_of(key)
                R.check(d is not None, 'kem-m-cpa/' + v, w, 'the shared secret of %s IND-CPA encapsulation is not 32 freshly drawn bytes' % v, ob='saber: IND-CPA message is a whole draw')
                if d is not None:
                    osrng(d, 'message', op)
                    others = {('rng', i, b) for i in r[2] for b in range(E.draws[i][1] // 32)} - dtaint(d)
                    t = set()
                    for x in ct[:S['pv']]:
                        t |= set(B.taint(x))
                    R.check(bool(t & others) and not t & dtaint(d), 'kem-r-cpa/' + v, w, 'the encryption noise of %s IND-CPA encapsulation is not drawn separately from the message' % v, ob='saber: IND-CPA noise is a separate draw')
    finish(R, ks)
