"""Summaries of the functions the C analysis of Dilithium does not enter: hashing, sampling, number-theoretic transforms."""
import re

import cdom as D
from cint import Ptr, Ghost, Stuck
from cdom import iv

# bound on the output of the inverse transform: its last step is a Montgomery reduction of 41978 a with |a| <= 2^31
INVMAX = (D.Q + 41978) // 2 + 1
HASH = {}
HASHES = []
PRE = re.compile(r'^_?PQCLEAN_DILITHIUM\d_(CLEAN|AVX2)_')


def reset():
    HASH.clear()
    del HASHES[:]


def hid(alg, data):
    k = (alg, data)
    i = HASH.get(k)
    if i is None:
        i = HASH[k] = len(HASHES)
        HASHES.append(k)
    return i


def hb(i, pos):
    return D.atom(('h', i, pos), 0, 255)


def strip(n):
    return PRE.sub('', n)


def rd(I, st, p, n=256):
    out = []
    for i in range(n):
        v = I.load(st, Ptr(p.o, D.add(p.off, 4 * i)), 4)
        if not isinstance(v, (int, D.Lin)):
            raise Stuck('polynomial coefficient')
        out.append(D.asS(32, v))
    return tuple(out)


def wr(I, st, p, kind, vals, lo, hi, n=256):
    v = D.vec(kind, vals)
    for i in range(n):
        I.store(st, Ptr(p.o, D.add(p.off, 4 * i)), 4, D.atom(('el', v, i), lo, hi))


def bound(vals):
    return max(max(abs(a), abs(b)) for a, b in map(iv, vals))


class Sum:
    def __init__(self, mod, par, opaque=()):
        self.par = par
        self.mod = mod
        self.opaque = set(opaque)
        self.rnd = 0
        self.notes = []
        self.off = set()

    def __call__(self, name):
        n = strip(name)
        if n in self.off:
            return None
        f = getattr(self, 'f_' + n, None)
        return f

    # ---- hashing
    def hash(self, alg, I, st, a):
        out, outlen, inp, inlen = a
        if type(outlen) is not int:
            raise Stuck('symbolic hash length')
        i = hid(alg, I.bytes(st, inp, inlen))
        I.putbytes(st, out, [hb(i, j) for j in range(outlen)])
        st.ev(('hash', alg, i, outlen))

    def f_shake256(self, I, st, name, a, line):
        self.hash('shake256', I, st, a)

    def f_shake128(self, I, st, name, a, line):
        self.hash('shake128', I, st, a)

    def f_memcmp(self, I, st, name, a, line):
        if type(a[2]) is not int:
            raise Stuck('memcmp of symbolic length')
        c = D.c_or([D.neg(D.eq(D.add(x, y, -1))) for x, y in zip(I.bytes(st, a[0], a[2]), I.bytes(st, a[1], a[2]))])
        # of unknown sign where they differ
        return D.sel(c, D.add(D.scale(D.b2i(('b', ('memcmp', str(line)))), 2), -1))

    f_bcmp = f_memcmp

    def ctx(self, I, st, p):
        v = I.load(st, p, 8)
        if not isinstance(v, Ghost):
            raise Stuck('hash context not initialised')
        return v.v

    def f_shake256_inc_init(self, I, st, name, a, line):
        I.store(st, a[0], 8, Ghost(('absorb', name.split('_')[0], ())))

    f_shake128_inc_init = f_shake256_inc_init

    def f_shake256_inc_absorb(self, I, st, name, a, line):
        c = self.ctx(I, st, a[0])
        if c[0] != 'absorb':
            raise Stuck('absorb after finalize')
        I.store(st, a[0], 8, Ghost(('absorb', c[1], c[2] + I.bytes(st, a[1], a[2]))))

    f_shake128_inc_absorb = f_shake256_inc_absorb

    def f_shake256_inc_finalize(self, I, st, name, a, line):
        c = self.ctx(I, st, a[0])
        if c[0] != 'absorb':
            raise Stuck('finalize twice')
        I.store(st, a[0], 8, Ghost(('squeeze', hid(c[1], c[2]), 0)))

    f_shake128_inc_finalize = f_shake256_inc_finalize

    def f_shake256_inc_squeeze(self, I, st, name, a, line):
        c = self.ctx(I, st, a[2])
        if c[0] != 'squeeze' or type(a[1]) is not int:
            raise Stuck('squeeze')
        I.putbytes(st, a[0], [hb(c[1], D.add(c[2], j)) for j in range(a[1])])
        st.ev(('hash', HASHES[c[1]][0], c[1], D.add(c[2], a[1])))
        st.ev(('squeeze', c[1], c[2], D.add(c[2], a[1])))
        I.store(st, a[2], 8, Ghost(('squeeze', c[1], D.add(c[2], a[1]))))

    f_shake128_inc_squeeze = f_shake256_inc_squeeze

    def absorb4(self, alg, I, st, a):
        if type(a[5]) is not int:
            raise Stuck('symbolic hash length')
        for j in range(4):
            I.store(st, Ptr(a[0].o, D.add(a[0].off, 8 * j)), 8, Ghost(('squeeze', hid(alg, I.bytes(st, a[1 + j], a[5])), 0)))

    def squeeze4(self, alg, rate, I, st, a):
        if type(a[4]) is not int:
            raise Stuck('symbolic hash length')
        for j in range(4):
            p = Ptr(a[5].o, D.add(a[5].off, 8 * j))
            self.f_shake256_inc_squeeze(I, st, alg, [a[j], a[4] * rate, p], 0)

    def f_shake128x4_absorb_once(self, I, st, name, a, line):
        self.absorb4('shake128', I, st, a)

    def f_shake256x4_absorb_once(self, I, st, name, a, line):
        self.absorb4('shake256', I, st, a)

    def f_shake128x4_squeezeblocks(self, I, st, name, a, line):
        self.squeeze4('shake128', 168, I, st, a)

    def f_shake256x4_squeezeblocks(self, I, st, name, a, line):
        self.squeeze4('shake256', 136, I, st, a)

    def f_shake256_inc_ctx_release(self, I, st, name, a, line):
        pass

    f_shake128_inc_ctx_release = f_shake256_inc_ctx_release

    def f_shake256_inc_ctx_clone(self, I, st, name, a, line):
        I.store(st, a[0], 8, I.load(st, a[1], 8))

    f_shake128_inc_ctx_clone = f_shake256_inc_ctx_clone

    def f_randombytes(self, I, st, name, a, line):
        if type(a[1]) is not int:
            raise Stuck('randombytes')
        self.rnd += 1
        k = self.rnd
        I.putbytes(st, a[0], [D.atom(('rnd', k, j), 0, 255) for j in range(a[1])])
        st.ev(('rnd', k, a[1]))
        return 0

    f_PQCRYPTO_RUST_randombytes = f_randombytes

    def f_crypto_declassify(self, I, st, name, a, line):
        pass

    # ---- transforms
    def f_ntt(self, I, st, name, a, line):
        v = rd(I, st, a[0])
        b = bound(v)
        self.need(st, 'ntt input', b, (1 << 31) - 1 - 8 * D.Q, line)
        wr(I, st, a[0], 'ntt', v, -(b + 8 * D.Q), b + 8 * D.Q)

    def f_ntt_avx(self, I, st, name, a, line):
        self.f_ntt(I, st, name, a, line)

    def f_invntt_tomont(self, I, st, name, a, line):
        v = rd(I, st, a[0])
        b = bound(v)
        self.need(st, 'inverse ntt input', b, D.Q - 1, line)
        wr(I, st, a[0], 'invntt', v, -INVMAX, INVMAX)

    def f_invntt_avx(self, I, st, name, a, line):
        self.f_invntt_tomont(I, st, name, a, line)

    def f_nttunpack_avx(self, I, st, name, a, line):
        v = rd(I, st, a[0])
        b = bound(v)
        l = min(iv(x)[0] for x in v)
        h = max(iv(x)[1] for x in v)
        wr(I, st, a[0], 'nttunpack', v, l, h)

    def need(self, st, what, b, lim, line):
        self.notes.append((what, b, lim, line))
        if b > lim:
            st.ev(('range', what, b, lim, line))

    def mred(self, x):
        lo, hi = iv(x)
        if type(x) is int:
            x = D.lin((), x) if False else x
        lim = (1 << 31) * D.Q
        return D.atom(('mred', x), -D.Q + 1, D.Q - 1)

    def f_pointwise_avx(self, I, st, name, a, line):
        x, y = rd(I, st, a[1]), rd(I, st, a[2])
        for i in range(256):
            I.store(st, Ptr(a[0].o, D.add(a[0].off, 4 * i)), 4, self.mred(D.mul(64, x[i], y[i])))

    def f_pointwise_acc_avx(self, I, st, name, a, line):
        L = self.par['L']
        xs = [rd(I, st, Ptr(a[1].o, D.add(a[1].off, 1024 * l))) for l in range(L)]
        ys = [rd(I, st, Ptr(a[2].o, D.add(a[2].off, 1024 * l))) for l in range(L)]
        for i in range(256):
            t = 0
            for l in range(L):
                t = D.add(t, D.mul(64, xs[l][i], ys[l][i]))
            I.store(st, Ptr(a[0].o, D.add(a[0].off, 4 * i)), 4, self.mred(t))

    # ---- sampling
    def sample(self, I, st, p, kind, seed, n, nonce, lo, hi):
        data = I.bytes(st, seed, n) + (nonce,)
        wr(I, st, p, kind, data, lo, hi)
        st.ev(('sample', kind, data))

    def f_poly_uniform(self, I, st, name, a, line):
        self.sample(I, st, a[0], 'uniform', a[1], 32, D.asU(16, a[2]), 0, D.Q - 1)

    def f_poly_uniform_eta(self, I, st, name, a, line):
        e = self.par['ETA']
        self.sample(I, st, a[0], 'eta', a[1], 64, D.asU(16, a[2]), -e, e)

    def f_poly_uniform_gamma1(self, I, st, name, a, line):
        g = self.par['GAMMA1']
        self.sample(I, st, a[0], 'gamma1', a[1], 64, D.asU(16, a[2]), -g + 1, g)

    def four(self, f, I, st, name, a, line):
        for j in range(4):
            f(I, st, name, [a[j], a[4], a[5 + j]], line)

    def f_poly_uniform_4x(self, I, st, name, a, line):
        self.four(self.f_poly_uniform, I, st, name, a, line)

    def f_poly_uniform_eta_4x(self, I, st, name, a, line):
        self.four(self.f_poly_uniform_eta, I, st, name, a, line)

    def f_poly_uniform_gamma1_4x(self, I, st, name, a, line):
        self.four(self.f_poly_uniform_gamma1, I, st, name, a, line)

    def f_poly_challenge(self, I, st, name, a, line):
        data = I.bytes(st, a[1], 32)
        wr(I, st, a[0], 'challenge', data, -1, 1)
        st.ev(('sample', 'challenge', data))
