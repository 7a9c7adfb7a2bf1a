B = 'pqcrypto/pqclean/crypto_sign/'
DEMO_C = '''#!/bin/bash
# Compiles the C sources with demo.c. Run in /repo.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
B=pqcrypto/pqclean
gcc -O2 -w %s -I$B/common -I$B/crypto_sign/%s/%s "$D/demo.c" $B/crypto_sign/%s/%s/*.[cS] $B/common/fips202.c %s -o "$W/demo"
timeout 250 "$W/demo"
'''
PRE = '''#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "params.h"
#include "poly.h"
#include "polyvec.h"
#include "packing.h"
#include "rounding.h"
#include "sign.h"
#include "symmetric.h"
#include "fips202.h"
#define NS(x) PQCLEAN_%s_%s_##x
#define PKB NS(CRYPTO_PUBLICKEYBYTES)
#define SKB NS(CRYPTO_SECRETKEYBYTES)
#define SIGB NS(CRYPTO_BYTES)
static uint64_t rs = 88172645463325252ULL;
static uint8_t rnd8(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint8_t)(rs >> 24); }
int PQCLEAN_randombytes(uint8_t *p, size_t n) { while (n--) *p++ = rnd8(); return 0; }
int PQCRYPTO_RUST_randombytes(uint8_t *p, size_t n) { while (n--) *p++ = rnd8(); return 0; }
static uint8_t pk[PKB], sk[SKB], sig[SIGB + 64], msg[64];
static size_t siglen;
static void need(int ok, const char *what) { if (!ok) { printf("FAILED: %%s\\n", what); exit(1); } }
'''


def SC(id, prop, scheme, variant, edits, body, needs, breaks):
    avx = variant == 'avx2'
    S(id, prop, edits, [], needs, breaks, suite='all',
      demo=DEMO_C % ('-mavx2 -mbmi -mpopcnt' if avx else '', scheme, variant, scheme, variant, ''),
      extra={'demo.c': PRE % (scheme.upper(), variant.upper()) + body})


def one(scheme, variant, f, a, b):
    return [(B + '%s/%s/%s' % (scheme, variant, f), a.replace('@', 'PQCLEAN_%s_%s_' % (scheme.upper(), variant.upper())), b.replace('@', 'PQCLEAN_%s_%s_' % (scheme.upper(), variant.upper())))]


def all3(f, a, b):
    return [e for s in ('dilithium2', 'dilithium3', 'dilithium5') for e in one(s, 'clean', f, a, b)]


def all3a(f, a, b):
    return [e for s in ('dilithium2', 'dilithium3', 'dilithium5') for e in one(s, 'avx2', f, a, b)]


SC('dil-pad-last', 'P25', 'dilithium2', 'clean', all3('packing.c', '''    for (j = k; j < OMEGA; ++j) {
        if (sig[j]) {
            return 1;
        }
    }
''', '''    for (j = k + 1; j < OMEGA; ++j) {
        if (sig[j]) {
            return 1;
        }
    }
'''), '''int main(void) {
    uint8_t *h = sig + SIGB - OMEGA - K;
    NS(crypto_sign_keypair)(pk, sk);
    for (int i = 0; i < 50; i++) {
        msg[0] = i;
        NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
        need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) == 0, "honest");
        int k = h[OMEGA + K - 1];
        for (int j = k; j < OMEGA; j++) {
            h[j] = 7;
            need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) != 0, "a second signature made from the first");
            h[j] = 0;
        }
    }
    return 0;
}
''', 'a signature whose first unused hint byte was changed', 'signatures are malleable: the first unused byte of the hint encoding is not checked')

SC('dil-hint-dup', 'P25', 'dilithium3', 'avx2', one('dilithium3', 'avx2', 'sign.c', 'if (j > pos && hint[j] <= hint[j - 1]) {', 'if (j > pos && hint[j] < hint[j - 1]) {'), '''int main(void) {
    uint8_t *h = sig + SIGB - OMEGA - K;
    int done = 0;
    NS(crypto_sign_keypair)(pk, sk);
    for (int i = 0; i < 400 && done < 20; i++) {
        msg[0] = i; msg[1] = i >> 8;
        NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
        need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) == 0, "honest");
        int k = h[OMEGA + K - 1], last = h[OMEGA + K - 2];
        if (k == OMEGA || k == last) continue;
        h[k] = h[k - 1];
        h[OMEGA + K - 1] = k + 1;
        need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) != 0, "a repeated hint position");
        done++;
    }
    need(done > 0, "no candidate");
    return 0;
}
''', 'a signature in which a hint position is listed twice', 'signatures are malleable: a repeated hint position is accepted')

SC('dil-ctilde-prefix', 'P25', 'dilithium5', 'avx2', one('dilithium5', 'avx2', 'sign.c', '''    for (i = 0; i < CTILDEBYTES; ++i) {
        if (buf.coeffs[i] != sig[i]) {''', '''    for (i = 0; i < SEEDBYTES; ++i) {
        if (buf.coeffs[i] != sig[i]) {'''), '''int main(void) {
    NS(crypto_sign_keypair)(pk, sk);
    NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
    need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) == 0, "honest");
    for (int j = 0; j < SIGB - OMEGA - K; j++) {
        sig[j] ^= 1;
        need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) != 0, "an altered signature");
        sig[j] ^= 1;
    }
    return 0;
}
''', 'a signature altered in the second half of the challenge hash', 'only the first 32 of 64 bytes of the challenge are compared')

SC('dil-z-bound', 'P25', 'dilithium2', 'avx2', one('dilithium2', 'avx2', 'sign.c', '''        if (@poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
            return -1;''', '''        if (@poly_chknorm(&z.vec[i], GAMMA1 - TAU)) {
            return -1;'''), '''/* a signer that keeps z of any size */
static int biggest(const polyvecl *z) { int m = 0; for (int i = 0; i < L; i++) for (int j = 0; j < N; j++) { int a = abs(z->vec[i].coeffs[j]); if (a > m) m = a; } return m; }
static int careless(const uint8_t *m, size_t mlen) {
    static polyvecl mat[K], s1, y, z; static polyveck t0, s2, w1, w0, h; static poly c;
    uint8_t rho[32], tr[64], key[32], mu[64], rp[64], hb[OMEGA + K + 256];
    shake256incctx st; unsigned n, pos;
    NS(unpack_sk)(rho, tr, key, &t0, &s1, &s2, sk);
    shake256_inc_init(&st); shake256_inc_absorb(&st, tr, 64); shake256_inc_absorb(&st, m, mlen); shake256_inc_finalize(&st); shake256_inc_squeeze(mu, 64, &st); shake256_inc_ctx_release(&st);
    for (int i = 0; i < 64; i++) rp[i] = rnd8();
    NS(polyvec_matrix_expand)(mat, rho); NS(polyvecl_ntt)(&s1); NS(polyveck_ntt)(&s2); NS(polyveck_ntt)(&t0);
    for (uint16_t nonce = 0;; nonce++) {
        for (int i = 0; i < L; i++) NS(poly_uniform_gamma1)(&y.vec[i], rp, L * nonce + i);
        z = y; NS(polyvecl_ntt)(&z); NS(polyvec_matrix_pointwise_montgomery)(&w1, mat, &z); NS(polyveck_reduce)(&w1); NS(polyveck_invntt_tomont)(&w1); NS(polyveck_caddq)(&w1);
        NS(polyveck_decompose)(&w1, &w0, &w1); NS(polyveck_pack_w1)(sig, &w1);
        shake256_inc_init(&st); shake256_inc_absorb(&st, mu, 64); shake256_inc_absorb(&st, sig, K * POLYW1_PACKEDBYTES); shake256_inc_finalize(&st); shake256_inc_squeeze(sig, CTILDEBYTES, &st); shake256_inc_ctx_release(&st);
        NS(poly_challenge)(&c, sig); NS(poly_ntt)(&c);
        for (int i = 0; i < L; i++) { NS(poly_pointwise_montgomery)(&z.vec[i], &c, &s1.vec[i]); NS(poly_invntt_tomont)(&z.vec[i]); NS(poly_add)(&z.vec[i], &z.vec[i], &y.vec[i]); NS(poly_reduce)(&z.vec[i]); }
        int b = biggest(&z);
        if (b < GAMMA1 - BETA || b > GAMMA1 - BETA + 30) continue;
        pos = 0; memset(hb, 0, sizeof hb);
        int bad = 0;
        for (int i = 0; i < K && !bad; i++) {
            NS(poly_pointwise_montgomery)(&h.vec[i], &c, &s2.vec[i]); NS(poly_invntt_tomont)(&h.vec[i]); NS(poly_sub)(&w0.vec[i], &w0.vec[i], &h.vec[i]); NS(poly_reduce)(&w0.vec[i]);
            if (NS(poly_chknorm)(&w0.vec[i], GAMMA2 - BETA)) { bad = 1; break; }
            NS(poly_pointwise_montgomery)(&h.vec[i], &c, &t0.vec[i]); NS(poly_invntt_tomont)(&h.vec[i]); NS(poly_reduce)(&h.vec[i]);
            NS(poly_add)(&w0.vec[i], &w0.vec[i], &h.vec[i]);
            uint8_t one[N + 64]; n = NS(poly_make_hint)(one, &w0.vec[i], &w1.vec[i]);
            if (pos + n > OMEGA) { bad = 1; break; }
            memcpy(hb + pos, one, n); pos += n; hb[OMEGA + i] = pos;
        }
        if (bad) continue;
        memcpy(sig + SIGB - OMEGA - K, hb, OMEGA + K);
        for (int i = 0; i < L; i++) NS(polyz_pack)(sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES, &z.vec[i]);
        return b;
    }
}
int main(void) {
    NS(crypto_sign_keypair)(pk, sk);
    NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
    need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) == 0, "honest");
    for (int i = 0; i < 3; i++) {
        msg[0] = i;
        careless(msg, 64);
        need(NS(crypto_sign_verify)(sig, SIGB, msg, 64, pk) != 0, "a signature with z beyond the bound");
    }
    return 0;
}
''', 'a signature whose largest coefficient of z lies between gamma1 - beta and gamma1 - tau', 'verification accepts responses beyond the bound of the security proof')

SC('dil-siglen', 'P25', 'dilithium3', 'avx2', one('dilithium3', 'avx2', 'sign.c', '''    if (siglen != @CRYPTO_BYTES) {
        return -1;
    }
''', '''    if (siglen < @CRYPTO_BYTES) {
        return -1;
    }
'''), '''int main(void) {
    NS(crypto_sign_keypair)(pk, sk);
    NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
    need(NS(crypto_sign_verify)(sig, SIGB, msg, 64, pk) == 0, "honest");
    need(NS(crypto_sign_verify)(sig, SIGB + 5, msg, 64, pk) != 0, "a signature that is too long");
    need(NS(crypto_sign_verify)(sig, SIGB - 5, msg, 64, pk) != 0, "a signature that is too short");
    return 0;
}
''', 'a signature with bytes appended', 'signatures are malleable: anything may follow')

SC('dil-w0-bound', 'P26', 'dilithium3', 'avx2', one('dilithium3', 'avx2', 'sign.c', '@poly_chknorm(&tmpv.w0.vec[i], GAMMA2 - BETA)', '@poly_chknorm(&tmpv.w0.vec[i], GAMMA2 - BETA + 4)'), '''int main(void) {
    static polyvecl mat[K], s1, z; static polyveck t0, s2, w, w1, w0, t; static poly c;
    uint8_t rho[32], tr[64], key[32];
    for (int n = 0; n < 4000; n++) {
        if (n % 100 == 0) NS(crypto_sign_keypair)(pk, sk);
        msg[0] = n; msg[1] = n >> 8;
        NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
        NS(unpack_sk)(rho, tr, key, &t0, &s1, &s2, sk);
        NS(polyvec_matrix_expand)(mat, rho);
        NS(poly_challenge)(&c, sig); NS(poly_ntt)(&c);
        for (int i = 0; i < L; i++) NS(polyz_unpack)(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
        /* w - c s2 = A z - c (A s1 + s2) */
        NS(polyvecl_ntt)(&s1); NS(polyvecl_ntt)(&z);
        NS(polyvec_matrix_pointwise_montgomery)(&w, mat, &z); NS(polyveck_reduce)(&w); NS(polyveck_invntt_tomont)(&w);
        NS(polyvec_matrix_pointwise_montgomery)(&t, mat, &s1); NS(polyveck_reduce)(&t); NS(polyveck_invntt_tomont)(&t);
        NS(polyveck_add)(&t, &t, &s2); NS(polyveck_reduce)(&t); NS(polyveck_ntt)(&t);
        NS(polyveck_pointwise_poly_montgomery)(&t, &c, &t); NS(polyveck_invntt_tomont)(&t);
        NS(polyveck_sub)(&w, &w, &t); NS(polyveck_reduce)(&w); NS(polyveck_caddq)(&w);
        NS(polyveck_decompose)(&w1, &w0, &w);
        need(!NS(polyveck_chknorm)(&w0, GAMMA2 - BETA), "a signature that depends on the secret");
    }
    return 0;
}
''', 'a signature with a low part of w - c s2 in the last four values below the bound', 'signatures are released whose low bits leak the secret s2')

SC('dil-omega-late', 'P26', 'dilithium2', 'avx2', one('dilithium2', 'avx2', 'sign.c', 'if (pos + n > OMEGA) {', 'if (pos > OMEGA) {'), '''int main(void) {
    for (int n = 0; n < 30000; n++) {
        if (n % 500 == 0) NS(crypto_sign_keypair)(pk, sk);
        msg[0] = n; msg[1] = n >> 8;
        NS(crypto_sign_signature)(sig, &siglen, msg, 64, sk);
        need(NS(crypto_sign_verify)(sig, siglen, msg, 64, pk) == 0, "an honest signature");
    }
    return 0;
}
''', 'a message whose accepted candidate has more than 80 hints, the excess all in the last row', 'now and then a signature does not verify, and its hints overrun their field')


# ---- samplers
def SM(id, scheme, variant, edits, wrap, body, needs, breaks):
    SC(id, 'P30', scheme, variant, edits, body, needs, breaks)
    wrap = wrap.replace('@', 'PQCLEAN_%s_%s_' % (scheme.upper(), variant.upper()))
    SEEDS[id]['demo'] = SEEDS[id]['demo'].replace('gcc -O2', 'gcc -O2 -Wl,--wrap=' + wrap)


REF = '''/* what the sampler was given, and what it must make of it */
static uint8_t seen[4][65536];
static size_t nseen[4];
static int32_t want[N];
static int reference(int lane, int eta) {
    int n = 0;
    for (size_t i = 0; n < N; i += eta ? 1 : 3) {
        if (i + 3 > nseen[lane]) return 0;
        if (!eta) {
            uint32_t t = seen[lane][i] | seen[lane][i + 1] << 8 | (seen[lane][i + 2] & 0x7f) << 16;
            if (t < Q) want[n++] = t;
        }
    }
    return 1;
}
static int level;
'''
CLEAN128 = REF + '''void __real_shake128_inc_squeeze(uint8_t *out, size_t n, shake128incctx *st);
void __wrap_shake128_inc_squeeze(uint8_t *out, size_t n, shake128incctx *st) {
    __real_shake128_inc_squeeze(out, n, st);
    for (size_t i = 0; i + 3 <= n; i += 3) {
        if (rnd8() < level) memset(out + i, 0xff, 3);
    }
    memcpy(seen[0] + nseen[0], out, n);
    nseen[0] += n;
}
int main(void) {
    static poly a;
    uint8_t seed[32];
    for (int i = 0; i < 400; i++) {
        level = i % 4 * 60;
        nseen[0] = 0;
        for (int j = 0; j < 32; j++) seed[j] = rnd8();
        memset(&a, 0x55, sizeof a);
        NS(poly_uniform)(&a, seed, i);
        need(reference(0, 0), "more of the stream");
        need(!memcmp(want, a.coeffs, sizeof want), "coefficients");
    }
    return 0;
}
'''
AVX128 = REF + '''void __real_@shake128x4_squeezeblocks(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, keccakx4_state *);
void __wrap_@shake128x4_squeezeblocks(uint8_t *o0, uint8_t *o1, uint8_t *o2, uint8_t *o3, size_t n, keccakx4_state *st) {
    uint8_t *o[4] = {o0, o1, o2, o3};
    __real_@shake128x4_squeezeblocks(o0, o1, o2, o3, n, st);
    for (int l = 0; l < 4; l++) {
        for (size_t i = 0; i + 3 <= n * 168; i += 3) {
            if (rnd8() < level * l) memset(o[l] + i, 0xff, 3);
            if (rnd8() < 4) { o[l][i] = Q & 255; o[l][i + 1] = Q >> 8 & 255; o[l][i + 2] = Q >> 16; }
        }
        memcpy(seen[l] + nseen[l], o[l], n * 168);
        nseen[l] += n * 168;
    }
}
int main(void) {
    static poly a[4];
    uint8_t seed[32];
    for (int i = 0; i < 400; i++) {
        level = i % 4 * 20;
        for (int j = 0; j < 32; j++) seed[j] = rnd8();
        memset(nseen, 0, sizeof nseen);
        memset(a, 0x55, sizeof a);
        NS(poly_uniform_4x)(&a[0], &a[1], &a[2], &a[3], seed, i, i + 1, i + 2, i + 3);
        for (int l = 0; l < 4; l++) {
            need(reference(l, 0), "more of the stream");
            need(!memcmp(want, a[l].coeffs, sizeof want), "coefficients");
        }
    }
    return 0;
}
'''
CHAL = '''static uint8_t seen[65536];
static size_t nseen;
static int level;
void __real_shake256_inc_squeeze(uint8_t *out, size_t n, shake256incctx *st);
void __wrap_shake256_inc_squeeze(uint8_t *out, size_t n, shake256incctx *st) {
    __real_shake256_inc_squeeze(out, n, st);
    for (size_t i = 8; i < n; i++) {
        if (rnd8() < level) out[i] = 0xff;
    }
    memcpy(seen + nseen, out, n);
    nseen += n;
}
int main(void) {
    static poly c;
    static int32_t want[N];
    uint8_t seed[64];
    for (int i = 0; i < 2000; i++) {
        level = i % 4 * 60;
        nseen = 0;
        for (int j = 0; j < 64; j++) seed[j] = rnd8();
        memset(&c, 0x55, sizeof c);
        memset(want, 0, sizeof want);
        NS(poly_challenge)(&c, seed);
        uint64_t signs;
        size_t pos = 8;
        memcpy(&signs, seen, 8);
        for (int k = N - TAU; k < N; k++) {
            while (seen[pos] > k) pos++;
            need(pos < nseen, "more of the stream");
            want[k] = want[seen[pos]];
            want[seen[pos++]] = signs & 1 ? -1 : 1;
            signs >>= 1;
        }
        need(!memcmp(want, c.coeffs, sizeof want), "challenge");
    }
    return 0;
}
'''
X4 = '@shake128x4_squeezeblocks'


def ax(scheme, s):
    return '#include "fips202x4.h"\n' + s.replace('@', 'PQCLEAN_%s_AVX2_' % scheme.upper())


SM('smp-refill-once', 'dilithium2', 'clean', one('dilithium2', 'clean', 'poly.c', '''    while (ctr < N) {
        off = buflen % 3;''', '''    if (ctr < N) {
        off = buflen % 3;'''), 'shake128_inc_squeeze', CLEAN128,
   'a stream with so many rejected candidates that two further blocks are needed', 'the rest of the polynomial keeps what was in memory')
SM('smp-refill-start', 'dilithium5', 'clean', one('dilithium5', 'clean', 'poly.c', 'ctr += rej_uniform(a->coeffs + ctr, N - ctr, buf, buflen);', 'ctr += rej_uniform(a->coeffs + ctr, N - ctr, buf + off, buflen - off - 1);'), 'shake128_inc_squeeze', CLEAN128,
   'a stream for which further blocks are needed and the last candidate of one is used', 'a candidate of each further block is lost')
SM('smp-vec-bound', 'dilithium3', 'avx2', all3a('rejsample.c', 'bound = _mm256_set1_epi32(Q);', 'bound = _mm256_set1_epi32(Q + 1);'), X4, ax('dilithium3', AVX128),
   'a candidate equal to q', 'the vector code keeps q as a coefficient of the matrix')
SM('smp-4x-lane', 'dilithium5', 'avx2', one('dilithium5', 'avx2', 'poly.c', '''    while (ctr0 < N || ctr1 < N || ctr2 < N || ctr3 < N) {
        @shake128x4''', '''    while (ctr0 < N || ctr1 < N || ctr2 < N) {
        @shake128x4'''), X4, ax('dilithium5', AVX128),
   'a stream of the fourth lane with many rejected candidates while the others are done', 'the fourth polynomial is left unfinished')
SM('smp-4x-room', 'dilithium2', 'avx2', one('dilithium2', 'avx2', 'poly.c', 'ctr2 += rej_uniform(a2->coeffs + ctr2, N - ctr2, buf[2]', 'ctr2 += rej_uniform(a2->coeffs + ctr2, N - ctr3, buf[2]'), X4, ax('dilithium2', AVX128),
   'a further block for the third lane while the fourth has another number of coefficients', 'the third polynomial gets too few or too many coefficients')
SM('smp-chal-refill', 'dilithium3', 'clean', one('dilithium3', 'clean', 'poly.c', '''                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;''', '''                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 8;'''), 'shake256_inc_squeeze', CHAL,
   'a challenge for which a second block is needed', 'the first 8 bytes of the second block are skipped')
SM('smp-chal-end', 'dilithium2', 'avx2', one('dilithium2', 'avx2', 'poly.c', 'if (pos >= SHAKE256_RATE) {', 'if (pos > SHAKE256_RATE) {'), 'shake256_inc_squeeze', CHAL,
   'a challenge for which a second block is needed', 'a byte behind the block is taken as a position')
SM('smp-chal-again', 'dilithium5', 'clean', one('dilithium5', 'clean', 'poly.c', '''                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;''', '''                shake256_inc_squeeze(buf, 8, &state);
                pos = 0;'''), 'shake256_inc_squeeze', CHAL,
   'a challenge for which a second block is needed', 'positions of the first block are used again')
