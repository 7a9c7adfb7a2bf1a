FI = 'pqcrypto/pqclean/common/fips202.c'
B = 'pqcrypto/pqclean/crypto_sign/'
SP_DEMO = '''#!/bin/bash
# Compiles the SHAKE sources with demo.c. Run in /repo.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
B=pqcrypto/pqclean
gcc -O2 -w -mavx2 -I$B/common -I$B/crypto_sign/dilithium2/avx2 "$D/demo.c" $B/common/fips202.c $B/crypto_sign/dilithium2/avx2/fips202x4.c $B/crypto_sign/dilithium2/avx2/f1600x4.S -o "$W/demo"
timeout 250 "$W/demo"
'''
SP_PRE = '''#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fips202.h"
#include "fips202x4.h"
static uint8_t in[4096], a[4096], b[4096];
static void need(int ok, const char *what) { if (!ok) { printf("FAILED: %s\\n", what); exit(1); } }
/* one call each */
static void whole(uint8_t *out, size_t n, const uint8_t *m, size_t len) {
    shake256incctx s;
    shake256_inc_init(&s);
    shake256_inc_absorb(&s, m, len);
    shake256_inc_finalize(&s);
    shake256_inc_squeeze(out, n, &s);
    shake256_inc_ctx_release(&s);
}
static void fill(void) { for (size_t i = 0; i < sizeof in; i++) in[i] = (uint8_t)(i * 167 + (i >> 8) * 31 + 5); }
'''


def SPG(id, edits, body, needs, breaks):
    S(id, 'P32', edits, [], needs, breaks, suite='all', demo=SP_DEMO, extra={'demo.c': SP_PRE + 'int main(void) {\n    fill();\n' + body + '    return 0;\n}\n'})


TAIL = '''    for (i = 0; i < mlen; i++) {
        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
    }
    s_inc[25] += mlen;
'''
SPG('spg-lane-unaligned', [(FI, TAIL, '''    i = 0;
    if (mlen >= 64) {
        /* whole lanes */
        for (; i + 8 <= mlen; i += 8) {
            s_inc[(s_inc[25] + i) >> 3] ^= load64(m + i);
        }
    }
    for (; i < mlen; i++) {
        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
    }
    s_inc[25] += mlen;
''')], '''    for (size_t p = 0; p < 8; p++) {
        shake256incctx s;
        shake256_inc_init(&s);
        shake256_inc_absorb(&s, in, p);
        shake256_inc_absorb(&s, in + p, 70);
        shake256_inc_finalize(&s);
        shake256_inc_squeeze(a, 64, &s);
        shake256_inc_ctx_release(&s);
        whole(b, 64, in, p + 70);
        need(!memcmp(a, b, 64), "split input");
    }
''', 'a piece of 64 or more bytes absorbed at a position that is no multiple of 8', 'the hash depends on how the input was split')
SPG('spg-squeeze-resume', [(FI, '''    h += i;
    outlen -= i;
    s_inc[25] -= i;

    /* Then''', '''    h += i;
    outlen -= i;

    /* Then''')], '''    shake256incctx s;
    shake256_inc_init(&s);
    shake256_inc_absorb(&s, in, 40);
    shake256_inc_finalize(&s);
    for (size_t i = 0; i < 40; i++) shake256_inc_squeeze(a + 10 * i, 10, &s);
    whole(b, 400, in, 40);
    need(!memcmp(a, b, 400), "split output");
''', 'two partial squeezes from one block', 'output bytes are handed out twice')
SPG('spg-oneshot-two-blocks', [(FI, '''    shake256_squeezeblocks(output, nblocks, &s);

    output += nblocks * SHAKE256_RATE;
    outlen -= nblocks * SHAKE256_RATE;
''', '''    shake256_squeezeblocks(output, nblocks, &s);

    if (outlen >= SHAKE256_RATE) {
        output += SHAKE256_RATE;
        outlen %= SHAKE256_RATE;
    }
''')], '''    for (size_t n = 0; n < 700; n++) {
        shake256(a, n, in, 50);
        whole(b, n, in, 50);
        need(!memcmp(a, b, n), "one-shot output");
    }
''', 'a one-shot output of more than two blocks', 'the tail overwrites the second block and the end of the output is never written')
SPG('spg-oneshot-full-block', [(FI, '''    while (mlen >= r) {
        for (i = 0; i < r / 8; ++i) {
            s[i] ^= load64(m + 8 * i);
        }

        KeccakF1600_StatePermute(s);
        mlen -= r;
        m += r;
    }

    for (i = 0; i < r; ++i) {
        t[i] = 0;
    }''', '''    while (mlen > r) {
        for (i = 0; i < r / 8; ++i) {
            s[i] ^= load64(m + 8 * i);
        }

        KeccakF1600_StatePermute(s);
        mlen -= r;
        m += r;
    }

    for (i = 0; i < r; ++i) {
        t[i] = 0;
    }''')], '''    for (size_t n = 0; n < 700; n++) {
        shake256(a, 32, in, n);
        whole(b, 32, in, n);
        need(!memcmp(a, b, 32), "one-shot input");
    }
''', 'a one-shot input that ends exactly at the end of a block', 'the padding byte falls behind the block and is lost')
SPG('spg-clone-position', [(FI, '''void shake256_inc_ctx_clone(shake256incctx *dest, const shake256incctx *src) {
    dest->ctx = malloc(PQC_SHAKEINCCTX_BYTES);
    if (dest->ctx == NULL) {
        exit(111);
    }
    memcpy(dest->ctx, src->ctx, PQC_SHAKEINCCTX_BYTES);''', '''void shake256_inc_ctx_clone(shake256incctx *dest, const shake256incctx *src) {
    shake256_inc_init(dest);
    memcpy(dest->ctx, src->ctx, PQC_SHAKECTX_BYTES);''')], '''    shake256incctx s, t;
    shake256_inc_init(&s);
    shake256_inc_absorb(&s, in, 40);
    shake256_inc_ctx_clone(&t, &s);
    shake256_inc_absorb(&t, in + 40, 40);
    shake256_inc_finalize(&t);
    shake256_inc_squeeze(a, 64, &t);
    whole(b, 64, in, 80);
    need(!memcmp(a, b, 64), "copied context");
''', 'a copy of a context that holds part of a block', 'the copy forgets its position')
SPG('spg-short-rest', [(FI, '''    for (i = 0; i < outlen && i < s_inc[25]; i++) {
        /* There''', '''    for (i = 0; i < outlen && (uint32_t)(i + 1) < s_inc[25] + (outlen < s_inc[25]); i++) {
        /* There''')], '''    for (size_t q = 0; q < 137; q++) {
        shake256incctx s;
        shake256_inc_init(&s);
        shake256_inc_absorb(&s, in, 40);
        shake256_inc_finalize(&s);
        shake256_inc_squeeze(a, q, &s);
        shake256_inc_squeeze(a + q, 200, &s);
        whole(b, q + 200, in, 40);
        need(!memcmp(a, b, q + 200), "split output across blocks");
    }
''', 'a squeeze that uses up the rest of a block and goes on into the next', 'the last byte of the block is skipped')
SPG('spg-len32', [(FI, '''    while (mlen + s_inc[25] >= r) {
        for (i = 0; i < r - (uint32_t)s_inc[25]; i++) {''', '''    while ((uint32_t)mlen + (uint32_t)s_inc[25] >= r) {
        for (i = 0; i < r - (uint32_t)s_inc[25]; i++) {''')], '''    /* 4 GiB of zero pages and 16 bytes: in one call and in two */
    size_t n = ((size_t)1 << 32) + 16;
    uint8_t *big = calloc(n, 1);
    need(big != NULL, "memory");
    shake256incctx s;
    shake256_inc_init(&s);
    shake256_inc_absorb(&s, big, 136 * 7);
    shake256_inc_absorb(&s, big, 136 * 3);
    shake256_inc_finalize(&s);
    shake256_inc_squeeze(a, 64, &s);
    whole(b, 64, big, 136 * 10);
    need(!memcmp(a, b, 64), "split input");
    shake256_inc_init(&s);
    for (size_t i = 0; i < 16; i++) shake256_inc_absorb(&s, big, (size_t)1 << 28);
    shake256_inc_absorb(&s, big, 16);
    shake256_inc_finalize(&s);
    shake256_inc_squeeze(a, 64, &s);
    whole(b, 64, big, n);
    need(!memcmp(a, b, 64), "long input");
''', 'a piece of 4 GiB or more', 'the block loop stops early and the rest is written far outside the context')
A4 = [(B + 'dilithium%d/avx2/fips202x4.c' % k, '''    while (inlen >= r) {
        for (i = 0; i < r / 8; ++i) {
            t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
            s[i] = _mm256_xor_si256(s[i], t);
            pos += 8;
        }
''', '''    while (inlen >= r) {
        for (i = 0; i < r / 8; ++i) {
            t = _mm256_i64gather_epi64((long long *)(8 * i), idx, 1);
            s[i] = _mm256_xor_si256(s[i], t);
        }
        pos = r;
''') for k in (2, 3, 5)]
SPG('spg-x4-third-block', A4, '''    uint8_t *o[4] = {a, a + 64, a + 128, a + 192};
    for (size_t n = 0; n < 600; n++) {
        PQCLEAN_DILITHIUM2_AVX2_shake256x4(o[0], o[1], o[2], o[3], 64, in, in + 700, in + 1400, in + 2100, n);
        for (int l = 0; l < 4; l++) {
            whole(b, 64, in + 700 * l, n);
            need(!memcmp(o[l], b, 64), "four lanes");
        }
    }
''', 'inputs of two blocks or more to the four-way functions', 'the first block is absorbed again in place of the second')
