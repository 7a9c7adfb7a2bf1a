"""Behaviour-preserving edits of the Dilithium C sources. C(id, scheme/variant, props, [(file, old, new)..])"""
B = 'pqcrypto/pqclean/crypto_sign/'
CRF = {}


def C(id, target, props, edits):
    s, v = target.split('/')
    ns = 'PQCLEAN_%s_%s_' % (s.upper(), v.upper())
    assert id not in CRF
    CRF[id] = (target, props.split(), [(B + target + '/' + f, a.replace('@', ns), b.replace('@', ns)) for f, a, b in edits])
    RF(id, CRF[id][2])


D2, D3, D5 = 'dilithium2/clean', 'dilithium3/clean', 'dilithium5/clean'
A2, A3, A5 = 'dilithium2/avx2', 'dilithium3/avx2', 'dilithium5/avx2'
CMP = '''    for (i = 0; i < CTILDEBYTES; ++i) {
        if (c[i] != c2[i]) {
            return -1;
        }
    }
    return 0;
'''
C('cmp-or', D2, 'p25', [('sign.c', CMP, '''    {
        uint8_t diff = 0;
        for (i = 0; i < CTILDEBYTES; ++i) {
            diff |= c[i] ^ c2[i];
        }
        return diff == 0 ? 0 : -1;
    }
''')])
C('cmp-mem', D3, 'p25', [('sign.c', CMP, '    i = 0;\n    return memcmp(c, c2, CTILDEBYTES) ? -1 : 0;\n'), ('sign.c', '#include <stdint.h>', '#include <stdint.h>\n#include <string.h>')])
C('cmp-helper', D5, 'p25', [('sign.c', CMP, '    i = 0;\n    return same_challenge(c, c2) ? 0 : -1;\n'), ('sign.c', '''int @crypto_sign_keypair(uint8_t *pk''', '''static int same_challenge(const uint8_t *a, const uint8_t *b) {
    const uint8_t *end = a + CTILDEBYTES;

    while (a < end) {
        if (*a++ != *b++) {
            return 0;
        }
    }
    return 1;
}

int @crypto_sign_keypair(uint8_t *pk''')])
C('cmp-down', D2, 'p25', [('sign.c', CMP, '''    i = CTILDEBYTES;
    while (i--) {
        if (c2[i] != c[i]) {
            return -1;
        }
    }
    return 0;
''')])
C('mu-helper', D2, 'p25 p26', [('sign.c', '''    /* Compute mu = CRH(tr, msg) */
    shake256_inc_init(&state);
    shake256_inc_absorb(&state, tr, TRBYTES);
    shake256_inc_absorb(&state, m, mlen);
    shake256_inc_finalize(&state);
    shake256_inc_squeeze(mu, CRHBYTES, &state);
    shake256_inc_ctx_release(&state);
''', '    message_hash(mu, tr, m, mlen);\n'), ('sign.c', '''    shake256_inc_init(&state);
    shake256_inc_absorb(&state, mu, CRHBYTES);
    shake256_inc_absorb(&state, m, mlen);
    shake256_inc_finalize(&state);
    shake256_inc_squeeze(mu, CRHBYTES, &state);
    shake256_inc_ctx_release(&state);
''', '    message_hash(mu, mu, m, mlen);\n'), ('sign.c', '''int @crypto_sign_keypair(uint8_t *pk''', '''static void message_hash(uint8_t *mu, const uint8_t *tr, const uint8_t *m, size_t mlen) {
    shake256incctx ctx;

    shake256_inc_init(&ctx);
    shake256_inc_absorb(&ctx, tr, TRBYTES);
    shake256_inc_absorb(&ctx, m, mlen);
    shake256_inc_finalize(&ctx);
    shake256_inc_squeeze(mu, CRHBYTES, &ctx);
    shake256_inc_ctx_release(&ctx);
}

int @crypto_sign_keypair(uint8_t *pk''')])
HINT = '''    for (i = 0; i < K; ++i) {
        for (j = 0; j < N; ++j) {
            h->vec[i].coeffs[j] = 0;
        }

        if (sig[OMEGA + i] < k || sig[OMEGA + i] > OMEGA) {
            return 1;
        }

        for (j = k; j < sig[OMEGA + i]; ++j) {
            /* Coefficients are ordered for strong unforgeability */
            if (j > k && sig[j] <= sig[j - 1]) {
                return 1;
            }
            h->vec[i].coeffs[sig[j]] = 1;
        }

        k = sig[OMEGA + i];
    }
'''
C('hint-local', D2, 'p25', [('packing.c', HINT, '''    for (i = 0; i < K; ++i) {
        const unsigned int end = sig[OMEGA + i];
        if (end > OMEGA || end < k) {
            return 1;
        }
        for (j = 0; j < N; ++j) {
            h->vec[i].coeffs[j] = 0;
        }
        j = k;
        while (j < end) {
            if (j != k && sig[j - 1] >= sig[j]) {
                return 1;
            }
            h->vec[i].coeffs[sig[j]] = 1;
            j++;
        }
        k = end;
    }
''')])
C('hint-memset', D3, 'p25', [('packing.c', HINT, '''    memset(h, 0, sizeof(*h));
    for (i = 0; i < K; ++i) {
        if (sig[OMEGA + i] < k || sig[OMEGA + i] > OMEGA) {
            return 1;
        }
        for (j = k; j < sig[OMEGA + i]; ++j) {
            if (j > k && sig[j] <= sig[j - 1]) {
                return 1;
            }
            h->vec[i].coeffs[sig[j]] = 1;
        }
        k = sig[OMEGA + i];
    }
'''), ('packing.c', '#include "params.h"', '#include "params.h"\n#include <string.h>')])
C('hint-prev', D5, 'p25', [('packing.c', HINT, '''    for (i = 0; i < K; ++i) {
        int prev = -1;
        for (j = 0; j < N; ++j) {
            h->vec[i].coeffs[j] = 0;
        }

        if (sig[OMEGA + i] < k || sig[OMEGA + i] > OMEGA) {
            return 1;
        }

        for (j = k; j < sig[OMEGA + i]; ++j) {
            if ((int)sig[j] <= prev) {
                return 1;
            }
            prev = sig[j];
            h->vec[i].coeffs[prev] = 1;
        }

        k = sig[OMEGA + i];
    }
''')])
C('hint-helper', D2, 'p25', [('packing.c', HINT, '''    if (unpack_hints(h, sig, &k)) {
        return 1;
    }
    i = 0;
'''), ('packing.c', 'int @unpack_sig(', '''static int unpack_row(poly *h, const uint8_t *sig, unsigned int from, unsigned int to) {
    unsigned int j;

    for (j = 0; j < N; ++j) {
        h->coeffs[j] = 0;
    }
    for (j = from; j < to; ++j) {
        if (j > from && sig[j] <= sig[j - 1]) {
            return 1;
        }
        h->coeffs[sig[j]] = 1;
    }
    return 0;
}

static int unpack_hints(polyveck *h, const uint8_t *sig, unsigned int *count) {
    unsigned int i, k = 0;

    for (i = 0; i < K; ++i) {
        if (sig[OMEGA + i] < k || sig[OMEGA + i] > OMEGA) {
            return 1;
        }
        if (unpack_row(&h->vec[i], sig, k, sig[OMEGA + i])) {
            return 1;
        }
        k = sig[OMEGA + i];
    }
    *count = k;
    return 0;
}

int @unpack_sig(''')])
PAD = '''    for (j = k; j < OMEGA; ++j) {
        if (sig[j]) {
            return 1;
        }
    }

    return 0;
'''
C('pad-or', D2, 'p25', [('packing.c', PAD, '''    {
        uint8_t rest = 0;
        for (j = k; j < OMEGA; ++j) {
            rest |= sig[j];
        }
        return rest != 0;
    }
''')])
C('pad-while', D3, 'p25', [('packing.c', PAD, '''    while (k < OMEGA) {
        if (sig[k++] != 0) {
            return 1;
        }
    }
    return 0;
''')])
C('pad-down', D5, 'p25', [('packing.c', PAD, '''    for (j = OMEGA; j > k; --j) {
        if (sig[j - 1] != 0) {
            return 1;
        }
    }
    return 0;
''')])
C('verify-order', D2, 'p25', [('sign.c', '''    @unpack_pk(rho, &t1, pk);
    if (@unpack_sig(c, &z, &h, sig)) {
        return -1;
    }
    if (@polyvecl_chknorm(&z, GAMMA1 - BETA)) {
        return -1;
    }

    /* Compute CRH(H(rho, t1), msg) */
    shake256(mu, CRHBYTES, pk, @CRYPTO_PUBLICKEYBYTES);
''', '''    shake256(mu, CRHBYTES, pk, @CRYPTO_PUBLICKEYBYTES);
    if (@unpack_sig(c, &z, &h, sig) != 0) {
        return -1;
    }
    @unpack_pk(rho, &t1, pk);
    if (@polyvecl_chknorm(&z, GAMMA1 - BETA) != 0) {
        return -1;
    }
''')])
C('verify-late', D3, 'p25', [('sign.c', '''    if (@polyvecl_chknorm(&z, GAMMA1 - BETA)) {
        return -1;
    }

    /* Compute CRH''', '''    bad = @polyvecl_chknorm(&z, GAMMA1 - BETA);

    /* Compute CRH'''), ('sign.c', CMP, '''    for (i = 0; i < CTILDEBYTES; ++i) {
        bad |= c[i] != c2[i];
    }
    return bad ? -1 : 0;
'''), ('sign.c', '''    unsigned int i;
    uint8_t buf''', '''    unsigned int i;
    int bad;
    uint8_t buf''')])
REJ = '''    if (@polyvecl_chknorm(&z, GAMMA1 - BETA)) {
        goto rej;
    }

    /* Check that'''
C('sign-reject-late', D2, 'p26', [('sign.c', REJ, '''    reject = @polyvecl_chknorm(&z, GAMMA1 - BETA);

    /* Check that'''), ('sign.c', '''    if (@polyveck_chknorm(&w0, GAMMA2 - BETA)) {
        goto rej;
    }
''', '''    reject |= @polyveck_chknorm(&w0, GAMMA2 - BETA);
    if (reject) {
        goto rej;
    }
'''), ('sign.c', '    uint16_t nonce = 0;', '    uint16_t nonce = 0;\n    int reject;')])
C('sign-loop', D3, 'p26', [('sign.c', 'rej:\n', '    for (;;) {\n'), ('sign.c', '        goto rej;', '        continue;'), ('sign.c', '        goto rej;', '        continue;'), ('sign.c', '        goto rej;', '        continue;'),
                           ('sign.c', '''        goto rej;
    }

    /* Write signature */''', '''        continue;
    }
    break;
    }

    /* Write signature */''')])
C('sign-y-loop', D2, 'p26', [('sign.c', '@polyvecl_uniform_gamma1(&y, rhoprime, nonce++);', '''for (n = 0; n < L; ++n) {
        @poly_uniform_gamma1(&y.vec[n], rhoprime, (uint16_t)(L * nonce + n));
    }
    nonce++;''')])
C('sign-nonce-step', D5, 'p26', [('sign.c', '@polyvecl_uniform_gamma1(&y, rhoprime, nonce++);', '''for (n = 0; n < L; ++n) {
        @poly_uniform_gamma1(&y.vec[n], rhoprime, nonce++);
    }''')])
C('sign-hints-first', D2, 'p26', [('sign.c', '''    n = @polyveck_make_hint(&h, &w0, &w1);
    if (n > OMEGA) {
        goto rej;
    }

    /* Write signature */
    @pack_sig(sig, sig, &z, &h);
    *siglen = @CRYPTO_BYTES;
    return 0;
''', '''    *siglen = @CRYPTO_BYTES;
    n = @polyveck_make_hint(&h, &w0, &w1);
    if (n <= OMEGA) {
        @pack_sig(sig, sig, &z, &h);
        return 0;
    }
    goto rej;
''')])
C('sign-rnd', D2, 'p26', [('sign.c', '''    for (n = 0; n < RNDBYTES; n++) {
        rnd[n] = 0;
    }
''', '''    memset(rnd, 0, RNDBYTES);
'''), ('sign.c', '#include <stdint.h>', '#include <stdint.h>\n#include <string.h>')])
C('copy-memmove', D2, 'p26 p25', [('sign.c', '''    size_t i;

    for (i = 0; i < mlen; ++i) {
        sm[@CRYPTO_BYTES + mlen - 1 - i] = m[mlen - 1 - i];
    }
''', '''    memmove(sm + @CRYPTO_BYTES, m, mlen);
'''), ('sign.c', '#include <stdint.h>', '#include <stdint.h>\n#include <string.h>')])
C('copy-while', D3, 'p26', [('sign.c', '''    for (i = 0; i < mlen; ++i) {
        sm[@CRYPTO_BYTES + mlen - 1 - i] = m[mlen - 1 - i];
    }
''', '''    i = mlen;
    while (i > 0) {
        --i;
        sm[@CRYPTO_BYTES + i] = m[i];
    }
''')])
C('open-flat', D2, 'p25', [('sign.c', '''        goto badsig;
    } else {
        /* All good, copy msg, return 0 */
        for (i = 0; i < *mlen; ++i) {
            m[i] = sm[@CRYPTO_BYTES + i];
        }
        return 0;
    }
''', '''        goto badsig;
    }
    memmove(m, sm + @CRYPTO_BYTES, *mlen);
    return 0;
'''), ('sign.c', '#include <stdint.h>', '#include <stdint.h>\n#include <string.h>')])
C('chknorm-flag', D2, 'p25 p28', [('poly.c', '''        if (t >= B) {
            DBENCH_STOP(*tsample);
            return 1;
        }
    }

    DBENCH_STOP(*tsample);
    return 0;
''', '''        bad |= (t >= B);
    }

    DBENCH_STOP(*tsample);
    return bad;
'''), ('poly.c', '''    int32_t t;
    DBENCH_START();

    if (B > (Q - 1) / 8) {''', '''    int32_t t;
    unsigned int bad = 0;
    DBENCH_START();

    if (B > (Q - 1) / 8) {''')])
C('chknorm-abs', D3, 'p25 p28', [('poly.c', '''        t = a->coeffs[i] >> 31;
        t = a->coeffs[i] - (t & 2 * a->coeffs[i]);

        if (t >= B) {''', '''        t = a->coeffs[i] < 0 ? -a->coeffs[i] : a->coeffs[i];

        if (t > B - 1) {''')])
C('chknorm-two', D5, 'p25 p28', [('poly.c', '''        t = a->coeffs[i] >> 31;
        t = a->coeffs[i] - (t & 2 * a->coeffs[i]);

        if (t >= B) {''', '''        t = a->coeffs[i];

        if (t >= B || t <= -B) {''')])
C('makehint-neg', D2, 'p26 p28', [('rounding.c', '''    if (a0 > GAMMA2 || a0 < -GAMMA2 || (a0 == -GAMMA2 && a1 != 0)) {
        return 1;
    }

    return 0;
''', '''    if (a0 <= GAMMA2 && (a0 > -GAMMA2 || (a0 == -GAMMA2 && a1 == 0))) {
        return 0;
    }

    return 1;
''')])
C('usehint-mod', D2, 'p25', [('rounding.c', '''        if (a1 == 43) {
            return 0;
        }
        return a1 + 1;
''', '''        return (a1 + 1) % 44;
''')])
C('usehint-sel', D3, 'p25', [('rounding.c', '''    if (a0 > 0) {
        return (a1 + 1) & 15;
    }
    return (a1 - 1) & 15;
''', '''    a1 += a0 > 0 ? 1 : 15;
    return a1 & 15;
''')])
C('decompose-div', D3, 'p25 p26', [('rounding.c', '''    a1  = (a + 127) >> 7;
    a1  = (a1 * 1025 + (1 << 21)) >> 22;
    a1 &= 15;
''', '''    a1 = (a + GAMMA2 - 1) / (2 * GAMMA2);
    if (a1 == 16) {
        a1 = 0;
    }
''')])
C('p2r-mask', D2, 'p27', [('rounding.c', '''    *a0 = a - (a1 << D);
''', '''    *a0 = a - a1 * (1 << D);
''')])
C('caddq-if', D2, 'p25 p26 p27', [('reduce.c', '    a += (a >> 31) & Q;\n    return a;', '    return a < 0 ? a + Q : a;')])
C('mont-cast', D2, 'p25 p28', [('reduce.c', '    t = (int32_t)((uint64_t)a * (uint64_t)QINV);', '    t = (int32_t)((uint32_t)a * (uint32_t)QINV);')])
C('reduce-div', D5, 'p25', [('reduce.c', '''    t = (a + (1 << 22)) >> 23;
    t = a - t * Q;
    return t;
''', '''    t = (a + (1 << 22)) >> 23;
    return a - Q * t;
''')])
C('zunpack-bits', D2, 'p25', [('poly.c', '''        r->coeffs[4 * i + 1]  = a[9 * i + 2] >> 2;
        r->coeffs[4 * i + 1] |= (uint32_t)a[9 * i + 3] << 6;
        r->coeffs[4 * i + 1] |= (uint32_t)a[9 * i + 4] << 14;
        r->coeffs[4 * i + 1] &= 0x3FFFF;
''', '''        {
            uint32_t w = (uint32_t)a[9 * i + 2] | ((uint32_t)a[9 * i + 3] << 8) | ((uint32_t)a[9 * i + 4] << 16);
            r->coeffs[4 * i + 1] = (int32_t)((w >> 2) & 0x3FFFF);
        }
''')])
C('w1pack-or', D3, 'p25 p26', [('poly.c', '        r[i] = (uint8_t) (a->coeffs[2 * i + 0] | (a->coeffs[2 * i + 1] << 4));', '        r[i] = (uint8_t) (a->coeffs[2 * i] + 16 * a->coeffs[2 * i + 1]);')])
C('add-rev', D2, 'p25 p26 p27', [('poly.c', '''    for (i = 0; i < N; ++i) {
        c->coeffs[i] = a->coeffs[i] + b->coeffs[i];
    }
''', '''    for (i = N; i-- > 0;) {
        c->coeffs[i] = b->coeffs[i] + a->coeffs[i];
    }
''')])
C('polyvec-inline', D2, 'p25 p26', [('polyvec.c', '''void @polyveck_reduce(polyveck *v) {
    unsigned int i;

    for (i = 0; i < K; ++i) {
        @poly_reduce(&v->vec[i]);
    }
''', '''void @polyveck_reduce(polyveck *v) {
    poly *p = v->vec;

    while (p != v->vec + K) {
        @poly_reduce(p++);
    }
''')])
C('packsig-mem', D2, 'p26 p28', [('packing.c', '''    for (i = 0; i < OMEGA + K; ++i) {
        sig[i] = 0;
    }

    k = 0;
    for (i = 0; i < K; ++i) {
        for (j = 0; j < N; ++j) {
            if (h->vec[i].coeffs[j] != 0) {
                sig[k++] = (uint8_t) j;
            }
        }

        sig[OMEGA + i] = (uint8_t) k;
    }
''', '''    memset(sig, 0, OMEGA + K);

    k = 0;
    for (i = 0; i < K; ++i) {
        const poly *p = &h->vec[i];
        for (j = 0; j < N; ++j) {
            if (p->coeffs[j]) {
                sig[k] = (uint8_t) j;
                k += 1;
            }
        }
        sig[OMEGA + i] = (uint8_t) k;
    }
'''), ('packing.c', '#include "params.h"', '#include "params.h"\n#include <string.h>')])
C('packsig-tail', D3, 'p26 p28', [('packing.c', '''    for (i = 0; i < OMEGA + K; ++i) {
        sig[i] = 0;
    }

    k = 0;
''', '''    k = 0;
'''), ('packing.c', '''        sig[OMEGA + i] = (uint8_t) k;
    }
}
''', '''        sig[OMEGA + i] = (uint8_t) k;
    }
    while (k < OMEGA) {
        sig[k++] = 0;
    }
}
''')])
C('ntt-helper', D2, 'p28', [('ntt.c', '''                t = @montgomery_reduce((int64_t)zeta * a[j + len]);
                a[j + len] = a[j] - t;
                a[j] = a[j] + t;
''', '''                butterfly(&a[j], &a[j + len], zeta);
'''), ('ntt.c', '''    int32_t zeta, t;

    k = 0;''', '''    int32_t zeta;

    k = 0;'''), ('ntt.c', 'void @ntt(int32_t a[N]) {', '''static void butterfly(int32_t *x, int32_t *y, int32_t zeta) {
    int32_t t = @montgomery_reduce((int64_t)zeta * *y);
    *y = *x - t;
    *x += t;
}

void @ntt(int32_t a[N]) {''')])
C('ntt-loops', D3, 'p28', [('ntt.c', '''        for (start = 0; start < N; start = j + len) {
            zeta = zetas[++k];
            for (j = start; j < start + len; ++j) {
                t =''', '''        for (start = 0; start < N; start += 2 * len) {
            zeta = zetas[++k];
            for (j = start; j < start + len; ++j) {
                t =''')])
C('keygen-inline', D2, 'p27', [('sign.c', '''    @polyvecl_uniform_eta(&s1, rhoprime, 0);
    @polyveck_uniform_eta(&s2, rhoprime, L);
''', '''    for (i = 0; i < L; i++) {
        @poly_uniform_eta(&s1.vec[i], rhoprime, (uint16_t)i);
    }
    for (i = 0; i < K; i++) {
        @poly_uniform_eta(&s2.vec[i], rhoprime, (uint16_t)(L + i));
    }
''')])
C('keygen-order', D3, 'p27', [('sign.c', '''    /* Expand matrix */
    @polyvec_matrix_expand(mat, rho);

    /* Sample short vectors s1 and s2 */
    @polyvecl_uniform_eta(&s1, rhoprime, 0);
    @polyveck_uniform_eta(&s2, rhoprime, L);
''', '''    @polyveck_uniform_eta(&s2, rhoprime, L);
    @polyvecl_uniform_eta(&s1, rhoprime, 0);
    @polyvec_matrix_expand(mat, rho);
''')])
C('packpk-mem', D5, 'p27', [('packing.c', '''    for (i = 0; i < SEEDBYTES; ++i) {
        pk[i] = rho[i];
    }
    pk += SEEDBYTES;
''', '''    memcpy(pk, rho, SEEDBYTES);
    pk += SEEDBYTES;
'''), ('packing.c', '#include "params.h"', '#include "params.h"\n#include <string.h>')])
# ---- avx2
C('a-cmp-mem', A2, 'p25', [('sign.c', '''    for (i = 0; i < CTILDEBYTES; ++i) {
        if (buf.coeffs[i] != sig[i]) {
            return -1;
        }
    }

    return 0;
''', '    return memcmp(buf.coeffs, sig, CTILDEBYTES) == 0 ? 0 : -1;\n')])
C('a-hint-local', A3, 'p25', [('sign.c', '''        if (hint[OMEGA + i] < pos || hint[OMEGA + i] > OMEGA) {
            return -1;
        }

        for (j = pos; j < hint[OMEGA + i]; ++j) {
            /* Coefficients are ordered for strong unforgeability */
            if (j > pos && hint[j] <= hint[j - 1]) {
                return -1;
            }
            h.coeffs[hint[j]] = 1;
        }
        pos = hint[OMEGA + i];
''', '''        unsigned int end = hint[OMEGA + i];
        if (end < pos || end > OMEGA) {
            return -1;
        }
        j = pos;
        while (j < end) {
            const uint8_t at = hint[j];
            if (j > pos && at <= hint[j - 1]) {
                return -1;
            }
            h.coeffs[at] = 1;
            ++j;
        }
        pos = end;
''')])
C('a-row-helper', A5, 'p25', [('sign.c', '''        if (hint[OMEGA + i] < pos || hint[OMEGA + i] > OMEGA) {
            return -1;
        }

        for (j = pos; j < hint[OMEGA + i]; ++j) {
            /* Coefficients are ordered for strong unforgeability */
            if (j > pos && hint[j] <= hint[j - 1]) {
                return -1;
            }
            h.coeffs[hint[j]] = 1;
        }
        pos = hint[OMEGA + i];
''', '''        if (row_hints(&h, hint, &pos, hint[OMEGA + i])) {
            return -1;
        }
'''), ('sign.c', 'int @crypto_sign_verify(', '''static int row_hints(poly *h, const uint8_t *hint, unsigned int *pos, unsigned int end) {
    unsigned int j;

    if (end < *pos || end > OMEGA) {
        return -1;
    }
    for (j = *pos; j < end; ++j) {
        if (j > *pos && hint[j] <= hint[j - 1]) {
            return -1;
        }
        h->coeffs[hint[j]] = 1;
    }
    *pos = end;
    return 0;
}

int @crypto_sign_verify(''')])
C('a-hint-copy', A2, 'p26', [('sign.c', '''        memcpy(&hint[pos], hintbuf, n);
        hint[OMEGA + i] = pos = pos + n;
''', '''        for (unsigned int j = 0; j < n; j++) {
            hint[pos + j] = hintbuf[j];
        }
        pos += n;
        hint[OMEGA + i] = (uint8_t) pos;
''')])
C('a-norm-split', A3, 'p25', [('sign.c', '''        if (@poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
            return -1;
        }
        @poly_ntt(&z.vec[i]);
    }
''', '''        if (@poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
            return -1;
        }
    }
    @polyvecl_ntt(&z);
''')])
C('a-zpack-early', A3, 'p26', [('sign.c', '''    /* Pack z into signature */
    for (i = 0; i < L; i++) {
        @polyz_pack(sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES, &z.vec[i]);
    }

''', ''), ('sign.c', '''    /* Zero hint vector in signature */
''', '''    for (i = 0; i < L; i++) {
        @polyz_pack(sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES, &z.vec[i]);
    }
    /* Zero hint vector in signature */
''')])
C('a-chknorm-abs', A2, 'p28', [('poly.c', 'f = _mm256_abs_epi32(f);', 'f = _mm256_max_epi32(f, _mm256_sub_epi32(_mm256_setzero_si256(), f));')])


# ---- samplers
C('smp-r-for', D2, 'p30', [('poly.c', '''    while (ctr < len && pos + 3 <= buflen) {
        t  = buf[pos++];
        t |= (uint32_t)buf[pos++] << 8;
        t |= (uint32_t)buf[pos++] << 16;
        t &= 0x7FFFFF;

        if (t < Q) {
            a[ctr++] = t;
        }
    }''', '''    for (pos = 0; ctr < len && buflen - pos >= 3; pos += 3) {
        t = buf[pos] | ((uint32_t)buf[pos + 1] << 8) | ((uint32_t)(buf[pos + 2] & 0x7F) << 16);
        if (t >= Q) {
            continue;
        }
        a[ctr] = (int32_t)t;
        ctr++;
    }''')])
C('smp-r-ptr', D2, 'p30', [('poly.c', '''    while (ctr < len && pos + 3 <= buflen) {
        t  = buf[pos++];
        t |= (uint32_t)buf[pos++] << 8;
        t |= (uint32_t)buf[pos++] << 16;
        t &= 0x7FFFFF;

        if (t < Q) {
            a[ctr++] = t;
        }
    }''', '''    const uint8_t *p = buf;
    while (ctr < len && pos + 3 <= buflen) {
        t  = *p++;
        t |= (uint32_t)*p++ << 8;
        t |= (uint32_t)*p++ << 16;
        t &= 0x7FFFFF;
        pos += 3;

        if (t < Q) {
            *a++ = t;
            ctr++;
        }
    }''')])
C('smp-r-branchless', D2, 'p30', [('poly.c', '''        if (t < Q) {
            a[ctr++] = t;
        }
''', '''        a[ctr] = t;
        ctr += t < Q;
''')])
C('smp-r-helper', D2, 'p30', [('poly.c', '''static unsigned int rej_uniform(''', '''static uint32_t load23(const uint8_t *p) {
    return ((uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16)) & 0x7FFFFF;
}

static unsigned int rej_uniform('''), ('poly.c', '''        t  = buf[pos++];
        t |= (uint32_t)buf[pos++] << 8;
        t |= (uint32_t)buf[pos++] << 16;
        t &= 0x7FFFFF;
''', '''        t = load23(&buf[pos]);
        pos += 3;
''')])
C('smp-r-break', D2, 'p30', [('poly.c', '''    while (ctr < len && pos + 3 <= buflen) {
        t  = buf''', '''    for (;;) {
        if (ctr >= len || pos + 3 > buflen) {
            break;
        }
        t  = buf''')])
C('smp-u-do', D2, 'p30', [('poly.c', '''    while (ctr < N) {
        off = buflen % 3;
        for (i = 0; i < off; ++i) {
            buf[i] = buf[buflen - off + i];
        }

        stream128_squeezeblocks(buf + off, 1, &state);
        buflen = STREAM128_BLOCKBYTES + off;
        ctr += rej_uniform(a->coeffs + ctr, N - ctr, buf, buflen);
    }''', '''    (void)off;(void)i;
    while (ctr != N) {
        stream128_squeezeblocks(buf, 1, &state);
        ctr += rej_uniform(&a->coeffs[ctr], N - ctr, buf, STREAM128_BLOCKBYTES);
    }''')])
C('smp-u-rem', D2, 'p30', [('poly.c', '''ctr += rej_uniform(a->coeffs + ctr, N - ctr, buf, buflen);''', '''unsigned int left = N - ctr;
        unsigned int got = rej_uniform(a->coeffs + ctr, left, buf, buflen);
        ctr += got;''')])
C('smp-u-for', D2, 'p30', [('poly.c', '''    ctr = rej_eta(a->coeffs, N, buf, buflen);

    while (ctr < N) {
        stream256_squeezeblocks(buf, 1, &state);
        ctr += rej_eta(a->coeffs + ctr, N - ctr, buf, STREAM256_BLOCKBYTES);
    }''', '''    for (ctr = rej_eta(a->coeffs, N, buf, buflen); ctr < N; ctr += rej_eta(a->coeffs + ctr, N - ctr, buf, STREAM256_BLOCKBYTES)) {
        stream256_squeezeblocks(buf, 1, &state);
    }''')])
C('smp-u-cnt', D2, 'p30', [('poly.c', '''    ctr = rej_eta(a->coeffs, N, buf, buflen);

    while (ctr < N) {
        stream256_squeezeblocks(buf, 1, &state);
        ctr += rej_eta(a->coeffs + ctr, N - ctr, buf, STREAM256_BLOCKBYTES);
    }''', '''    unsigned int want = N - rej_eta(a->coeffs, N, buf, buflen);
    (void)ctr;
    while (want > 0) {
        stream256_squeezeblocks(buf, 1, &state);
        want -= rej_eta(a->coeffs + (N - want), want, buf, STREAM256_BLOCKBYTES);
    }''')])
C('smp-u-one', D2, 'p30', [('poly.c', '''    stream256_squeezeblocks(buf, POLY_UNIFORM_ETA_NBLOCKS, &state);

    ctr = rej_eta(a->coeffs, N, buf, buflen);

    while (ctr < N) {
        stream256_squeezeblocks(buf, 1, &state);
        ctr += rej_eta(a->coeffs + ctr, N - ctr, buf, STREAM256_BLOCKBYTES);
    }''', '''    ctr = 0;
    (void)buflen;
    do {
        stream256_squeezeblocks(buf, 1, &state);
        ctr += rej_eta(a->coeffs + ctr, N - ctr, buf, STREAM256_BLOCKBYTES);
    } while (ctr < N);''')])
C('smp-e-sep', D2, 'p30', [('poly.c', '''        t0 = buf[pos] & 0x0F;
        t1 = buf[pos++] >> 4;

        if (t0 < 15) {
            t0 = t0 - (205 * t0 >> 10) * 5;
            a[ctr++] = 2 - t0;
        }
        if (t1 < 15 && ctr < len) {
            t1 = t1 - (205 * t1 >> 10) * 5;
            a[ctr++] = 2 - t1;
        }''', '''        t0 = buf[pos] & 0x0F;
        if (t0 < 15) {
            a[ctr++] = 2 - (int32_t)(t0 % 5);
        }
        t1 = buf[pos] >> 4;
        pos++;
        if (ctr < len) {
            if (t1 < 15) {
                a[ctr++] = 2 - (int32_t)(t1 % 5);
            }
        }''')])
C('smp-e-help', D2, 'p30', [('poly.c', '''static unsigned int rej_eta(''', '''static int32_t eta2(uint32_t t) {
    t = t - (205 * t >> 10) * 5;
    return 2 - (int32_t)t;
}

static unsigned int rej_eta('''), ('poly.c', '''            t0 = t0 - (205 * t0 >> 10) * 5;
            a[ctr++] = 2 - t0;''', '''            a[ctr++] = eta2(t0);'''), ('poly.c', '''            t1 = t1 - (205 * t1 >> 10) * 5;
            a[ctr++] = 2 - t1;''', '''            a[ctr++] = eta2(t1);''')])
C('smp-e-nib', D2, 'p30', [('poly.c', '''        t0 = buf[pos] & 0x0F;
        t1 = buf[pos++] >> 4;

        if (t0 < 15) {
            t0 = t0 - (205 * t0 >> 10) * 5;
            a[ctr++] = 2 - t0;
        }
        if (t1 < 15 && ctr < len) {
            t1 = t1 - (205 * t1 >> 10) * 5;
            a[ctr++] = 2 - t1;
        }''', '''        t1 = buf[pos++];
        for (unsigned int k = 0; k < 2 && ctr < len; ++k) {
            t0 = t1 & 0x0F;
            t1 >>= 4;
            if (t0 < 15) {
                t0 = t0 - (205 * t0 >> 10) * 5;
                a[ctr++] = 2 - t0;
            }
        }''')])
C('smp-c-cont', D2, 'p30', [('poly.c', '''        do {
            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }

            b = buf[pos++];
        } while (b > i);
''', '''        for (;;) {
            if (pos == SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }
            b = buf[pos];
            ++pos;
            if (b <= i) {
                break;
            }
        }
''')])
C('smp-c-flat', D2, 'p30', [('poly.c', '''    for (i = N - TAU; i < N; ++i) {
        do {
            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }

            b = buf[pos++];
        } while (b > i);
''', '''    for (i = N - TAU; i < N;) {
            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }

            b = buf[pos++];
            if (b > i) {
                continue;
            }
'''), ('poly.c', '''        signs >>= 1;
''', '''        signs >>= 1;
        i++;
''')])
C('smp-c-tern', D2, 'p30', [('poly.c', '''c->coeffs[b] = 1 - 2 * (signs & 1);''', '''c->coeffs[b] = (signs & 1) ? -1 : 1;''')])
C('smp-c-if', D2, 'p30', [('poly.c', '''c->coeffs[b] = 1 - 2 * (signs & 1);''', '''if (signs & 1) {
            c->coeffs[b] = -1;
        } else {
            c->coeffs[b] = 1;
        }''')])
C('smp-c-tmp', D2, 'p30', [('poly.c', '''        c->coeffs[i] = c->coeffs[b];
        c->coeffs[b] = 1 - 2 * (signs & 1);''', '''        int32_t old = c->coeffs[b];
        int32_t sgn = 1 - (int32_t)((signs & 1) << 1);
        c->coeffs[i] = old;
        c->coeffs[b] = sgn;''')])
C('smp-c-cnt', D2, 'p30', [('poly.c', '''for (i = N - TAU; i < N; ++i) {
        do {''', '''for (unsigned int k = 0; k < TAU; ++k) {
        i = N - TAU + k;
        do {''')])
C('smp-c-sh', D2, 'p30', [('poly.c', '''1 - 2 * (signs & 1)''', '''1 - 2 * ((signs >> (i - (N - TAU))) & 1)'''), ('poly.c', '''        signs >>= 1;
''', '''''')])
C('smp-c-first', D2, 'p30', [('poly.c', '''            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }

            b = buf[pos++];
        } while (b > i);''', '''            b = buf[pos++];
            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }
        } while (b > i);''')])
C('smp-c-rem', D2, 'p30', [('poly.c', '''    pos = 8;
''', '''    pos = SHAKE256_RATE - 8;
'''), ('poly.c', '''            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }

            b = buf[pos++];
''', '''            if (pos == 0) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = SHAKE256_RATE;
            }

            b = buf[SHAKE256_RATE - pos];
            pos--;
''')])
C('smp-c-get', D2, 'p30', [('poly.c', '''void @poly_challenge''', '''static uint8_t next_byte(uint8_t buf[SHAKE256_RATE], unsigned int *pos, shake256incctx *state) {
    if (*pos >= SHAKE256_RATE) {
        shake256_inc_squeeze(buf, SHAKE256_RATE, state);
        *pos = 0;
    }
    return buf[(*pos)++];
}

void @poly_challenge'''), ('poly.c', '''            if (pos >= SHAKE256_RATE) {
                shake256_inc_squeeze(buf, sizeof buf, &state);
                pos = 0;
            }

            b = buf[pos++];
''', '''            b = next_byte(buf, &pos, &state);
''')])
C('smp-c-memset', D2, 'p30', [('poly.c', '''    for (i = 0; i < N; ++i) {
        c->coeffs[i] = 0;
    }
    for (i = N - TAU''', '''    memset(c, 0, sizeof *c);
    for (i = N - TAU'''), ('poly.c', '''#include <stdint.h>''', '''#include <stdint.h>
#include <string.h>''')])
C('smp-e3-if', D3, 'p30', [('poly.c', '''        if (t0 < 9) {
            a[ctr++] = 4 - t0;
        }''', '''        if (t0 <= 8) {
            a[ctr] = 4 - (int32_t)t0;
            ctr++;
        }''')])
C('smp-ax-while', A2, 'p30', [('rejsample.c', '''        _mm256_storeu_si256((__m256i *)&r[ctr], d);
        ctr += _mm_popcnt_u32(good);

        if (ctr > N - 8) {
            break;
        }
    }''', '''        _mm256_storeu_si256((__m256i *)&r[ctr], d);
        ctr += _mm_popcnt_u32(good);
    }'''), ('rejsample.c', '''while (pos <= REJ_UNIFORM_BUFLEN - 24) {''', '''while (ctr <= N - 8 && pos <= REJ_UNIFORM_BUFLEN - 24) {''')])
C('smp-ax-help', A2, 'p30', [('rejsample.c', '''unsigned int @rej_eta_avx(''', '''static __m256i eta8(__m128i g0, unsigned int good, __m256i v, __m256i p) {
    __m128i g1;
    __m256i f1, f2;
    g1 = _mm_loadl_epi64((__m128i *)&@idxlut[good]);
    g1 = _mm_shuffle_epi8(g0, g1);
    f1 = _mm256_cvtepi8_epi32(g1);
    f2 = _mm256_mulhrs_epi16(f1, v);
    f2 = _mm256_mullo_epi16(f2, p);
    return _mm256_add_epi32(f1, f2);
}

unsigned int @rej_eta_avx('''), ('rejsample.c', '''        g1 = _mm_loadl_epi64((__m128i *)&@idxlut[good & 0xFF]);
        g1 = _mm_shuffle_epi8(g0, g1);
        f1 = _mm256_cvtepi8_epi32(g1);
        f2 = _mm256_mulhrs_epi16(f1, v);
        f2 = _mm256_mullo_epi16(f2, p);
        f1 = _mm256_add_epi32(f1, f2);
''', '''        f1 = eta8(g0, good & 0xFF, v, p);
''')])
C('smp-ax-pop', A2, 'p30', [('rejsample.c', '''ctr += _mm_popcnt_u32(good);''', '''ctr += (unsigned int)__builtin_popcount(good);''')])
C('smp-a4-loop', A2, 'p30', [('poly.c', '''        ctr0 += rej_eta(a0->coeffs + ctr0, N - ctr0, buf[0].coeffs, SHAKE256_RATE);
''', '''        if (ctr0 < N) {
            ctr0 += rej_eta(a0->coeffs + ctr0, N - ctr0, buf[0].coeffs, SHAKE256_RATE);
        }
''')])
C('smp-a4-arr', A2, 'p30', [('poly.c', '''    buf[0].coeffs[64] = nonce0;
    buf[0].coeffs[65] = nonce0 >> 8;
    buf[1].coeffs[64] = nonce1;
    buf[1].coeffs[65] = nonce1 >> 8;
    buf[2].coeffs[64] = nonce2;
    buf[2].coeffs[65] = nonce2 >> 8;
    buf[3].coeffs[64] = nonce3;
    buf[3].coeffs[65] = nonce3 >> 8;
''', '''    const uint16_t nonces[4] = {nonce0, nonce1, nonce2, nonce3};
    for (int k = 0; k < 4; ++k) {
        buf[k].coeffs[64] = (uint8_t)(nonces[k] & 0xFF);
        buf[k].coeffs[65] = (uint8_t)(nonces[k] >> 8);
    }
''')])
C('smp-a4-cpy', A2, 'p30', [('poly.c', '''    f = _mm256_loadu_si256((__m256i *)&seed[0]);
    _mm256_store_si256(&buf[0].vec[0], f);
    _mm256_store_si256(&buf[1].vec[0], f);
    _mm256_store_si256(&buf[2].vec[0], f);
    _mm256_store_si256(&buf[3].vec[0], f);
    f = _mm256_loadu_si256((__m256i *)&seed[32]);
    _mm256_store_si256(&buf[0].vec[1], f);
    _mm256_store_si256(&buf[1].vec[1], f);
    _mm256_store_si256(&buf[2].vec[1], f);
    _mm256_store_si256(&buf[3].vec[1], f);

    buf[0].coeffs[64]''', '''    (void)f;
    for (int k = 0; k < 4; ++k) {
        memcpy(buf[k].coeffs, seed, 64);
    }

    buf[0].coeffs[64]'''), ('poly.c', '''#include <string.h>''', '''#include <string.h>
#include <stdlib.h>''')])
C('smp-a4-cond', A2, 'p30', [('poly.c', '''while (ctr0 < N || ctr1 < N || ctr2 < N || ctr3 < N) {
        @shake256x4''', '''while (!(ctr0 >= N && ctr1 >= N && ctr2 >= N && ctr3 >= N)) {
        @shake256x4''')])
C('smp-a4-arrc', A2, 'p30', [('poly.c', '''    ctr0 = @rej_uniform_avx(a0->coeffs, buf[0].coeffs);
    ctr1 = @rej_uniform_avx(a1->coeffs, buf[1].coeffs);
    ctr2 = @rej_uniform_avx(a2->coeffs, buf[2].coeffs);
    ctr3 = @rej_uniform_avx(a3->coeffs, buf[3].coeffs);

    while (ctr0 < N || ctr1 < N || ctr2 < N || ctr3 < N) {
        @shake128x4_squeezeblocks(buf[0].coeffs, buf[1].coeffs, buf[2].coeffs, buf[3].coeffs, 1, &state);

        ctr0 += rej_uniform(a0->coeffs + ctr0, N - ctr0, buf[0].coeffs, SHAKE128_RATE);
        ctr1 += rej_uniform(a1->coeffs + ctr1, N - ctr1, buf[1].coeffs, SHAKE128_RATE);
        ctr2 += rej_uniform(a2->coeffs + ctr2, N - ctr2, buf[2].coeffs, SHAKE128_RATE);
        ctr3 += rej_uniform(a3->coeffs + ctr3, N - ctr3, buf[3].coeffs, SHAKE128_RATE);
    }''', '''    (void)ctr0;(void)ctr1;(void)ctr2;(void)ctr3;
    poly *as[4] = {a0, a1, a2, a3};
    unsigned int ctr[4];
    for (int k = 0; k < 4; ++k) {
        ctr[k] = @rej_uniform_avx(as[k]->coeffs, buf[k].coeffs);
    }
    while (ctr[0] < N || ctr[1] < N || ctr[2] < N || ctr[3] < N) {
        @shake128x4_squeezeblocks(buf[0].coeffs, buf[1].coeffs, buf[2].coeffs, buf[3].coeffs, 1, &state);
        for (int k = 0; k < 4; ++k) {
            ctr[k] += rej_uniform(as[k]->coeffs + ctr[k], N - ctr[k], buf[k].coeffs, SHAKE128_RATE);
        }
    }''')])
