"""Behaviour-preserving edits of the SHAKE sources: RS(id, [(file, old, new)..]); run: refactors_sponge.py [ids]"""
import os
import shutil
import subprocess
import sys

FI = 'pqcrypto/pqclean/common/fips202.c'
X4 = 'pqcrypto/pqclean/crypto_sign/dilithium2/avx2/fips202x4.c'
RS = {}
ABS = '''    while (mlen + s_inc[25] >= r) {
        for (i = 0; i < r - (uint32_t)s_inc[25]; i++) {
            /* Take the i'th byte from message
               xor with the s_inc[25] + i'th byte of the state; little-endian */
            s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
        }
        mlen -= (size_t)(r - s_inc[25]);
        m += r - s_inc[25];
        s_inc[25] = 0;

        KeccakF1600_StatePermute(s_inc);
    }

    for (i = 0; i < mlen; i++) {
        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
    }
    s_inc[25] += mlen;
'''
RS['bytewise'] = [(FI, ABS, '''    size_t pos = (size_t)s_inc[25];
    for (i = 0; i < mlen; i++) {
        s_inc[pos / 8] ^= (uint64_t)m[i] << 8 * (pos % 8);
        if (++pos == r) {
            KeccakF1600_StatePermute(s_inc);
            pos = 0;
        }
    }
    s_inc[25] = pos;
''')]
RS['helper'] = [(FI, 'static void keccak_inc_absorb(', '''static void xor_byte(uint64_t *s, size_t pos, uint8_t b) {
    s[pos >> 3] ^= (uint64_t)b << (8 * (pos & 7));
}

static void keccak_inc_absorb('''), (FI, ABS, '''    size_t pos = s_inc[25];
    while (mlen >= r - pos) {
        size_t take = r - pos;
        for (i = 0; i < take; i++) {
            xor_byte(s_inc, pos + i, m[i]);
        }
        m += take;
        mlen -= take;
        pos = 0;
        KeccakF1600_StatePermute(s_inc);
    }
    for (i = 0; i < mlen; i++) {
        xor_byte(s_inc, pos + i, m[i]);
    }
    s_inc[25] = pos + mlen;
''')]
RS['min'] = [(FI, ABS, '''    while (mlen > 0) {
        size_t room = r - (size_t)s_inc[25];
        size_t take = mlen < room ? mlen : room;
        for (i = 0; i < take; i++) {
            s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
        }
        m += take;
        mlen -= take;
        s_inc[25] += take;
        if (s_inc[25] == r) {
            KeccakF1600_StatePermute(s_inc);
            s_inc[25] = 0;
        }
    }
''')]
RS['endptr'] = [(FI, ABS, '''    const uint8_t *end = m + mlen;
    uint8_t *st = (uint8_t *)s_inc;
    while ((size_t)(end - m) + s_inc[25] >= r) {
        for (i = s_inc[25]; i < r; i++) {
            st[i] ^= *m++;
        }
        KeccakF1600_StatePermute(s_inc);
        s_inc[25] = 0;
    }
    while (m != end) {
        st[s_inc[25]++] ^= *m++;
    }
''')]
RS['lanes'] = [(FI, ABS, '''    /* whole lanes where the position allows it */
    while (mlen + s_inc[25] >= r) {
        i = 0;
        if ((s_inc[25] & 7) == 0) {
            for (; i < r - (uint32_t)s_inc[25]; i += 8) {
                s_inc[(s_inc[25] + i) >> 3] ^= load64(m + i);
            }
        } else {
            for (; i < r - (uint32_t)s_inc[25]; i++) {
                s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
            }
        }
        mlen -= i;
        m += i;
        s_inc[25] = 0;
        KeccakF1600_StatePermute(s_inc);
    }

    for (i = 0; i < mlen; i++) {
        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));
    }
    s_inc[25] += mlen;
''')]
RS['empty'] = [(FI, ABS, '    if (mlen == 0) {\n        return;\n    }\n' + ABS)]
SQ = '''    /* First consume any bytes we still have sitting around */
    for (i = 0; i < outlen && i < s_inc[25]; i++) {
        /* There are s_inc[25] bytes left, so r - s_inc[25] is the first
           available byte. We consume from there, i.e., up to r. */
        h[i] = (uint8_t)(s_inc[(r - s_inc[25] + i) >> 3] >> (8 * ((r - s_inc[25] + i) & 0x07)));
    }
    h += i;
    outlen -= i;
    s_inc[25] -= i;

    /* Then squeeze the remaining necessary blocks */
    while (outlen > 0) {
        KeccakF1600_StatePermute(s_inc);

        for (i = 0; i < outlen && i < r; i++) {
            h[i] = (uint8_t)(s_inc[i >> 3] >> (8 * (i & 0x07)));
        }
        h += i;
        outlen -= i;
        s_inc[25] = r - i;
    }
'''
RS['sq-bytewise'] = [(FI, SQ, '''    for (i = 0; i < outlen; i++) {
        if (s_inc[25] == 0) {
            KeccakF1600_StatePermute(s_inc);
            s_inc[25] = r;
        }
        size_t at = r - s_inc[25];
        h[i] = (uint8_t)(s_inc[at >> 3] >> (8 * (at & 7)));
        s_inc[25]--;
    }
''')]
RS['sq-min'] = [(FI, SQ, '''    while (outlen) {
        if (!s_inc[25]) {
            KeccakF1600_StatePermute(s_inc);
            s_inc[25] = r;
        }
        size_t n = outlen < s_inc[25] ? outlen : (size_t)s_inc[25];
        size_t at = r - (size_t)s_inc[25];
        memcpy(h, (const uint8_t *)s_inc + at, n);
        h += n;
        outlen -= n;
        s_inc[25] -= n;
    }
''')]
RS['sq-store64'] = [(FI, SQ, SQ.replace('''        for (i = 0; i < outlen && i < r; i++) {
            h[i] = (uint8_t)(s_inc[i >> 3] >> (8 * (i & 0x07)));
        }
''', '''        if (outlen >= r) {
            for (i = 0; i < r; i += 8) {
                store64(h + i, s_inc[i / 8]);
            }
        } else {
            for (i = 0; i < outlen; i++) {
                h[i] = (uint8_t)(s_inc[i >> 3] >> (8 * (i & 0x07)));
            }
        }
'''))]
RS['fin-bytes'] = [(FI, '''    s_inc[s_inc[25] >> 3] ^= (uint64_t)p << (8 * (s_inc[25] & 0x07));
    s_inc[(r - 1) >> 3] ^= (uint64_t)128 << (8 * ((r - 1) & 0x07));
    s_inc[25] = 0;''', '''    uint8_t *b = (uint8_t *)s_inc;
    b[s_inc[25]] ^= p;
    b[r - 1] ^= 0x80;
    s_inc[25] = 0;''')]
RS['init-memset'] = [(FI, '''    for (i = 0; i < 25; ++i) {
        s_inc[i] = 0;
    }
    s_inc[25] = 0;
''', '''    (void)i;
    memset(s_inc, 0, 26 * sizeof(uint64_t));
''')]
RS['load64-unrolled'] = [(FI, '''    uint64_t r = 0;
    for (size_t i = 0; i < 8; ++i) {
        r |= (uint64_t)x[i] << 8 * i;
    }

    return r;''', '''    uint32_t lo = (uint32_t)x[0] | ((uint32_t)x[1] << 8) | ((uint32_t)x[2] << 16) | ((uint32_t)x[3] << 24);
    uint32_t hi = (uint32_t)x[4] | ((uint32_t)x[5] << 8) | ((uint32_t)x[6] << 16) | ((uint32_t)x[7] << 24);
    return lo + ((uint64_t)hi << 32);''')]
RS['load64-memcpy'] = [(FI, '''    uint64_t r = 0;
    for (size_t i = 0; i < 8; ++i) {
        r |= (uint64_t)x[i] << 8 * i;
    }

    return r;''', '''    uint64_t r;
    memcpy(&r, x, 8);
    return r;''')]
RS['store64-down'] = [(FI, '''    for (size_t i = 0; i < 8; ++i) {
        x[i] = (uint8_t) (u >> 8 * i);
    }''', '''    for (int i = 0; i < 8; i++, u >>= 8) {
        *x++ = (uint8_t)(u & 0xff);
    }''')]
RS['absorb-tail'] = [(FI, '''    for (i = 0; i < r; ++i) {
        t[i] = 0;
    }
    for (i = 0; i < mlen; ++i) {
        t[i] = m[i];
    }
    t[i] = p;
    t[r - 1] |= 128;
    for (i = 0; i < r / 8; ++i) {
        s[i] ^= load64(t + 8 * i);
    }''', '''    memset(t, 0, sizeof t);
    memcpy(t, m, mlen);
    t[mlen] = p;
    t[r - 1] ^= 0x80;
    for (i = 0; i < r >> 3; ++i) {
        s[i] ^= load64(&t[i << 3]);
    }''')]
RS['oneshot-inc'] = [(FI, '''    size_t nblocks = outlen / SHAKE256_RATE;
    uint8_t t[SHAKE256_RATE];
    shake256ctx s;

    shake256_absorb(&s, input, inlen);
    shake256_squeezeblocks(output, nblocks, &s);

    output += nblocks * SHAKE256_RATE;
    outlen -= nblocks * SHAKE256_RATE;

    if (outlen) {
        shake256_squeezeblocks(t, 1, &s);
        for (size_t i = 0; i < outlen; ++i) {
            output[i] = t[i];
        }
    }
    shake256_ctx_release(&s);''', '''    shake256incctx s;

    shake256_inc_init(&s);
    shake256_inc_absorb(&s, input, inlen);
    shake256_inc_finalize(&s);
    shake256_inc_squeeze(output, outlen, &s);
    shake256_inc_ctx_release(&s);''')]
RS['oneshot-loop'] = [(FI, '''    shake256_squeezeblocks(output, nblocks, &s);

    output += nblocks * SHAKE256_RATE;
    outlen -= nblocks * SHAKE256_RATE;

    if (outlen) {''', '''    while (outlen >= SHAKE256_RATE) {
        shake256_squeezeblocks(output, 1, &s);
        output += SHAKE256_RATE;
        outlen -= SHAKE256_RATE;
    }
    (void)nblocks;

    if (outlen > 0) {''')]
RS['blocks-for'] = [(FI, '''    while (nblocks > 0) {
        KeccakF1600_StatePermute(s);
        for (size_t i = 0; i < (r >> 3); i++) {
            store64(h + 8 * i, s[i]);
        }
        h += r;
        nblocks--;
    }''', '''    for (size_t b = 0; b < nblocks; b++) {
        KeccakF1600_StatePermute(s);
        for (uint32_t i = 0; i < r / 8; i++, h += 8) {
            store64(h, s[i]);
        }
    }''')]
RS['perm-renamed'] = [(FI, None, 'KeccakF1600_StatePermute>>keccak_f')]
RS['ctx-struct'] = [(FI, '''void shake256_inc_absorb(shake256incctx *state, const uint8_t *input, size_t inlen) {
    keccak_inc_absorb(state->ctx, SHAKE256_RATE, input, inlen);''', '''void shake256_inc_absorb(shake256incctx *state, const uint8_t *input, size_t inlen) {
    uint64_t *s = state->ctx;
    if (inlen != 0) {
        keccak_inc_absorb(s, SHAKE256_RATE, input, inlen);
    }''')]
RS['lazy'] = [(FI, ABS, '''    size_t pos = (size_t)s_inc[25];
    for (i = 0; i < mlen; i++) {
        if (pos == r) {
            KeccakF1600_StatePermute(s_inc);
            pos = 0;
        }
        s_inc[pos / 8] ^= (uint64_t)m[i] << 8 * (pos % 8);
        pos++;
    }
    s_inc[25] = pos;
'''), (FI, '''    s_inc[s_inc[25] >> 3] ^= (uint64_t)p <<''', '''    if (s_inc[25] == r) {
        KeccakF1600_StatePermute(s_inc);
        s_inc[25] = 0;
    }
    s_inc[s_inc[25] >> 3] ^= (uint64_t)p <<''')]
RS['position-up'] = [(FI, SQ, '''    /* here the last word counts the bytes used */
    size_t used = r - (size_t)s_inc[25];
    while (outlen > 0) {
        if (used == r) {
            KeccakF1600_StatePermute(s_inc);
            used = 0;
        }
        *h++ = (uint8_t)(s_inc[used >> 3] >> (8 * (used & 7)));
        used++;
        outlen--;
    }
    s_inc[25] = r - used;
''')]
RS['x4-pos'] = [(X4, '''        for (i = 0; i < r / 8; ++i) {
            t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
            s[i] = _mm256_xor_si256(s[i], t);
            pos += 8;
        }
        inlen -= r;
''', '''        for (i = 0; i < r / 8; ++i) {
            t = _mm256_i64gather_epi64((long long *)(pos + 8 * i), idx, 1);
            s[i] = _mm256_xor_si256(t, s[i]);
        }
        pos += r;
        inlen -= r;
''')]
RS['x4-set'] = [(X4, '''            t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
            s[i] = _mm256_xor_si256(s[i], t);
            pos += 8;
        }
        inlen -= r;
''', '''            uint64_t l0, l1, l2, l3;
            memcpy(&l0, in0 + pos, 8);
            memcpy(&l1, in1 + pos, 8);
            memcpy(&l2, in2 + pos, 8);
            memcpy(&l3, in3 + pos, 8);
            t = _mm256_set_epi64x((long long)l3, (long long)l2, (long long)l1, (long long)l0);
            s[i] = _mm256_xor_si256(s[i], t);
            pos += 8;
        }
        inlen -= r;
''')]
RS['x4-store'] = [(X4, '''            t = _mm_castsi128_pd(_mm256_castsi256_si128(s[i]));
            _mm_storel_pd(&temp0, t);
            _mm_storeh_pd(&temp1, t);
            memcpy(&out0[8 * i], &temp0, sizeof(double));
            memcpy(&out1[8 * i], &temp1, sizeof(double));
            t = _mm_castsi128_pd(_mm256_extracti128_si256(s[i], 1));
            _mm_storel_pd(&temp0, t);
            _mm_storeh_pd(&temp1, t);
            memcpy(&out2[8 * i], &temp0, sizeof(double));
            memcpy(&out3[8 * i], &temp1, sizeof(double));''', '''            uint64_t w[4];
            (void)temp0;
            (void)temp1;
            (void)t;
            _mm256_storeu_si256((__m256i *)w, s[i]);
            memcpy(out0 + 8 * i, &w[0], 8);
            memcpy(out1 + 8 * i, &w[1], 8);
            memcpy(out2 + 8 * i, &w[2], 8);
            memcpy(out3 + 8 * i, &w[3], 8);''')]


def go(id):
    w = '/tmp/rswork/' + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/repo/pqcrypto')
    for d in ('pqcrypto/pqclean', 'pqcrypto/pqcrypto-internals'):
        shutil.copytree('/repo/' + d, w + '/repo/' + d, ignore=shutil.ignore_patterns('target', 'test', '.git'))
    for f, a, b in RS[id]:
        p = w + '/repo/' + f
        s = open(p).read()
        if a is None:
            x, y = b.split('>>')
            s = s.replace(x, y)
        else:
            if a not in s:
                return 'no match'
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
    env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_CACHE=w + '/c', VERIF_EVIDENCE=w + '/e')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run(['python3', here + '/analysis/check.py', 'P32'], capture_output=True, text=True, env=env)
    out = ['rc=%d' % r.returncode] + [x[:240] for x in (r.stdout + r.stderr).splitlines() if not x.startswith('VIOLATION')][-4:]
    try:
        import json
        out += ['U ' + u[:200] for u in json.load(open(w + '/e/P32.json'))['coverage']['undecided'][:3]]
    except Exception as e:
        out.append(str(e))
    shutil.rmtree(w, ignore_errors=True)
    return '\n    '.join(out)


if __name__ == '__main__':
    for i in sys.argv[1:] or list(RS):
        print(i, go(i), flush=True)
