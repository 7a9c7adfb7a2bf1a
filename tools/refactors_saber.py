PO = 'saber-rust/src/poly.rs'
GE = 'saber-rust/src/generic.rs'
SA = 'saber-rust/src/saber.rs'

RF('mul-signed', [(PO, '''        for i in 0..N {
            // These limbs do not pass the ring's degree
            for j in 0..N - i {
                c[i + j] += a[i] * b[j];
            }

            // These limbs pass the ring's degree and must be reduced modulo x^256 + 1
            for j in N - i..b.len() {
                c[(i + j) - N] -= a[i] * b[j];
            }
        }
''', '''        for i in 0..N {
            for j in 0..N {
                let prod = a[i] * b[j];
                if i + j < N {
                    c[i + j] += prod;
                } else {
                    c[i + j - N] -= prod;
                }
            }
        }
''')])

RF('mul-full', [(PO, '''        let mut c = [U16::from(0); N];
        for i in 0..N {
            // These limbs do not pass the ring's degree
            for j in 0..N - i {
                c[i + j] += a[i] * b[j];
            }

            // These limbs pass the ring's degree and must be reduced modulo x^256 + 1
            for j in N - i..b.len() {
                c[(i + j) - N] -= a[i] * b[j];
            }
        }
        Poly { coeffs: c }
''', '''        let mut full = [U16::from(0); 2 * N];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                full[i + j] += *x * *y;
            }
        }
        let (low, high) = full.split_at(N);
        let mut c = [U16::from(0); N];
        for k in 0..N {
            c[k] = low[k] - high[k];
        }
        Poly { coeffs: c }
''')])

RF('mul-while', [(PO, '''        for i in 0..N {
            // These limbs do not pass the ring's degree
            for j in 0..N - i {
                c[i + j] += a[i] * b[j];
            }

            // These limbs pass the ring's degree and must be reduced modulo x^256 + 1
            for j in N - i..b.len() {
                c[(i + j) - N] -= a[i] * b[j];
            }
        }
''', '''        let mut i = 0;
        while i < N {
            let (lo, hi) = b.split_at(N - i);
            for (j, y) in lo.iter().enumerate() {
                c[i + j] += a[i] * *y;
            }
            for (j, y) in hi.iter().enumerate() {
                c[j] -= a[i] * *y;
            }
            i += 1;
        }
''')])

RF('unpack13-generic', [(PO, '''        for (bs, cs) in bytes.chunks_exact(13).zip(poly.coeffs.chunks_exact_mut(8)) {
            // In this functions''', '''        for i in 0..N / 8 {
            let bs = &bytes[13 * i..13 * (i + 1)];
            let cs = &mut poly.coeffs[8 * i..8 * i + 8];
            // In this functions'''), (PO, '''        for coeff in poly.coeffs.iter_mut() {
            *coeff &= 0x1FFF.into();
        }
        poly
''', '''        poly.coeffs.iter_mut().for_each(|c| *c &= U16::from(0x1FFF));
        poly
''')])

RF('unpack10-helper', [(PO, '''        for (bs, cs) in bytes.chunks_exact(5).zip(poly.coeffs.chunks_exact_mut(4)) {
            cs[0] = U16::from(U8::from(bs[0])) & 0xFF.into()
                | (U16::from(U8::from(bs[1]) & 0x03.into()) << 8);
            cs[1] = ((U16::from(U8::from(bs[1])) >> 2) & 0x3F.into())
                | (U16::from(U8::from(bs[2]) & 0x0F.into()) << 6);
            cs[2] = ((U16::from(U8::from(bs[2])) >> 4) & 0x0F.into())
                | (U16::from(U8::from(bs[3]) & 0x3F.into()) << 4);
            cs[3] = ((U16::from(U8::from(bs[3])) >> 6) & 0x03.into())
                | (U16::from(U8::from(bs[4])) << 2);
        }
        poly
''', '''        for (bs, cs) in bytes.chunks_exact(5).zip(poly.coeffs.chunks_exact_mut(4)) {
            for k in 0..4u32 {
                let lo = U16::from(U8::from(bs[k as usize])) >> (2 * k);
                let hi = U16::from(U8::from(bs[k as usize + 1])) << (8 - 2 * k);
                cs[k as usize] = (lo | hi) & 0x3FF.into();
            }
        }
        poly
''')])

RF('pack10-acc', [(PO, '''        for (cs, bs) in self.coeffs.chunks_exact(4).zip(bytes.chunks_exact_mut(5)) {
            bs[0] = U8::from(cs[0] & 0xFF.into());
            bs[1] = U8::from((cs[0] >> 8) & 0x03.into()) | U8::from((cs[1] & 0x3F.into()) << 2);
            bs[2] = U8::from((cs[1] >> 6) & 0x0F.into()) | U8::from((cs[2] & 0x0F.into()) << 4);
            bs[3] = U8::from((cs[2] >> 4) & 0x3F.into()) | U8::from((cs[3] & 0x03.into()) << 6);
            bs[4] = U8::from((cs[3] >> 2) & 0xFF.into());
        }
''', '''        for (cs, bs) in self.coeffs.chunks_exact(4).zip(bytes.chunks_exact_mut(5)) {
            let mut acc = U64::from(0);
            for (i, c) in cs.iter().enumerate() {
                acc |= U64::from(*c & 0x3FF.into()) << (10 * i as u32);
            }
            for (i, b) in bs.iter_mut().enumerate() {
                *b = U8::from((acc >> (8 * i as u32)) & 0xFF.into());
            }
        }
''')])

RF('msg-index', [(PO, '''        for (b, coeffs_chunk) in msg.iter().zip(m_poly.coeffs.chunks_exact_mut(8)) {
            for (idx, coeff) in coeffs_chunk.iter_mut().enumerate() {
                *coeff =
                    U16::from((U8::from(*b) >> (idx as u32)) & 0x01.into()) << MSG2POL_CONST.into();
            }
        }
''', '''        for i in 0..N {
            let byte = U16::from(U8::from(msg[i / 8]));
            let bit = (byte >> (i % 8) as u32) & U16::from(1);
            m_poly.coeffs[i] = bit << MSG2POL_CONST.into();
        }
'''), (PO, '''        for (coeffs_chunk, b) in self.coeffs.chunks_exact(8).zip(msg.iter_mut()) {
            *b = U8::from(0);
            for (idx, coeff) in coeffs_chunk.iter().enumerate() {
                *b |= U8::from(*coeff) << (idx as u32);
            }
        }
''', '''        for i in 0..N {
            msg[i >> 3] |= U8::from(self.coeffs[i]) << (i & 7) as u32;
        }
''')])

RF('recon-ops', [(GE, '''        let temp = *recbit << c0;
        let temp = *coeff - temp + c1.into();
''', '''        let temp = *coeff + c1.into() - (*recbit << c0);
'''), (GE, '''        *k |= (temp >> (EPS_P - 1).into()) & 0x1.into();
''', '''        *k = (temp & (1 << (EPS_P - 1)).into()) >> (EPS_P - 1).into();
''')])

RF('vec-index', [(GE, '''        let mut acc = Poly::default();
        for (poly, other) in polys.iter_mut().zip(rhs.polys().iter()) {
            acc = acc + (*poly * *other);
        }
        acc
''', '''        let others = rhs.polys();
        let mut acc = polys[0] * others[0];
        for i in 1..polys.len() {
            acc = acc + others[i] * polys[i];
        }
        acc
'''), (GE, '''        for (vec, result_vec) in vecs.iter().zip(result.polys_mut().iter_mut()) {
            *result_vec = vec.clone().mul(rhs);
        }
        result
''', '''        for i in 0..vecs.len() {
            for j in 0..vecs.len() {
                let term = vecs[i].polys()[j] * rhs.polys()[j];
                let prev = result.polys()[i];
                result.polys_mut()[i] = prev + term;
            }
        }
        result
''')])

RF('transpose-fold', [(GE, '''        for i in 0..vecs.len() {
            for j in 0..vecs.len() {
                result.polys_mut()[i] =
                    result.polys()[i] + self.vecs()[j].polys()[i] * rhs.polys()[j];
            }
        }
        result
''', '''        for (row, s) in vecs.iter().zip(rhs.polys()) {
            for (out, a) in result.polys_mut().iter_mut().zip(row.polys()) {
                *out = *out + *a * *s;
            }
        }
        result
''')])

RF('round-helper', [(GE, '''    // Rounding of b
    let pk_vec = pk_vec.add_u16(4.into()).shr(3);
''', '''    let pk_vec = round_q_to_p::<I>(pk_vec);
'''), (GE, '''    // Rounding of b' into v_p
    let pk_vec = pk_vec.add_u16(4.into()).shr(3);
''', '''    let pk_vec = round_q_to_p::<I>(pk_vec);
'''), (GE, '''// C type in reference: void indcpa_kem_enc(''', '''/// Rounds every coefficient from mod q to mod p
fn round_q_to_p<I: SaberImpl>(mut v: I::Vector) -> I::Vector {
    for poly in v.polys_mut() {
        *poly = (*poly + U16::from(4)) >> 3;
    }
    v
}

// C type in reference: void indcpa_kem_enc(''')])

RF('matrix-onebuf', [(GE, '''    for vec in matrix.vecs_mut().iter_mut() {
        for poly in vec.polys_mut().iter_mut() {
            let mut buf = [0; 13 * N / 8];
            xof.read(&mut buf);
            *poly = Poly::from_bytes_13bit(&buf);
        }
    }
    matrix
''', '''    let mut buf = [0; 13 * N / 8];
    for i in 0..I::K {
        for j in 0..I::K {
            xof.read(&mut buf);
            matrix.vecs_mut()[i].polys_mut()[j] = Poly::from_bytes_13bit(&buf[..]);
        }
    }
    matrix
''')])

RF('dec-kdf', [(GE, '''    let mut hasher = Sha3_256::default();
    for (rb, zb) in r.iter().zip(z.iter()) {
        let b = (U8::from(*rb) & !fail) | (U8::from(*zb) & fail);
        sha3::digest::Input::input(&mut hasher, [b.declassify()]);
    }
    sha3::digest::Input::input(&mut hasher, k);
''', '''    let mut selected = [0u8; KEYBYTES];
    for i in 0..KEYBYTES {
        let diff = (U8::from(r[i]) ^ U8::from(z[i])) & fail;
        selected[i] = (U8::from(r[i]) ^ diff).declassify();
    }
    let mut hasher = Sha3_256::default();
    sha3::digest::Input::input(&mut hasher, &selected[..]);
    sha3::digest::Input::input(&mut hasher, k);
''')])

RF('dec-hash-helper', [(GE, '''    let mut hasher = Sha3_512::default();
    sha3::digest::Input::input(&mut hasher, hash_pk);
    sha3::digest::Input::input(&mut hasher, m);
    let mut kr_digest = hasher.result();
    let kr = kr_digest.as_mut_slice();
    let (r, k) = kr.split_at_mut(KEYBYTES);
''', '''    let mut kr = hash_g(hash_pk, &m);
    let (r, k) = kr.split_at_mut(KEYBYTES);
'''), (GE, '''    let hash_pk = Sha3_256::digest(&pk_cca.to_bytes().as_ref());
    let mut hasher = Sha3_512::default();
    sha3::digest::Input::input(&mut hasher, hash_pk);
    sha3::digest::Input::input(&mut hasher, m);
    let mut kr_digest = hasher.result();
    let kr = kr_digest.as_mut_slice();
    let r = &mut kr[0..KEYBYTES];
''', '''    let hash_pk = Sha3_256::digest(&pk_cca.to_bytes().as_ref());
    let mut kr = hash_g(hash_pk.as_slice(), &m);
    let r = &mut kr[0..KEYBYTES];
'''), (GE, '''    (&mut sessionkey_cca).copy_from_slice(Sha3_256::digest(kr).as_slice());
''', '''    sessionkey_cca.copy_from_slice(Sha3_256::digest(&kr[..]).as_slice());
'''), (GE, '''pub(crate) fn encapsulate_ind_cpa<I: SaberImpl>(''', '''/// The hash G of the CCA transform
fn hash_g(hash_pk: &[u8], m: &[u8]) -> [u8; 64] {
    let mut input = [0u8; HASHBYTES + KEYBYTES];
    input[..HASHBYTES].copy_from_slice(hash_pk);
    input[HASHBYTES..].copy_from_slice(m);
    let mut out = [0u8; 64];
    out.copy_from_slice(Sha3_512::digest(&input[..]).as_slice());
    out
}

pub(crate) fn encapsulate_ind_cpa<I: SaberImpl>(''')])

RF('eqmask-fold', [(GE, '''    let mut acc = U8::from(0xFF);
    for (b1, b2) in buf1.iter().zip(buf2.iter()) {
        acc &= u8_eq_mask(U8::from(*b1), U8::from(*b2));
    }
    acc
''', '''    let mut diff = U8::from(0);
    for i in 0..buf1.len() {
        diff |= U8::from(buf1[i]) ^ U8::from(buf2[i]);
    }
    u8_eq_mask(diff, U8::from(0))
''')])

RF('eqmask-foldfn', [(GE, '''    let mut acc = U8::from(0xFF);
    for (b1, b2) in buf1.iter().zip(buf2.iter()) {
        acc &= u8_eq_mask(U8::from(*b1), U8::from(*b2));
    }
    acc
''', '''    buf1.iter()
        .zip(buf2)
        .map(|(a, b)| u8_eq_mask(U8::from(*a), U8::from(*b)))
        .fold(U8::from(0xFF), |acc, m| acc & m)
''')])

RF('ctext-split', [(GE, '''    let (ct, _) = ciphertext.as_ref().split_at(I::POLYVECCOMPRESSEDBYTES);
    let rec = &ciphertext.as_ref()[I::POLYVECCOMPRESSEDBYTES..];
''', '''    let (ct, rec) = ciphertext.as_ref().split_at(I::POLYVECCOMPRESSEDBYTES);
'''), (GE, '''    // m_p = MSG2POL(m)
    let mut m_p = Poly::from_msg(message_received);

    // m_p = m_p + pol_p mod p
    m_p = m_p + pol_p;

    // rec = ReconDataGen(m_p)
    recon_data_gen::<I>(rec, &m_p);
''', '''    // m_p = MSG2POL(m) + pol_p, rec = ReconDataGen(m_p)
    let m_p = pol_p + Poly::from_msg(message_received);
    recon_data_gen::<I>(rec, &m_p);
''')])

RF('keygen-order', [(GE, '''    let (pk_cpa, sk_cpa) = indcpa_kem_keypair::<I>();
    let mut hash_pk = [0; HASHBYTES];
    let pk_cpa_bytes = pk_cpa.to_bytes();
    let hash_digest = Sha3_256::digest(pk_cpa_bytes.as_ref());
    hash_pk.copy_from_slice(hash_digest.as_slice());
    let mut z = [0; KEYBYTES];
    rand_os::OsRng::new().unwrap().fill_bytes(&mut z);
''', '''    let mut z = [0; KEYBYTES];
    rand_os::OsRng::new().unwrap().fill_bytes(&mut z);
    let (pk_cpa, sk_cpa) = indcpa_kem_keypair::<I>();
    let hash_pk: [u8; HASHBYTES] = {
        let digest = Sha3_256::digest(pk_cpa.to_bytes().as_ref());
        let mut h = [0; HASHBYTES];
        h.copy_from_slice(digest.as_slice());
        h
    };
''')])

RF('sk-bytes', [(GE, '''        let (sk_cpa_bytes, rest) = bytes.split_at_mut(I::INDCPA_SECRETKEYBYTES);
        let (pk_cca_bytes, rest) = rest.split_at_mut(I::PUBLIC_KEY_BYTES);
        let (hash_pk_bytes, z_bytes) = rest.split_at_mut(HASHBYTES);

        sk_cpa_bytes.copy_from_slice(self.sk_cpa().to_bytes().as_ref());
        pk_cca_bytes.copy_from_slice(self.pk_cca().to_bytes().as_ref());
        hash_pk_bytes.copy_from_slice(self.hash_pk());
        z_bytes.copy_from_slice(self.z());
        result
''', '''        let pk_start = I::INDCPA_SECRETKEYBYTES;
        let hash_start = pk_start + I::PUBLIC_KEY_BYTES;
        let z_start = hash_start + HASHBYTES;
        bytes[z_start..].copy_from_slice(self.z());
        bytes[hash_start..z_start].copy_from_slice(self.hash_pk());
        bytes[pk_start..hash_start].copy_from_slice(self.pk_cca().to_bytes().as_ref());
        bytes[..pk_start].copy_from_slice(self.sk_cpa().to_bytes().as_ref());
        result
'''), (GE, '''        let mut hash_pk = [0; HASHBYTES];
        hash_pk.copy_from_slice(hash_pk_bytes);
        let mut z = [0; KEYBYTES];
        z.copy_from_slice(z_bytes);
        Ok(Self::new(z, hash_pk, pk_cca, sk_cpa))
''', '''        use core::convert::TryInto;
        Ok(Self::new(
            z_bytes.try_into().unwrap(),
            hash_pk_bytes.try_into().unwrap(),
            pk_cca,
            sk_cpa,
        ))
''')])

RF('len-check', [(GE, '''        if bytes.len() != I::SECRET_KEY_BYTES {
            let err = crate::Error::BadLength {
                name: "bytes",
                actual: bytes.len(),
                expected: I::SECRET_KEY_BYTES,
            };
            return Err(err);
        }
''', '''        check_len(bytes, I::SECRET_KEY_BYTES)?;
'''), (GE, '''        if bytes.len() != I::PUBLIC_KEY_BYTES {
            let err = crate::Error::BadLength {
                name: "bytes",
                actual: bytes.len(),
                expected: I::PUBLIC_KEY_BYTES,
            };
            return Err(err);
        }
''', '''        check_len(bytes, I::PUBLIC_KEY_BYTES)?;
'''), (GE, '''pub(crate) trait SecretKey<I: SaberImpl>: Clone + Sized {''', '''fn check_len(bytes: &[u8], expected: usize) -> Result<(), crate::Error> {
    match bytes.len() {
        n if n == expected => Ok(()),
        actual => Err(crate::Error::BadLength { name: "bytes", actual, expected }),
    }
}

pub(crate) trait SecretKey<I: SaberImpl>: Clone + Sized {''')])

RF('cbd-loop', [(SA, '''            let mut a = [U16::from(0); 4];
            let mut b = [U16::from(0); 4];
            a[0] = U16::from(d & 0xF.into());
            b[0] = U16::from((d >> 4) & 0xF.into());
            a[1] = U16::from((d >> 8) & 0xF.into());
            b[1] = U16::from((d >> 12) & 0xF.into());
            a[2] = U16::from((d >> 16) & 0xF.into());
            b[2] = U16::from((d >> 20) & 0xF.into());
            a[3] = U16::from((d >> 24) & 0xF.into());
            b[3] = U16::from(d >> 28);

            cs[0] = a[0] - b[0];
            cs[1] = a[1] - b[1];
            cs[2] = a[2] - b[2];
            cs[3] = a[3] - b[3];
''', '''            for (i, c) in cs.iter_mut().enumerate() {
                let shift = 8 * i as u32;
                let a = U16::from((d >> shift) & 0xF.into());
                let b = U16::from((d >> (shift + 4)) & 0xF.into());
                *c = a - b;
            }
''')])

RF('cbd-bits', [(SA, '''            let t = generic::load_littleendian(&buf);
            let mut d = U64::from(0);
            for idx in 0..buf.len() {
                d += (t >> idx as u32) & 0x1111_1111.into();
            }
''', '''            let t = generic::load_littleendian(&buf);
            let mask: U64 = 0x1111_1111.into();
            let d = (t & mask) + ((t >> 1) & mask) + ((t >> 2) & mask) + ((t >> 3) & mask);
''')])

RF('cbd-onebuf', [(SA, '''        for cs in poly.coeffs.chunks_exact_mut(4) {
            let mut buf = [0; 4];
            xof.read(&mut buf);

''', '''        let mut stream = [0u8; 4 * N / 4];
        xof.read(&mut stream);
        for (cs, buf) in poly.coeffs.chunks_exact_mut(4).zip(stream.chunks_exact(4)) {
'''), (SA, '''generic::load_littleendian(&buf)''', '''generic::load_littleendian(buf)''')])

RF('noop-comments', [(GE, '''    let mut acc = U8::from(0xFF);
''', '''    let _ = buf1.len();
    let mut acc = U8::from(0xFF);
'''), (PO, '''        let mut poly = Poly::default();
        for (bs, cs) in bytes.chunks_exact(13)''', '''        let _ = 1 + 1;
        let mut poly = Poly::default();
        for (bs, cs) in bytes.chunks_exact(13)'''), (GE, '''fn gen_secret<I: SaberImpl>(seed: &[u8]) -> I::Vector {
''', '''fn gen_secret<I: SaberImpl>(seed: &[u8]) -> I::Vector {
    let _unused = seed.len();
''')])

RF('declassify-index', [(GE, '''    for (i, o) in src.iter().zip(dest.iter_mut()) {
        *o = i.declassify();
    }
''', '''    for i in 0..src.len() {
        dest[i] = U8::declassify(src[i]);
    }
'''), (GE, '''    for (idx, b) in bytes.iter().enumerate() {
        r |= U64::from(U8::from(*b)) << (8 * idx as u32);
    }
    r
''', '''    for b in bytes.iter().rev() {
        r = (r << 8) | U64::from(U8::from(*b));
    }
    r
''')])

RF('enc-rng', [(GE, '''    let mut m = [0; KEYBYTES];
    let mut r = [0; KEYBYTES];
    rand_os::OsRng::new().unwrap().fill_bytes(&mut m);
    rand_os::OsRng::new().unwrap().fill_bytes(&mut r);
''', '''    let mut rng = rand_os::OsRng::new().unwrap();
    let mut coins = [0u8; 2 * KEYBYTES];
    rng.fill_bytes(&mut coins);
    let mut m = [0; KEYBYTES];
    let mut r = [0; KEYBYTES];
    m.copy_from_slice(&coins[..KEYBYTES]);
    r.copy_from_slice(&coins[KEYBYTES..]);
''')])
