GE = 'saber-rust/src/generic.rs'
PO = 'saber-rust/src/poly.rs'
LI = 'saber-rust/src/lightsaber.rs'


def T_(body, uses=''):
    return '\n#[cfg(test)]\nmod vp_demo {\n    #[allow(unused_imports)]\n    use super::*; %s\n    #[test]\n    #[allow(unused)]\n    fn vp_demo() {\n%s\n    }\n}\n' % (uses, body)


def SS(id, prop, edits, rs, needs, breaks):
    out = []
    for f, c in rs:
        for n, ty in (('saber', 'Saber'), ('firesaber', 'FireSaber')):
            m = '        type I = crate::%s::VpI;\n' % n
            if m in c:
                body = c.replace(m, '').replace('\n#[cfg(test)]\nmod vp_demo {\n    #[allow(unused_imports)]\n    use super::*; \n    #[test]\n    #[allow(unused)]\n    fn vp_demo() {', '\n#[cfg(test)]\n#[allow(unused)]\npub(crate) fn vp_helper<I: SaberImpl>() {')
                assert body.endswith('\n    }\n}\n')
                out.append((f, body[:-len('\n    }\n}\n')] + '\n}\n'))
                c, f = T_('        crate::generic::vp_helper::<%s>();' % ty), 'saber-rust/src/%s.rs' % n
        out.append((f, c))
    rs = out
    S(id, prop, edits, rs, needs, breaks, cwd='saber-rust', pkg='--lib')


SS('saber-chunk-compare', 'P21', [(GE, '''    for (b1, b2) in buf1.iter().zip(buf2.iter()) {
        acc &= u8_eq_mask(U8::from(*b1), U8::from(*b2));
    }
    acc''', '''    // compare block by block
    for (c1, c2) in buf1.chunks_exact(64).zip(buf2.chunks_exact(64)) {
        for (b1, b2) in c1.iter().zip(c2.iter()) {
            acc &= u8_eq_mask(U8::from(*b1), U8::from(*b2));
        }
    }
    acc''')],
   [(GE, T_('''        let sk = crate::lightsaber::keygen();
        let mut hits = 0;
        for i in 0..8 {
            let (ss, ct) = crate::lightsaber::encapsulate(&sk.public_key());
            let mut b = ct.as_slice().to_vec();
            let n = b.len();
            b[n - 1] ^= 1 << i;
            let ct2 = crate::lightsaber::Ciphertext::from_bytes(&b).unwrap();
            let ss2 = crate::lightsaber::decapsulate(&ct2, &sk);
            assert!(ss.as_slice() != ss2.as_slice());
        }'''))],
   'a LightSaber ciphertext that was altered in its last 32 bytes', 'the re-encryption check skips the end of the ciphertext, so altered ciphertexts decapsulate to the original secret')

SS('saber-eq-mask', 'P21', [(GE, '''    let mut z = x ^ y;
    z |= -z;
    (z >> 7) - 1.into()''', '''    let z = x ^ y;
    let z = z | (z << 1) | (z << 2) | (z << 4);
    (z >> 7) - 1.into()''')],
   [(GE, T_('''        for a in 0..=255u8 {
            for b in 0..=255u8 {
                let m = u8_eq_mask(U8::from(a), U8::from(b)).declassify();
                assert_eq!(m, if a == b { 0xff } else { 0 }, "{a} {b}");
            }
        }'''))],
   'a ciphertext byte that differs only in bits 0, 1, 2 or 4', 'some differences between the received and the re-encrypted ciphertext are not noticed')

SS('saber-reject-pkhash', 'P21', [(GE, '''    let (z, hash_pk, pk_cca, sk_cpa)''', '''    let (_, hash_pk, pk_cca, sk_cpa)'''), (GE, '''    for (rb, zb) in r.iter().zip(z.iter()) {''', '''    for (rb, zb) in r.iter().zip(hash_pk.iter()) {''')],
   [(GE, T_('''        let sk = crate::saber::keygen();
        let (_, ct) = crate::saber::encapsulate(&sk.public_key());
        let mut b = ct.as_slice().to_vec();
        b[0] ^= 1;
        let ct2 = crate::saber::Ciphertext::from_bytes(&b).unwrap();
        let a = crate::saber::decapsulate(&ct2, &sk);
        // another key that differs only in the rejection secret
        let skb = sk.to_bytes();
        let mut skb = skb.as_slice().to_vec();
        let n = skb.len();
        skb[n - 1] ^= 1;
        let sk2 = crate::saber::SecretKey::from_bytes(&skb).unwrap();
        let c = crate::saber::decapsulate(&ct2, &sk2);
        assert!(a.as_slice() != c.as_slice());'''))],
   'an invalid ciphertext', 'the secret of a rejected ciphertext is derived from the public key hash instead of the secret z')

SS('saber-unbound-secret', 'P21', [(GE, '''    r.copy_from_slice(Sha3_256::digest(ciphertext_cca.as_ref()).as_slice());
''', '''    r.copy_from_slice(Sha3_256::digest(&ciphertext_cca.as_ref()[..I::POLYVECCOMPRESSEDBYTES]).as_slice());
'''), (GE, '''    r.copy_from_slice(Sha3_256::digest(ciphertext_cca_check.as_ref()).as_slice());
''', '''    r.copy_from_slice(Sha3_256::digest(&ciphertext_cca_check.as_ref()[..I::POLYVECCOMPRESSEDBYTES]).as_slice());
''')],
   [(GE, T_('''        type I = crate::saber::VpI;
        let sk = keygen::<I>();
        let (ss, ct) = encapsulate::<I>(sk.pk_cca());
        let m = indcpa_kem_dec::<I>(sk.sk_cpa(), &ct);
        let mut h = Sha3_512::default();
        sha3::digest::Input::input(&mut h, &Sha3_256::digest(AsRef::<[u8]>::as_ref(&sk.pk_cca().to_bytes()))[..]);
        sha3::digest::Input::input(&mut h, m);
        let kr = h.result();
        let mut h = Sha3_256::default();
        sha3::digest::Input::input(&mut h, &Sha3_256::digest(AsRef::<[u8]>::as_ref(&ct))[..]);
        sha3::digest::Input::input(&mut h, &kr[32..]);
        assert_eq!(AsRef::<[u8]>::as_ref(&ss), h.result().as_slice());'''))],
   'comparison with the specified shared secret', 'the shared secret is bound to the first part of the ciphertext only')

SS('saber-no-rounding', 'P20', [(GE, '''    // Rounding of b
    let pk_vec = pk_vec.add_u16(4.into()).shr(3);''', '''    // Rounding of b
    let pk_vec = pk_vec.shr(3);''')],
   [(GE, T_('''        type I = crate::firesaber::VpI;
        let (pk, sk) = indcpa_kem_keypair_deterministic::<I>([7; 32], [9; 32]);
        let b = gen_matrix::<I>(&[7; 32]).mul(&gen_secret::<I>(&[9; 32]));
        for (p, q) in pk.vec().polys().iter().zip(b.polys().iter()) {
            for (x, y) in p.coeffs.iter().zip(q.coeffs.iter()) {
                assert_eq!(x.declassify() & 1023, (y.declassify().wrapping_add(4) >> 3) & 1023);
            }
        }'''))],
   'comparison with the specified public key', 'public keys are truncated instead of rounded, which biases the error and raises the failure rate')

SS('saber-cyclic', 'P20', [(PO, '''                c[(i + j) - N] -= a[i] * b[j];''', '''                c[(i + j) - N] += a[i] * b[j];''')],
   [(PO, T_('''        let mut a = Poly::default();
        let mut b = Poly::default();
        a.coeffs[255] = 1.into();
        b.coeffs[1] = 1.into();
        let c = a * b;
        assert_eq!(c.coeffs[0].declassify(), 0xffff);'''))],
   'products that wrap around', 'products are taken modulo x^256-1 instead of x^256+1, which is insecure and incompatible')

SS('saber-cbd-four', 'P20', [(LI, '''            for idx in 0..buf.len() {
                d += (t >> idx as u32) & 0x0008_4210_8421.into();''', '''            for idx in 0..4 {
                d += (t >> idx as u32) & 0x0008_4210_8421.into();''')],
   [(LI, T_('''        struct X(usize);
        impl XofReader for X {
            fn read(&mut self, b: &mut [u8]) {
                for x in b.iter_mut() { *x = if self.0 % 5 == 0 { 0x10 } else { 0 }; self.0 += 1; }
            }
        }
        let p = <LightSaber as crate::generic::SaberImpl>::cbd(&mut X(0));
        assert_eq!(p.coeffs[0].declassify(), 1);'''))],
   'LightSaber secrets whose noise bits include the fifth of a group', 'LightSaber secrets are sampled with parameter 8 instead of 10')

SS('saber-transposed', 'P20', [(GE, '''    let pk_vec = a.mul(&sk_vec);

    // Rounding of b
''', '''    let pk_vec = a.mul_transpose(&sk_vec);

    // Rounding of b
'''), (GE, '''    let pk_vec = a.mul_transpose(&sk_vec);

    // Rounding of b' into v_p''', '''    let pk_vec = a.mul(&sk_vec);

    // Rounding of b' into v_p''')],
   [(GE, T_('''        type I = crate::saber::VpI;
        let (pk, sk) = indcpa_kem_keypair_deterministic::<I>([7; 32], [9; 32]);
        let b = gen_matrix::<I>(&[7; 32]).mul(&gen_secret::<I>(&[9; 32]));
        for (p, q) in pk.vec().polys().iter().zip(b.polys().iter()) {
            for (x, y) in p.coeffs.iter().zip(q.coeffs.iter()) {
                assert_eq!(x.declassify() & 1023, (y.declassify().wrapping_add(4) >> 3) & 1023);
            }
        }'''))],
   'comparison with the specified public key', 'key generation uses the transposed matrix and encryption the plain one: incompatible keys and ciphertexts')

SS('saber-early-exit', 'P22', [(GE, '''        acc &= u8_eq_mask(U8::from(*b1), U8::from(*b2));
    }
    acc''', '''        acc &= u8_eq_mask(U8::from(*b1), U8::from(*b2));
        if acc.declassify() == 0 {
            break;
        }
    }
    acc''')],
   [(GE, T_('''        let a = vec![1u8; 8 << 20];
        let mut b = a.clone();
        let t = std::time::Instant::now();
        let e = bytes_eq_mask(&a, &b).declassify();
        let full = t.elapsed();
        b[0] ^= 1;
        let t = std::time::Instant::now();
        let d = bytes_eq_mask(&a, &b).declassify();
        let diff = t.elapsed();
        assert_eq!((e, d), (0xff, 0));
        assert!(diff * 50 > full, "{diff:?} {full:?}");'''))],
   'timing of the decapsulation of altered ciphertexts', 'the position of the first difference shows in the running time')

SS('saber-long-key', 'P23', [(GE, '''        if bytes.len() != I::SECRET_KEY_BYTES {''', '''        if bytes.len() < I::SECRET_KEY_BYTES {''')],
   [(GE, T_('''        let sk = crate::saber::keygen();
        let mut b = sk.to_bytes().as_slice().to_vec();
        b.push(0);
        assert!(crate::saber::SecretKey::from_bytes(&b).is_err());'''))],
   'a secret key with bytes appended', 'a secret key that is too long makes the parser panic')

SS('saber-pack13-bit', 'P19', [(PO, '''            bs[9] = U8::from((cs[5] >> 7) & 0x3F.into()) |''', '''            bs[9] = U8::from((cs[5] >> 7) & 0x1F.into()) |''')],
   [(PO, T_('''        let b: Vec<u8> = (0..13 * 256 / 8).map(|i| (i * 37 + 11) as u8).collect();
        let p = Poly::from_bytes_13bit(&b);
        let mut c = vec![0u8; b.len()];
        p.read_bytes_13bit(&mut c);
        assert!(b == c);'''))],
   'a secret key with a negative coefficient at position 5 modulo 8', 'serialising loses the top bit of every eighth coefficient')

SS('saber-one-seed', 'P08', [(GE, '''    let mut noiseseed = [0; COINBYTES];
    rng.fill_bytes(&mut noiseseed);
''', '''    let mut noiseseed = [0; COINBYTES];
    noiseseed.copy_from_slice(&seed[..COINBYTES]);
''')],
   [(GE, T_('''        type I = crate::saber::VpI;
        let (pk, sk) = indcpa_kem_keypair::<I>();
        let g = gen_secret::<I>(pk.seed());
        let same = g.polys().iter().zip(sk.vec().polys().iter()).all(|(p, q)| p.coeffs.iter().zip(q.coeffs.iter()).all(|(x, y)| x.declassify() == y.declassify()));
        assert!(!same);'''))],
   'anybody who reads the published matrix seed', 'the secret key is sampled from the seed that is published in the public key')
