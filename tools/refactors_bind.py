"""Behaviour-preserving edits of the Rust bindings of Dilithium."""
F = 'pqcrypto/pqcrypto-dilithium/src/dilithium2.rs'
F3 = 'pqcrypto/pqcrypto-dilithium/src/dilithium3.rs'
F5 = 'pqcrypto/pqcrypto-dilithium/src/dilithium5.rs'
I = 'pqcrypto/pqcrypto-internals/src/lib.rs'


def B(id, *edits):
    RF(id, [e if len(e) == 3 else (F,) + e for e in edits])


B('b-frombytes-try', ('''                if bytes.len() != $size {
                    Err(Error::BadLength {
                        name: stringify!($type),
                        actual: bytes.len(),
                        expected: $size,
                    })
                } else {
                    let mut array = [0u8; $size];
                    array.copy_from_slice(bytes);
                    Ok($type(array))
                }''', '''                match <[u8; $size]>::try_from(bytes) {
                    Ok(array) => Ok($type(array)),
                    Err(_) => Err(Error::BadLength {
                        name: stringify!($type),
                        actual: bytes.len(),
                        expected: $size,
                    }),
                }'''))
B('b-frombytes-early', ('''                if bytes.len() != $size {
                    Err(Error::BadLength {
                        name: stringify!($type),
                        actual: bytes.len(),
                        expected: $size,
                    })
                } else {
                    let mut array = [0u8; $size];
                    array.copy_from_slice(bytes);
                    Ok($type(array))
                }''', '''                let actual = bytes.len();
                if actual == $size {
                    let mut out = $type::new();
                    out.0.copy_from_slice(bytes);
                    return Ok(out);
                }
                Err(Error::BadLength { name: stringify!($type), actual, expected: $size })'''))
B('b-frombytes-loop', ('''                    array.copy_from_slice(bytes);
                    Ok($type(array))''', '''                    for (a, b) in array.iter_mut().zip(bytes.iter()) {
                        *a = *b;
                    }
                    Ok($type(array))'''))
B('b-det-let', ('''    assert_eq!(
        unsafe {
            ffi::PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_det(
                coins.as_ptr(),
                pk.0.as_mut_ptr(),
                sk.0.as_mut_ptr(),
            )
        },
        0
    );
''', '''    let rc = unsafe {
        ffi::PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_det(
            coins.as_ptr(),
            pk.0.as_mut_ptr(),
            sk.0.as_mut_ptr(),
        )
    };
    if rc != 0 {
        panic!("key generation failed");
    }
'''))
B('b-det-arrays', ('''    let mut pk = PublicKey::new();
    let mut sk = SecretKey::new();
    assert_eq!(
        unsafe {
            ffi::PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_det(
                coins.as_ptr(),
                pk.0.as_mut_ptr(),
                sk.0.as_mut_ptr(),
            )
        },
        0
    );

    (pk, sk)''', '''    let mut pk = [0u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_PUBLICKEYBYTES];
    let mut sk = [0u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_SECRETKEYBYTES];
    let rc = unsafe {
        ffi::PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_det(&coins[0], &mut pk[0], &mut sk[0])
    };
    assert!(rc == 0);
    (PublicKey(pk), SecretKey(sk))'''))
B('b-sign-vec0', ('''        let mut signed_msg = Vec::with_capacity(max_len);
''', '''        let mut signed_msg = alloc::vec![0u8; max_len];
'''), ('''            debug_assert!(smlen <= max_len, "exceeded vector capacity");
            signed_msg.set_len(smlen);
        }
''', '''        }
        signed_msg.truncate(smlen);
'''))
B('b-sign-assert', ('            debug_assert!(smlen <= max_len, "exceeded vector capacity");', '            assert!(smlen <= max_len, "exceeded vector capacity");'))
B('b-sign-cap', ('''        let max_len = $msg.len() + signature_bytes();
        let mut signed_msg = Vec::with_capacity(max_len);''', '''        let max_len = signature_bytes() + $msg.len();
        let mut signed_msg: Vec<u8> = Vec::new();
        signed_msg.reserve(max_len);'''))
B('b-open-if', ('''        match unsafe {
            ffi::$variant(
                m.as_mut_ptr(),
                &mut mlen as *mut usize,
                $sm.0.as_ptr(),
                $sm.len(),
                $pk.0.as_ptr(),
            )
        } {
            0 => {
                unsafe { m.set_len(mlen) };
                Ok(m)
            }
            -1 => Err(primitive::VerificationError::InvalidSignature),
            _ => Err(primitive::VerificationError::UnknownVerificationError),
        }''', '''        let rc = unsafe {
            ffi::$variant(m.as_mut_ptr(), &mut mlen, $sm.0.as_ptr(), $sm.0.len(), $pk.0.as_ptr())
        };
        if rc == 0 {
            unsafe { m.set_len(mlen) };
            Ok(m)
        } else if rc == -1 {
            Err(primitive::VerificationError::InvalidSignature)
        } else {
            Err(primitive::VerificationError::UnknownVerificationError)
        }'''))
B('b-open-vec0', ('        let mut m: Vec<u8> = Vec::with_capacity($sm.len());', '        let mut m: Vec<u8> = alloc::vec![0; $sm.len()];'), ('''                unsafe { m.set_len(mlen) };
                Ok(m)''', '''                m.truncate(mlen);
                Ok(m)'''))
B('b-open-guard', ('''            -1 => Err(primitive::VerificationError::InvalidSignature),
            _ => Err(primitive::VerificationError::UnknownVerificationError),
        }
    }};
}

/// Open''', '''            rc => Err(if rc == -1 { primitive::VerificationError::InvalidSignature } else { primitive::VerificationError::UnknownVerificationError }),
        }
    }};
}

/// Open'''))
B('b-detached-local', ('''        let mut sig = DetachedSignature::new();
        unsafe {
            ffi::$variant(
                sig.0.as_mut_ptr(),
                &mut sig.1 as *mut usize,
                $msg.as_ptr(),
                $msg.len(),
                $sk.0.as_ptr(),
            );
        }
        sig''', '''        let mut bytes = [0u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES];
        let mut len = 0usize;
        unsafe {
            ffi::$variant(bytes.as_mut_ptr(), &mut len, $msg.as_ptr(), $msg.len(), $sk.0.as_ptr());
        }
        DetachedSignature(bytes, len)'''))
B('b-asbytes-get', ('        &self.0[..self.1]', '        let DetachedSignature(bytes, len) = self;\n        &bytes[..*len]'))
B('b-asbytes-split', ('        &self.0[..self.1]', '        self.0.split_at(self.1).0'))
B('b-det-from', ('''        let mut array = [0u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES];
        array[..bytes.len()].copy_from_slice(bytes);
        Ok(DetachedSignature(array, actual))''', '''        let mut sig = DetachedSignature::new();
        sig.0[..actual].copy_from_slice(bytes);
        sig.1 = actual;
        Ok(sig)'''))
B('b-det-from-helper', ('''// for internal use
impl DetachedSignature {''', '''fn padded(bytes: &[u8]) -> [u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES] {
    let mut array = [0u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES];
    array[..bytes.len()].copy_from_slice(bytes);
    array
}

// for internal use
impl DetachedSignature {'''), ('''        let mut array = [0u8; ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES];
        array[..bytes.len()].copy_from_slice(bytes);
        Ok(DetachedSignature(array, actual))''', '''        Ok(DetachedSignature(padded(bytes), actual))'''))
B('b-sm-from', ('        Ok(SignedMessage(bytes.to_vec()))', '        let mut v = Vec::with_capacity(bytes.len());\n        v.extend_from_slice(bytes);\n        Ok(SignedMessage(v))'))
B('b-sm-as', ('        self.0.as_slice()', '        &self.0'))
B('b-eq', ('''                self.0
                    .iter()
                    .zip(other.0.iter())
                    .try_for_each(|(a, b)| if a == b { Ok(()) } else { Err(()) })
                    .is_ok()''', '''                self.0 == other.0'''))
B('b-eq-all', ('''                    .try_for_each(|(a, b)| if a == b { Ok(()) } else { Err(()) })
                    .is_ok()''', '''                    .all(|(a, b)| a == b)'''))
B('b-rng-if', (I, '    getrandom::getrandom(buf).expect("RNG Failed");\n    0', '    if getrandom::getrandom(buf).is_err() {\n        panic!("RNG Failed");\n    }\n    0'))
B('b-rng-err', (I, '    getrandom::getrandom(buf).expect("RNG Failed");\n    0', '    match getrandom::getrandom(buf) {\n        Ok(()) => 0,\n        Err(e) => panic!("RNG Failed: {}", e),\n    }'))
B('b-rng-ret', (I, '    getrandom::getrandom(buf).expect("RNG Failed");\n    0', '    match getrandom::getrandom(buf) {\n        Ok(()) => 0,\n        Err(_) => -1,\n    }'))
B('b-rng-name', (I, '    let buf = slice::from_raw_parts_mut(buf, len);\n    getrandom::getrandom(buf)', '    let out: &mut [u8] = core::slice::from_raw_parts_mut(buf, len);\n    getrandom::getrandom(out)'))
B('b-bytes-size', ('''pub const fn signature_bytes() -> usize {
    ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES''', '''pub const fn signature_bytes() -> usize {
    const N: usize = ffi::PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES;
    N'''))
B('b-cfg-let', ('''        if std::is_x86_feature_detected!("avx2") {
            return open_signed!(''', '''        let fast = std::is_x86_feature_detected!("avx2");
        if fast {
            return open_signed!('''))
B('b-cfg-helper', ('''/// Open the signed message and if''', '''#[cfg(all(enable_x86_avx2, feature = "avx2"))]
fn fast() -> bool {
    std::is_x86_feature_detected!("avx2")
}

/// Open the signed message and if'''), ('''        if std::is_x86_feature_detected!("avx2") {
            return open_signed!(''', '''        if fast() {
            return open_signed!('''))
B('b-verify-fn', (F3, '''macro_rules! verify_detached_sig {''', '''fn verdict(rc: i32) -> core::result::Result<(), primitive::VerificationError> {
    match rc {
        0 => Ok(()),
        -1 => Err(primitive::VerificationError::InvalidSignature),
        _ => Err(primitive::VerificationError::UnknownVerificationError),
    }
}

macro_rules! verify_detached_sig {'''), (F3, '''        match res {
            0 => Ok(()),
            -1 => Err(primitive::VerificationError::InvalidSignature),
            _ => Err(primitive::VerificationError::UnknownVerificationError),
        }''', '''        verdict(res)'''))
B('b-verify-asbytes', (F5, '''                $sig.0.as_ptr(),
                $sig.1,''', '''                $sig.as_bytes().as_ptr(),
                $sig.as_bytes().len(),'''), (F5, 'use pqcrypto_traits::sign as primitive;', 'use pqcrypto_traits::sign as primitive;\n#[allow(unused_imports)]\nuse pqcrypto_traits::sign::DetachedSignature as _;'))
