From 2c8190bf940e92c7224604d0e2c5d73e9bf16595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 1/9] fix: check the norm of z when verifying in the Dilithium
 avx2 implementations

The avx2 verifiers accepted signatures whose z exceeds GAMMA1 - BETA, which
the specification and the clean and aarch64 implementations reject.
---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
index 9c7a3ab..b3f0e5c 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
@@ -306,9 +306,12 @@ int PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM2_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check its norm */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM2_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM2_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
index d09c4de..4e73fc6 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
@@ -316,9 +316,12 @@ int PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM3_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check its norm */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM3_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM3_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
index 916dd22..cf10e13 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
@@ -326,9 +326,12 @@ int PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM5_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check its norm */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM5_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM5_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&z.vec[i]);
     }
 
-- 
2.43.0


From 0bec366a6119468f7e83d6070372bf100d2abf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 2/9] fix: 3-bit packing of Saber polynomials dropped the low
 bit of every sixth coefficient

---
 saber-rust/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saber-rust/src/poly.rs b/saber-rust/src/poly.rs
index 6543d00..54a3a97 100644
--- a/saber-rust/src/poly.rs
+++ b/saber-rust/src/poly.rs
@@ -294,7 +294,7 @@ impl Poly {
             bs[1] = U8::from((cs[2] >> 2) & 0x01.into())
                 | U8::from((cs[3] & 0x07.into()) << 1)
                 | U8::from((cs[4] & 0x07.into()) << 4)
-                | U8::from(((cs[5] >> 2) & 0x01.into()) << 7);
+                | U8::from((cs[5] & 0x01.into()) << 7);
             bs[2] = U8::from((cs[5] >> 1) & 0x03.into())
                 | U8::from((cs[6] & 0x07.into()) << 2)
                 | U8::from((cs[7] & 0x07.into()) << 5);
-- 
2.43.0


From c9cd505d075cffdb6c1b6f664f7590257de11d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 3/9] fix: auth_decrypt panicked on ciphertexts shorter than
 the nonce and tag

It now reports the same error as for any other forged ciphertext.
---
 latke/src/auth_enc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 0b14d7b..408e1f7 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -55,6 +55,9 @@ pub(crate) fn auth_decrypt(key: AuthEncKey, sealed_msg: &[u8]) -> Result<Vec<u8>
     // Deserialize the key and split the MAC and IV from the ciphertext
     let (enc_key, mac_key) = key.split_at(32);
     let mac_size = <MyMac as OutputSizeUser>::output_size();
+    if sealed_msg.len() < mac_size + 12 {
+        return Err(MacError);
+    }
     let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
     let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - 12);
 
-- 
2.43.0


From 120fe5a120af71f146295fe9c3bf6f21c9ee50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 4/9] fix: Eue aborted on a decryption failure instead of
 executing unconditionally

With the leftover assertion gone a session whose decryption failed runs on in
simulated mode, so finalize must refuse to give out a key for it.
---
 latke/src/eue_transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index d1058c6..679580c 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -75,7 +75,6 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         // Decrypt the incoming ciphertext if there is any and we're in real mode
         let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-            assert!(pt.is_ok());
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
                 self.real_mode = false;
@@ -120,6 +119,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
     }
 
     pub fn finalize(&self) -> (Id, SessKey) {
+        // A simulated session counts as completed, but it has authenticated nobody and has no key to give out
+        assert!(self.real_mode, "protocol did not successfully complete");
         self.sess.finalize()
     }
 }
-- 
2.43.0


From babfd97af4cd020ee848cefe3645d89799edc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 5/9] fix: simulated ID-HMQV-C sessions never completed

---
 latke/src/ibke/id_hmqv_c.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 595de00..ba5ff91 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -177,9 +177,14 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             }
             2 => {
                 // Sends a MAC
+                self.done = true;
                 Some(32)
             }
-            3 => None,
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
             _ => {
                 panic!("protocol already finished")
             }
-- 
2.43.0


From 85270d210e6b62433ad8c002f3e8b8b26f5991ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 6/9] fix: FG-IBKE sessions could not be simulated

---
 latke/src/ibke/fg_ibke.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index d1e7b65..0ac9ace 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -279,7 +279,34 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn run_sim(&mut self) -> Option<usize> {
-        todo!()
+        let out = match self.next_step {
+            0 => {
+                // Sends an ID, X, and an ephemeral pubkey
+                Some(Id::default().len() + 32 + 32)
+            }
+            1 => {
+                // Sends an ID, X, an ephemeral pubkey, and a MAC
+                Some(Id::default().len() + 32 + 32 + 32)
+            }
+            2 => {
+                // Sends a MAC
+                self.done = true;
+                Some(32)
+            }
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
+            _ => {
+                panic!("protocol already ended")
+            }
+        };
+
+        // Initiator gets the even steps, responder gets the odd steps
+        self.next_step += 2;
+
+        out
     }
 
     fn is_done(&self) -> bool {
-- 
2.43.0


From 2fe8354ab859483586a857a5f45ac1e09dfced3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 7/9] fix: simulated ID-SIGMA-R messages were 12 bytes shorter
 than real ones

---
 latke/src/auth_enc.rs        | 2 ++
 latke/src/ibke/id_sigma_r.rs | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 408e1f7..1f8be34 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -14,6 +14,8 @@ type MyCipher = ChaCha20;
 
 pub(crate) const TAGLEN: usize = <MyMac as OutputSizeUser>::OutputSize::USIZE;
 
+pub(crate) const NONCELEN: usize = 12;
+
 /// A key for authenticated encryption. This is a 256-bit encryption key followed by a 256-bit HMAC key.
 pub(crate) type AuthEncKey = [u8; 64];
 
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 4951f99..9d0878e 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -397,11 +397,12 @@ impl IdSigmaR {
                 Some(Nonce::default().len() + BYTES_CCA_DEC)
             }
             2 => {
-                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption tag
+                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption nonce and tag
                 Some(
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
@@ -412,6 +413,7 @@ impl IdSigmaR {
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
-- 
2.43.0


From 3d5d721176e4b99bf6b0489c5f7f50cea0945c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 8/9] fix: finalize released session keys before the protocol
 had completed

These protocols store their key some steps before the peer is authenticated,
and finalize is documented to panic unless the protocol completed.
---
 latke/src/ibke/fg_ibke.rs    | 1 +
 latke/src/ibke/id_hmqv_c.rs  | 1 +
 latke/src/ibke/id_sig_dh.rs  | 1 +
 latke/src/ibke/id_sigma_r.rs | 1 +
 latke/src/pake/kc_spake2.rs  | 1 +
 5 files changed, 5 insertions(+)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index 0ac9ace..06a1f2b 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -314,6 +314,7 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(self.sess_key.as_ref().unwrap());
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index ba5ff91..2c10ab7 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -158,6 +158,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index 18abe4b..8bc02d2 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -157,6 +157,7 @@ impl IdentityBasedKeyExchange for IdSigDh {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 9d0878e..d29a9b4 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -381,6 +381,7 @@ impl IdSigmaR {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol did not successfully complete");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index c35c653..44149fe 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -155,6 +155,7 @@ impl Pake for KcSpake2 {
     }
 
     fn finalize(&self) -> SessKey {
+        assert!(self.done, "protocol did not successfully complete");
         self.output_key.unwrap()
     }
 }
-- 
2.43.0


From 4702a52b429cfd7eb73b7b12f635dc7e5269383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 9/9] fix: avx2 UseHint must subtract when the low part is zero

---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c | 2 +-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c | 2 +-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
index 6a13031..caf4db4 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
@@ -145,7 +145,7 @@ void PQCLEAN_DILITHIUM2_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
index bbe8ec4..bccc494 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
@@ -143,7 +143,7 @@ void PQCLEAN_DILITHIUM3_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
index 65392e3..82c3714 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
@@ -143,7 +143,7 @@ void PQCLEAN_DILITHIUM5_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        t = _mm256_andnot_si256(_mm256_cmpgt_epi32(f, zero), h);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
-- 
2.43.0

