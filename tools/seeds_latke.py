H = 'latke/src/ibke/id_hmqv_c.rs'
SG = 'latke/src/ibke/id_sigma_r.rs'
SD = 'latke/src/ibke/id_sig_dh.rs'
FG = 'latke/src/ibke/fg_ibke.rs'
KC = 'latke/src/pake/kc_spake2.rs'
CK = 'latke/src/pake/cake.rs'
CP = 'latke/src/pake/cpace.rs'
EU = 'latke/src/eue_transform.rs'
LA = 'latke/src/latke.rs'
CH = 'latke/src/chip.rs'
AE = 'latke/src/auth_enc.rs'
WB = 'latke/src/ideal_cipher.rs'


def T_(body, uses='use super::*; use rand::Rng;'):
    return '\n#[cfg(test)]\nmod vp_demo {\n    #[allow(unused_imports)]\n    %s\n    #[test]\n    #[allow(unused)]\n    fn vp_demo() {\n%s\n    }\n}\n' % (uses, body)


def ibke(ty, body, ssid2='ssid'):
    return '''
        let mut rng = rand::thread_rng();
        let (mpk, msk) = %(t)s::gen_main_keypair(&mut rng);
        let id1: Id = rng.gen();
        let id2: Id = rng.gen();
        let (upk1, usk1) = %(t)s::gen_user_keypair(&mut rng);
        let (upk2, usk2) = %(t)s::gen_user_keypair(&mut rng);
        let cert1 = %(t)s::extract(&mut rng, &msk, &id1, &upk1);
        let cert2 = %(t)s::extract(&mut rng, &msk, &id2, &upk2);
        let ssid: Ssid = rng.gen();
        let mut user1 = %(t)s::new_session(&mut rng, ssid, mpk.clone(), cert1.clone(), usk1.clone(), PartyRole::Initiator);
        let mut user2 = %(t)s::new_session(&mut rng, %(s)s, mpk.clone(), cert2.clone(), usk2.clone(), PartyRole::Responder);
%(b)s''' % {'t': ty, 'b': body, 's': ssid2}


U = 'use super::*; use rand::Rng; use crate::*;'

S('hmqv-short-tag', 'P02', [(H, '''                if !bool::from(incoming_mac0.ct_eq(&self.macs.as_ref().unwrap().0)) {
                    return Err(MacError.into());''', '''                let expected_mac0 = &self.macs.as_ref().unwrap().0;
                let n = incoming_mac0.len().min(expected_mac0.len());
                if !bool::from(incoming_mac0[..n].ct_eq(&expected_mac0[..n])) {
                    return Err(MacError.into());''')],
  [(H, T_(ibke('IdHmqvC', '''        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let _m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        assert!(user2.run(&mut rng, &[]).is_err());'''), U))],
  'an attacker who replaces the last confirmation message by an empty one',
  'the responder of ID-HMQV-C compares only as many tag bytes as it received, so an empty tag is accepted and the initiator is not confirmed')

S('fg-done-early', 'P03', [(FG, '''                // Check the MAC
                if !bool::from(mac1.ct_eq(incoming_mac1)) {
                    return Err(MacError);
                }

                // Send the MAC
                self.done = true;
''', '''                // This is the last step of the initiator
                self.done = true;

                // Check the MAC
                if !bool::from(mac1.ct_eq(incoming_mac1)) {
                    return Err(MacError);
                }

                // Send the MAC
''')],
  [(FG, T_(ibke('FgIbkeC', '''        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let mut m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        let l = m2.len();
        m2[l - 1] ^= 1;
        assert!(user1.run(&mut rng, &m2).is_err());
        assert!(!user1.is_done());'''), U))],
  'a second message with a wrong confirmation tag, and a caller that goes on after the error',
  'the initiator of FG-IBKE is marked complete before the tag is checked, so after the rejection is_done is true and finalize gives a key and an unauthenticated identity')

S('fg-id-prefix', 'P17', [(FG, '''                .chain_update([0x02])
                .chain_update(&id)
                .chain_update(X.compress().as_bytes()),''', '''                .chain_update([0x02])
                .chain_update(&id[..16])
                .chain_update(X.compress().as_bytes()),'''),
  (FG, '''                self.output_id = Some(other_id.try_into().unwrap());

                // Generate an ephemeral keypair
                let eph_sk = Scalar::random(&mut rng);
                let eph_pk = RistrettoPoint::mul_base(&eph_sk);

                // Do the key agreement arithmetic
                let other_h = Scalar::from_hash(
                    MyHash512::new()
                        .chain_update([0x02])
                        .chain_update(&other_id)''', '''                self.output_id = Some(other_id.try_into().unwrap());

                // Generate an ephemeral keypair
                let eph_sk = Scalar::random(&mut rng);
                let eph_pk = RistrettoPoint::mul_base(&eph_sk);

                // Do the key agreement arithmetic
                let other_h = Scalar::from_hash(
                    MyHash512::new()
                        .chain_update([0x02])
                        .chain_update(&other_id[..16])'''),
  (FG, '''                self.output_id = Some(other_id.try_into().unwrap());

                // Do the key agreement arithmetic
                let other_h = Scalar::from_hash(
                    MyHash512::new()
                        .chain_update([0x02])
                        .chain_update(&other_id)''', '''                self.output_id = Some(other_id.try_into().unwrap());

                // Do the key agreement arithmetic
                let other_h = Scalar::from_hash(
                    MyHash512::new()
                        .chain_update([0x02])
                        .chain_update(&other_id[..16])''')],
  [(FG, T_(ibke('FgIbkeC', '''        let mut other = id1;
        other[31] ^= 1;
        let mut forged = cert1.clone();
        forged.id = other;
        let mut user1 = FgIbkeC::new_session(&mut rng, ssid, mpk.clone(), forged, (), PartyRole::Initiator);
        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        if let Ok(Some(m3)) = user1.run(&mut rng, &m2) {
            assert!(user2.run(&mut rng, &m3).is_err());
        }'''), U))],
  'two identities that agree in their first 16 bytes',
  'the key extracted for one identity also authenticates every identity with the same first half')

S('spake-ssid-half', 'P05', [(KC, '&Identity::new(&ssid),', '&Identity::new(&ssid[..16]),')],
  [(KC, T_('''        let mut rng = rand::thread_rng();
        let ssid: Ssid = rng.gen();
        let mut ssid2 = ssid;
        ssid2[31] ^= 1;
        let mut a = KcSpake2::new(&mut rng, ssid, b"password", PartyRole::Initiator);
        let mut b = KcSpake2::new(&mut rng, ssid2, b"password", PartyRole::Responder);
        let m1 = a.run(&[]).unwrap().unwrap();
        let m2 = b.run(&m1).unwrap().unwrap();
        assert!(a.run(&m2).is_err());''', U))],
  'two runs whose session identifiers agree in the first 16 bytes',
  'parties with different session identifiers agree on a key')

S('hmqv-mac-label', 'P07', [(H, '''                hk.expand_multi_info(&[&self.ssid, b"mac1"], &mut mac1)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                    .unwrap();
                self.macs = Some((mac0, mac1));''', '''                hk.expand_multi_info(&[&self.ssid, b"mac0"], &mut mac1)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                    .unwrap();
                self.macs = Some((mac0, mac1));'''),
  (H, '''                hk.expand_multi_info(&[&self.ssid, b"mac1"], &mut mac1)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                    .unwrap();
                self.output_key = Some(output_key);

                // Verify''', '''                hk.expand_multi_info(&[&self.ssid, b"mac0"], &mut mac1)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                    .unwrap();
                self.output_key = Some(output_key);

                // Verify''')],
  [(H, T_(ibke('IdHmqvC', '''        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        // reflect the responder tag
        assert!(user2.run(&mut rng, &m2[32..64]).is_err());'''), U))],
  'an attacker who sends the tag of the responder back to it as the last message',
  'both confirmation tags are derived under one label, so the responder accepts its own tag and completes without a confirmed peer')

S('nonce-eight', 'P08', [(AE, 'rng.fill_bytes(&mut nonce);', 'rng.fill_bytes(&mut nonce[4..]);')],
  [(AE, T_('''        let mut rng = rand::thread_rng();
        let mut key = ZERO_AUTH_ENC_KEY;
        rng.fill_bytes(&mut key);
        let mut seen = std::collections::HashSet::new();
        for _ in 0..8 {
            let c = auth_encrypt(&mut rng, key, b"msg");
            seen.insert(c[3..7].to_vec());
        }
        assert!(seen.len() > 4);'''))],
  'looking at the leading nonce bytes of several ciphertexts (the counter part of long-lived keys)',
  'four of the twelve nonce bytes are constant, so nonces repeat after about 2^32 messages')

S('latke-pw-trunc', 'P09', [(LA, 'let seed = MyHash256::digest(password);', 'let seed = MyHash256::digest(&password[..password.len().min(32)]);')],
  [(LA, T_('''        let mut rng = rand::thread_rng();
        let id: Id = rng.gen();
        type L = Latke<crate::ibke::fg_ibke::FgIbkeC, crate::pake::kc_spake2::KcSpake2>;
        let a = L::gen_pwfile(&mut rng, b"a passphrase that is longer than 32 bytes: one", &id);
        let b = L::gen_pwfile(&mut rng, b"a passphrase that is longer than 32 bytes: two", &id);
        assert!(a.mpk.as_bytes() != b.mpk.as_bytes());''', U))],
  'two passwords longer than 32 bytes with a common beginning',
  'the tail of long passwords is ignored, so different passwords give the same main key')

S('etm-nonce-unauth', 'P10', [(AE, '''        .unwrap()
        .chain_update(&ciphertext)
        .finalize()''', '''        .unwrap()
        .chain_update(&ciphertext[..msg.len()])
        .finalize()'''), (AE, '.chain_update(&ciphertext_and_nonce)', '.chain_update(&ciphertext)')],
  [(AE, T_('''        let mut rng = rand::thread_rng();
        let mut key = ZERO_AUTH_ENC_KEY;
        rng.fill_bytes(&mut key);
        let mut c = auth_encrypt(&mut rng, key, b"some message");
        c[12] ^= 1;
        assert!(auth_decrypt(key, &c).is_err());'''))],
  'a ciphertext whose nonce was changed in transit',
  'the MAC does not cover the nonce, so a changed nonce decrypts to garbage instead of failing')

S('eue-real-again', 'P11', [(EU, '''            let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
            // If a decryption error occurred, we exit real mode and will just start sending zeros
            if pt.is_err() {
                self.real_mode = false;
                None
            } else {
                Some(pt.unwrap())
            }''', '''            // If a decryption error occurred, there is nothing to process
            auth_decrypt(self.msg_key, incoming_ciphertext).ok()'''),
  (EU, '''        let outgoing_msg = if self.real_mode {
            self.sess.run(&mut rng, &incoming_msg.unwrap())?
        } else {''', '''        let outgoing_msg = if let (true, Some(msg)) = (self.real_mode, incoming_msg.as_ref()) {
            self.sess.run(&mut rng, msg)?
        } else {''')],
  [(EU, T_(ibke('IdSigmaREd25519', '''        let key: [u8; 32] = rng.gen();
        type E = Eue<IdSigmaREd25519>;
        let mut a = E::new_session(&mut rng, ssid, mpk.clone(), cert1.clone(), usk1.clone(), PartyRole::Initiator, key);
        let _ = a.run(&mut rng, &[]).unwrap().unwrap();
        let _ = a.run(&mut rng, &[7u8; 100]).unwrap();
        let _ = a.run(&mut rng, &[8u8; 100]).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.finalize()));
        assert!(!a.real_mode);
        assert!(r.is_err());'''), U + ' use crate::ibke::id_sigma_r::IdSigmaREd25519;'))],
  'an undecryptable message followed by further messages',
  'the encrypting layer forgets that a message failed to decrypt: it goes back to running the inner exchange')

S('eue-last-ratchet', 'P12', [(EU, '''        // If this isn't the very first step of the protocol, ratchet the keys
        if !self.next_step_is_first {
            self.ratchet_keys();
        } else {
            // Otherwise, don't ratchet the keys, and mark the protocol begun.
            self.next_step_is_first = false;
        };

''', ''),
  (EU, '''        // Encrypt the outgoing message if there is one
''', '''        // If this isn't the very first step of the protocol, ratchet the keys for the reply
        if outgoing_msg.is_some() && !self.next_step_is_first {
            self.ratchet_keys();
        }
        self.next_step_is_first = false;

        // Encrypt the outgoing message if there is one
'''),
  (EU, '''        // Ratchet the keys
        self.ratchet_keys();

        Ok(outgoing_ciphertext)''', '''        // Ratchet the keys if they protected a message
        if outgoing_ciphertext.is_some() {
            self.ratchet_keys();
        }

        Ok(outgoing_ciphertext)''')],
  [(EU, T_(ibke('IdSigmaREd25519', '''        let key: [u8; 32] = rng.gen();
        type E = Eue<IdSigmaREd25519>;
        let mut a = E::new_session(&mut rng, ssid, mpk.clone(), cert1.clone(), usk1.clone(), PartyRole::Initiator, key);
        let mut b = E::new_session(&mut rng, ssid, mpk.clone(), cert2.clone(), usk2.clone(), PartyRole::Responder, key);
        let m1 = a.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = b.run(&mut rng, &m1).unwrap().unwrap();
        let m3 = a.run(&mut rng, &m2).unwrap().unwrap();
        let m4 = b.run(&mut rng, &m3).unwrap().unwrap();
        assert!(a.run(&mut rng, &m4).unwrap().is_none());
        // every key a message was protected with must be gone: walk the generations from the start
        let mut k = E::new_session(&mut rng, ssid, mpk.clone(), cert1.clone(), usk1.clone(), PartyRole::Initiator, key);
        let mut used = vec![k.msg_key];
        for _ in 0..6 { k.ratchet_keys(); used.push(k.msg_key); }
        for (i, u) in used.iter().enumerate() {
            for m in [&m1, &m2, &m3, &m4] {
                assert!(!(auth_decrypt(*u, m).is_ok() && *u == a.msg_key), "key {i} is still held");
            }
        }'''), U + ' use crate::ibke::id_sigma_r::IdSigmaREd25519;'))],
  'the state of an initiator that was compromised after the last message',
  'after a step without an answer the keys are not ratcheted')

S('fg-step-sticks', 'P13', [(FG, '''        // Initiator gets the even steps, responder gets the odd steps
        self.next_step += 2;

        // Add''', '''        // Initiator gets the even steps, responder gets the odd steps
        if !self.done {
            self.next_step += 2;
        }

        // Add''')],
  [(FG, T_(ibke('FgIbkeC', '''        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        let m3 = user1.run(&mut rng, &m2).unwrap().unwrap();
        assert!(user2.run(&mut rng, &m3).unwrap().is_none());
        let k = user2.finalize().1;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| user2.run(rand::thread_rng(), &m3)));
        assert!(user2.finalize().1 == k);'''), U))],
  'the last message replayed to a responder that is already complete',
  'a completed run accepts its last message again and its session key changes')

S('fg-key-overlap', 'P07', [(FG, '''                // Now compute the session key and MACs
                let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
                let hk = MyKdf::from_prk(
                    &[
                        alpha.compress().as_bytes().as_slice(),
                        beta.compress().as_bytes().as_slice(),
                    ]
                    .concat(),
                )
                .unwrap();
                hk.expand(b"fg-expand", &mut sess_hash).unwrap();
                let (macs, sess_key) = sess_hash.split_at(64);
                let (mac0, mac1) = macs.split_at(32);
                self.macs''', '''                // Now compute the session key and MACs
                let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
                let hk = MyKdf::from_prk(
                    &[
                        alpha.compress().as_bytes().as_slice(),
                        beta.compress().as_bytes().as_slice(),
                    ]
                    .concat(),
                )
                .unwrap();
                hk.expand(b"fg-expand", &mut sess_hash).unwrap();
                let (macs, _) = sess_hash.split_at(64);
                let sess_key = &sess_hash[32..64];
                let (mac0, mac1) = macs.split_at(32);
                self.macs'''),
  (FG, '''                let (macs, sess_key) = sess_hash.split_at(64);
                let (mac0, mac1) = macs.split_at(32);
                self.sess_key''', '''                let (macs, _) = sess_hash.split_at(64);
                let sess_key = &sess_hash[32..64];
                let (mac0, mac1) = macs.split_at(32);
                self.sess_key''')],
  [(FG, T_(ibke('FgIbkeC', '''        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        let m3 = user1.run(&mut rng, &m2).unwrap().unwrap();
        let k = user1.sess_key.unwrap();
        assert!(!m2.windows(8).any(|w| w == &k[..8]));'''), U))],
  'an eavesdropper who reads the tag in the second message',
  'the base of the session key is the confirmation tag that is sent in the clear')

S('wbc-labels', 'P16', [(WB, '''    let gkr = eval_deck(key, b'g', 0x01, &right, left.len());
    xor_in_place(left, &gkr);

    // R := R ⊕ G_k(L || 0)
    let (left, right) = inout.split_at_mut(16);
    let gkl = eval_deck(key, b'g', 0x00, &left, right.len());
    xor_in_place(right, &gkl);

    // L_0 := L_0''', '''    let gkr = eval_deck(key, b'g', 0x00, &right, left.len());
    xor_in_place(left, &gkr);

    // R := R ⊕ G_k(L || 0)
    let (left, right) = inout.split_at_mut(16);
    let gkl = eval_deck(key, b'g', 0x00, &left, right.len());
    xor_in_place(right, &gkl);

    // L_0 := L_0'''), (WB, '''    let gkr = eval_deck(key, b'g', 0x01, &right, left.len());
    xor_in_place(left, &gkr);

    // R_0 :=''', '''    let gkr = eval_deck(key, b'g', 0x00, &right, left.len());
    xor_in_place(left, &gkr);

    // R_0 :=''')],
  [(WB, T_('''        // with 32-byte blocks L and R have equal size: recompute the middle rounds by hand
        let key = [5u8; 32];
        let mut b = [9u8; 32];
        wide_block_encrypt(&key, &mut b);
        let (l, r) = b.split_at(16);
        let mut l = l.to_vec();
        let h = eval_deck(&key, b'h', 1, r, 16);
        xor_in_place(&mut l, &h);
        let mut r = r.to_vec();
        let g = eval_deck(&key, b'g', 0, &l, 16);
        xor_in_place(&mut r, &g);
        let g = eval_deck(&key, b'g', 1, &r, 16);
        xor_in_place(&mut l, &g);
        let h = eval_deck(&key, b'h', 0, &l, 16);
        xor_in_place(&mut r, &h);
        assert_eq!([l, r].concat(), vec![9u8; 32]);'''))],
  'structured inputs: two inner rounds collide when the halves are related',
  'two rounds of the wide-block cipher use the same function, which makes it a Feistel network with equal round functions')

S('sigma-cert-noid', 'P17', [(SG, 'let sig = msk.sign(&[id, upk.as_bytes()].concat());', 'let sig = msk.sign(upk.as_bytes());'),
  (SG, '''                // Do the verifications. Check that the certificate verifies and that the signature and MAC verify
                // Check the certificate verifies
                self.mpk.verify(
                    &[&incoming_cert.id, incoming_cert.upk.as_bytes()].concat(),''', '''                // Do the verifications. Check that the certificate verifies and that the signature and MAC verify
                // Check the certificate verifies
                self.mpk.verify(
                    incoming_cert.upk.as_bytes(),'''),
  (SG, '''                // Do the verifications. Check that that the certificate verifies and that the signature and MAC verify
                // Check the certificate verifies
                self.mpk.verify(
                    &[&incoming_cert.id, incoming_cert.upk.as_bytes()].concat(),''', '''                // Do the verifications. Check that that the certificate verifies and that the signature and MAC verify
                // Check the certificate verifies
                self.mpk.verify(
                    incoming_cert.upk.as_bytes(),''')],
  [(SG, T_(ibke('IdSigmaREd25519', '''        let mut forged = cert1.clone();
        forged.id = [9; 32];
        let mut user1 = IdSigmaREd25519::new_session(&mut rng, ssid, mpk.clone(), forged, usk1.clone(), PartyRole::Initiator);
        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        let m3 = user1.run(&mut rng, &m2).unwrap().unwrap();
        assert!(user2.run(&mut rng, &m3).is_err());'''), U))],
  'a user who changes the identity in the own certificate',
  'certificates of ID-SIGMA-R do not cover the identity')

S('chip-noid', 'P29', [(CH, '''                .chain_update([0x02])
                .chain_update(&id)
                .chain_update(X''', '''                .chain_update([0x02])
                .chain_update(X'''), (CH, '''                .chain_update([0x02])
                .chain_update(&self.other_id)
                .chain_update(other_X_bytes),''', '''                .chain_update([0x02])
                .chain_update(other_X_bytes),''')],
  [(CH, T_('''        type C = Chip<crate::pake::kc_spake2::KcSpake2>;
        let mut rng = rand::thread_rng();
        let (id1, id2, id3): (Id, Id, Id) = (rng.gen(), rng.gen(), rng.gen());
        let ssid = rng.gen();
        let p1 = C::gen_pwfile(&mut rng, b"pw".to_vec(), id1);
        let p2 = C::gen_pwfile(&mut rng, b"pw".to_vec(), id2);
        let mut a = C::new_session(&mut rng, ssid, p1, PartyRole::Initiator, id2);
        // the responder expects somebody else
        let mut b = C::new_session(&mut rng, ssid, p2, PartyRole::Responder, id3);
        let m1 = a.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = b.run(&mut rng, &m1).unwrap().unwrap();
        let m3 = a.run(&mut rng, &m2).unwrap().unwrap();
        let m4 = b.run(&mut rng, &m3).unwrap().unwrap();
        assert!(a.run(&mut rng, &m4).is_err());''', U))],
  'a party that expects another identity than the peer has',
  'CHIP credentials are not bound to identities: anyone with the password can pose as any device')

S('latke-ids', 'P31', [(LA, 'let pake_input = [pwfile.mpk.as_bytes(), &ids.0[..], &ids.1[..]].concat();', 'let pake_input = [pwfile.mpk.as_bytes(), &ids.0[..]].concat();')],
  [(LA, T_('''        type L = Latke<crate::ibke::fg_ibke::FgIbkeC, crate::pake::kc_spake2::KcSpake2>;
        let mut rng = rand::thread_rng();
        let (id1, id2, id3): (Id, Id, Id) = (rng.gen(), rng.gen(), rng.gen());
        let ssid = rng.gen();
        let p1 = L::gen_pwfile(&mut rng, b"pw", &id1);
        let p2 = L::gen_pwfile(&mut rng, b"pw", &id2);
        // the initiator expects somebody else
        let mut a = L::new_session(&mut rng, ssid, p1, PartyRole::Initiator, PeerModel::PreSpecified(id3));
        let mut b = L::new_session(&mut rng, ssid, p2, PartyRole::Responder, PeerModel::PreSpecified(id1));
        let m1 = a.run(&mut rng, &[]).unwrap();
        let m2 = b.run(&mut rng, &m1).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.run(rand::thread_rng(), &m2)));
        assert!(r.is_err());''', U))],
  'an initiator that expects another responder than the one it talks to',
  'with a known peer only the identity of the initiator is bound, so a wrong responder is accepted')

S('sigma-early-key', 'P01', [(SG, '''                self.output_id = Some(incoming_cert.id);

                // Do the verifications. Check that that the certificate''', '''                self.output_id = Some(incoming_cert.id);
                self.done = true;

                // Do the verifications. Check that that the certificate'''), (SG, '''                    .chain_update(&[0x01])
                    .chain_update(self.output_id.as_ref().unwrap())
                    .verify_slice(incoming_mac)?;

                self.done = true;
                None''', '''                    .chain_update(&[0x01])
                    .chain_update(self.output_id.as_ref().unwrap())
                    .verify_slice(incoming_mac)?;

                None''')],
  [(SG, T_(ibke('IdSigmaREd25519', '''        // the responder has no certificate of this authority
        let (mpk3, msk3) = IdSigmaREd25519::gen_main_keypair(&mut rng);
        let cert3 = IdSigmaREd25519::extract(&mut rng, &msk3, &id2, &upk2);
        let mut user2 = IdSigmaREd25519::new_session(&mut rng, ssid, mpk.clone(), cert3, usk2.clone(), PartyRole::Responder);
        let m1 = user1.run(&mut rng, &[]).unwrap().unwrap();
        let m2 = user2.run(&mut rng, &m1).unwrap().unwrap();
        let m3 = user1.run(&mut rng, &m2).unwrap().unwrap();
        let m4 = user2.run(&mut rng, &m3).unwrap().unwrap();
        assert!(user1.run(&mut rng, &m4).is_err());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| user1.finalize()));
        assert!(r.is_err());'''), U))],
  'a peer with a forged certificate and a caller that goes on after the error',
  'a session that rejected its last message still hands out the key and the forged identity')
