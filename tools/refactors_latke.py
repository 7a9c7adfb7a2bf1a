H = 'latke/src/ibke/id_hmqv_c.rs'
SG = 'latke/src/ibke/id_sigma_r.rs'
SD = 'latke/src/ibke/id_sig_dh.rs'
FG = 'latke/src/ibke/fg_ibke.rs'
KC = 'latke/src/pake/kc_spake2.rs'
CK = 'latke/src/pake/cake.rs'
CP = 'latke/src/pake/cpace.rs'
EU = 'latke/src/eue_transform.rs'
LA = 'latke/src/latke.rs'
CH = 'latke/src/chip.rs'
AE = 'latke/src/auth_enc.rs'
WB = 'latke/src/ideal_cipher.rs'

# auth_enc: split helper, constants, early-return style
RF('ae-helper', [(AE, '''    // Compute the MAC and append it to the ciphertext
    let mac = MyMac::new_from_slice(&mac_key)
        .unwrap()
        .chain_update(&ciphertext)
        .finalize()
        .into_bytes();
    ciphertext.extend(mac);

    ciphertext
}
''', '''    // Compute the MAC and append it to the ciphertext
    let tag = compute_tag(mac_key, &ciphertext);
    ciphertext.extend_from_slice(&tag);

    ciphertext
}

fn compute_tag(mac_key: &[u8], data: &[u8]) -> [u8; TAGLEN] {
    let mut m = MyMac::new_from_slice(mac_key).unwrap();
    m.update(data);
    m.finalize().into_bytes().into()
}

fn check_tag(mac_key: &[u8], data: &[u8], tag: &[u8]) -> Result<(), MacError> {
    let mut m = MyMac::new_from_slice(mac_key).unwrap();
    m.update(data);
    m.verify(tag.try_into().unwrap())
}
'''), (AE, '''    MyMac::new_from_slice(&mac_key)
        .unwrap()
        .chain_update(&ciphertext_and_nonce)
        .verify(mac.try_into().unwrap())?;
''', '''    if let Err(e) = check_tag(mac_key, ciphertext_and_nonce, mac) {
        return Err(e);
    }
''')])
RF('ae-slices', [(AE, '''    let (enc_key, mac_key) = key.split_at(32);
    let mac_size = <MyMac as OutputSizeUser>::output_size();
    if sealed_msg.len() < mac_size + 12 {
        return Err(MacError);
    }
    let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
    let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - 12);
''', '''    let enc_key = &key[..32];
    let mac_key = &key[32..];
    let n = sealed_msg.len();
    let body_len = match n.checked_sub(TAGLEN + NONCELEN) {
        Some(l) => l,
        None => return Err(MacError),
    };
    let ciphertext = &sealed_msg[..body_len];
    let nonce = &sealed_msg[body_len..body_len + NONCELEN];
    let ciphertext_and_nonce = &sealed_msg[..body_len + NONCELEN];
    let mac = &sealed_msg[body_len + NONCELEN..];
''')])
RF('ae-inplace', [(AE, '''    // Encrypt the message with the stream cipher
    let mut ciphertext = msg.to_vec();
    let mut cipher = MyCipher::new(enc_key.try_into().unwrap(), &nonce.into());
    cipher.apply_keystream(&mut ciphertext);

    // Append the IV to the ciphertext
    ciphertext.extend(&nonce);
''', '''    // Encrypt the message with the stream cipher
    let mut ciphertext = Vec::with_capacity(msg.len() + NONCELEN + TAGLEN);
    ciphertext.extend_from_slice(msg);
    let mut cipher = MyCipher::new_from_slices(enc_key, &nonce).unwrap();
    cipher.apply_keystream(&mut ciphertext[..msg.len()]);

    // Append the IV to the ciphertext
    ciphertext.extend_from_slice(&nonce[..]);
''')])
RF('ae-loop', [(AE, '''    ciphertext.extend(&nonce);
''', '''    for b in nonce.iter() {
        ciphertext.push(*b);
    }
''')])

# hmqv
RF('hmqv-derive', [(H, '''                // Extract sigma to a session key and 2 MACs
                let hk = MyKdf::from_prk(sigma.compress().as_bytes()).unwrap();
                let mut output_key = SessKey::default();
                let mut mac0 = [0u8; 32];
                let mut mac1 = [0u8; 32];
                hk.expand_multi_info(&[&self.ssid, b"mac0"], &mut mac0)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"mac1"], &mut mac1)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                    .unwrap();
                self.macs = Some((mac0, mac1));
                self.output_key = Some(output_key);
''', '''                let (mac0, mac1, output_key) = self.derive(&sigma);
                self.output_key = Some(output_key);
                self.macs = Some((mac0, mac1));
'''), (H, '''                // Extract sigma to a session key and 2 MACs
                let hk = MyKdf::from_prk(sigma.compress().as_bytes()).unwrap();
                let mut output_key = SessKey::default();
                let mut mac0 = [0u8; 32];
                let mut mac1 = [0u8; 32];
                hk.expand_multi_info(&[&self.ssid, b"mac0"], &mut mac0)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"mac1"], &mut mac1)
                    .unwrap();
                hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                    .unwrap();
                self.output_key = Some(output_key);
''', '''                let (mac0, mac1, output_key) = self.derive(&sigma);
                self.output_key = Some(output_key);
'''), (H, '''impl IdentityBasedKeyExchange for IdHmqvC {''', '''impl IdHmqvC {
    /// Turns the shared group element into the two tags and the session key
    fn derive(&self, sigma: &RistrettoPoint) -> ([u8; 32], [u8; 32], SessKey) {
        let prk = sigma.compress();
        let kdf = MyKdf::from_prk(prk.as_bytes()).unwrap();
        let labels: [&[u8]; 3] = [b"mac0", b"mac1", b"sess key"];
        let mut outs = [[0u8; 32]; 3];
        for (label, out) in labels.iter().zip(outs.iter_mut()) {
            kdf.expand_multi_info(&[&self.ssid[..], *label], out).unwrap();
        }
        let [mac0, mac1, key] = outs;
        (mac0, mac1, key)
    }
}

impl IdentityBasedKeyExchange for IdHmqvC {''')])
RF('hmqv-steps', [(H, '''                // Receive mac0
                let incoming_mac0 = incoming_msg;

                // Verify the given mac0
                if !bool::from(incoming_mac0.ct_eq(&self.macs.as_ref().unwrap().0)) {
                    return Err(MacError.into());
                }

                // All done
                self.done = true;
                None
''', '''                self.last_step(incoming_msg)?;
                None
'''), (H, '''impl IdentityBasedKeyExchange for IdHmqvC {''', '''impl IdHmqvC {
    fn last_step(&mut self, tag: &[u8]) -> Result<(), IdHmqvCError> {
        let (expected, _) = self.macs.expect("tags are known at this point");
        let ok: bool = expected[..].ct_eq(tag).into();
        if ok {
            self.done = true;
            Ok(())
        } else {
            Err(IdHmqvCError::Mac(MacError))
        }
    }
}

impl IdentityBasedKeyExchange for IdHmqvC {''')])
RF('hmqv-verify-helper', [(H, '''                // Verify the certificate
                self.mpk.verify(
                    &[
                        &incoming_cert.id[..],
                        incoming_cert.upk.compress().as_bytes(),
                    ]
                    .concat(),
                    &incoming_cert.upk_sig,
                )?;
                // If that all works out, then we can use the other user's pubkey and ID
                let other_upk = incoming_cert.upk;
                self.output_id = Some(incoming_cert.id);

                // Do the HMQV algebra
''', '''                let other_upk = incoming_cert.check(&self.mpk)?;
                self.output_id.replace(incoming_cert.id);

                // Do the HMQV algebra
'''), (H, '''impl IdCertificate for IdHmqvCCert {''', '''impl IdHmqvCCert {
    /// Verify the certificate and return the key it certifies
    fn check(&self, mpk: &SigPubkey) -> Result<UserPubkey, IdHmqvCError> {
        let mut msg = self.id.to_vec();
        msg.extend_from_slice(self.upk.compress().as_bytes());
        match mpk.verify(&msg, &self.upk_sig) {
            Ok(()) => Ok(self.upk),
            Err(e) => Err(IdHmqvCError::Sig(e)),
        }
    }
}

impl IdCertificate for IdHmqvCCert {''')])
RF('hmqv-concat', [(H, '''                Some(
                    [
                        eph_pk.compress().as_bytes(),
                        self.my_cert.to_bytes().as_slice(),
                    ]
                    .concat(),
                )
''', '''                let mut msg = Vec::with_capacity(32 + IdHmqvCCert::size());
                msg.extend_from_slice(&eph_pk.compress().to_bytes());
                msg.append(&mut self.my_cert.to_bytes());
                Some(msg)
'''), (H, '''        let (id, rest) = rest.split_at(Id::default().len());
        let (upk, rest) = rest.split_at(32);
        let sig = rest;
''', '''        let n = Id::default().len();
        let id = &rest[..n];
        let upk = &rest[n..n + 32];
        let sig = &rest[n + 32..];
''')])
# fg
RF('fg-mac-match', [(FG, '''                // Check the MAC
                if !bool::from(mac1.ct_eq(incoming_mac1)) {
                    return Err(MacError);
                }

                // Send the MAC
                self.done = true;
                Some(mac0.to_vec())
''', '''                // Check the MAC
                match bool::from(incoming_mac1.ct_eq(mac1)) {
                    false => return Err(MacError),
                    true => self.done = true,
                }

                // Send the MAC
                Some(Vec::from(mac0))
''')])
RF('fg-transcript', [(FG, '''        if incoming_msg.len() > 0 {
            self.running_transcript_hash.input_ikm(incoming_msg);
        }
        out.as_ref()
            .map(|v| self.running_transcript_hash.input_ikm(v));

        Ok(out)
''', '''        if !incoming_msg.is_empty() {
            self.running_transcript_hash.input_ikm(incoming_msg);
        }
        if let Some(v) = &out {
            self.running_transcript_hash.input_ikm(v);
        }

        Ok(out)
''')])
# kc
RF('kc-derive', [(KC, '''                // From the PAKE key, derive the final session key and two MACs over the transcript
                let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
                let hk = MyKdf::from_prk(&pake_key).unwrap();
                hk.expand_multi_info(
                    &[
                        &self.password,
                        PROTO_ID,
                        &self.first_outgoing_message,
                        &incoming_pake_msg,
                        &pake_key,
                    ],
                    &mut sess_hash,
                )
                .unwrap();

                // Unpack the big output and assign it properly
                let (macs, output_key) = sess_hash.split_at(64);
                let (mac0, mac1) = macs.split_at(32);
                self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
                self.output_key = Some(output_key.try_into().unwrap());

                // Verify the MAC
''', '''                let (mac0, mac1, output_key) = derive(&self.password, &self.first_outgoing_message, incoming_pake_msg, &pake_key);
                self.macs = Some((mac0, mac1));
                self.output_key = Some(output_key);

                // Verify the MAC
'''), (KC, '''                // From the PAKE key, derive the final session key and two MACs over the transcript
                let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
                let hk = MyKdf::from_prk(&pake_key).unwrap();
                hk.expand_multi_info(
                    &[&self.password, PROTO_ID, incoming_msg, &out_msg, &pake_key],
                    &mut sess_hash,
                )
                .unwrap();

                // Unpack the big output and assign it properly
                let (macs, output_key) = sess_hash.split_at(64);
                let (mac0, mac1) = macs.split_at(32);
                self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
                self.output_key = Some(output_key.try_into().unwrap());

                // Send (pake_msg, mac1)
                Some([&out_msg, mac1].concat())
''', '''                let (mac0, mac1, output_key) = derive(&self.password, incoming_msg, &out_msg, &pake_key);
                self.macs = Some((mac0, mac1));
                self.output_key = Some(output_key);

                // Send (pake_msg, mac1)
                Some([&out_msg[..], &mac1[..]].concat())
'''), (KC, '''impl Pake for KcSpake2 {''', '''/// From the PAKE key, derive the final session key and two MACs over the transcript
fn derive(password: &[u8], first: &[u8], second: &[u8], pake_key: &[u8]) -> ([u8; 32], [u8; 32], SessKey) {
    let mut okm = [0u8; 96];
    MyKdf::from_prk(pake_key)
        .unwrap()
        .expand(&[password, PROTO_ID, first, second, pake_key].concat(), &mut okm)
        .unwrap();
    let mut parts = okm.chunks_exact(32).map(|c| <[u8; 32]>::try_from(c).unwrap());
    (parts.next().unwrap(), parts.next().unwrap(), parts.next().unwrap())
}

impl Pake for KcSpake2 {''')])
RF('kc-take', [(KC, '''                let pake_state: Spake2<Ed25519Group> =
                    core::mem::replace(&mut self.pake_state, None).unwrap();
                let pake_key = pake_state.finish(&incoming_pake_msg).unwrap();
''', '''                let pake_key = self.pake_state.take().unwrap().finish(incoming_pake_msg).unwrap();
''')])
# cake
RF('cake-key', [(CK, '''    // Hash all the input values to a single key
    let mut key = [0u8; 32];
    // Gotta hash the password so it's small enough to use as PRK
    let hk = MyKdf::from_prk(&MyHash256::digest(&password)).unwrap();
    hk.expand_multi_info(&[&[domain_sep], ssid], &mut key)
        .unwrap();

    // Encrypt payload
    wide_block_encrypt(&key, payload)
}
''', '''    // Encrypt payload
    wide_block_encrypt(&cipher_key(domain_sep, ssid, password), payload)
}

fn cipher_key(domain_sep: u8, ssid: &[u8], password: &[u8]) -> [u8; 32] {
    let mut key = [0u8; 32];
    let mut info = vec![domain_sep];
    info.extend(ssid);
    let prk = MyHash256::new().chain_update(password).finalize();
    MyKdf::from_prk(&prk).unwrap().expand(&info, &mut key).unwrap();
    key
}
'''), (CK, '''    // Hash all the input values to a single key
    let mut key = [0u8; 32];
    // Gotta hash the password so it's small enough to use as PRK
    let hk = MyKdf::from_prk(&MyHash256::digest(&password)).unwrap();
    hk.expand_multi_info(&[&[domain_sep], ssid], &mut key)
        .unwrap();

    // Decrypt payload
    wide_block_decrypt(&key, payload)
''', '''    wide_block_decrypt(&cipher_key(domain_sep, ssid, password), payload)
''')])
# wbc
RF('wbc-rounds', [(WB, '''pub(crate) fn wide_block_encrypt(key: &[u8], inout: &mut [u8]) {
    // R_0 := R_0 ⊕ H_k(L || 0) where R_0 is the first 16 bytes of R
    let (left, right) = inout.split_at_mut(16);
    let (r0, _) = right.split_at_mut(16);
    let hkl = eval_deck(key, b'h', 0x00, &left, r0.len());
    xor_in_place(r0, &hkl);

    // L := L ⊕ G_k(R || 1)
    let (left, right) = inout.split_at_mut(16);
    let gkr = eval_deck(key, b'g', 0x01, &right, left.len());
    xor_in_place(left, &gkr);

    // R := R ⊕ G_k(L || 0)
    let (left, right) = inout.split_at_mut(16);
    let gkl = eval_deck(key, b'g', 0x00, &left, right.len());
    xor_in_place(right, &gkl);

    // L_0 := L_0 ⊕ H_k(R || 1) where L_0 is the first 16 bytes of L
    let (left, right) = inout.split_at_mut(16);
    let (l0, _) = left.split_at_mut(16);
    let hkr = eval_deck(key, b'h', 0x01, &right, l0.len());
    xor_in_place(l0, &hkr);
}
''', '''pub(crate) fn wide_block_encrypt(key: &[u8], inout: &mut [u8]) {
    let (left, right) = inout.split_at_mut(16);
    // R_0 := R_0 ⊕ H_k(L || 0) where R_0 is the first 16 bytes of R
    feistel(key, b'h', 0x00, left, &mut right[..16]);
    // L := L ⊕ G_k(R || 1)
    feistel(key, b'g', 0x01, right, left);
    // R := R ⊕ G_k(L || 0)
    feistel(key, b'g', 0x00, left, right);
    // L_0 := L_0 ⊕ H_k(R || 1) where L_0 is the first 16 bytes of L
    feistel(key, b'h', 0x01, right, &mut left[..16]);
}

fn feistel(key: &[u8], pre: u8, suf: u8, from: &[u8], to: &mut [u8]) {
    let mask = eval_deck(key, pre, suf, from, to.len());
    for i in 0..to.len() {
        to[i] ^= mask[i];
    }
}
''')])
RF('wbc-concat', [(WB, '''    writer.write_bytes(&[prefix_domain_sep]).unwrap();
    writer.write_bytes(input).unwrap();
    writer.write_bytes(&[suffix_domain_sep]).unwrap();
    writer.finish();
''', '''    let whole = [&[prefix_domain_sep][..], input, &[suffix_domain_sep][..]].concat();
    writer.write_bytes(&whole).unwrap();
    writer.finish();
''')])
# sigma
RF('sigma-simsize', [(SG, '''                self.done = true;
                Some(
                    IdSigmaSignature::size(sig_ty)
                        + 32
                        + SigmaCert::size(sig_ty)
                        + crate::auth_enc::NONCELEN
                        + crate::auth_enc::TAGLEN,
                )
''', '''                self.done = true;
                let sizes = [
                    IdSigmaSignature::size(sig_ty),
                    32,
                    SigmaCert::size(sig_ty),
                    crate::auth_enc::NONCELEN,
                    crate::auth_enc::TAGLEN,
                ];
                Some(sizes.iter().sum())
''')])
# eue
RF('eue-match', [(EU, '''            let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
            // If a decryption error occurred, we exit real mode and will just start sending zeros
            if pt.is_err() {
                self.real_mode = false;
                None
            } else {
                Some(pt.unwrap())
            }
''', '''            // If a decryption error occurred, we exit real mode and will just start sending zeros
            match auth_decrypt(self.msg_key, incoming_ciphertext) {
                Ok(pt) => Some(pt),
                Err(_) => {
                    self.real_mode = false;
                    None
                }
            }
'''), (EU, '''        let outgoing_ciphertext = outgoing_msg.map(|m| {
            if m.len() > 0 {
                auth_encrypt(&mut rng, self.msg_key, &m)
            } else {
                Vec::new()
            }
        });
''', '''        let outgoing_ciphertext = match outgoing_msg {
            None => None,
            Some(m) if m.is_empty() => Some(m),
            Some(m) => Some(auth_encrypt(&mut rng, self.msg_key, &m)),
        };
''')])
RF('eue-helpers', [(EU, '''        // If this isn't the very first step of the protocol, ratchet the keys
        if !self.next_step_is_first {
            self.ratchet_keys();
        } else {
            // Otherwise, don't ratchet the keys, and mark the protocol begun.
            self.next_step_is_first = false;
        };
''', '''        // If this isn't the very first step of the protocol, ratchet the keys
        let first = core::mem::take(&mut self.next_step_is_first);
        if !first {
            self.ratchet_keys();
        }
'''), (EU, '''        let hk = MyKdf::from_prk(&self.chain_key).unwrap();
        hk.expand(b"chain key", &mut self.chain_key).unwrap();
        hk.expand(b"msg key", &mut self.msg_key).unwrap();
''', '''        let hk = MyKdf::from_prk(&self.chain_key).unwrap();
        let mut next = [0u8; 32];
        hk.expand(b"msg key", &mut self.msg_key).unwrap();
        hk.expand(b"chain key", &mut next).unwrap();
        self.chain_key = next;
''')])
# latke
RF('latke-run', [(LA, '''        // If the PAKE isn't done, run it
        let mut just_finished_pake = false;
        let mut out = None;
        if !self.pake_state.is_done() {
            out = self.pake_state.run(incoming_msg).unwrap();
            just_finished_pake = self.pake_state.is_done();
        }

        // If we have something to send, send it
        let out = if out.is_some() {
            out
        } else {
''', '''        // If the PAKE isn't done, run it
        let was_done = self.pake_state.is_done();
        let pake_out = if was_done {
            None
        } else {
            self.pake_state.run(incoming_msg).unwrap()
        };
        let just_finished_pake = !was_done && self.pake_state.is_done();

        // If we have something to send, send it
        let out = if let Some(m) = pake_out {
            Some(m)
        } else {
'''), (LA, '''            if self.ibke_state.is_none() {
                let eue_key = self.pake_state.finalize();
                self.ibke_state = Some(Eue::<I>::new_session(
                    &mut rng,
                    self.ssid,
                    self.pwfile.mpk.clone(),
                    self.pwfile.cert.clone(),
                    self.pwfile.usk.clone(),
                    self.role,
                    eue_key,
                ));
            }
''', '''            if self.ibke_state.is_none() {
                self.start_ibke(&mut rng);
            }
'''), (LA, '''    pub fn is_done(&self) -> bool {
''', '''    fn start_ibke<R: CryptoRng + RngCore>(&mut self, rng: R) {
        let key = self.pake_state.finalize();
        let LatkePwfile { mpk, cert, usk } = self.pwfile.clone();
        let st = Eue::<I>::new_session(rng, self.ssid, mpk, cert, usk, self.role, key);
        self.ibke_state = Some(st);
    }

    pub fn is_done(&self) -> bool {
''')])
RF('latke-ids', [(LA, '''                let ids = if role == PartyRole::Initiator {
                    (pwfile.cert.id(), id)
                } else {
                    (id, pwfile.cert.id())
                };
                let pake_input = [pwfile.mpk.as_bytes(), &ids.0[..], &ids.1[..]].concat();
                P::new(&mut rng, ssid, &pake_input, role)
''', '''                let me = pwfile.cert.id();
                let (first, second) = match role {
                    PartyRole::Initiator => (me, id),
                    PartyRole::Responder => (id, me),
                };
                let mut pake_input = pwfile.mpk.as_bytes().to_vec();
                for part in [first, second] {
                    pake_input.extend_from_slice(&part);
                }
                P::new(&mut rng, ssid, &pake_input, role)
'''), (LA, '''        self.ibke_state
            .as_ref()
            .map(|ibke| ibke.is_done())
            .unwrap_or(false)
''', '''        match &self.ibke_state {
            Some(s) => s.is_done(),
            None => false,
        }
''')])
# chip
RF('chip-input', [(CH, '''        let pake_input = [
            alpha.compress().as_bytes().as_slice(),
            beta.compress().as_bytes().as_slice(),
            &tr.as_slice(),
        ]
        .concat();

        pake_input
''', '''        let mut pake_input = alpha.compress().to_bytes().to_vec();
        pake_input.extend_from_slice(beta.compress().as_bytes());
        pake_input.extend(tr);
        pake_input
''')])
RF('chip-tr', [(CH, '''        let tr = if self.role == PartyRole::Initiator {
            self.tr_sent
                .iter()
                .zip(self.tr_recv.iter())
                .flat_map(|(v, w)| [v.as_slice(), w.as_slice()].concat())
                .collect::<Vec<_>>()
        } else {
            self.tr_recv
                .iter()
                .zip(self.tr_sent.iter())
                .flat_map(|(v, w)| [v.as_slice(), w.as_slice()].concat())
                .collect::<Vec<_>>()
        };
''', '''        let (a, b) = match self.role {
            PartyRole::Initiator => (&self.tr_sent, &self.tr_recv),
            PartyRole::Responder => (&self.tr_recv, &self.tr_sent),
        };
        let mut tr = Vec::new();
        for (v, w) in a.iter().zip(b.iter()) {
            tr.extend_from_slice(v);
            tr.extend_from_slice(w);
        }
''')])
RF('chip-hash', [(CH, '''        let other_h = Scalar::from_hash(
            MyHash512::new()
                .chain_update([0x02])
                .chain_update(&self.other_id)
                .chain_update(other_X_bytes),
        );
''', '''        let mut hasher = MyHash512::new();
        hasher.update([0x02]);
        hasher.update(self.other_id);
        hasher.update(other_X.compress().as_bytes());
        let other_h = Scalar::from_hash(hasher);
'''), (CH, '''        let alpha = other_R * self.r;
        let beta = (other_R + other_X + (self.pwfile.Y * other_h)) * (self.r + self.pwfile.xhat);
''', '''        let e = self.pwfile.xhat + self.r;
        let peer = other_X + other_h * self.pwfile.Y;
        let beta = e * (peer + other_R);
        let alpha = self.r * other_R;
''')])
RF('noop-all', [(f, a, a + "\n        let _ = 0usize;") for f, a in (
    (EU, '        // Decrypt the incoming ciphertext if there is any and we\'re in real mode'),
    (LA, '        // If the PAKE isn\'t done, run it'),
    (CH, '        // Remember the initiator does even steps and the responder does odd steps'))])
