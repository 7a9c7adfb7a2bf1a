SD = 'latke/src/ibke/id_sig_dh.rs'
SG = 'latke/src/ibke/id_sigma_r.rs'
FG = 'latke/src/ibke/fg_ibke.rs'
CP = 'latke/src/pake/cpace.rs'
CH = 'latke/src/chip.rs'
EU = 'latke/src/eue_transform.rs'
AE = 'latke/src/auth_enc.rs'

RF('sd-verify-helper', [(SD, '''                let rest = incoming_msg;
                let (incoming_eph_pk_bytes, rest) = rest.split_at(32);
                let (incoming_sig_bytes, rest) = rest.split_at(Signature::BYTE_SIZE);
                let incoming_cert_bytes = rest;

                let incoming_eph_pk =
                    DhPubkey::from(<[u8; 32]>::try_from(incoming_eph_pk_bytes).unwrap());
                let incoming_sig = Signature::from_bytes(incoming_sig_bytes.try_into().unwrap());
                let incoming_cert = SigDhCert::from_bytes(incoming_cert_bytes);

                // Verify the certificate
                self.mpk.verify(
                    &[
                        &incoming_cert.id[..],
                        incoming_cert.upk.0.as_bytes().as_slice(),
                        incoming_cert.upk.1.as_bytes().as_slice(),
                    ]
                    .concat(),
                    &incoming_cert.upk_sig,
                )?;
                // If that all works out, then we can use the other user's pubkey and ID
                let other_upk = incoming_cert.upk;
                self.output_id = Some(incoming_cert.id);

                // Verify the signature over the ephemeral key
                other_upk.0.verify(
                    &[&[0x01], self.ssid.as_slice(), incoming_eph_pk.as_bytes()].concat(),
                    &incoming_sig,
                )?;
''', '''                let incoming_eph_pk_bytes = &incoming_msg[..32];
                let (incoming_eph_pk, other_upk, other_id) = self.check_peer(incoming_msg, 0x01)?;
                self.output_id = Some(other_id);
'''), (SD, '''impl IdentityBasedKeyExchange for IdSigDh {''', '''impl IdSigDh {
    /// Parses and authenticates a keyshare message of the peer
    fn check_peer(
        &self,
        msg: &[u8],
        tag: u8,
    ) -> Result<(DhPubkey, UserPubkey, Id), ed25519_dalek::SignatureError> {
        let eph = DhPubkey::from(<[u8; 32]>::try_from(&msg[0..32]).unwrap());
        let sig_end = 32 + Signature::BYTE_SIZE;
        let sig = Signature::from_bytes(&msg[32..sig_end].try_into().unwrap());
        let cert = SigDhCert::from_bytes(&msg[sig_end..]);

        let mut signed = Vec::with_capacity(cert.id.len() + 64);
        signed.extend_from_slice(&cert.id);
        signed.extend_from_slice(cert.upk.0.as_bytes());
        signed.extend_from_slice(cert.upk.1.as_bytes());
        if let Err(e) = self.mpk.verify(&signed, &cert.upk_sig) {
            return Err(e);
        }

        let mut signed = vec![tag];
        signed.extend(self.ssid);
        signed.extend(eph.as_bytes().iter());
        match cert.upk.0.verify(&signed, &sig) {
            Ok(()) => Ok((eph, cert.upk, cert.id)),
            Err(e) => Err(e),
        }
    }
}

impl IdentityBasedKeyExchange for IdSigDh {''')])

RF('sd-derive', [(SD, '''                let (_, hk) = MyKdf::extract(
                    None,
                    &[z1.to_bytes(), z2.to_bytes(), z3.to_bytes(), z4.to_bytes()].concat(),
                );
                let mut sess_key = SessKey::default();
                hk.expand_multi_info(
                    &[
                        &self.ssid,
                        &incoming_eph_pk_bytes,
                        eph_pk.as_bytes().as_slice(),
                    ],
                    &mut sess_key,
                )
                .unwrap();
                self.output_key = Some(sess_key);
                self.done = true;
''', '''                self.output_key = Some(derive(
                    &self.ssid,
                    [z1, z2, z3, z4].map(|z| z.to_bytes()),
                    [incoming_eph_pk.to_bytes(), *eph_pk.as_bytes()],
                ));
                self.done = true;
'''), (SD, '''impl IdentityBasedKeyExchange for IdSigDh {''', '''/// The session key of a run
fn derive(ssid: &Ssid, secrets: [[u8; 32]; 4], keyshares: [[u8; 32]; 2]) -> SessKey {
    let mut ikm = Vec::new();
    for s in secrets.iter() {
        ikm.extend_from_slice(s);
    }
    let (_, hk) = MyKdf::extract(None, &ikm);
    let mut info = ssid.to_vec();
    keyshares.iter().for_each(|k| info.extend_from_slice(k));
    let mut out = SessKey::default();
    hk.expand(&info, &mut out).unwrap();
    out
}

impl IdentityBasedKeyExchange for IdSigDh {''')])

RF('sd-output', [(SD, '''                // Sign the ephemeral pubkey
                let sig = self
                    .usk
                    .0
                    .sign(&[&[0x00], self.ssid.as_slice(), eph_pk.as_bytes()].concat());

                // Send the ephemeral pubkey, the signature, and the certificate
                Some(
                    [
                        eph_pk.as_bytes().as_slice(),
                        &sig.to_bytes(),
                        &self.cert.to_bytes(),
                    ]
                    .concat(),
                )
''', '''                // Sign the ephemeral pubkey
                let mut to_sign = [0u8; 1 + 32 + 32];
                to_sign[1..33].copy_from_slice(&self.ssid);
                to_sign[33..].copy_from_slice(eph_pk.as_bytes());
                let sig = self.usk.0.sign(&to_sign);

                // Send the ephemeral pubkey, the signature, and the certificate
                let cert = self.cert.to_bytes();
                let mut out = Vec::with_capacity(32 + Signature::BYTE_SIZE + cert.len());
                out.extend_from_slice(eph_pk.as_bytes());
                out.extend_from_slice(&sig.to_bytes());
                out.extend(cert);
                Some(out)
''')])

RF('sg-keys', [(SG, '''                let mut output_key = SessKey::default();
                let mut mac_key = [0u8; 32];
                let mut enc_key_a = ZERO_AUTH_ENC_KEY;
                let mut enc_key_b = ZERO_AUTH_ENC_KEY;
                let hk = MyKdf::from_prk(shared_secret.as_slice()).unwrap();
                hk.expand(b"output_key", &mut output_key).unwrap();
                hk.expand(b"mac_key", &mut mac_key).unwrap();
                hk.expand(b"enc_key_a", &mut enc_key_a).unwrap();
                hk.expand(b"enc_key_b", &mut enc_key_b).unwrap();
                self.output_key = Some(output_key);
                self.mac_key = Some(mac_key);
                self.enc_keys = Some((enc_key_a, enc_key_b));

                // Output (nonce_b, encapped_key)
''', '''                self.install_keys(shared_secret.as_slice());

                // Output (nonce_b, encapped_key)
'''), (SG, '''                let mut output_key = SessKey::default();
                let mut mac_key = [0u8; 32];
                let mut enc_key_a = ZERO_AUTH_ENC_KEY;
                let mut enc_key_b = ZERO_AUTH_ENC_KEY;
                let hk = MyKdf::from_prk(shared_secret.as_slice()).unwrap();
                hk.expand(b"output_key", &mut output_key).unwrap();
                hk.expand(b"mac_key", &mut mac_key).unwrap();
                hk.expand(b"enc_key_a", &mut enc_key_a).unwrap();
                hk.expand(b"enc_key_b", &mut enc_key_b).unwrap();
                self.output_key = Some(output_key);
                self.mac_key = Some(mac_key);
                self.enc_keys = Some((enc_key_a, enc_key_b));
''', '''                let enc_key_a = self.install_keys(shared_secret.as_slice()).0;
'''), (SG, '''    fn run_sim(&mut self) -> Option<usize> {
        let sig_ty''', '''    fn install_keys(&mut self, shared_secret: &[u8]) -> (AuthEncKey, AuthEncKey) {
        let hk = MyKdf::from_prk(shared_secret).unwrap();
        let mut short = [[0u8; 32]; 2];
        for (label, out) in [&b"output_key"[..], b"mac_key"].into_iter().zip(short.iter_mut()) {
            hk.expand(label, out).unwrap();
        }
        let expand_long = |label: &[u8]| -> AuthEncKey {
            let mut k = ZERO_AUTH_ENC_KEY;
            hk.expand(label, &mut k).unwrap();
            k
        };
        let keys = (expand_long(b"enc_key_a"), expand_long(b"enc_key_b"));
        let [output_key, mac_key] = short;
        self.output_key.replace(output_key);
        self.mac_key.replace(mac_key);
        self.enc_keys = Some(keys);
        keys
    }

    fn run_sim(&mut self) -> Option<usize> {
        let sig_ty''')])

RF('sg-open', [(SG, '''                let ciphertext = incoming_msg;
                let sig_mac_cert = auth_decrypt(self.enc_keys.as_ref().unwrap().0, ciphertext)?;
                let (sig_mac, incoming_cert_bytes) =
                    sig_mac_cert.split_at(sig_mac_cert.len() - SigmaCert::size(sig_ty));
                let (sig, incoming_mac) = sig_mac.split_at(IdSigmaSignature::size(sig_ty));

                let incoming_sig = IdSigmaSignature::from_bytes(sig_ty, sig);
                let incoming_cert = SigmaCert::from_bytes(sig_ty, incoming_cert_bytes)?;
                self.output_id = Some(incoming_cert.id);

                // Do the verifications. Check that the certificate verifies and that the signature and MAC verify
                // Check the certificate verifies
                self.mpk.verify(
                    &[&incoming_cert.id, incoming_cert.upk.as_bytes()].concat(),
                    &incoming_cert.sig,
                )?;
''', '''                let (enc_key_a, enc_key_b) = self.enc_keys.unwrap();
                let payload = match auth_decrypt(enc_key_a, incoming_msg) {
                    Ok(p) => p,
                    Err(e) => return Err(e.into()),
                };
                let cert_start = payload.len() - SigmaCert::size(sig_ty);
                let sig_end = IdSigmaSignature::size(sig_ty);
                let incoming_mac = &payload[sig_end..cert_start];
                let incoming_cert_bytes = &payload[cert_start..];

                let incoming_sig = IdSigmaSignature::from_bytes(sig_ty, &payload[..sig_end]);
                let incoming_cert = SigmaCert::from_bytes(sig_ty, incoming_cert_bytes)?;
                self.output_id = Some(incoming_cert.id);
                let _ = enc_key_b;

                let cert_msg = [&incoming_cert.id, incoming_cert.upk.as_bytes()].concat();
                if let Err(e) = self.mpk.verify(&cert_msg, &incoming_cert.sig) {
                    return Err(SigmaError::Sig(e));
                }
''')])

RF('sg-transcript', [(SG, '''                let sig = self.sig_privkey.sign(
                    &[
                        &[0x00],
                        self.nonces.1.as_ref().unwrap().as_slice(),
                        &self.ssid,
                        self.kem_pubkey.as_ref().unwrap().to_bytes().as_bytes(),
                        self.encapped_key.as_ref().unwrap().as_bytes(),
                        &cert_bytes,
                    ]
                    .concat(),
                );

                // Compute the MAC over the (ssid, ID)
                let mac = MyMac::new_from_slice(self.mac_key.as_ref().unwrap())
                    .unwrap()
                    .chain_update(&[0x00])
                    .chain_update(self.cert.id)
                    .finalize()
                    .into_bytes();

                // Encrypt (sig, mac, cert)
                let msg_to_encrypt = [&sig.to_bytes(), mac.as_slice(), &cert_bytes].concat();
                let ciphertext = auth_encrypt(&mut rng, enc_key_a, &msg_to_encrypt);
''', '''                let mac = self.id_mac(0x00);
                let mut msg_to_encrypt = self
                    .sig_privkey
                    .sign(&self.initiator_transcript(&cert_bytes))
                    .to_bytes();
                msg_to_encrypt.extend_from_slice(&mac);
                msg_to_encrypt.extend_from_slice(&cert_bytes);

                // Encrypt (sig, mac, cert)
                let ciphertext = auth_encrypt(rng, enc_key_a, msg_to_encrypt.as_slice());
'''), (SG, '''                incoming_cert.upk.verify(
                    &[
                        &[0x00],
                        self.nonces.1.as_ref().unwrap().as_slice(),
                        &self.ssid,
                        self.kem_pubkey.as_ref().unwrap().to_bytes().as_bytes(),
                        self.encapped_key.as_ref().unwrap().as_bytes(),
                        &incoming_cert_bytes,
                    ]
                    .concat(),
                    &incoming_sig,
                )?;
                MyMac''', '''                incoming_cert
                    .upk
                    .verify(&self.initiator_transcript(incoming_cert_bytes), &incoming_sig)?;
                MyMac'''), (SG, '''    fn run_sim(&mut self) -> Option<usize> {
        let sig_ty''', '''    fn initiator_transcript(&self, cert: &[u8]) -> Vec<u8> {
        let mut out = vec![0u8];
        out.extend_from_slice(&self.nonces.1.expect("no nonce"));
        out.extend_from_slice(&self.ssid);
        if let Some(pk) = &self.kem_pubkey {
            out.extend_from_slice(pk.to_bytes().as_bytes());
        }
        if let Some(ek) = self.encapped_key.as_ref() {
            out.extend_from_slice(ek.as_bytes());
        }
        out.extend_from_slice(cert);
        out
    }

    fn id_mac(&self, tag: u8) -> [u8; 32] {
        let mut m = MyMac::new_from_slice(self.mac_key.as_ref().unwrap()).unwrap();
        m.update(&[tag]);
        m.update(&self.cert.id);
        m.finalize().into_bytes().into()
    }

    fn run_sim(&mut self) -> Option<usize> {
        let sig_ty''')])

RF('sg-cert-get', [(SG, '''        let rest = bytes;
        let (id, rest) = rest.split_at(Id::default().len());
        let (upk_bytes, sig_bytes) = rest.split_at(match ty {
            IdSigmaSignatureScheme::Dilithium2 => dilithium_sig_pubkey_size(),
            IdSigmaSignatureScheme::Ed25519 => 32,
        });

        let (upk, sig) = match ty {
            IdSigmaSignatureScheme::Dilithium2 => (
                IdSigmaPubkey::Dilithium2(DilithiumPubkey::from_bytes(upk_bytes)?),
                IdSigmaSignature::Dilithium2(DilithiumSignature::from_bytes(sig_bytes)?),
            ),
            IdSigmaSignatureScheme::Ed25519 => (
                IdSigmaPubkey::Ed25519(
                    EdVerifyingKey::from_bytes(upk_bytes.try_into().unwrap()).unwrap(),
                ),
                IdSigmaSignature::Ed25519(EdSignature::from_bytes(sig_bytes.try_into().unwrap())),
            ),
        };

        Ok(Self {
            id: id.try_into().unwrap(),
            upk,
            sig,
        })
''', '''        let mut id = Id::default();
        let id_len = id.len();
        id.copy_from_slice(&bytes[..id_len]);
        let upk_len = if ty == IdSigmaSignatureScheme::Dilithium2 {
            dilithium_sig_pubkey_size()
        } else {
            32
        };
        let upk_bytes = bytes.get(id_len..id_len + upk_len).unwrap();
        let sig = IdSigmaSignature::from_bytes(ty, &bytes[id_len + upk_len..]);
        let upk = match ty {
            IdSigmaSignatureScheme::Dilithium2 => {
                DilithiumPubkey::from_bytes(upk_bytes).map(IdSigmaPubkey::Dilithium2)?
            }
            IdSigmaSignatureScheme::Ed25519 => {
                let arr: [u8; 32] = upk_bytes.try_into().expect("length checked");
                IdSigmaPubkey::Ed25519(EdVerifyingKey::from_bytes(&arr).unwrap())
            }
        };

        Ok(Self { id, upk, sig })
'''), (SG, '''#[derive(Copy, Clone)]
enum IdSigmaSignatureScheme''', '''#[derive(Copy, Clone, PartialEq, Eq)]
enum IdSigmaSignatureScheme''')])

RF('cp-ifelse', [(CP, '''        let out = match self.next_step {
            // Send the first message
            0 => {
                assert_eq!(incoming_msg.len(), 0);
                // Make a new CPace initiator and generate the first message
                let client = CPace::step1(
                    &self.password,
                    PROTO_ID_INIT,
                    PROTO_ID_RESP,
                    Some(self.ssid),
                )
                .unwrap();
                let out_msg = client.packet();
                self.step1_state = Some(client);

                Some(out_msg.to_vec())
            }
            // Receive the first message, derive the session key, and send the second message (my first outgoing message)
            1 => {
                // Process the first message
                let packet = incoming_msg.try_into().unwrap();
                let st = CPace::step2(
                    &packet,
                    &self.password,
                    PROTO_ID_INIT,
                    PROTO_ID_RESP,
                    Some(self.ssid),
                )
                .unwrap();

                // Derive the second message and the session key
                self.output_key = Some(st.shared_keys().k1);
                let out_msg = st.packet();

                // After sending this, we're done
                self.done = true;

                Some(out_msg.to_vec())
            }
            // Receive the second message and derive the session key
            2 => {
                // Process the second
                let packet = incoming_msg.try_into().unwrap();
                let shared_keys = self.step1_state.as_ref().unwrap().step3(&packet).unwrap();

                // Derive the session key
                self.output_key = Some(shared_keys.k1);

                // All done
                self.done = true;
                None
            }
            _ => panic!("protocol already completed"),
        };

        // The initiator does even steps, the responder does odd steps
        self.next_step += 2;

        Ok(out)
''', '''        let step = self.next_step;
        // The initiator does even steps, the responder does odd steps
        self.next_step = step + 2;
        if step > 2 {
            panic!("protocol already completed");
        }
        if step == 0 {
            assert!(incoming_msg.is_empty());
            let client = CPace::step1(&self.password, PROTO_ID_INIT, PROTO_ID_RESP, Some(self.ssid)).unwrap();
            let out_msg = client.packet().to_vec();
            self.step1_state.replace(client);
            return Ok(Some(out_msg));
        }
        let (keys, out) = if step == 1 {
            let st = CPace::step2(&incoming_msg.try_into().unwrap(), &self.password, PROTO_ID_INIT, PROTO_ID_RESP, Some(self.ssid)).unwrap();
            (st.shared_keys(), Some(st.packet().to_vec()))
        } else {
            let client = self.step1_state.take().unwrap();
            (client.step3(&incoming_msg.try_into().unwrap()).unwrap(), None)
        };
        self.output_key = Some(keys.k1);
        self.done = true;
        Ok(out)
''')])

RF('ch-loops', [(CH, '''        let tr = if self.role == PartyRole::Initiator {
            self.tr_sent
                .iter()
                .zip(self.tr_recv.iter())
                .flat_map(|(v, w)| [v.as_slice(), w.as_slice()].concat())
                .collect::<Vec<_>>()
        } else {
            self.tr_recv
                .iter()
                .zip(self.tr_sent.iter())
                .flat_map(|(v, w)| [v.as_slice(), w.as_slice()].concat())
                .collect::<Vec<_>>()
        };

        let pake_input = [
            alpha.compress().as_bytes().as_slice(),
            beta.compress().as_bytes().as_slice(),
            &tr.as_slice(),
        ]
        .concat();

        pake_input
''', '''        let (first, second) = match self.role {
            PartyRole::Initiator => (&self.tr_sent, &self.tr_recv),
            PartyRole::Responder => (&self.tr_recv, &self.tr_sent),
        };
        let mut pake_input = alpha.compress().to_bytes().to_vec();
        pake_input.extend(beta.compress().to_bytes());
        for (v, w) in first.iter().zip(second) {
            pake_input.extend_from_slice(v);
            pake_input.extend_from_slice(w);
        }
        pake_input
''')])

RF('ch-index', [(CH, '''        let tr = if self.role == PartyRole::Initiator {
            self.tr_sent
                .iter()
                .zip(self.tr_recv.iter())
                .flat_map(|(v, w)| [v.as_slice(), w.as_slice()].concat())
                .collect::<Vec<_>>()
        } else {
            self.tr_recv
                .iter()
                .zip(self.tr_sent.iter())
                .flat_map(|(v, w)| [v.as_slice(), w.as_slice()].concat())
                .collect::<Vec<_>>()
        };
''', '''        let n = self.tr_sent.len().min(self.tr_recv.len());
        let mut tr: Vec<u8> = Vec::new();
        for i in 0..n {
            if self.role == PartyRole::Initiator {
                tr.extend(&self.tr_sent[i]);
                tr.extend(&self.tr_recv[i]);
            } else {
                tr.extend(&self.tr_recv[i]);
                tr.extend(&self.tr_sent[i]);
            }
        }
''')])

RF('ch-start-pake', [(CH, '''                // Initialize the PAKE and send the first message
                let mut pake_state = P::new(&mut rng, self.ssid, &ibke_out, PartyRole::Initiator);
                let pake_msg = pake_state.run(&[])?;
                self.pake_state = Some(pake_state);

                pake_msg
''', '''                self.start_pake(&mut rng, &ibke_out, &[])?
'''), (CH, '''                // Initialize the PAKE, process the first message, and send the second
                let mut pake_state = P::new(&mut rng, self.ssid, &ibke_out, PartyRole::Responder);
                let pake_msg = pake_state.run(incoming_msg)?;
                self.pake_state = Some(pake_state);

                pake_msg
''', '''                self.start_pake(&mut rng, &ibke_out, incoming_msg)?
'''), (CH, '''    /// The first step of the Fiore-Gennaro IBKE
''', '''    /// Starts the PAKE over the IBKE output, and runs its first step
    fn start_pake<R: RngCore + CryptoRng>(
        &mut self,
        rng: R,
        password: &[u8],
        msg: &[u8],
    ) -> Result<Option<Vec<u8>>, P::Error> {
        let pake = self.pake_state.insert(P::new(rng, self.ssid, password, self.role));
        pake.run(msg)
    }

    /// The first step of the Fiore-Gennaro IBKE
''')])

RF('eu-ok', [(EU, '''        let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
            let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
            // If a decryption error occurred, we exit real mode and will just start sending zeros
            if pt.is_err() {
                self.real_mode = false;
                None
            } else {
                Some(pt.unwrap())
            }
        } else {
            // If the ciphertext is empty or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
            Some(Vec::new())
        };
''', '''        let mut incoming_msg = Vec::new();
        if self.real_mode && !incoming_ciphertext.is_empty() {
            if let Ok(pt) = auth_decrypt(self.msg_key, incoming_ciphertext) {
                incoming_msg = pt;
            } else {
                self.real_mode = false;
            }
        }
'''), (EU, '''&incoming_msg.unwrap())?''', '''&incoming_msg)?''')])

RF('eu-unwrap-or', [(EU, '''            if pt.is_err() {
                self.real_mode = false;
                None
            } else {
                Some(pt.unwrap())
            }
''', '''            self.real_mode = pt.is_ok();
            pt.ok()
'''), (EU, '''&incoming_msg.unwrap())?''', '''&incoming_msg.unwrap_or_default())?''')])

RF('eu-outmatch', [(EU, '''        let outgoing_ciphertext = outgoing_msg.map(|m| {
            if m.len() > 0 {
                auth_encrypt(&mut rng, self.msg_key, &m)
            } else {
                Vec::new()
            }
        });
''', '''        let outgoing_ciphertext = match outgoing_msg {
            Some(m) if m.is_empty() => Some(m),
            Some(m) => Some(auth_encrypt(&mut rng, self.msg_key, &m)),
            None => None,
        };
'''), (EU, '''        if !self.next_step_is_first {
            self.ratchet_keys();
        } else {
            // Otherwise, don't ratchet the keys, and mark the protocol begun.
            self.next_step_is_first = false;
        };
''', '''        let first = core::mem::replace(&mut self.next_step_is_first, false);
        if !first {
            self.ratchet_keys();
        }
''')])

RF('ae-checked', [(AE, '''    if sealed_msg.len() < mac_size + 12 {
        return Err(MacError);
    }
    let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
''', '''    let mac_start = sealed_msg.len().checked_sub(mac_size).ok_or(MacError)?;
    if mac_start < 12 {
        return Err(MacError);
    }
    let ciphertext_and_nonce = &sealed_msg[..mac_start];
    let mac = &sealed_msg[mac_start..];
''')])

RF('ae-rev', [(AE, '''    let mut ciphertext = msg.to_vec();
''', '''    let mut ciphertext = Vec::with_capacity(msg.len() + NONCELEN + TAGLEN);
    ciphertext.extend_from_slice(msg);
'''), (AE, '''    ciphertext.extend(&nonce);
''', '''    ciphertext.append(&mut nonce.to_vec());
''')])

RF('fg-beta', [(FG, '''                let alpha = incoming_eph_pk * eph_sk;
                let beta =
                    (incoming_eph_pk + incoming_X + (self.mpk.decompress().unwrap() * other_h))
                        * (eph_sk + self.cert.xhat);
''', '''                let alpha = eph_sk * incoming_eph_pk;
                let peer = self.mpk.decompress().unwrap() * other_h + incoming_X + incoming_eph_pk;
                let beta = peer * (self.cert.xhat + eph_sk);
'''), (FG, '''                let (macs, sess_key) = sess_hash.split_at(64);
                let (mac0, mac1) = macs.split_at(32);
                self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
                self.sess_key = Some(sess_key.try_into().unwrap());
''', '''                let mut chunks = sess_hash.chunks_exact(32);
                let mac0 = chunks.next().unwrap();
                let mac1 = chunks.next().unwrap();
                let sess_key = chunks.next().unwrap();
                self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
                self.sess_key = Some(sess_key.try_into().unwrap());
''')])

RF('fg-then', [(FG, '''                if !bool::from(mac1.ct_eq(incoming_mac1)) {
                    return Err(MacError);
                }
''', '''                let ok: bool = incoming_mac1.ct_eq(mac1).into();
                ok.then_some(()).ok_or(MacError)?;
'''), (FG, '''        if incoming_msg.len() > 0 {
            self.running_transcript_hash.input_ikm(incoming_msg);
        }
        out.as_ref()
            .map(|v| self.running_transcript_hash.input_ikm(v));
''', '''        for m in [Some(incoming_msg), out.as_deref()].into_iter().flatten() {
            if !m.is_empty() {
                self.running_transcript_hash.input_ikm(m);
            }
        }
''')])

RF('fg-struct', [(FG, '''        let (_, hk) = trh.finalize();
        let mut sess_key = [0u8; 32];
        hk.expand_multi_info(&[&self.ssid, b"fgibke-final"], &mut sess_key)
            .unwrap();

        (self.output_id.unwrap(), sess_key)
''', '''        let hk = trh.finalize().1;
        let info: Vec<u8> = self.ssid.iter().chain(b"fgibke-final").copied().collect();
        let mut out = (self.output_id.unwrap(), SessKey::default());
        hk.expand(&info, &mut out.1).unwrap();
        out
''')])
