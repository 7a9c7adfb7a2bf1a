#!/usr/bin/env python3
"""One description of every property; `python3 spec.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
L = 'latke/src/'
IB = [L + 'ibke/id_hmqv_c.rs', L + 'ibke/id_sig_dh.rs', L + 'ibke/id_sigma_r.rs', L + 'ibke/fg_ibke.rs']
PK = [L + 'pake/cake.rs', L + 'pake/cpace.rs', L + 'pake/kc_spake2.rs']
CO = [L + 'eue_transform.rs', L + 'latke.rs', L + 'chip.rs']
AE = [L + 'auth_enc.rs']
IC = [L + 'ideal_cipher.rs']
SB = ['saber-rust/src/generic.rs', 'saber-rust/src/poly.rs', 'saber-rust/src/params.rs']
DR = ['pqcrypto/pqcrypto-dilithium/src/ffi.rs', 'pqcrypto/pqcrypto-dilithium/src/dilithium2.rs', 'pqcrypto/pqcrypto-dilithium/src/dilithium3.rs', 'pqcrypto/pqcrypto-dilithium/src/dilithium5.rs']
DC = ['pqcrypto/pqclean/crypto_sign/dilithium2', 'pqcrypto/pqclean/crypto_sign/dilithium3', 'pqcrypto/pqclean/crypto_sign/dilithium5']

VF = 'interprocedural value-flow analysis (abstract interpretation with trace partitioning over symbolic byte provenance) of the MIR of the whole crate graph'

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech=VF, note='', rule='', na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, rule=rule, na=na))


WHY = 'The tests run each protocol once between two honest parties over an unmodified channel; '

P('P01', 'No session key or peer identity before the run is complete',
  'For every PAKE, identity-based key exchange and composed protocol here, a session that does not yet report completion never returns a session key or a peer identity: asking for one aborts. Completion is reported only after the last message of that role was accepted, so every earlier state, and every state after a rejected message, yields no key.',
  ['histories', 'inputs'], 'every sequence of calls on a session object up to and beyond completion, both roles, every protocol, any message contents',
  WHY + 'none asks an incomplete session for its key, and no finite set of call sequences covers the states a peer can leave a session in.',
  IB + PK + CO, [('completion flag and its assertion', 'finalize / is_done of every protocol type')],
  note='Every reachable call sequence (depth: one call beyond completion, one retry after a rejection) of each session type, with symbolic messages, is explored on MIR; the primitives are assumed ideal.',
  rule='For every abstract state reached by new_session/new and any sequence of run calls in which is_done is not definitely true, every path through finalize must panic. Composed protocols: any path through finalize that returns must take its value from the inner exchange, which must have been started.')

P('P02', 'A run completes only after the peer was cryptographically verified',
  'No key exchange with explicit authentication accepts a run unless a cryptographic check of the peer succeeded in it: the certificate under the main public key the session was given and, by protocol, a signature under the certified key, a full-length confirmation tag over the shared secret, or a MAC under the derived key over the identity. The check must cover data of this very run, so an authenticator from elsewhere cannot satisfy it.',
  ['inputs', 'histories'], 'every message an attacker can send at every step, both roles, every protocol with explicit authentication',
  WHY + 'a check that is skipped, weakened or applied to the wrong key still lets the honest run pass, and forged messages cannot be enumerated.',
  IB + [PK[2]], [('certificate, signature, tag and MAC checks on the path to completion', 'run_initiator / run_responder of each protocol')],
  note='Must-check analysis over all accepting paths of every role; a check only counts if its key, data and compared length are the right ones.',
  rule='On every path to a completed state: a certificate verification with key derived only from mpk and with received data must have succeeded; plus a signature verification with a key inside that certificate, or a constant-time comparison of >= 32 bytes derived from secret material, or a MAC verification over the reported identity under a derived key; and that check must depend on own randomness or the session identifier.')

P('P03', 'A message that fails a check is rejected and does not advance the run',
  'Whenever a check on a received message fails - signature, MAC, confirmation tag, certificate, or a malformed element - the call reports an error, the session is not complete, and no key can be obtained from it. A failed check is never downgraded, ignored or turned into acceptance.',
  ['inputs', 'fault_sequences'], 'every message and every step at which a check can fail, both roles, every protocol',
  WHY + 'they never exercise the failing side of most checks, and one forgotten error path among many is invisible to them.',
  IB + PK, [('error returns after failed checks', 'run of each protocol type')],
  note='For every abstract path on which some check evaluated to failure, the call must end in an error and the state must stay incomplete.',
  rule='No node reached by an accepted call has a failed signature / MAC / comparison / parse outcome in its path condition; nodes reached by an error are not done and finalize panics.')

P('P04', 'The reported peer identity is exactly the authenticated one',
  'The identity a completed identity-based exchange reports is byte for byte the identity that the verified certificate (or, for the certificate-free protocol, the verified confirmation tag) speaks about. The encrypting and password-hardening layers pass it through unchanged.',
  ['inputs', 'histories'], 'every accepting run, every peer message, both roles, every identity-based protocol and composition',
  WHY + 'peers there are honest, so an identity taken from an unauthenticated part of a message is indistinguishable from the certified one.',
  IB + CO, [('identity extraction and certificate verification', 'run_* and finalize of each identity-based protocol')],
  note='Byte-provenance comparison of the returned identity with the bytes inside the verified certificate, at the offset the key generation centre signs.',
  rule='On every completed path the returned 32-byte identity must be the same received bytes that sit at the identity position of the data passed to the successful certificate verification; for FG-IBKE it must be hashed into the verified tag; wrappers must return the inner value unchanged.')

P('P05', 'Every run is bound to its whole session identifier',
  'The session identifier given to a session, all 32 bytes of it, enters the session key or every authenticator a party sends and accepts, in every protocol and role, so two parties or runs with different identifiers never agree on a run. The composed protocols hand the same identifier to each inner protocol and derive their message keys from it.',
  ['inputs', 'histories'], 'every pair of session identifiers, every protocol, role and composition',
  WHY + 'both sides use one identifier, so dropping it (or part of it) from a derivation on both sides goes unnoticed.',
  IB + PK + CO, [('key derivations and signed messages', 'run_* of each protocol; inner session construction in the compositions')],
  note='Byte-coverage of the identifier in key and authenticator terms over all completed paths.',
  rule='For all completed paths the 32 bytes of the ssid parameter must be covered by those flowing into the session key (or, for the signature protocols, into both the accepted and the sent authenticator); inner session constructors must receive exactly the ssid; message keys of the encrypting layer must depend on all of it.')

P('P06', 'Every received byte is bound into the key or a verified check',
  'In a completed run every byte of every message received from the peer entered the session key or an authenticator, and in protocols with explicit authentication every peer contribution to the key was itself covered by a check that succeeded. The key always depends on a peer contribution and on randomness this party drew in this run.',
  ['inputs', 'histories'], 'every accepted message of every protocol and role, every modification of it by an attacker in the middle',
  WHY + 'no test alters single bytes of each message; malleable bytes or a static key keep all honest runs working.',
  IB + PK, [('transcript hashing, key derivation', 'run_* of each protocol')],
  note='Byte-range coverage of each received message over key and authenticator terms on all completed paths.',
  rule='For each accepted message on a completed path, the byte ranges flowing into the session key, verified checks or sent authenticators must cover the whole message; in confirmed protocols every received range flowing into the key must also flow into a verified check; the key must depend on a received message and on a random draw of this session.')

P('P07', 'No authenticator can be reflected; derived keys are separated by use',
  'The tag or signature a party sends never equals the one it expects back, by construction: they are separated by role. Session key, encryption keys, MAC keys and transmitted tags of one run are non-overlapping derived values, and the two directions never share an encryption key.',
  ['inputs', 'histories'], 'every completed run of every protocol and role, including peers that echo messages',
  WHY + 'merged labels or overlapping key slices leave both sides consistent with each other, so all of them pass.',
  IB + PK, [('KDF labels and key slicing', 'key derivation in each protocol')],
  note='Pairwise separation of derived-key byte ranges and of sent/expected authenticators on every completed path.',
  rule='For each pair (sent tag, expected tag), (sent signature message, expected signature message), (session key, other derived material), (encryption key, MAC key), (outbound key, inbound key): different PRF inputs distinguished by a constant at a fixed offset or by length, or disjoint slices of one output.')


P('P08', 'Secrets and nonces are fresh, full-size and never reused',
  'Every secret, nonce and ephemeral key is drawn in the session or key generation that uses it from a cryptographically secure generator, at full size, and no drawn bytes serve two purposes. The first value a party sends, and the session key of every exchange, depend on such a draw; no two encryptions share a key and nonce.',
  ['histories', 'inputs'], 'every run of every protocol and key generation, both roles, and all of their random draws',
  WHY + 'a constant, truncated or reused draw produces keys that agree and messages that parse, so every test still passes.',
  IB + PK + CO + AE + SB[:1], [('random draws', 'new_session / run / gen_* / extract / auth_encrypt and the Saber key generation')],
  note='Provenance and extent of every random draw on every path; secrets count their drawn bytes after slicing and copying.',
  rule='Every generator state a draw uses is the caller generator or the operating system; no two draw terms coincide; every secret term (scalar, KEM seed, stored randomness, nonce) is covered by a full draw; messages and session keys depend on a draw of the same run; per path no two cipher events have the same key and nonce.')

P('P09', 'Key generation and password files hold the right, complete, fresh key material',
  'Password files and keys are generated so that their parts belong together: public keys are the images of the private keys next to them, certificates are issued to exactly the given identity and key under the stored main public key, and password-derived values depend on the whole password. Every secret stored in them is freshly drawn at full size.',
  ['inputs'], 'every password, identity and generator, every key generation and password-file routine',
  'Tests use one or two passwords and identities; a truncated password, a swapped identity or a constant secret still gives files that work with each other.',
  IB + CO, [('gen_pwfile, gen_main_keypair, gen_user_keypair, extract', 'trait implementations and composed protocols')],
  note='Value-flow of the stored fields of each generated structure.',
  rule='Each field of the returned structures is compared with the routine it must come from (same call for matching pairs), with the parameters it must depend on entirely, and with the draws it must contain.')

P('P10', 'Authenticated encryption verifies before it releases and round-trips',
  'Decrypting what encryption produced under the same key returns the message, for every message and key; any other ciphertext, also one too short to hold nonce and tag, gives an error and never a plaintext. A plaintext is released only after a full 32-byte MAC over exactly the transmitted ciphertext and nonce was verified, and encryption and MAC use disjoint 32-byte parts of the key.',
  ['inputs'], 'every key, message, nonce and every received byte string, in the encrypting layer and in each protocol that encrypts',
  'Tests flip a few bytes; a MAC over part of the data, an overlap of keys or a release before the check needs specific ciphertexts to show.',
  AE + [CO[0], IB[2]], [('auth_encrypt / auth_decrypt', AE[0])],
  note='Symbolic composition of encryption with decryption over arbitrary-length messages; must-verify on every decrypting path.',
  rule='auth_decrypt(auth_encrypt(m)) folds to Ok(m); on each path of auth_decrypt returning Ok a full MAC check over ciphertext||nonce succeeded; in every protocol each decrypted received byte is covered by a preceding successful MAC.')

P('P11', 'A failed decryption leads to indistinguishable simulated messages',
  'When a message does not decrypt under the encrypting layer, the session does not fail: it goes on sending messages of exactly the size and at exactly the steps the real run would, encrypting zeros, never feeds the inner exchange again and never yields a key or identity. The simulated run of every inner exchange reports the message sizes and the completion of the real run.',
  ['histories', 'fault_sequences'], 'every step at which the first undecryptable message may arrive, every inner exchange and role',
  WHY + 'the simulated mode is entered only after an attack, at one of many steps.',
  [CO[0]] + IB, [('run_sim of each exchange; simulated mode of the encrypting layer', 'run / run_sim')],
  note='run_sim is compared with run from every reachable prefix, over symbolic lengths.',
  rule='For every prefix of an accepting run, the lengths returned by run_sim and its completion flag equal those of run; in the encrypting layer a failed decryption sets simulated mode, is never undone, does not touch the inner state and its outputs encrypt exactly run_sim zeros.')

P('P12', 'Message keys of the encrypting layer are never reused or kept',
  'Every message of the encrypting layer is protected by an encryption key and a MAC key of its own, derived from the layer key and the steps before it, that overlap neither each other nor a chain key, and the two parties derive the same keys for the same message. A key that has been used, and any value it could be recomputed from, is gone from the session when the call returns.',
  ['histories'], 'every sequence of calls, both roles, real and simulated mode',
  WHY + 'a key that does not change or is still stored afterwards makes no difference to honest parties.',
  [CO[0]], [('key ratchet', 'Eue::run')],
  note='Message-key terms compared over all histories; session memory searched for used keys and ancestors.',
  rule='Message keys of one history are pairwise distinct terms, each depends on the whole initial key; the initiator term of message i equals the responder term; after a call no term of the stored state equals a used key or a term from which only public data leads to it.')

P('P13', 'Every run takes a fixed sequence of messages and then ends',
  'A session accepts exactly the messages its protocol defines: the run completes after the same number of accepted messages on every path, initiator and responder numbers match, a call before completion never stalls without a message to send, and a completed run offers its session key. No message is processed after completion.',
  ['histories'], 'every sequence of calls, accepted and rejected messages, both roles, every protocol',
  WHY + 'only the one honest sequence is run, never a repeated, skipped or surplus step.',
  IB + PK, [('step counters', 'run of each protocol type')],
  note='Reachable call-sequence graph of every session type.',
  rule='All completed nodes of a session type have equal numbers of accepted and sent messages, matching between roles; a completed node has no accepting successor; every accepted call of an incomplete session returns a non-empty message or completes.')

P('P14', 'No secret leaves a session in the clear',
  'No message that a protocol sends contains secret bytes - randomness serving as a secret, private or session keys, password-derived values, shared secrets - other than encrypted or through a one-way function. Confirmation tags and session keys that share a derivation use disjoint bytes of its output.',
  ['inputs', 'histories'], 'every message of every protocol, both roles, all paths including rejections',
  WHY + 'a leaked byte in a message changes nothing for the honest peer.',
  IB + PK + CO, [('outgoing messages', 'run of each protocol type')],
  note='Byte-level provenance of everything sent.',
  rule='The segments of every sent rope must be public, one-way images (group elements, KDF/MAC/signature output not shared with the session key, KEM ciphertext) or masked by a keystream/ideal cipher; raw draws are allowed only if they serve nothing else (public nonces).')

P('P15', 'Received authenticators are compared in constant time',
  'Every comparison between attacker-supplied bytes and an expected tag or other secret-derived value is made by a constant-time operation over its whole length. Control flow of a session does not otherwise depend on secret bytes compared with received ones.',
  ['inputs'], 'every comparison in every protocol and in authenticated decryption, all paths',
  'Timing is invisible to functional tests: both comparisons give the same result.',
  IB + PK + AE, [('tag comparisons', 'run_* and auth_decrypt')],
  note='All comparison events of the explored paths are classified by operator and by the provenance of both sides.',
  rule='No variable-time equality (==, eq, memcmp, early-exit loop) event may have one operand with received bytes and the other depending on secrets.')

P('P16', 'The ideal cipher is a keyed permutation over the whole block',
  'Decryption of the ideal cipher inverts encryption for every key and every block, and vice versa. Every part of the output depends on the whole key and the whole input block, through at least four rounds that are separated from each other.',
  ['inputs'], 'every key and every block',
  'A test encrypts and decrypts a few random blocks; a dropped round, shared round labels or a partially used key still inverts.',
  IC, [('wide-block Feistel construction', IC[0])],
  note='Symbolic composition of both directions over one symbolic block.',
  rule='decrypt(k, encrypt(k, x)) and encrypt(k, decrypt(k, x)) fold to x; at least four keyed rounds with pairwise distinct domain constants; each round input covers the key; each output part depends on all input bytes.')

P('P17', 'Certificates bind the whole identity and the whole user key',
  'A certificate is a signature over the whole identity and the whole user public key, and the verifier checks it over the same layout with the same length. The key that authenticates the peer afterwards is the one that was certified; in the certificate-free protocol the user key is recomputed from the identity by the hash that key extraction used.',
  ['inputs'], 'every identity, user key and certificate, every certificate-based protocol and role',
  WHY + 'certificates there are honest, so a signature over part of the key or identity always verifies.',
  IB, [('extract and certificate verification', 'ibke implementations')],
  note='Layout comparison between the signing side (extract) and the verifying side of every role.',
  rule='In extract the signed rope contains all 32 identity bytes and full-length encodings of the user public key; on each completed path the verified rope has the same length, and the peer signature key lies within the certified key bytes.')

P('P29', 'CHIP runs its PAKE on a key input bound to credentials and identities',
  'In CHIP the input of the inner PAKE contains both exchanged messages in full, initiator first in both roles, and the two Diffie-Hellman values computed from own ephemeral, own credential, password key and the peer keys, with the hash of the peer identity and peer user key computed as in the credential. The PAKE runs in the right role with a secure generator.',
  ['inputs', 'histories'], 'every run, both roles, every peer message, password and identity',
  'The one test uses honest matching files; leaving a message or the identity hash out still agrees.',
  [CO[2]], [('ibke_step_2 and PAKE start', CO[2])],
  note='Provenance of the PAKE input on all paths of both roles.',
  rule='The rope passed to the PAKE constructor contains own message and received message directly; segments depending on r, R\' (ephemeral), and on r, xhat, Y, X\', R\' and hash(id, X\') (authenticated) exist; hash shape equals the one in gen_pwfile.')

P('P31', 'LATKE keys its encrypted exchange by the PAKE and binds all messages',
  'LATKE runs its PAKE over the whole main public key and, when the peer is known in advance, both identities with the initiator first; keys the encrypted exchange with the whole PAKE key; and passes on exactly the credentials of the password file. The final key is derived from all messages sent and received in the encrypted exchange and from the whole inner session key.',
  ['inputs', 'histories'], 'every run, both roles and both peer modes, every peer message',
  'The one test has honest parties with equal inputs, so dropping an input on both sides goes unnoticed.',
  [CO[1]], [('new_session, run, finalize', CO[1])],
  note='Provenance of inner constructor arguments and of the final key on all explored histories.',
  rule='Arguments of the inner constructors and the final KDF input are compared with the required sources; transcripts must cover each accepted message and each sent message.')


BP = 'bit-provenance dataflow analysis (abstract interpretation in a domain of linear forms over input bits, hash outputs and ring products) of the monomorphic MIR of the Saber crate'
SV = ['saber-rust/src/lightsaber.rs', 'saber-rust/src/saber.rs', 'saber-rust/src/firesaber.rs', 'saber-rust/src/non_generic.rs']
WHYS = 'The tests draw a handful of random keys and check that encapsulation and decapsulation agree; '

P('P19', 'Saber byte encodings of keys and polynomials are exact inverses',
  'For LightSaber, Saber and FireSaber, parsing any byte string of the right length as a public or secret key and serialising it again gives the same bytes. Every polynomial packing (13, 10, 6, 4 and 3 bits per coefficient, and the message packing) is undone exactly by its unpacking for every coefficient value, and packing what was unpacked gives the same bytes.',
  ['inputs'], 'every key byte string and every polynomial with any coefficients, all three parameter sets',
  WHYS + 'an encoding that loses one bit of one coefficient still yields agreeing secrets for most keys.',
  SB + SV, [('packing and unpacking of polynomials and keys', 'Poly::read_bytes_* / Poly::from_bytes_* and to_bytes / from_bytes of the key types')], tech=BP,
  note='Every output bit is traced to the input bits it is a function of, for all 256 coefficients; no bound. The IND-CPA secret key is covered as part of the full secret key.',
  rule='For each key type and each pack/unpack pair, the value-flow form of every bit of the round trip must be the very input bit (or zero above the packed width).')

P('P20', 'Saber keys, ciphertexts and messages are the specified functions',
  'For each parameter set (rank 2, 3, 4; binomial parameter 10, 8, 6; 3, 4, 6 reconciliation bits) the public key is the matrix seed and round(A s), the ciphertext is round(A^T s\') and the reconciliation data of b s\' plus the encoded message, and decryption is the matching reconciliation of b\' s. A is expanded from the published seed, secrets are the centred binomial sample of their seed, products are taken modulo x^256+1, and the encodings have exactly the specified sizes.',
  ['inputs'], 'every seed, noise seed, message, key and ciphertext, all three parameter sets',
  WHYS + 'a wrong rounding constant, a biased or narrow secret or a transposed matrix can still decrypt, with weaker security or rare failures.',
  SB + SV, [('IND-CPA key generation, encryption and decryption', 'indcpa_kem_keypair / indcpa_kem_enc / indcpa_kem_dec, gen_matrix, gen_secret, cbd, recon, Poly::mul')], tech=BP,
  note='Each output bit is compared, as a form over seed bits, hash output bits and ring products, with the specification computed in the same domain; polynomial multiplication is decided coefficient by coefficient. That decryption recovers the message except with the specified failure probability is a mathematical fact about these functions, not decided here.',
  rule='The form of every bit of pk, sk, ciphertext and decrypted message equals the form the specification gives; the product routine has, in each of its 256 output coefficients, exactly the 256 signed products of negacyclic multiplication; sizes equal the published ones.')

P('P21', 'Saber decapsulation re-encrypts and rejects implicitly',
  'Decapsulation re-encrypts the decrypted message with randomness derived from it and the public key hash, compares the result with the whole received ciphertext, and on any difference derives the shared secret from the stored random z instead of the ciphertext hash. Otherwise it derives exactly the secret of encapsulation: the hash of the ciphertext hash and of the second half of SHA3-512 over public key hash and a fresh random message, whose first half is the encryption randomness.',
  ['inputs'], 'every ciphertext (valid, altered or made up), secret key and public key, all three parameter sets',
  WHYS + 'they never alter a ciphertext, and no sample can show that every byte of it is compared.',
  SB + SV, [('encapsulation, decapsulation and ciphertext comparison', 'encapsulate / decapsulate / bytes_eq_mask / u8_eq_mask')], tech=BP,
  note='Hashes are uninterpreted functions of their whole input; the selection mask is decided by its two cofactors (all ciphertext bits equal, at least one different).',
  rule='The 64 hashed bytes of the secret are split: with every ciphertext bit equal to the re-encryption the first half is the ciphertext hash, with at least one different it is z; the second half, the message, the randomness and the re-encryption have the specified forms.')

P('P22', 'Saber control flow and addresses never depend on secrets',
  'Key generation, encapsulation and decapsulation take the same branches, use the same indices, slice bounds, loop counts and shift amounts and compare nothing with an early exit, whatever the secret key, rejection secret, noise or message is. So neither a decryption failure nor a key bit can be observed in which code runs.',
  ['inputs'], 'every secret key, message, noise seed and ciphertext, all three parameter sets',
  WHYS + 'a secret-dependent shortcut changes no output.',
  SB + SV, [('all code reachable from the public key encapsulation functions', 'keygen / encapsulate / decapsulate and their IND-CPA variants')], tech=BP,
  note='Source-level (MIR) control and address independence; what the compiler or the processor makes of it, and the hash library, are outside.',
  rule='Along the whole execution of each public operation every branch condition, index, slice bound, loop bound, shift amount and panic condition must be constant or free of secret taint; slice comparisons of tainted data count as branches.')

P('P23', 'Saber key and ciphertext parsers accept exactly the right length',
  'For each parameter set, from_bytes of the public key, the secret key, their byte forms and the ciphertext returns an error for every input whose length is not exactly the specified one. For inputs of the specified length it succeeds, and it panics for no input length.',
  ['inputs'], 'byte strings of every length, all three parameter sets',
  WHYS + 'none passes an input of a wrong length to every parser.',
  SB + SV + ['saber-rust/src/newtype.rs'], [('length checks', 'from_bytes of PublicKey, SecretKey, PublicKeyBytes, SecretKeyBytes, Ciphertext')], tech=BP,
  note='Lengths are partitioned by the constants the code compares them with; one representative decides each class because nothing but these comparisons looks at the length before the error is returned.',
  rule='For each parser, every class of lengths induced by its own comparisons is followed: the class of the specified length must return Ok, all others Err, none may panic.')


CV = 'path-sensitive interprocedural value-flow analysis (abstract interpretation with interval, linear and ring-valued terms, summarised loops) of the LLVM IR of the Dilithium C sources'
CW = ['pqcrypto/pqclean/crypto_sign/dilithium%d/%s/%s' % (k, v, f) for k in (2, 3, 5) for v in ('clean', 'avx2') for f in ('sign.c',)]
CP = ['pqcrypto/pqclean/crypto_sign/dilithium%d/%s/%s' % (k, v, f) for k in (2, 3, 5) for v in ('clean', 'avx2') for f in ('packing.c', 'poly.c', 'polyvec.c', 'rounding.c')]
WHYD = 'The tests sign and verify a handful of random messages with random keys; '

P('P25', 'Dilithium verification accepts only what the specification accepts',
  'For Dilithium2, 3 and 5, portable and AVX2, verification and signed-message opening accept only signatures of exactly the right length whose z is below gamma1 - beta in norm, whose hint is canonical (positions strictly increasing per row, counters monotone and at most omega, unused positions zero) and whose challenge equals, in every byte, the hash of mu and w1. Here mu is the hash of the public key hash and the whole message, and w1 applies the hint to A z - c t1 2^d as specified.',
  ['inputs'], 'every signature, message, length and public key, all three parameter sets, both implementations',
  WHYD + 'they never present a signature that is out of bounds, non-canonical or valid for another message, so a missing or weakened check is invisible.',
  CW + CP, [('verification and opening', 'crypto_sign_verify, crypto_sign_open, unpack_sig, poly_chknorm, use_hint, poly_challenge')], tech=CV,
  note='Every accepting path of verification is compared with the specification as value-flow terms over all inputs; only the intervals and ring products of the NTT are taken from summaries of the NTT functions.',
  rule='Each path of crypto_sign_verify that returns 0 must carry the facts: siglen equal to the constant; every z coefficient in the exact interval; hint counters, order and padding; equality of all challenge bytes with the hash whose input is, term for term, mu and the packed w1; and w1 must be UseHint of the exact residue class A z - c t1 2^d. crypto_sign_open may return 0 only through the same check on the same bytes.')

P('P26', 'Dilithium signing releases only signatures that reveal nothing',
  'For Dilithium2, 3 and 5, portable and AVX2, signing releases a signature only if z is below gamma1 - beta, the low bits of w - c s2 below gamma2 - beta, c t0 below gamma2 and the hints number at most omega; otherwise it starts again with nonces of y never used before for this message. The signature is the specified function of secret key and message: c = H(mu, w1) with mu = H(tr, message), y expanded from H(key, mu), w = A y, z = y + c s1, hints of w - c s2 + c t0. The signed message is that signature followed by the whole message.',
  ['inputs'], 'every secret key, message and message length, every number of rejected attempts, all three parameter sets, both implementations',
  WHYD + 'a signature that leaks the key through a skipped rejection or a reused nonce verifies like any other.',
  CW + CP, [('signing', 'crypto_sign_signature, crypto_sign, rejection loop')], tech=CV,
  note='One arbitrary attempt of the rejection loop is analysed with everything the earlier attempts may have changed left open; norm check, hint and encoding functions are taken as functions here and decided under P28.',
  rule='Each path of crypto_sign_signature that returns 0 must carry the norm facts for the residue classes of z, LowBits(w) - c s2 and c t0 and a bound on the sum of the hint counts; the data hashed into the challenge, the seed and nonces of y and each coefficient of z must equal the specification as forms modulo q; the nonce on every back edge must exceed those used. crypto_sign must sign and copy the whole message.')

P('P27', 'Dilithium key generation is the specified function of its 32 coins',
  'For Dilithium2, 3 and 5, key generation (from given coins and from fresh randomness) expands exactly 32 bytes into rho, rho\' and the signing key, samples s1 and s2 from rho\' with distinct nonces and computes t = A s1 + s2. The public key encodes rho and the high part of t, the secret key encodes rho, key, the hash of the whole public key, s1, s2 and the low part of t; every byte of both is determined this way.',
  ['inputs'], 'every coin string, all three parameter sets, both implementations',
  WHYD + 'keys with too little entropy, a repeated secret polynomial or a lost bit of t0 still sign and verify.',
  CW + CP, [('key generation', 'crypto_sign_keypair_det, crypto_sign_keypair, pack_pk, pack_sk, power2round')], tech=CV,
  note='Every byte of both keys is compared with the specification as a form over the seed; expansion of the matrix and the sampling of short vectors are taken as functions of seed and nonce.',
  rule='Along crypto_sign_keypair_det and crypto_sign_keypair each bit of pk and sk must be the specified form: hash output bytes at their positions, ETA - s with the sampled element of the right nonce, Power2Round of the exact residue class of A s1 + s2 in every coefficient.')

P('P28', 'Dilithium norm check, hints, signature encoding and NTT are exact',
  'For Dilithium2, 3 and 5 the norm check passes exactly when every coefficient is below its bound in absolute value, the hint of a coefficient is set exactly when the specified MakeHint sets it, and the hint count or position list is that of the set hints. The signature encoder writes challenge, z and the hint positions of each row in order with zero padding and cumulative counters, and the transforms evaluate at, and interpolate from, the 256 roots of x^256 + 1 without overflow.',
  ['inputs'], 'every polynomial with coefficients in the documented ranges, all three parameter sets, both implementations',
  WHYD + 'a boundary value that is off by one occurs once in thousands of signatures or never.',
  CP + ['pqcrypto/pqclean/crypto_sign/dilithium%d/%s/%s' % (k, v, f) for k in (2, 3, 5) for v, f in (('clean', 'ntt.c'), ('clean', 'reduce.c'), ('avx2', 'rejsample.c'))], [('helpers', 'poly_chknorm, poly_make_hint, polyz_pack, pack_sig, ntt, invntt_tomont')], tech=CV,
  note='Exact, over all inputs in range. The hand-written AVX2 assembly of the transforms is outside; it is assumed to compute the same transform.',
  rule='The accepting condition of poly_chknorm and each hint bit are compared, as step functions of one coefficient over its whole range, with the specification; the hint encoders by an invariant of one arbitrary iteration; the outputs of ntt and invntt_tomont as linear forms modulo q with the powers of 256 distinct roots of -1.')

P('P30', 'Dilithium samplers map the right stream bytes to every coefficient',
  'For Dilithium2, 3 and 5, portable and AVX2, each polynomial of the matrix A, of the secret vectors and of y is drawn from the SHAKE stream of its whole seed and its own nonce. Rejection sampling goes through that stream in order, also across further blocks, keeps exactly the candidates in range (below q for A; below 15 for eta 2, 9 for eta 4) with the specified value each and stops only when all 256 coefficients are filled, and y takes consecutive fields. The challenge takes its signs from the first 8 bytes of the stream of its seed and its tau positions from the bytes behind them, across further blocks too, accepting exactly those up to the current index, moving the coefficient it displaces and leaving the rest zero.',
  ['inputs'], 'every stream of candidates (any number of rejections and of further blocks), every seed and nonce, all three parameter sets, both implementations',
  WHYD + 'candidates at the boundary, streams with so many rejections that another block is needed and group positions of the vector code do not occur in them.',
  ['pqcrypto/pqclean/crypto_sign/dilithium%d/%s/%s' % (k, v, f) for k in (2, 3, 5) for v, f in (('clean', 'poly.c'), ('avx2', 'poly.c'), ('avx2', 'rejsample.c'))], [('samplers', 'rej_uniform, rej_eta, poly_uniform, poly_uniform_eta, poly_uniform_4x, poly_uniform_gamma1, poly_challenge')], tech=CV,
  note='The loops run an unknown number of times; each is decided by the invariant of one arbitrary iteration over a stream of unknown bytes. Vector lanes are followed bit by bit, with the table of lane orders read from the source. A sampler written so that the place in the stream is no loop variable is reported as undecided, not as held.',
  rule='For each stretch between loop headers the coefficients stored, the amount by which the output position grows and the input consumed must be those of the sequence of candidates in the stretch; the first state, the refills and the end must agree with the position in the stream; the range of candidates kept is computed exactly from the path conditions.')

P('P32', 'SHAKE and SHA-3 give the same bytes however the data is split into calls',
  'For the incremental SHAKE128, SHAKE256 and SHA3-256, -384 and -512 of both copies of fips202.c (PQClean\'s and the one the Rust crates link), absorbing an input in any number of calls of any lengths, finalising and squeezing in calls of any lengths yields the sponge construction over the Keccak permutation: each input byte is xored into the next byte of the rate, the permutation is applied exactly when a block is full, 0x1F (SHA-3: 0x06) is xored in right behind the last byte and 0x80 at the end of the block, and each output byte is the next byte of the rate. The one-shot functions, block-wise squeezing and copied contexts, and each lane of the four-way AVX2 functions, give the same bytes. No call writes outside its context and its output, and neither branches nor addresses depend on the data.',
  ['inputs', 'histories'], 'every input, every split of input and output into calls (every position in the block with every further length), all four lanes',
  'Each fill level of the block meets each length of the next piece in a different place of the code; known-answer tests hash a handful of lengths, and the calls of the signature code use fewer still.',
  ['pqcrypto/pqclean/common/fips202.c', 'pqcrypto/pqcrypto-internals/cfiles/fips202.c'] + ['pqcrypto/pqclean/crypto_sign/dilithium%d/avx2/fips202x4.c' % k for k in (2, 3, 5)], [('incremental', 'shake128_inc_absorb, shake256_inc_absorb, _finalize, _squeeze, _ctx_clone'), ('one shot', 'shake128, shake256, _absorb, _squeezeblocks'), ('four lanes', 'keccakx4_absorb_once, keccakx4_squeezeblocks')],
  tech='interprocedural dataflow (byte provenance over LLVM IR with an interval of the unknown length, induction over blocks)',
  note='The permutation itself is a function symbol (any deviation from Keccak-f changes every known answer). Contexts are reached through the public functions only, so their layout is free. Where a copy or an algorithm does its work in the same code, for the same rate, as one already followed from every position of the block, it is followed from the positions around the ends of words and of the block.',
  rule='For every position in the block the call with one more piece of unknown length n is followed with an interval for n; on each outcome every byte of the state and of the output must be the xor of exactly the input bytes and permutation outputs the sponge construction names, and the rest of the context that of the canonical context of the same position. What the code remembers at its second and third permutation must agree up to the bytes consumed, which extends the result to every length.')

P('P33', 'Every copy of the Keccak permutation is Keccak-f[1600] for every state',
  'For every 1600-bit state, the permutation in each copy of fips202.c (PQClean\'s and the one the Rust crates link), the assembly permutation of each AVX2 Dilithium (with the round constants it is called with) and both functions of each copy of keccak4x (24 and 12 rounds) turn the state, or each of the four interleaved states, into exactly what Keccak-f[1600] (for 12 rounds: its last 12) makes of it. They touch nothing outside the state.',
  ['inputs'], 'every value of the 1600-bit state, each of the four states of the vector versions',
  'Known-answer tests permute a few thousand states of one or two of the seven copies; the copies in pqcrypto-internals and both keccak4x have no tests, and a deviation on special states (a carry, a lane equal to a constant) is never sampled.',
  ['pqcrypto/pqclean/common/fips202.c', 'pqcrypto/pqcrypto-internals/cfiles/fips202.c', 'pqcrypto/pqclean/common/keccak4x/KeccakP-1600-times4-SIMD256.c', 'pqcrypto/pqcrypto-internals/cfiles/keccak4x/KeccakP-1600-times4-SIMD256.c'] + ['pqcrypto/pqclean/crypto_sign/dilithium%d/avx2/%s' % (k, f) for k in (2, 3, 5) for f in ('f1600x4.S', 'fips202x4.c')], [('scalar', 'KeccakF1600_StatePermute of both fips202.c'), ('assembly', 'f1600x4.S of dilithium2, 3 and 5 with the table passed by fips202x4.c'), ('vector C', 'KeccakP1600times4_PermuteAll_24rounds and _12rounds of both copies')],
  tech='dataflow with value numbering over the LLVM IR and the assembly source (words in algebraic normal form over the lanes of one round)',
  note='P32 covers what is put into the permutation and taken out of it. When a word has no short form (a wrong step early on), constants are folded through the same instructions for one fixed state, and a result that differs from Keccak-f is the violation; if it does not differ the copy is reported undecided. A branch on the state is followed both ways.',
  rule='Every 64-bit word is kept as an exclusive-or of masked products of rotated lanes of the last round that was recognised; a word equal to a lane of the next round becomes that lane. After the last instruction the 25 words in memory must be the 25 lanes after round 24, for every instance; each access must lie inside the state or a constant table.')

P('P24', 'Dilithium Rust API hands the C code the right objects and reports its verdict',
  'For Dilithium2, 3 and 5 every public function calls the C function of its own parameter set with its own arguments in their roles, whole and with their true lengths, and with output buffers at least as large as what is written; AVX2 code runs only where AVX2 was detected. Verification and opening return Ok exactly when the C function returned 0, keys, signatures and messages returned are exactly the bytes the C function wrote over the lengths it reported, and coins determine the key pair. Keys and signatures convert from and to bytes unchanged and only at lengths that fit, and the random source reports success only after filling the whole buffer.',
  ['inputs', 'histories'], 'every message, key, signature and byte string, every result of the C functions, with and without AVX2',
  WHYD + 'a swapped argument of the same type, a buffer that is too small for some lengths or an unexpected error code accepted as success needs an input or a fault they never produce.',
  DR + ['pqcrypto/pqcrypto-internals/src/lib.rs', 'pqcrypto/pqcrypto-traits/src/sign.rs'], [('bindings', 'verify_detached_signature, open, sign, detached_sign, keypair, keypair_det'), ('conversions', 'from_bytes, as_bytes'), ('randomness', 'PQCRYPTO_RUST_randombytes')],
  note='The C functions themselves are the subject of P25 to P28.',
  rule='Each public function is followed on symbolic arguments; on every outcome the one C call, its callee, argument provenance, buffer capacities, the return code the outcome rests on and the provenance of the value returned are compared with the required ones, and the declared type of each C function with its definition.')

# ------------------------------------------------------------------------------------------------
NA = []


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, 'analysis'))
    import registry
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, p['id']
    m = {'version': 1, 'setup_cmd': 'python3 analysis/facts.py', 'checks': [], 'not_applicable': []}
    for p in PROPS:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in registry.RULES:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 analysis/check.py %s' % p['id'], 'thorough_cmd': 'python3 analysis/check.py %s --thorough' % p['id'],
                                'technique': 'static analysis: ' + p['tech'], 'level': registry.RULES[p['id']]['level'], 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    design(registry)


def fill(text, name, lines):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + '\n'.join(lines) + '\n' + text[j:]


def design(registry):
    """the generated parts of DESIGN.md"""
    f = os.path.join(HERE, 'DESIGN.md')
    t = open(f).read()
    l = []
    for p in sorted(PROPS, key=lambda p: p['id']):
        l += ['### %s %s' % (p['id'], p['title']), '']
        if p['na']:
            l += ['Not applicable: ' + p['na'], '']
            continue
        l += ['*Decided by:* ' + p['tech'] + '.', '', '*Rule:* ' + p['rule'], '', '*Scope and bounds:* ' + p['note'], '', '*Why tests cannot:* ' + p['why'], '']
    t = fill(t, 'properties', l)
    seeds = json.load(open(os.path.join(HERE, 'seeds.json'))) if os.path.exists(os.path.join(HERE, 'seeds.json')) else {}
    l = ['| bug | property | what it needs | caught by |', '|---|---|---|---|']
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if os.path.isdir(os.path.join(HERE, 'seeded')) else []:
        m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        l.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), ', '.join(sorted(seeds.get(i, {}))) or '(none)'))
    t = fill(t, 'seeds', l)
    open(f, 'w').write(t)


if __name__ == '__main__':
    main()
