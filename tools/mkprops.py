#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if len(title) > 80: print('LONG', id, len(title), title)
    assert statement.count(". ") <= 2, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A certificate parses only if the embedded CA key really signed its bytes",
  "Reading a certificate (from text, bytes or a file) succeeds only when the signature it carries is a cryptographically valid signature, by the CA public key it carries, over exactly the certificate bytes that precede it. Consequently changing, inserting or removing any byte of the signed part, substituting another CA key, or reusing a signature of another certificate is always rejected. This holds for every subject and CA key type, every field size, and regardless of what was parsed before.",
  ["inputs", "histories"], "all byte strings offered as certificates: genuine ones of every key type and CA type, every single-field or byte-level alteration of them, spliced signatures, swapped CA keys; any order of parsing",
  "The tests hold about ten altered certificates; an alteration that slips through for one field, one length class, one CA type or only after a previous success is not sampled.",
  ["src/ssh/cert.rs", "src/ssh/signature.rs"],
  [("signed region is everything before the signature field", "Certificate::from_bytes: signed_len / set_offset(0) / read_raw_bytes"), ("verify_signature", "src/ssh/signature.rs")],
  observe=["Certificate::from_bytes", "Certificate::from_string", "Certificate::from_path"])

p("C02", "Every well-formed, correctly signed certificate is accepted and decoded exactly",
  "A certificate that is encoded as OpenSSH specifies and correctly signed by a supported CA key is accepted, whoever produced it (OpenSSH itself included). Every decoded field - type, nonce, subject key, serial, kind, key id, principals in order, validity bounds, critical options, extensions, CA key, signature, comment - equals what was encoded, and the retained serialisation is byte-identical to the input; a line whose label differs from the encoded type is refused.",
  ["inputs", "configurations"], "every subject key type (RSA of any size, ECDSA P-256/384/521, Ed25519, both security-key types) x every supported CA type and signature hash, all field values including empty, maximal, non-ASCII and multi-kilobyte ones",
  "The tests decode one or two fixed certificates per key type; field combinations, boundary values of serial and validity, many principals or long options are not sampled.",
  ["src/ssh/cert.rs", "src/ssh/pubkey.rs", "src/ssh/keytype.rs", "src/ssh/reader.rs"],
  [("field-by-field decoding", "Certificate::from_bytes"), ("read_options / read_principals", "src/ssh/cert.rs"), ("key type table", "KeyType::from_name")],
  observe=["Certificate::from_bytes", "Certificate::from_string"])

p("C03", "An issued certificate grants exactly what the issuer asked for",
  "A certificate produced by building and signing carries exactly the values given to the builder (subject key, kind, serial, key id, principals in order, validity, critical options, extensions, CA key) in a well-formed OpenSSH encoding with options in lexical order. Both the returned object and the serialised text say the same thing: independent decoders and OpenSSH read back the same values, accept the signature, and the library re-reads its own output. A certificate kind given by name is the kind that is named.",
  ["inputs", "configurations", "histories"], "all builder call sequences (setters repeated, replaced, interleaved) with arbitrary strings, maps and integers, all subject types, all signing-capable CA key types",
  "The tests issue a few dozen certificates with short ASCII fields and compare with themselves; wrong bytes for an unusual value, size or call order are not sampled.",
  ["src/ssh/cert.rs", "src/ssh/writer.rs"],
  [("to-be-signed encoding", "Certificate::tbs_certificate"), ("string vector / map encoders", "Writer::write_string_vec, write_string_map"), ("serialized = tbs || signature", "Certificate::add_signature")],
  observe=["Certificate::builder and setters", "Certificate::sign", "Certificate::serialized", "Display"])

p("C04", "Issuance never yields a certificate with a bad signature, whatever the signer",
  "Attaching a signature, or signing through any signer, returns a certificate only if that signature verifies for exactly this certificate under the CA key declared to the builder. A signer that fails, returns garbage, signs other data, signs with another key, or returns a signature made for a different certificate makes issuance return an error. The signer is asked to sign exactly the bytes that end up in front of the signature.",
  ["inputs", "fault_sequences", "histories"], "all signer behaviours (correct, failing, empty, truncated, bit-flipped, wrong key, wrong data, replayed, differently labelled signatures) for all CA types and certificate contents, in any sequence",
  "Tests use correct signers and two or three wrong ones with one certificate; a fault class accepted for one CA type or after an earlier success is not sampled.",
  ["src/ssh/cert.rs", "src/ssh/signature.rs"],
  [("verify before accepting", "Certificate::add_signature"), ("signer called with tbs bytes", "Certificate::sign")],
  observe=["Certificate::sign", "Certificate::add_signature"])

p("C05", "A signature counts only under its key's own algorithm, curve and token data",
  "Wherever signatures are verified, the algorithm named in a signature must belong to the verifying key: RSA keys accept only the RSA algorithm actually named, ECDSA keys only their own curve, plain keys only plain labels and security keys only their own security-key label. For security keys the signature additionally binds the application string, the flags byte and the counter, so altering any of them is rejected. Scalars that are zero, over-long, negative or non-minimally encoded are rejected.",
  ["inputs", "configurations"], "all pairs (key type, signature label), all wrong-hash and wrong-curve combinations, all flag/counter/application alterations, all malformed r/s encodings, through certificates and detached signatures alike",
  "Tests check a few mismatched labels; the full label x key matrix and the authenticator-data bits are not covered.",
  ["src/ssh/signature.rs", "src/ssh/keytype.rs", "src/ssh/pubkey.rs"],
  [("label/key type comparison and algorithm selection", "verify_signature"), ("security-key signed blob", "verify_signature")],
  observe=["Certificate::from_bytes", "VerifiedSshSignature::from_ssh_signature", "Certificate::add_signature"])

p("C06", "A detached signature verifies only for its message, namespace and key",
  "Verifying a detached SSH signature succeeds only if the embedded key made it over exactly this message, with exactly the requested namespace and the hash named in it, and - when the caller names an expected key - the embedded key is that very key. Any other message, namespace (including case, prefix, suffix, blank or empty variants), key, hash name, version or magic is rejected, and so is a signature made for an empty namespace. The verified object reports the same message, namespace and key that were checked.",
  ["inputs", "histories"], "all (signature, message, namespace, expected key) tuples: genuine ones of every key type and hash, and all single-component alterations, in any order",
  "Tests verify a handful of fixed signatures and three or four mismatches; near-miss namespaces, long or empty messages and order effects are not sampled.",
  ["src/ssh/signature.rs"],
  [("signed-blob reconstruction", "SshSignature::to_signed_format"), ("key and namespace comparison", "VerifiedSshSignature::from_ssh_signature")],
  observe=["SshSignature::from_armored_string", "VerifiedSshSignature::from_ssh_signature"])

p("C07", "Genuine detached signatures verify and survive armoring, both ways with OpenSSH",
  "Every detached signature made by OpenSSH or any conforming signer with a supported key verifies here for its message, namespace and key, also when the expected key was loaded with a comment. Every detached signature created here verifies in OpenSSH and here, for every message, non-empty namespace, hash and signing-capable key. Printing a signature in armored form and parsing it back yields the same key, namespace, hash and signature bytes.",
  ["inputs", "configurations"], "all messages (empty to large, any bytes), non-empty namespaces, both hashes, all supported key types",
  "Tests hold about ten fixed signatures and create a few; armor line-length boundaries, sizes and key/hash combinations are not sampled.",
  ["src/ssh/signature.rs", "src/utils.rs"],
  [("armoring", "Display for SshSignature, SshSignature::from_armored_string"), ("creation", "VerifiedSshSignature::new_with_private_key")],
  observe=["VerifiedSshSignature::new_with_private_key", "Display", "SshSignature::from_armored_string"])

p("C08", "Public keys decode exactly and re-encode to the identical key line",
  "Every OpenSSH public key line or blob of a supported type is accepted, its components (exponent and modulus, curve and point, key bytes, application, comment) equal the encoded ones, and encoding it again gives the identical blob and an equivalent line. A line or blob whose parts disagree - outer label against inner type, key type against curve, certificate type where a key is expected, truncation inside a field - is rejected. Distinct keys never compare or encode equal.",
  ["inputs"], "all key types, RSA moduli and exponents of all sizes including those with high bit set, all points, applications and comments; all truncations and label substitutions",
  "Tests parse one key per type; component boundaries (leading zeros, sizes), the label matrix and truncations are not sampled.",
  ["src/ssh/pubkey.rs", "src/ssh/keytype.rs", "src/ssh/writer.rs"],
  [("decoder", "PublicKey::from_string / from_bytes / from_reader"), ("encoder", "PublicKey::encode, write, Display")],
  observe=["PublicKey::from_string", "PublicKey::from_bytes", "PublicKey::encode", "PublicKey::write"])

p("C09", "Fingerprints are OpenSSH's and identify the key, nothing else",
  "The fingerprint of a key is the unpadded base64 of the chosen digest (SHA-256 by default, SHA-384 or SHA-512) of the key's wire encoding, as OpenSSH prints it, and its text form names the digest. It does not depend on comments, on how the key was loaded (line, blob, file, private key, certificate), or on earlier computations, and the reported key size matches the key.",
  ["inputs", "histories"], "all keys of all types x three digests x all ways of obtaining the same key",
  "Tests compare a few fixed fingerprints, mostly SHA-256; digests, lengths and loading paths are not crossed.",
  ["src/ssh/pubkey.rs", "src/ssh/privkey.rs"],
  [("digest and unpadded base64", "Fingerprint::compute"), ("fingerprint / fingerprint_with / bits", "src/ssh/pubkey.rs")],
  observe=["PublicKey::fingerprint", "PublicKey::fingerprint_with", "Fingerprint::compute", "Display"])

p("C10", "Unencrypted private key files are read exactly and written back byte for byte",
  "Reading any unencrypted OpenSSH private key file of a supported type yields exactly its key material, public key and comment, and writing it again reproduces the identical file. Keys generated by the library are written as files that OpenSSH and the library itself load as the same key. A PIN or device path set for using a token is never written, and the printed form of a private key is its fingerprint and comment.",
  ["inputs", "configurations"], "all private keys of all types (RSA, ECDSA P-256/384/521 with scalars of any byte length, Ed25519, both security-key types with any flags, handle and reserved data), all comments and hence all paddings, all check integers; generated keys",
  "Tests round-trip one file per type; padding classes, short scalars, reserved data and generated keys against OpenSSH are not covered.",
  ["src/ssh/privkey.rs", "src/ssh/writer.rs"],
  [("decoder", "PrivateKey::from_string, read_private_key"), ("encoder", "PrivateKey::encode, write"), ("generation", "PrivateKey::new")],
  state=[("magic", "check integer kept for byte-exact rewriting", "PrivateKey.magic")],
  observe=["PrivateKey::from_string", "PrivateKey::from_path", "PrivateKey::write", "PrivateKey::new"])

p("C11", "Encrypted private keys open with the right passphrase and with nothing else",
  "A passphrase-protected OpenSSH private key (the default cipher and KDF) opens with its passphrase, yielding exactly the key that was encrypted. With any other passphrase, or none, reading returns an error and never a key; an unsupported cipher or KDF is an error; an unencrypted key is read the same whether or not a passphrase is supplied.",
  ["inputs"], "all key types x all passphrases (empty-ish, long, non-ASCII, prefix/suffix/case variants of the right one) x salts and KDF rounds",
  "Tests hold a few encrypted files with one right and one wrong passphrase each.",
  ["src/ssh/privkey.rs"],
  [("KDF and cipher", "PrivateKey::from_reader"), ("check integers after decryption", "PrivateKey::from_reader")],
  observe=["PrivateKey::from_string_with_passphrase", "PrivateKey::from_path_with_passphrase"])

p("C12", "Inconsistent or damaged private key files are rejected",
  "A private key file is rejected when its check integers differ, when its declared public key differs in any way from the public key inside the private section (any component, including a security key's application), when it declares a number of keys other than one, when its magic, armor or base64 is damaged, when any part is truncated, or when anything but the padding 1, 2, 3, ... follows the key or anything at all follows the private section.",
  ["inputs"], "all alterations of those kinds of valid files of every key type",
  "Tests contain two or three damaged files; the component-wise mismatch matrix and truncation points are not sampled.",
  ["src/ssh/privkey.rs"],
  [("check integers", "PrivateKey::from_reader m1 != m2"), ("outer/inner public key comparison", "PrivateKey::from_reader"), ("key count", "PrivateKey::from_reader")],
  observe=["PrivateKey::from_string"])

p("C13", "Signing with a private key always yields a signature valid under its public key",
  "For every loadable software private key of a signing-capable type, signing any data yields a signature in SSH format that independent verification accepts under the corresponding public key - also for keys whose scalar or signature integers have leading zero bytes. A key that cannot sign (unsupported curve, private part not matching the public part, malformed key material) yields no signature rather than an invalid one.",
  ["inputs"], "all private keys including those with short scalars, all data lengths; all mismatched or malformed private/public combinations",
  "One in 256 random ECDSA keys has a short scalar and one in 128 signatures has a short integer; tests use a few fixed keys that do not.",
  ["src/ssh/privkey.rs", "src/utils.rs"],
  [("key pair construction with consistency check", "SSHCertificateSigner for PrivateKey"), ("signature formatting", "format_signature_for_ssh")],
  observe=["SSHCertificateSigner::sign on PrivateKey"])

p("C14", "Private key material is wiped from memory when a key is dropped",
  "When a private key object is dropped - after loading, generation, cloning, signing, replacement or unwinding - every secret component it held (private exponent, primes, CRT values, scalar, seed, key handle, PIN) has been overwritten with zeros in the memory it occupied before that memory is released.",
  ["histories", "inputs"], "all key types, all secret components, all ways of obtaining and dropping a key object",
  "No test looks at memory after drop.",
  ["src/ssh/privkey.rs"],
  [("zeroize on drop", "Drop for PrivateKey, Zeroize derives")],
  observe=["global allocator dealloc of the secret buffers"])

p("C15", "No input makes a parser or verifier panic, overflow, hang or over-allocate",
  "Every function that takes untrusted data - certificates, public and private keys, detached signatures, allowed-signers files, FIDO authenticator data and attestations, PIV attestation chains, X.509 certificates and requests, DER keys and signatures, and raw wire data - returns a result or an error for every input. It never panics, performs no arithmetic overflow, terminates in time and uses memory bounded by a small multiple of the input size.",
  ["inputs"], "all byte strings and texts, in particular truncations, length-field lies, splices and mutations of valid inputs of every kind",
  "Tests feed a handful of malformed inputs to a few of the parsers.",
  ["src/ssh/*.rs", "src/fido/parsing.rs", "src/fido/verification.rs", "src/yubikey/verification.rs", "src/x509/mod.rs", "src/utils.rs"],
  [("bounds-checked reading", "Reader"), ("error propagation", "Result everywhere")],
  observe=["every public parsing and verification function"])

p("C16", "The SSH wire reader and writer are exact inverses, and reads are all-or-nothing",
  "Any sequence of values written through the writer is read back as the same values by the same sequence of reads, and the bytes are those RFC 4251 defines (big-endian integers, length-prefixed strings, minimal non-negative integers, NUL-terminated strings). A read that does not fit, or an integer that is negative or not minimally encoded, is an error; the position always equals the number of bytes consumed, a value is never taken from beyond the end, and repositioning followed by a read gives what is at that position.",
  ["histories", "inputs"], "all operation histories on readers and writers, all buffers, positions and lengths including ones at and past the end",
  "Tests exercise each operation alone on short buffers.",
  ["src/ssh/reader.rs", "src/ssh/writer.rs"],
  [("offset accounting and bounds checks", "Reader"), ("length prefixes", "Writer")],
  state=[("offset", "current read position", "Reader")],
  observe=["Reader", "Writer"])

p("C17", "Allowed-signers entries mean exactly what is written, or are refused",
  "Parsing an allowed-signers line of the documented format yields exactly its principals, CA flag, namespaces and key, with quoting, option order, option-name case, blanks and comments handled as documented; a file yields its entries in order, skipping blank and comment lines. A line with empty or missing principals, a repeated namespaces or validity option, an unknown option, stray quotes or text, a missing or bad key, or contradictory validity bounds makes parsing fail, and one bad line fails the whole file - never a silently widened entry. An entry that was read, written out and read again is the same entry.",
  ["inputs", "histories"], "all entries built from the grammar (quoted or not, any option order, any blanks and comments, all key types), and all single-fault variants; files of any length and mixture",
  "Tests hold about thirty lines; combinations of quoting, order, comments and faults are not sampled.",
  ["src/ssh/allowed_signer.rs"],
  [("tokeniser", "AllowedSignerSplitter"), ("option loop", "AllowedSigner::from_string"), ("line loop", "AllowedSigners::from_string")],
  observe=["AllowedSigner::from_string", "AllowedSigners::from_string", "AllowedSigners::from_path"])

p("C18", "Allowed-signers validity times denote the right instant in every time zone",
  "A validity bound written as a date, date and minute, or date and second, is the Unix time of that instant: in UTC when suffixed with Z, otherwise in the local time zone of the process, daylight-saving changes included. Anything that is not such a timestamp, including impossible dates and times, is refused, and an entry whose end does not come after its start is refused.",
  ["inputs", "configurations"], "all calendar dates and times, all time zones including half-hour offsets and daylight-saving gaps and overlaps",
  "Tests use a few fixed UTC stamps and the time zone of the test machine.",
  ["src/ssh/allowed_signer.rs"],
  [("timestamp parser", "parse_timestamp")],
  observe=["AllowedSigner::from_string valid_after / valid_before under TZ=..."])

p("C19", "FIDO attestation verifies only with an intact chain from the root to the data",
  "Verifying a FIDO attestation succeeds only if the attestation certificate is signed by the chosen root and its key signed exactly this authenticator data together with exactly this challenge, under the declared algorithm. Altering any of the data, challenge, signature, certificate, root or algorithm is rejected, and by default the root is Yubico's. On success the reported authenticator data, firmware, device identifier and transports are exactly those in the signed data and the signed certificate.",
  ["inputs", "configurations"], "all attestations made by a software authenticator under its own root, with every field varied, and all single-component alterations",
  "Tests hold a few recorded attestations and one or two alterations.",
  ["src/fido/verification.rs", "src/fido/generate/mod.rs"],
  [("chain and signature checks", "verify_auth_data"), ("extension extraction", "extract_certificate_extension_data")],
  observe=["fido::verification::verify_auth_data", "U2FAttestation::verify"])

p("C20", "FIDO authenticator data decodes exactly and gives the right SSH security key",
  "Decoding authenticator data yields exactly its relying-party hash, flags, counter, device identifier, credential id and key; presence and verification are reported exactly as flagged; data that is truncated or carries no key is refused. The SSH public key derived from it is the security key that OpenSSH would show for that credential and application, for both Ed25519 and ECDSA credentials, and verifies that credential's signatures.",
  ["inputs"], "all flags, counters, credential-id lengths, both key algorithms, all applications; all truncations",
  "Tests hold recorded data of a few Ed25519 credentials.",
  ["src/fido/parsing.rs"],
  [("binary and CBOR decoding", "AuthData::parse"), ("key conversion", "AuthData::ssh_public_key")],
  observe=["AuthData::parse", "AuthData::ssh_public_key"])

p("C21", "PIV attestation needs an intact chain and reports exactly what was attested",
  "Verifying a PIV attestation succeeds only if the intermediate certificate is signed by the chosen root and the device certificate by that intermediate; any alteration, swap or replacement of either certificate or of the root is rejected, and by default the root is Yubico's. On success the reported key, firmware version, serial number, PIN policy and touch policy are exactly those in the device certificate; a certificate lacking one of them or with a malformed one is refused.",
  ["inputs", "configurations"], "all chains made by a software PIV attester under its own root (RSA and ECDSA issuers), with every attested field varied, and all single-component alterations",
  "Tests hold two recorded chains and a few swaps.",
  ["src/yubikey/verification.rs", "src/x509/mod.rs"],
  [("chain checks", "verify_certificate_chain"), ("extension extraction", "extract_certificate_extension_data")],
  observe=["yubikey::verification::verify_certificate_chain"])

p("C22", "SSH keys extracted from X.509 certificates, requests and DER are the right keys",
  "Converting an X.509 certificate, certificate request or DER public key that holds a P-256 or P-384 key yields exactly the SSH public key with that point and curve. Anything else - other key types or curves, or data that is not such an object - is refused rather than converted to a different key.",
  ["inputs"], "certificates, requests and keys from independent generators with every supported and unsupported key type, and mutations",
  "Tests convert three or four fixed objects.",
  ["src/x509/mod.rs"],
  [("OID dispatch", "convert_x509_pki_to_pubkey, der_encoding_to_ssh_public_key")],
  observe=["x509::extract_ssh_pubkey_from_x509_certificate", "x509::extract_ssh_pubkey_from_x509_csr", "x509::der_encoding_to_ssh_public_key"])

p("C23", "External signatures convert to SSH format without changing their value",
  "Converting a DER-encoded ECDSA signature of a supported curve (P-256, P-384) to SSH format preserves both integers exactly, whatever their length or leading zeros, so that a signature valid before is valid after; Ed25519 and RSA signatures are wrapped unchanged under the label of the key (RSA under its SHA-512 label). Input that is not a DER pair of integers is refused.",
  ["inputs"], "all r, s byte lengths from 1 to the curve size, with and without sign padding, both curves and plain or security keys, and all malformed encodings",
  "Tests convert a few fixed signatures; short integers occur once in 128.",
  ["src/utils.rs"],
  [("DER splitting", "asn_der_to_r_s"), ("wrapping", "format_signature_for_ssh")],
  observe=["utils::asn_der_to_r_s", "utils::signature_convert_asn1_ecdsa_to_ssh", "utils::format_signature_for_ssh"])

p("C24", "Fresh randomness in every new certificate and generated key",
  "Every new certificate starts with an unpredictable 32-byte nonce and an unpredictable serial, and every generated key has fresh key material and check value; none of them ever repeats or is constant in part, however many are made, in whatever order, on however many threads or forked processes. A serial set by the caller is kept.",
  ["histories", "schedules"], "all sequences and interleavings of certificate construction and key generation, within one process and across processes",
  "Tests never compare two runs.",
  ["src/ssh/cert.rs", "src/ssh/privkey.rs"],
  [("system randomness", "Certificate::builder, PrivateKey::new")],
  observe=["Certificate::builder", "PrivateKey::new"])

p("C25", "Results depend only on the arguments, never on history or other threads",
  "Parsing, verifying, encoding and fingerprinting give the same answer for the same arguments every time: after any sequence of other successful or failed operations, from any thread, and while any number of other threads do the same or different work. Input objects are not changed by use, and cloned objects are independent of and equal to their originals.",
  ["schedules", "histories"], "all interleavings and orders of operations on shared and separate objects",
  "Tests run each operation once in a fresh process state.",
  ["src/ssh/*.rs", "src/fido/*.rs", "src/yubikey/verification.rs", "src/x509/mod.rs"],
  [("no shared mutable state", "whole crate")],
  observe=["all public parsing, verification and encoding functions, called concurrently and repeatedly"])

p("C26", "What a certificate prints is what it is",
  "The one-line text form of a certificate is its type, its base64 body and its key id, and reads back as the same certificate whenever it was issued or parsed. The detailed form shows the certificate's true type, subject and CA fingerprints, key id, serial, validity (\"forever\" only for an unbounded one), and every principal, critical option and extension, with nothing added or left out.",
  ["inputs"], "all certificates of all types, any number of principals, options and extensions, boundary validity values",
  "No test compares the printed form beyond one or two fixed strings.",
  ["src/ssh/cert.rs"],
  [("formatting", "Display for Certificate")],
  observe=["format!(\"{}\"), format!(\"{:#}\")"])

p("C27", "PIV token operations use the right data, slot and key, and report the truth",
  "With a PIV token attached, the key reported for a slot is the key in that slot's certificate; signing with a slot asks the token to sign exactly the digest of the given data that matches the slot's curve, with that slot and no other, and yields an SSH signature valid under the reported key. Asking for an algorithm the slot does not hold, or using an empty slot or a token that refuses, is an error; certificate requests and provisioned certificates carry the slot's own key and the given name, and verify. Only the token that was opened and the slot that was named are touched, a wrong PIN costs at most one attempt, and provisioning for a name that does not fit in a certificate is refused before the slot's key is replaced.",
  ["inputs", "histories", "fault_sequences"], "all slots, both curves, all data, sequences of unlock / provision / sign / fetch operations on an emulated token that may refuse or answer with errors",
  "The token code is not run by any test: it needs hardware.",
  ["src/yubikey/piv/management.rs", "src/yubikey/piv/ssh.rs"],
  [("slot algorithm dispatch and digest choice", "Yubikey::sign_data"), ("public key extraction", "Yubikey::ssh_cert_fetch_pubkey"), ("SSH formatting", "Yubikey::ssh_cert_signer")],
  observe=["APDUs received by an emulated PC/SC card", "Yubikey::* results"])

p("C28", "FIDO token signing and enrolment bind the right application, credential and data",
  "With a FIDO token attached, signing with a security-key private key asks the token to sign the SHA-256 of exactly the given data for that key's application and credential handle, once, and yields an SSH security-key signature valid under its public key with the flags and counter the token gave; if the token does not hold the key, refuses, wants another PIN or answers nonsense, the call ends without a signature. Enrolling a key asks for the given application with a fresh unpredictable challenge, and yields a private key and attestation that belong together, verify and are for that application; anything else ends in an error and never in a key. No call goes on forever, panics because a token refuses, or spends more than one attempt of a PIN the token rejects.",
  ["inputs", "histories", "fault_sequences"], "all applications, handles, data, PINs, numbers of attached tokens and token answers, including refusals, delays, removal and damaged answers",
  "The token code is not run by any test: it needs hardware.",
  ["src/fido/signing/mozilla.rs", "src/fido/generate/mozilla.rs"],
  [("assertion request", "sign_with_private_key"), ("enrolment and attestation check", "generate_new_ssh_key")],
  observe=["HID messages received by emulated tokens", "PrivateKey::sign, Certificate::sign, SshSignature, generate_new_ssh_key results"])

p("C29", "Every byte of an accepted certificate, public key or signature belongs to it",
  "Nothing rides along with an accepted object: a certificate, public key or detached signature with bytes after its last field, after an embedded key or signature, after an option's value, with a list that ends in the middle of an entry, or with an option given twice is refused when it is read (and, for a signature, when it is verified or attached). So no unsigned byte rides along with an accepted certificate or signature, and no restriction a certificate carries is lost while decoding it.",
  ["inputs"], "all well-formed objects of every type with bytes inserted at every structural position (and every option list with a repeated name)",
  "Tests read genuine objects; none carries extra bytes or repeated options.",
  ["src/ssh/cert.rs", "src/ssh/pubkey.rs", "src/ssh/signature.rs"],
  [("end of the certificate, option values and repeated options", "Certificate::from_bytes, read_options"), ("end of the key", "PublicKey::from_bytes, from_string"), ("end of the signature", "SshSignature::from_armored_string, verify_signature")],
  observe=["Certificate::from_bytes", "Certificate::from_string", "Certificate::add_signature", "PublicKey::from_bytes", "PublicKey::from_string", "SshSignature::from_armored_string", "VerifiedSshSignature::from_ssh_signature"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
