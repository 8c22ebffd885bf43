From 4b4fb0bcd00d556cbe86a430f3356485a2e8e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 01/38] fix: reject RSA private keys whose prime factors are 0
 or 1 instead of panicking

---
 src/ssh/privkey.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..7ba2053 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -304,6 +304,12 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // The CRT exponents are computed modulo p - 1 and q - 1, which must
+                // be positive for the computation to be possible.
+                if [&p, &q].iter().any(|v| v.is_empty() || v.as_slice() == [1]) {
+                    return Err(Error::InvalidFormat);
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From 78ed57c23132aa87d2308cc1a25b4946211f12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 02/38] fix: signing with a too short Ed25519 or ECDSA private
 key returns None instead of panicking

---
 src/ssh/privkey.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 7ba2053..fcd2865 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -253,7 +253,7 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
+                let key = if *key.key.first()? == 0x0_u8 {
                     &key.key[1..]
                 } else {
                     &key.key
@@ -273,11 +273,11 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
-                        Ok(kp) => kp,
-                        Err(_) => return None,
-                    };
+                let seed = key.key.get(..32)?;
+                let key_pair = match Ed25519KeyPair::from_seed_and_public_key(seed, public_key) {
+                    Ok(kp) => kp,
+                    Err(_) => return None,
+                };
 
                 format_signature_for_ssh(&self.pubkey, key_pair.sign(buffer).as_ref())
             }
-- 
2.43.0


From 8fb46bee7837bb48940a5978fbd7176ec444de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 03/38] fix: sign with ECDSA private keys whose scalar has
 leading zero bytes

---
 src/ssh/privkey.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index fcd2865..518928b 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use ring::signature::Ed25519KeyPair;
 use ring::{rand, signature, signature::KeyPair};
 
-use zeroize::Zeroize;
+use zeroize::{Zeroize, Zeroizing};
 
 use crate::{
     error::Error,
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -258,8 +258,14 @@ impl super::SSHCertificateSigner for PrivateKey {
                 } else {
                     &key.key
                 };
+
+                // The scalar is stored as an integer without leading zeros but ring
+                // requires it to be exactly as long as the field of the curve.
+                let mut scalar = Zeroizing::new(vec![0; len]);
+                scalar[len.checked_sub(key.len())?..].copy_from_slice(key);
+
                 let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
+                    alg, &scalar, pubkey, &rng,
                 ) {
                     Ok(kp) => kp,
                     Err(_) => return None,
-- 
2.43.0


From 5161025aa55e49699ae76b75000392a04c3dc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:56 +0000
Subject: [PATCH 04/38] fix: local timestamps in a daylight saving gap or
 overlap no longer panic

---
 src/ssh/allowed_signer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..38ffb8c 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -460,8 +460,11 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         datetime.and_utc()
             .timestamp()
     } else {
+        // Around a daylight saving change a local time can exist twice, in which case we take
+        // the first, or not at all.
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From 7e51b16ef6b0df6f1aa16139e2de6392af3e3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 05/38] fix: refuse allowed signer timestamps with blanks or
 several Z suffixes

---
 src/ssh/allowed_signer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 38ffb8c..4016f4e 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -436,8 +436,12 @@ fn parse_timestamp(s: &str) -> Result<i64> {
     if s.len() % 2 == 1 && !is_utc {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
-    if is_utc {
-        s = s.trim_end_matches('Z');
+    if let Some(stripped) = s.strip_suffix('Z') {
+        s = stripped;
+    }
+    // The date parser below accepts blanks and signs as well
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     let datetime = match s.len() {
         8 => {
-- 
2.43.0


From 4035b65144594f2b9ab554733f8da47c31977bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 06/38] fix: allowed signer lines whose comment ends with a
 double quote are valid

---
 src/ssh/allowed_signer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 4016f4e..4113fdd 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -309,8 +309,21 @@ impl AllowedSignerSplitter {
     fn new(s: &str) -> Self {
         let mut buffer = Vec::new();
         let mut last = 0;
+        let mut quoted = false;
 
         for (index, matched) in s.match_indices([' ', '"', '#']) {
+            match matched {
+                "\"" => quoted = !quoted,
+                // The rest is a comment, whatever it contains
+                "#" if !quoted => {
+                    if last != index {
+                        buffer.push(s[last..index].to_owned());
+                    }
+                    last = s.len();
+                    break;
+                },
+                _ => (),
+            }
             // Push the new text before the delimiter
             if last != index {
                 buffer.push(s[last..index].to_owned());
-- 
2.43.0


From cb0cdfbfb2af266f0ebd010bbd0a935ffae79bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 07/38] fix: PIV attestation with a malformed policy extension
 is an error, not a panic

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..89c7c53 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() != 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From 15006abd2befe3f57f7fd6a1d065ca05abe4e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 08/38] fix: an unusable PIV root certificate is an error, not
 a panic

---
 src/yubikey/verification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 89c7c53..93506e3 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -117,8 +117,8 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From a155f466ed50b7ab2d647d8fe460f3aa8cdfeec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 09/38] fix: generated Ed25519 private keys are written the way
 OpenSSH reads them

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 518928b..84074f2 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -464,7 +464,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [&seed[..], &public_key_bytes[..]].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 9b94a45ec4368180a6e953cfea48d6c7e7aa14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:17 +0000
Subject: [PATCH 10/38] fix: keep the reserved field when writing security key
 private keys

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 84074f2..57a09f7 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -692,7 +692,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -702,7 +702,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From 94c43de2a90f8a9480eeb663e1cfa125dca6d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:25 +0000
Subject: [PATCH 11/38] fix: comments of the expected key do not make a
 detached signature invalid

---
 src/ssh/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8dd3c18..581d7e1 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -210,7 +210,10 @@ impl VerifiedSshSignature {
         // public key before verification. This is useful when you have a signature but additionally
         // need to check the signature is from it.
         if let Some(pub_key) = pub_key {
-            if ssh_signature.pubkey != pub_key {
+            // The comment is not part of the key
+            if ssh_signature.pubkey.key_type != pub_key.key_type
+                || ssh_signature.pubkey.kind != pub_key.kind
+            {
                 return Err(Error::InvalidSignature);
             }
         }
-- 
2.43.0


From 7b33469883f39714bb0ded95adf971cc2686d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:33 +0000
Subject: [PATCH 12/38] fix: write certificate options in the lexical order the
 format requires

---
 src/ssh/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..4077de8 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -196,7 +196,11 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // Options must be lexically ordered by name
+        let mut options: Vec<_> = map.iter().collect();
+        options.sort();
+
+        for (k, v) in options {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From 6a3d8e527ae315c168aca177e8b3ecf5392d67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 13/38] fix: report the internal USB transport of FIDO
 attestations

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..097eac0 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..5 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From 69a2f116824300d8b0c6125986e8057e55ce808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:47 +0000
Subject: [PATCH 14/38] fix: refuse certificate lines labelled with another
 curve or key type

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 385b566..23cac18 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -157,7 +157,7 @@ impl Certificate {
         let mut cert = Certificate::from_bytes(&decoded)?;
         cert.comment = comment;
 
-        if cert.key_type.kind != outer_kt.kind {
+        if cert.key_type != outer_kt {
             return Err(Error::KeyTypeMismatch);
         }
         Ok(cert)
-- 
2.43.0


From c90a88ab040077619d32d2c2f3a536a6201cf4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:54 +0000
Subject: [PATCH 15/38] fix: do not read certificates as public keys

---
 src/ssh/pubkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 592b08f..51ab37c 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -256,6 +256,11 @@ impl PublicKey {
     pub(crate) fn from_reader(kt_name: &str, reader: &mut Reader<'_>) -> Result<PublicKey> {
         let kt = KeyType::from_name(kt_name)?;
 
+        // The fields of a certificate are not those of a public key
+        if kt.is_cert {
+            return Err(Error::KeyTypeMismatch);
+        }
+
         let kind = match kt.kind {
             KeyTypeKind::Rsa | KeyTypeKind::RsaCert => {
                 let k = RsaPublicKey {
-- 
2.43.0


From 18e599cfdfc5bd0e623f40f8413882d8c5dc6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 16/38] fix: security keys and plain keys do not accept each
 other's signature types

---
 src/ssh/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 581d7e1..b209879 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -288,7 +288,7 @@ pub(crate) fn verify_signature(
 
     // If these types don't match we can't continue verification as it's unclear
     // what the correct type even is.
-    if public_key.key_type.kind != sig_type.kind {
+    if public_key.key_type.kind != sig_type.kind || public_key.key_type.is_sk != sig_type.is_sk {
         return Err(Error::KeyTypeMismatch);
     }
 
-- 
2.43.0


From 7f3ea492ab8a11dd9026f302ebc7a9072b497d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 17/38] fix: refuse ECDSA keys whose type names another curve

---
 src/ssh/privkey.rs | 3 +++
 src/ssh/pubkey.rs  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 57a09f7..df03113 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -361,6 +361,9 @@ impl PrivateKey {
             KeyTypeKind::Ecdsa => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let pubkey = reader.read_bytes()?;
 
                 let (private_key, sk_application) = match kt.is_sk {
diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 51ab37c..6464acb 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -273,6 +273,10 @@ impl PublicKey {
             KeyTypeKind::Ecdsa | KeyTypeKind::EcdsaCert => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                // The key type names the curve as well
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let key = reader.read_bytes()?;
                 let sk_application = match kt.is_sk {
                     true => Some(reader.read_string()?),
-- 
2.43.0


From c3d84c60084b6e62739d5ec009c750e16358cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 18/38] fix: do not create detached signatures with an empty
 namespace, which nothing accepts

---
 src/ssh/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index b209879..ca223c9 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -245,6 +245,11 @@ impl VerifiedSshSignature {
         private_key: PrivateKey,
         hash_algorithm: Option<HashAlgorithm>,
     ) -> Result<Self> {
+        // The specification does not allow empty namespaces
+        if namespace.is_empty() {
+            return Err(Error::InvalidFormat);
+        }
+
         let hash_algorithm = hash_algorithm.unwrap_or(HashAlgorithm::Sha512);
 
         let mut ssh_signature = SshSignature {
-- 
2.43.0


From f6c718d40a930820b9bcbfd6d1f0977afb8f0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:45 +0000
Subject: [PATCH 19/38] fix: read NUL terminated strings as UTF-8, as they are
 written

---
 src/ssh/reader.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/ssh/reader.rs b/src/ssh/reader.rs
index 8350f44..d7a0e23 100644
--- a/src/ssh/reader.rs
+++ b/src/ssh/reader.rs
@@ -211,22 +211,16 @@ impl Reader<'_> {
     /// In the event the buffer runs out before a null byte, the offset will be
     /// reset and an error returned.
     pub fn read_cstring(&mut self) -> Result<String> {
-        let original_offset = self.offset;
-        let mut s = String::new();
-
-        while self.offset < self.inner.len() {
-            let chr = self.inner[self.offset];
-            if chr == 0x0 {
-                // Count the final null byte as read
-                self.offset += 1;
-                return Ok(s);
-            }
-
-            s.push(chr as char);
-            self.offset += 1;
-        }
-        self.offset = original_offset;
-        Err(Error::UnexpectedEof)
+        let rest = self.inner.get(self.offset..).ok_or(Error::UnexpectedEof)?;
+        let len = rest
+            .iter()
+            .position(|b| *b == 0x0)
+            .ok_or(Error::UnexpectedEof)?;
+        let s = String::from_utf8(rest[..len].to_vec())?;
+
+        // Count the final null byte as read
+        self.offset += len + 1;
+        Ok(s)
     }
 
     /// Reads an `u32` value from the wrapped byte sequence and returns it.
-- 
2.43.0


From 8bd19ff911ebb51332ebbeff5ca8d8e02dd29247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 20/38] fix: keep both coordinates of ECDSA keys in FIDO
 authenticator data

---
 src/fido/parsing.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..840f40d 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let mut y_coordinate = None;
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,14 +177,19 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let value = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            parsed_key.key = value;
+                        } else {
+                            y_coordinate = Some(value);
+                        }
                     }
                     x => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
@@ -193,6 +199,11 @@ impl AuthData {
                 };
                 idx += 2;
             }
+            // Elliptic curve points are split into their coordinates, the key is the
+            // uncompressed point.
+            if let Some(y) = y_coordinate {
+                parsed_key.key = [&[0x04], &parsed_key.key[..], &y[..]].concat();
+            }
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From 58bf86a64884e4e9a5638dad0bbc605b964043c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 21/38] fix: report the exact size of RSA keys that is not a
 multiple of eight bits

---
 src/ssh/pubkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 6464acb..1fffff3 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -326,7 +326,10 @@ impl PublicKey {
     pub fn bits(&self) -> usize {
         match self.kind {
             // For RSA public key the size of the key is the number of bits of the modulus
-            PublicKeyKind::Rsa(ref k) => k.n.len() * 8,
+            PublicKeyKind::Rsa(ref k) => match k.n.iter().position(|b| *b != 0) {
+                Some(i) => (k.n.len() - i) * 8 - k.n[i].leading_zeros() as usize,
+                None => 0,
+            },
             // ECDSA key size depends on the curve
             PublicKeyKind::Ecdsa(ref k) => match k.curve.kind {
                 CurveKind::Nistp256 => 256,
-- 
2.43.0


From a1f17038e2b9dcc07a4e140f1967805853276436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 22/38] fix: refuse DER signatures whose sequence length is
 wrong or whose integer is empty

---
 src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b83dc81..f630edb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,12 +3,13 @@ use crate::ssh::{PublicKey, PublicKeyKind, Writer};
 /// Takes an ASN1 encoded ECDSA signature and attempts to
 /// parse it into it's R and S constituent parts
 pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
-    if buf.len() < 4 || buf[0] != 0x30  || buf[2] != 0x2 {
+    // The length of the sequence must be that of the data which follows
+    if buf.len() < 4 || buf[0] != 0x30 || buf[1] as usize != buf.len() - 2 || buf[2] != 0x2 {
         return None;
     }
     let buf = &buf[3..];
     let r_length = buf[0] as usize;
-    if buf.len() < r_length + 2 {
+    if r_length == 0 || buf.len() < r_length + 2 {
         return None;
     }
     let buf = &buf[1..];
-- 
2.43.0


From bbb1969cabb8a7fe7e2b84b9d0f1f430c0325757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:49 +0000
Subject: [PATCH 23/38] fix: wipe the previous PIN when a security key's PIN is
 replaced

---
 src/ssh/privkey.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index df03113..dab3fa1 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -640,9 +640,11 @@ impl PrivateKey {
     pub fn set_pin(&mut self, pin: &str) {
         match &mut self.kind {
             PrivateKeyKind::EcdsaSk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             PrivateKeyKind::Ed25519Sk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             _ => (),
-- 
2.43.0


From b85310257e23a594201b670bb343a4b160ee54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 24/38] fix: refuse stray quotes in the principals of an
 allowed signer

---
 src/ssh/allowed_signer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 4113fdd..a0a8601 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -102,6 +102,9 @@ impl AllowedSigner {
         let principals = tokenizer.next(true)?
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingPrincipals))?;
         let principals = principals.trim_matches('"');
+        if principals.contains('"') {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
+        }
         let principals: Vec<String> = principals.split(',')
             .map(|s| s.to_string())
             .collect();
-- 
2.43.0


From 1c5b1d382671681a79d93e9e207440b088027737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 25/38] fix: refuse a value given to the cert-authority option
 of an allowed signer

---
 src/ssh/allowed_signer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index a0a8601..6dde5f5 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -131,6 +131,12 @@ impl AllowedSigner {
             }
 
             match option_key.to_lowercase().as_str() {
+                // This option is a flag and takes no value
+                "cert-authority" if option.contains('=') => {
+                    return Err(
+                        Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidOption("cert-authority".to_string()))
+                    );
+                },
                 "cert-authority" => cert_authority = true,
                 "namespaces" => {
                     if namespaces.is_some() {
-- 
2.43.0


From 281c70b7099c51930d457a13c514806b0eec18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:00 +0000
Subject: [PATCH 26/38] fix: refuse to make an SSH key from a FIDO credential
 whose key is missing or incomplete

---
 src/fido/parsing.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index 840f40d..8ba7a13 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -224,6 +224,15 @@ impl AuthData {
     /// Get an SSH formatted public key for the given auth data. The plaintext application
     /// is needed to ensure the fingerprint is properly computed.
     pub fn ssh_public_key(&self, app: &str) -> Result<PublicKey, Error> {
+        // Without all of its coordinates the credential does not have a key
+        let key_length = match self.cose_key.algorithm {
+            -7 => 65,
+            _ => 32,
+        };
+        if self.cose_key.key.len() != key_length {
+            return Err(Error::ParsingError);
+        }
+
         let (kind, key_type) = match self.cose_key.algorithm {
             // ECDSA
             -7 => {
-- 
2.43.0


From 3b55938387f875c8fd5aab73c149dc6f973873ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:16 +0000
Subject: [PATCH 27/38] fix: refuse a common name that does not fit before
 replacing the key in a PIV slot

---
 src/yubikey/piv/management.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 686cb22..1e4aef7 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -170,6 +170,14 @@ impl super::Yubikey {
         touch_policy: TouchPolicy,
         pin_policy: PinPolicy,
     ) -> Result<PublicKey> {
+        // A common name in an X509 certificate is at most 64 bytes. This is checked
+        // first so the key in the slot is not replaced when it can't be certified.
+        if common_name.len() > 64 {
+            return Err(Error::InternalYubiKeyError(
+                "Common name is longer than 64 bytes".to_string(),
+            ));
+        }
+
         let key_info = yubikey::piv::generate(&mut self.yk, *slot, alg, pin_policy, touch_policy)?;
         let extensions: &[x509::Extension<'_, &[u64]>] = &[];
         // Generate a self-signed certificate for the new key.
-- 
2.43.0


From 9d6e15e7e8c4f6f78556d1454c0806946ad068e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:25 +0000
Subject: [PATCH 28/38] fix: return an error when the token is gone while a CSR
 is being made

---
 src/yubikey/piv/management.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 1e4aef7..ec44712 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -25,20 +25,25 @@ impl CSRSigner {
     /// Create a new certificate signer based on a Yubikey serial
     /// and slot
     pub fn new(serial: u32, slot: SlotId) -> Self {
-        let mut yk = super::Yubikey::open(serial).unwrap();
-        let pki = yk.configured(&slot).unwrap();
+        Self::try_new(serial, slot).unwrap()
+    }
+
+    /// Same as `new` but returns an error when the Yubikey cannot be used
+    fn try_new(serial: u32, slot: SlotId) -> Result<Self> {
+        let mut yk = super::Yubikey::open(serial)?;
+        let pki = yk.configured(&slot)?;
         let (public_key, algorithm) = match pki {
-            PublicKeyInfo::Rsa { pubkey: _, .. } => panic!("RSA keys not supported"),
+            PublicKeyInfo::Rsa { pubkey: _, .. } => return Err(Error::Unsupported),
             PublicKeyInfo::EcP256(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP256),
             PublicKeyInfo::EcP384(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP384),
         };
 
-        Self {
+        Ok(Self {
             slot,
             serial,
             public_key,
             algorithm,
-        }
+        })
     }
 }
 
@@ -151,7 +156,7 @@ impl super::Yubikey {
             .distinguished_name
             .push(rcgen::DnType::CommonName, common_name.to_string());
 
-        let csr_signer = CSRSigner::new(self.yk.serial().into(), *slot);
+        let csr_signer = CSRSigner::try_new(self.yk.serial().into(), *slot)?;
         params.key_pair = Some(rcgen::KeyPair::from_remote(Box::new(csr_signer)).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?);
 
         let csr = rcgen::Certificate::from_params(params).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?;
-- 
2.43.0


From ee48c4941eca833cdbdc1e6455a7f5ad7fc2dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:52 +0000
Subject: [PATCH 29/38] fix: return an error instead of waiting forever or
 panicking when a FIDO token refuses to sign

---
 src/fido/signing/mozilla.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..f22e0ab 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -62,21 +62,21 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let (sign_tx, sign_rx) = channel();
     let callback = StateCallback::new(Box::new(move |rv| {
-        sign_tx.send(rv).unwrap();
+        let _ = sign_tx.send(rv);
     }));
 
-    let (status_tx, _status_rx) = channel::<StatusUpdate>();
-    if let Err(e) = manager.sign(
-        15_000,
-        ctap_args.clone().into(),
-        status_tx.clone(),
-        callback,
-    ) {
-        panic!("Couldn't sign: {:?}", e);
+    // Nothing here answers status updates. Dropping the receiver lets the device know, otherwise
+    // it would wait forever for an answer to a request for the (right) PIN.
+    let (status_tx, status_rx) = channel::<StatusUpdate>();
+    drop(status_rx);
+    if let Err(e) = manager.sign(15_000, ctap_args.clone().into(), status_tx, callback) {
+        println!("Couldn't sign: {:?}", e);
+        return None;
     }
-    let sign_result = sign_rx
-        .recv()
-        .expect("Problem receiving, unable to continue");
+    let sign_result = match sign_rx.recv() {
+        Ok(sign_result) => sign_result,
+        Err(_) => return None,
+    };
 
     let assertion = match sign_result {
         Ok(assertion_object) => assertion_object.assertion,
-- 
2.43.0


From 5e9015f8ed49217a76ac14b9298ce1ecdd7ed24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:07 +0000
Subject: [PATCH 30/38] fix: return when a FIDO token refuses to make a key

---
 src/fido/generate/mozilla.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f17642d..eda0d13 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -82,7 +82,7 @@ pub fn generate_new_ssh_key(
         let _ = register_tx.send(rv);
     }));
 
-    if let Err(e) = manager.register(15_000, ctap_args, status_tx.clone(), callback) {
+    if let Err(e) = manager.register(15_000, ctap_args, status_tx, callback) {
         return Err(Error::FidoError(FidoError::Unknown(e.to_string())));
     };
 
@@ -118,6 +118,9 @@ pub fn generate_new_ssh_key(
     let attestation_object = match register_result {
         Ok(attestation) => attestation,
         Err(e) => {
+            // End the operation on the device so no more status updates can arrive,
+            // otherwise there may never be anything to receive below.
+            let _ = manager.cancel();
             if let Ok(error) = error_rx.recv() {
                 return Err(Error::FidoError(error));
             } else {
-- 
2.43.0


From 32d372b275e34e4deae29b3eddb05ff1e24e60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:07 +0000
Subject: [PATCH 31/38] fix: refuse a new FIDO key that is for another
 application

---
 src/fido/generate/mozilla.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index eda0d13..4a65963 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -8,6 +8,7 @@ use crate::{
     PrivateKey,
 };
 
+use ring::digest;
 use ring::rand::SecureRandom;
 use ring::rand::SystemRandom;
 
@@ -133,6 +134,13 @@ pub fn generate_new_ssh_key(
 
     let auth_data = AuthData::parse(&raw_auth_data)?;
 
+    // The key must be for the application that was asked for
+    if auth_data.rpid_hash != digest::digest(&digest::SHA256, application.as_bytes()).as_ref() {
+        return Err(Error::FidoError(FidoError::Unknown(
+            "Key is for another application".to_owned(),
+        )));
+    }
+
     let key_type = KeyType::from_name("sk-ssh-ed25519@openssh.com")?;
     let kind = PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
         flags: auth_data.flags,
-- 
2.43.0


From 5045e7bfa4b04b1d931df6cdb662311d728b81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:12 +0000
Subject: [PATCH 32/38] fix: write allowed signers so that they read back as
 the same entry

---
 src/ssh/allowed_signer.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 6dde5f5..ca69a6e 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -4,7 +4,7 @@ use std::io::Read;
 use std::path::Path;
 
 use chrono::prelude::Local;
-use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
 
 use super::pubkey::PublicKey;
 use crate::{error::Error, Result};
@@ -218,22 +218,22 @@ impl fmt::Display for AllowedSigner {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut output = String::new();
 
-        output.push_str(&self.principals.join(","));
+        output.push_str(&quote_if_needed(&self.principals.join(",")));
         
         if self.cert_authority {
             output.push_str(" cert-authority");
         }
 
         if let Some(ref namespaces) = self.namespaces {
-            output.push_str(&format!(" namespaces={}", namespaces.join(",")));
+            output.push_str(&format!(" namespaces={}", quote_if_needed(&namespaces.join(","))));
         }
 
         if let Some(ref valid_after) = self.valid_after {
-            output.push_str(&format!(" valid-after={}", valid_after));
+            output.push_str(&format!(" valid-after={}", format_timestamp(*valid_after)));
         }
 
         if let Some(ref valid_before) = self.valid_before {
-            output.push_str(&format!(" valid-before={}", valid_before));
+            output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
         output.push_str(&format!(" {}", self.key));
@@ -496,3 +496,20 @@ fn parse_timestamp(s: &str) -> Result<i64> {
 
     Ok(timestamp)
 }
+
+/// Format a timestamp the way parse_timestamp reads it.
+fn format_timestamp(timestamp: i64) -> String {
+    match DateTime::from_timestamp(timestamp, 0) {
+        Some(datetime) => datetime.format("%Y%m%d%H%M%SZ").to_string(),
+        None => timestamp.to_string(),
+    }
+}
+
+/// Enclose a value by quotation marks if it would be split or cut without them.
+fn quote_if_needed(s: &str) -> String {
+    if s.is_empty() || s.contains([' ', '#']) {
+        format!("\"{}\"", s)
+    } else {
+        s.to_owned()
+    }
+}
-- 
2.43.0


From 04253f780cc678f4287096384523a95ee0657374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:38 +0000
Subject: [PATCH 33/38] fix: refuse a public key that is followed by other
 bytes

---
 src/ssh/pubkey.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 1fffff3..b754155 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -215,6 +215,12 @@ impl PublicKey {
 
         // Construct a new `PublicKey` value and preserve the `comment` value.
         let k = PublicKey::from_reader(kt_name, &mut reader)?;
+
+        // Nothing may follow the key
+        if reader.get_offset() != decoded.len() {
+            return Err(Error::InvalidFormat);
+        }
+
         let key = PublicKey {
             key_type,
             kind: k.kind,
@@ -247,7 +253,14 @@ impl PublicKey {
     pub fn from_bytes<T: ?Sized + AsRef<[u8]>>(data: &T) -> Result<PublicKey> {
         let mut reader = Reader::new(&data);
         let kt_name = reader.read_string()?;
-        PublicKey::from_reader(&kt_name, &mut reader)
+        let key = PublicKey::from_reader(&kt_name, &mut reader)?;
+
+        // Nothing may follow the key
+        if reader.get_offset() != data.as_ref().len() {
+            return Err(Error::InvalidFormat);
+        }
+
+        Ok(key)
     }
 
     /// This function is used for extracting a public key from an existing reader, e.g.
-- 
2.43.0


From f7cc5f543264944093281a1710d3714fd1d4fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:38 +0000
Subject: [PATCH 34/38] fix: refuse a certificate with bytes after it or in its
 options, or with an option twice

---
 src/ssh/cert.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 23cac18..278490e 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -202,6 +202,11 @@ impl Certificate {
         let signed_len = reader.get_offset();
         let signature = reader.read_bytes()?;
 
+        // Nothing may follow the signature, it would not be covered by it
+        if reader.get_offset() != data.len() {
+            return Err(Error::InvalidFormat);
+        }
+
         reader.set_offset(0)?;
         let signed_bytes = reader.read_raw_bytes(signed_len)?;
 
@@ -490,12 +495,20 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
         // otherwise we have a `flag` option which is the `empty` string.
         let value_buf = reader.read_bytes()?;
         let value = if !value_buf.is_empty() {
-            Reader::new(&value_buf).read_string()?
+            let mut value_reader = Reader::new(&value_buf);
+            let value = value_reader.read_string()?;
+            if value_reader.get_offset() != value_buf.len() {
+                return Err(Error::InvalidFormat);
+            }
+            value
         } else {
             "".to_string()
         };
 
-        options.insert(name, value);
+        // An option may only appear once, otherwise one of its values would be lost
+        if options.insert(name, value).is_some() {
+            return Err(Error::InvalidFormat);
+        }
     }
 
     Ok(options)
-- 
2.43.0


From 950c6793356ca7cb9c43748a482e1c63a2c12f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:38 +0000
Subject: [PATCH 35/38] fix: refuse a signature that is followed by other bytes

---
 src/ssh/signature.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index ca223c9..198182f 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -119,6 +119,11 @@ impl SshSignature {
         // Construct a new `SshSignature`
         let k = Self::from_reader(&mut reader)?;
 
+        // Nothing may follow the signature
+        if reader.get_offset() != decoded.len() {
+            return Err(Error::InvalidFormat);
+        }
+
         Ok(k)
     }
 
@@ -299,8 +304,8 @@ pub(crate) fn verify_signature(
 
     match &public_key.kind {
         PublicKeyKind::Ecdsa(key) => {
-            let sig_reader = reader.read_bytes()?;
-            let mut sig_reader = Reader::new(&sig_reader);
+            let sig_bytes = reader.read_bytes()?;
+            let mut sig_reader = Reader::new(&sig_bytes);
 
             let (alg, len) = match sig_type.name {
                 "ecdsa-sha2-nistp256" | "sk-ecdsa-sha2-nistp256@openssh.com" => {
@@ -315,6 +320,10 @@ pub(crate) fn verify_signature(
             // Read the S value
             let s_bytes = sig_reader.read_positive_mpint()?;
 
+            if sig_reader.get_offset() != sig_bytes.len() {
+                return Err(Error::InvalidFormat);
+            }
+
             // (r/s)_bytes are user controlled so ensure maliciously crafted signatures
             // can't cause integer underflow.
             if r_bytes.len() > len || s_bytes.len() > len {
@@ -354,8 +363,6 @@ pub(crate) fn verify_signature(
             } else {
                 UnparsedPublicKey::new(alg, &key.key).verify(signed_bytes, &sig)?;
             }
-
-            Ok(signature_buf.to_vec())
         }
         PublicKeyKind::Rsa(key) => {
             let alg = match sig_type.name {
@@ -370,7 +377,6 @@ pub(crate) fn verify_signature(
                 e: &key.e,
             };
             public_key.verify(alg, signed_bytes, &signature)?;
-            Ok(signature_buf.to_vec())
         }
         PublicKeyKind::Ed25519(key) => {
             match sig_type.name {
@@ -402,8 +408,13 @@ pub(crate) fn verify_signature(
             } else {
                 peer_public_key.verify(signed_bytes, &signature)?;
             }
-
-            Ok(signature_buf.to_vec())
         }
     }
+
+    // Nothing may follow the signature, it would not be covered by it
+    if reader.get_offset() != signature_buf.len() {
+        return Err(Error::InvalidFormat);
+    }
+
+    Ok(signature_buf.to_vec())
 }
-- 
2.43.0


From 2d94fe0da19e903235e385d55d191589363b1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:38 +0000
Subject: [PATCH 36/38] fix: refuse a private key file with anything but the
 padding after the key

---
 src/ssh/privkey.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index dab3fa1..ecc0a4a 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -537,6 +537,11 @@ impl PrivateKey {
         // Construct a new `PrivateKey`
         let k = PrivateKey::from_reader(&mut reader, passphrase)?;
 
+        // Nothing may follow the private section
+        if reader.get_offset() != decoded.len() {
+            return Err(Error::InvalidFormat);
+        }
+
         Ok(k)
     }
 
@@ -628,6 +633,12 @@ impl PrivateKey {
         let mut private_key = PrivateKey::read_private_key(&mut reader)?;
         private_key.magic = m1;
 
+        // After the key there is only padding, the bytes 1, 2, 3 and so on
+        let padding = &remaining_bytes[reader.get_offset()..];
+        if padding.iter().enumerate().any(|(i, b)| i + 1 != *b as usize) {
+            return Err(Error::InvalidFormat);
+        }
+
         if private_key.pubkey != pubkey {
             return Err(Error::InvalidFormat);
         }
-- 
2.43.0


From 8a0fd9664981b56115d3cbfdfeacacb44f494909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 37/38] fix: keep the whole comment of a key or certificate
 line

---
 src/ssh/cert.rs   | 16 ++++++++++------
 src/ssh/pubkey.rs | 29 ++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 278490e..d313599 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -6,7 +6,12 @@ use std::path::Path;
 
 use ring::rand::{SecureRandom, SystemRandom};
 
-use super::{keytype::KeyType, pubkey::PublicKey, reader::Reader, writer::Writer};
+use super::{
+    keytype::KeyType,
+    pubkey::{read_comment, split_word, PublicKey},
+    reader::Reader,
+    writer::Writer,
+};
 use super::{signature, SSHCertificateSigner};
 use crate::{error::Error, Result};
 
@@ -147,11 +152,10 @@ impl Certificate {
     /// println!("{:?}", cert);
     /// ```
     pub fn from_string(s: &str) -> Result<Certificate> {
-        let mut iter = s.split_whitespace();
-
-        let outer_kt = KeyType::from_name(iter.next().ok_or(Error::InvalidFormat)?)?;
-        let data = iter.next().ok_or(Error::InvalidFormat)?;
-        let comment = iter.next().map(String::from);
+        let (kt_name, rest) = split_word(s).ok_or(Error::InvalidFormat)?;
+        let (data, rest) = split_word(rest).ok_or(Error::InvalidFormat)?;
+        let outer_kt = KeyType::from_name(kt_name)?;
+        let comment = read_comment(rest);
         let decoded = base64::decode(data)?;
 
         let mut cert = Certificate::from_bytes(&decoded)?;
diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index b754155..a49dbbb 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -198,11 +198,9 @@ impl PublicKey {
     /// assert_eq!(fp.hash, "ciQkdxjFUhk2E2vRkWJD9kB8pi+EneOkaCJJHNWzPC4");
     /// ```
     pub fn from_string(contents: &str) -> Result<PublicKey> {
-        let mut iter = contents.split_whitespace();
-
-        let kt_name = iter.next().ok_or(Error::InvalidFormat)?;
-        let data = iter.next().ok_or(Error::InvalidFormat)?;
-        let comment = iter.next().map(String::from);
+        let (kt_name, rest) = split_word(contents).ok_or(Error::InvalidFormat)?;
+        let (data, rest) = split_word(rest).ok_or(Error::InvalidFormat)?;
+        let comment = read_comment(rest);
         let key_type = KeyType::from_name(kt_name)?;
         let decoded = base64::decode(data)?;
         let mut reader = Reader::new(&decoded);
@@ -445,3 +443,24 @@ impl PublicKey {
         }
     }
 }
+
+// Splits a line into its first word and what follows it.
+pub(crate) fn split_word(line: &str) -> Option<(&str, &str)> {
+    let line = line.trim_start();
+    if line.is_empty() {
+        return None;
+    }
+
+    Some(line.split_at(line.find(char::is_whitespace).unwrap_or(line.len())))
+}
+
+// Reads the comment of a key or certificate, which is what follows the data
+// on the same line and may consist of several words.
+pub(crate) fn read_comment(rest: &str) -> Option<String> {
+    let comment = rest.lines().next().unwrap_or("").trim();
+    if comment.is_empty() {
+        return None;
+    }
+
+    Some(comment.to_string())
+}
-- 
2.43.0


From e85f26fdce67457f9574bde46d7602c2a7c9ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:44 +0000
Subject: [PATCH 38/38] fix: refuse text after an allowed signer's key and
 write none

---
 src/ssh/allowed_signer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index ca69a6e..96d2e7f 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -197,7 +197,7 @@ impl AllowedSigner {
         }
 
         // After key data, there must be only comment or nothing
-        if !tokenizer.is_empty_after_trim() {
+        if key.comment.is_some() || !tokenizer.is_empty_after_trim() {
             return Err(
                 Error::InvalidAllowedSigner(AllowedSignerParsingError::UnexpectedEnd),
             );
@@ -236,7 +236,8 @@ impl fmt::Display for AllowedSigner {
             output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
-        output.push_str(&format!(" {}", self.key));
+        // The key's own comment has no place in an allowed signer
+        output.push_str(&format!(" {} {}", self.key.key_type, base64::encode(&self.key.encode())));
 
         write!(f, "{}", output)
     }
-- 
2.43.0

