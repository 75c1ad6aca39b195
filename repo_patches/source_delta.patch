From 4c97e7b718491240d8363990836b5b235fddebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 01/10] fix: report a too short Ed25519 secret as Malformed
 instead of panicking

---
 src/utils/did.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..60569e2 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,12 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Ed25519 secret material is too short",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +462,12 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Ed25519 secret material is too short",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From c65f3dcef4b3bc060c466602f17faab7be919d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 02/10] fix: wrap_in_forward panicked on an empty list of
 routing keys

---
 src/protocols/routing/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..56a2014 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -247,8 +247,7 @@ pub async fn wrap_in_forward<'dr>(
 ) -> Result<String> {
     let mut tos = routing_keys.clone();
 
-    let mut nexts = tos.clone();
-    nexts.remove(0);
+    let mut nexts: Vec<String> = tos.iter().skip(1).cloned().collect();
     nexts.push(to.to_owned());
 
     tos.reverse();
-- 
2.43.0


From 588f1fe7fe49662f32a96d29b8eb7244df31c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 03/10] fix: accept a from_prior only if it is signed by a key
 of its `iss`

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..0730c96 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if from_prior.iss != did {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior issuer kid does not belong to from_prior `iss`",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From fe3b93726ddd66f89516a51f9ce77b50b39628f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 04/10] fix: keep the DID resolver's error kind when unpacking
 authcrypt

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From f3aeab0374f0a6d05e295022bda01db45582deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 05/10] fix: truncated JSON input is Malformed, not a library
 error

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d5f02..b2294de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -168,7 +168,7 @@ impl<T> ToResult<T> for bs58::encode::Result<T> {
 impl From<serde_json::Error> for Error {
     fn from(err: serde_json::Error) -> Self {
         match err.classify() {
-            Category::Io | Category::Eof => Error::msg(ErrorKind::InvalidState, err.to_string()),
+            Category::Io => Error::msg(ErrorKind::InvalidState, err.to_string()),
             _ => Error::msg(ErrorKind::Malformed, err.to_string()),
         }
     }
-- 
2.43.0


From 5bb22069ae9c39605400ab1614ce86c682fb2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 06/10] fix: reject an authcrypted message whose `from` is not
 the authenticated sender

---
 src/message/unpack/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/message/unpack/mod.rs b/src/message/unpack/mod.rs
index 7ee3052..031a811 100644
--- a/src/message/unpack/mod.rs
+++ b/src/message/unpack/mod.rs
@@ -121,6 +121,14 @@ impl Message {
                 )
             })?;
 
+        match (&msg.from, &metadata.encrypted_from_kid) {
+            (Some(from), Some(from_kid)) if did_or_url(from_kid).0 != from => Err(err_msg(
+                ErrorKind::Malformed,
+                "`from` value does not match the authenticated sender",
+            ))?,
+            _ => {}
+        }
+
         Ok((msg, metadata))
     }
 
-- 
2.43.0


From 8f0279e06d096f62e14b40a569e1e09d6d87acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 07/10] fix: malformed multicodec prefix panicked or was taken
 for part of the key

A prefix of more than five continuation bytes overflowed the shift in the
varint reader, and a prefix not in its shortest form was cut at the wrong
place, so that its last bytes became part of the key.
---
 src/utils/did.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 60569e2..c38bebb 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -516,18 +516,27 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
-    let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
+    // A 32-bit varint takes up to 5 bytes
+    let mut val = Cursor::new(value[..value.len().min(5)].to_vec());
     let prefix_int = val
         .read_unsigned_varint_32()
-        .kind(ErrorKind::InvalidState, "Cannot read varint")?;
+        .kind(ErrorKind::Malformed, "Cannot read varint")?;
     let codec = Codec::codec_by_prefix(prefix_int)?;
 
     let mut prefix: Cursor<Vec<u8>> = Cursor::new(Vec::new());
     prefix
         .write_unsigned_varint_32(prefix_int)
         .kind(ErrorKind::InvalidState, "Cannot write varint")?;
+    let prefix = prefix.into_inner();
 
-    return Ok((codec, value.split_at(prefix.into_inner().len()).1));
+    if !value.starts_with(&prefix) {
+        Err(err_msg(
+            ErrorKind::Malformed,
+            "Multicodec prefix is not in its shortest form",
+        ))?
+    }
+
+    return Ok((codec, value.split_at(prefix.len()).1));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9718800ea89d91ec520edcc1aec5e8d9f9d53cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 08/10] fix: report an unknown key agreement algorithm as
 Unsupported, not as malformed input

---
 src/message/unpack/authcrypt.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 4074e6e..5330641 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -37,8 +37,13 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let mut buf = vec![];
     let parsed_jwe = jwe.parse(&mut buf)?;
 
-    if parsed_jwe.protected.alg != jwe::Algorithm::Ecdh1puA256kw {
-        return Ok(None);
+    match parsed_jwe.protected.alg {
+        jwe::Algorithm::Ecdh1puA256kw => {}
+        jwe::Algorithm::Other(_) => Err(err_msg(
+            ErrorKind::Unsupported,
+            "Unsupported key agreement algorithm",
+        ))?,
+        _ => return Ok(None),
     }
 
     let parsed_jwe = parsed_jwe.verify_didcomm()?;
-- 
2.43.0


From 84a7f0df840442016fd5ce17008838808afa7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 09/10] fix: keep the foreign resolver's error kind in the
 uniffi adapters

---
 uniffi/src/did/did_resolver_adapter.rs         | 4 ++--
 uniffi/src/secrets/secrets_resolver_adapter.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..2ac6667 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -29,7 +29,7 @@ impl _DIDResolver for DIDResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+            .context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..05b4fe8 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -29,7 +29,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
         Ok(res)
     }
 
@@ -42,7 +42,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0


From 7c1db308183abe435958ee8abb920c21c90bbf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 10/10] fix: wasm bindings keep the SecretNotFound kind of a
 JavaScript resolver's error

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..5e963f6 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -56,6 +56,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                     Some("DIDCommNoCompatibleCrypto") => _ErrorKind::NoCompatibleCrypto,
                     Some("DIDCommUnsupported") => _ErrorKind::Unsupported,
                     Some("DIDCommIllegalArgument") => _ErrorKind::IllegalArgument,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     _ => _ErrorKind::InvalidState,
                 };
 
-- 
2.43.0

