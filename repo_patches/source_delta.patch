From c1f68832e6fc8b0d52d8460d8f23d5f9116f3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 1/9] fix: report truncated JSON as Malformed, not InvalidState

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d5f02..b2294de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -168,7 +168,7 @@ impl<T> ToResult<T> for bs58::encode::Result<T> {
 impl From<serde_json::Error> for Error {
     fn from(err: serde_json::Error) -> Self {
         match err.classify() {
-            Category::Io | Category::Eof => Error::msg(ErrorKind::InvalidState, err.to_string()),
+            Category::Io => Error::msg(ErrorKind::InvalidState, err.to_string()),
             _ => Error::msg(ErrorKind::Malformed, err.to_string()),
         }
     }
-- 
2.43.0


From fde017660c9b4bc13d4e8d8b2697633d5ffbb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 2/9] fix: reject an anonymous envelope carrying apu as
 Malformed

---
 src/message/unpack/anoncrypt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/unpack/anoncrypt.rs b/src/message/unpack/anoncrypt.rs
index 4ae804a..cf81ea3 100644
--- a/src/message/unpack/anoncrypt.rs
+++ b/src/message/unpack/anoncrypt.rs
@@ -41,6 +41,13 @@ pub(crate) async fn _try_unpack_anoncrypt<'sr>(
 
     let parsed_jwe = parsed_jwe.verify_didcomm()?;
 
+    if parsed_jwe.apu.is_some() {
+        Err(err_msg(
+            ErrorKind::Malformed,
+            "apu present for anonymous sender",
+        ))?;
+    }
+
     let to_kids: Vec<_> = parsed_jwe
         .jwe
         .recipients
-- 
2.43.0


From dad9a4c4a9952ea967300d4eb10ce904d935f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 3/9] fix: reject a from_prior token signed by a key of a DID
 other than its iss

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..0730c96 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if from_prior.iss != did {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior issuer kid does not belong to from_prior `iss`",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From aad3cfd6134fd73a6621757bf21132643b5a6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 4/9] fix: reject non-minimal and overlong multicodec prefixes
 instead of overflowing or misreading the key

---
 src/utils/did.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..4c14998 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -504,6 +504,11 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
+    // A 32-bit varint takes at most 5 bytes
+    if value.len() >= 5 && value[..5].iter().all(|b| b & 0x80 != 0) {
+        Err(err_msg(ErrorKind::IllegalArgument, "Unsupported prefix"))?
+    }
+
     let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
     let prefix_int = val
         .read_unsigned_varint_32()
@@ -514,8 +519,14 @@ fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
     prefix
         .write_unsigned_varint_32(prefix_int)
         .kind(ErrorKind::InvalidState, "Cannot write varint")?;
+    let prefix = prefix.into_inner();
+
+    // The prefix must be encoded minimally, otherwise its rest would be taken for key bytes
+    if !value.starts_with(&prefix) {
+        Err(err_msg(ErrorKind::IllegalArgument, "Unsupported prefix"))?
+    }
 
-    return Ok((codec, value.split_at(prefix.into_inner().len()).1));
+    return Ok((codec, value.split_at(prefix.len()).1));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 24ad5b9f84eef6d5ac95c193edfde91ef5140b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 5/9] fix: report an Ed25519 secret shorter than 32 bytes as
 Malformed instead of panicking

---
 src/utils/did.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 4c14998..086a298 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,12 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Too short base58 secret material",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +462,12 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Too short multibase secret material",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From 8b197fa56b4b3c74bc27b13511bf01aa6063da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 6/9] fix: keep the DID resolver's error kind when an authcrypt
 sender fails to resolve

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From 055b570ca70108f53190b56018d73c126103f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 7/9] fix: wrap_in_forward with no routing keys returns the
 message instead of panicking

---
 src/protocols/routing/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..46b0400 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -247,8 +247,7 @@ pub async fn wrap_in_forward<'dr>(
 ) -> Result<String> {
     let mut tos = routing_keys.clone();
 
-    let mut nexts = tos.clone();
-    nexts.remove(0);
+    let mut nexts: Vec<_> = tos.iter().skip(1).cloned().collect();
     nexts.push(to.to_owned());
 
     tos.reverse();
-- 
2.43.0


From d837cba760cbcdd1c5c442cc7a56733a347890a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 8/9] fix: convert DIDCommSecretNotFound thrown by a JavaScript
 resolver to SecretNotFound

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..f9e155e 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -50,6 +50,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                 let kind = match e.name().as_string().as_deref() {
                     Some("DIDCommDIDNotResolved") => _ErrorKind::DIDNotResolved,
                     Some("DIDCommDIDUrlNotFound") => _ErrorKind::DIDUrlNotFound,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     Some("DIDCommMalformed") => _ErrorKind::Malformed,
                     Some("DIDCommIoError") => _ErrorKind::IoError,
                     Some("DIDCommInvalidState") => _ErrorKind::InvalidState,
-- 
2.43.0


From 65fe5543c9f7897632fc12d306e7f7fb8e98c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 9/9] fix: keep the error kind a foreign resolver reports
 instead of turning it into InvalidState

---
 uniffi/src/did/did_resolver_adapter.rs         |  7 ++-----
 uniffi/src/secrets/secrets_resolver_adapter.rs | 12 +++---------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..f79d95a 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -26,10 +26,7 @@ impl _DIDResolver for DIDResolverAdapter {
 
         self.did_resolver.resolve(String::from(did), cb);
 
-        let res = receiver
-            .get()
-            .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+        let res = receiver.get().await.context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..08bd282 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -26,10 +26,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         self.secrets_resolver
             .get_secret(String::from(secret_id), cb);
 
-        let res = receiver
-            .get()
-            .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+        let res = receiver.get().await.context("can not get secret")?;
         Ok(res)
     }
 
@@ -39,10 +36,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         self.secrets_resolver
             .find_secrets(secret_ids.iter().map(|&s| String::from(s)).collect(), cb);
 
-        let res = receiver
-            .get()
-            .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+        let res = receiver.get().await.context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0

