From cf8bd600cc93015b1d927839fff30c77efe6bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:57 +0000
Subject: [PATCH 1/7] fix: an empty certificate chain is an error, not a panic,
 when making an x509 client

---
 src/verifier/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..12f5a06 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,9 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("x5c must contain at least the leaf certificate")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +140,9 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("x5c must contain at least the leaf certificate")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0


From 9ba9e2b03c29dba88844fbd04647e4bc8a8a114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:57 +0000
Subject: [PATCH 2/7] fix: the default NonEmptyVec is not empty

---
 src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2e34d0d..fdcb378 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,10 +2,16 @@ use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use std::ops::Deref;
 
-#[derive(Debug, Clone, Default, Deserialize, PartialEq, Eq)]
+#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 #[serde(try_from = "Vec<T>")]
 pub struct NonEmptyVec<T>(Vec<T>);
 
+impl<T: Default> Default for NonEmptyVec<T> {
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
 impl<T> NonEmptyVec<T> {
     pub fn new(t: T) -> Self {
         Self(vec![t])
-- 
2.43.0


From fc227e0367dd6b9f31b4dfaad384e7d628cbace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:57 +0000
Subject: [PATCH 3/7] fix: reject a Request Object without client_id when the
 Authorization Request has one

---
 src/core/authorization_request/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/authorization_request/mod.rs b/src/core/authorization_request/mod.rs
index bf3ce21..cdd7881 100644
--- a/src/core/authorization_request/mod.rs
+++ b/src/core/authorization_request/mod.rs
@@ -81,10 +81,14 @@ impl AuthorizationRequest {
             .get::<ClientId>()
             .map(|c| c.parsing_error().map(|c| c.0))
             .transpose()?;
-        if let (Some(x), Some(y)) = (self.client_id, aro_client_id_raw) {
-            if x != y {
+        match (self.client_id, aro_client_id_raw) {
+            (Some(x), Some(y)) if x != y => {
                 bail!("Authorization Request and Request Object have different client ids: '{x}' vs. '{y}'");
             }
+            (Some(x), None) => {
+                bail!("Authorization Request has client id '{x}', but the Request Object has none");
+            }
+            _ => (),
         }
         Ok(aro)
     }
-- 
2.43.0


From 5cd164f2a197b46c0542a83774e2d9bb6bc82375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:57 +0000
Subject: [PATCH 4/7] fix: escape JWK members in the thumbprint input, so that
 distinct keys have distinct thumbprints

---
 src/core/iso_18013_7/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 964fa52..cd9bec0 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -447,7 +447,12 @@ pub fn compute_jwk_thumbprint(jwk: &serde_json::Value) -> Result<[u8; 32]> {
                 .context("EC JWK missing 'y'")?;
 
             // RFC 7638 §3.2: For EC keys, use crv, kty, x, y in lexicographic order
-            format!(r#"{{"crv":"{}","kty":"EC","x":"{}","y":"{}"}}"#, crv, x, y)
+            format!(
+                r#"{{"crv":{},"kty":"EC","x":{},"y":{}}}"#,
+                serde_json::to_string(crv)?,
+                serde_json::to_string(x)?,
+                serde_json::to_string(y)?
+            )
         }
         "RSA" => {
             let e = jwk
@@ -460,7 +465,11 @@ pub fn compute_jwk_thumbprint(jwk: &serde_json::Value) -> Result<[u8; 32]> {
                 .context("RSA JWK missing 'n'")?;
 
             // RFC 7638 §3.2: For RSA keys, use e, kty, n in lexicographic order
-            format!(r#"{{"e":"{}","kty":"RSA","n":"{}"}}"#, e, n)
+            format!(
+                r#"{{"e":{},"kty":"RSA","n":{}}}"#,
+                serde_json::to_string(e)?,
+                serde_json::to_string(n)?
+            )
         }
         _ => anyhow::bail!("unsupported key type for JWK thumbprint: {}", kty),
     };
-- 
2.43.0


From 5e06ca14dec8be575a594c5025134f36ba4b3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:11 +0000
Subject: [PATCH 5/7] fix: the handover thumbprint is that of the key the
 response is encrypted to

---
 src/core/iso_18013_7/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index cd9bec0..a6300f9 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -390,13 +390,18 @@ pub fn get_encryption_jwk_thumbprint(
         .ok()
         .and_then(|meta| meta.jwks().parsing_error().ok())
         .and_then(|jwks| {
-            jwks.keys.iter().find_map(|key_map| {
+            let member = |key_map: &serde_json::Map<String, serde_json::Value>, name: &str| {
+                key_map.get(name).and_then(|v| v.as_str()).map(String::from)
+            };
+            // Prefer the key that `find_encryption_jwk` selects, as the thumbprint must be that of
+            // the key the response is encrypted to.
+            let supported = jwks.keys.iter().filter(|key_map| {
+                member(key_map, "alg").as_deref() == Some("ECDH-ES")
+                    && member(key_map, "crv").as_deref() == Some("P-256")
+            });
+            supported.chain(jwks.keys.iter()).find_map(|key_map| {
                 let jwk_json = serde_json::Value::Object(key_map.clone());
-                let is_enc = key_map
-                    .get("use")
-                    .and_then(|v| v.as_str())
-                    .map(|u| u == "enc")
-                    .unwrap_or(true);
+                let is_enc = member(key_map, "use").map(|u| u == "enc").unwrap_or(true);
                 if is_enc {
                     compute_jwk_thumbprint(&jwk_json).ok()
                 } else {
-- 
2.43.0


From 29336a62eda55157577e82afb9e002a9b9153475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:07 +0000
Subject: [PATCH 6/7] fix: only the algorithm 'none' itself is unsigned

verify_with_resolver skipped the signature check for every algorithm whose
name contains 'none', not just for 'none'.
---
 src/core/authorization_request/verification/did.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/authorization_request/verification/did.rs b/src/core/authorization_request/verification/did.rs
index f901785..9616fdd 100644
--- a/src/core/authorization_request/verification/did.rs
+++ b/src/core/authorization_request/verification/did.rs
@@ -45,7 +45,7 @@ pub async fn verify_with_resolver(
     // so that trust is preserved when receiving unencoded requests
     // NOTE: This requires that `Algorithm::None` is permitted in the wallet metadata
     // Otherwise, this function will error in the previous assertion.
-    if alg.contains("none") {
+    if alg == "none" {
         return Ok(());
     }
 
-- 
2.43.0


From b19f74748fe841b0434123496d2b86df783d0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:24 +0000
Subject: [PATCH 7/7] fix: apply the default response mode when validating a
 request without one

Reading a request object defaults an absent 'response_mode' to direct_post, but the
validation against the wallet's metadata read the raw parameter again and rejected the
same request as lacking it.
---
 .../authorization_request/verification/mod.rs   | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/core/authorization_request/verification/mod.rs b/src/core/authorization_request/verification/mod.rs
index 38e0428..854d306 100644
--- a/src/core/authorization_request/verification/mod.rs
+++ b/src/core/authorization_request/verification/mod.rs
@@ -1,13 +1,10 @@
 use crate::{
-    core::{
-        metadata::parameters::{
-            verifier::{EncryptedResponseEncValuesSupported, JWKs},
-            wallet::{
-                AuthorizationEncryptionAlgValuesSupported,
-                AuthorizationEncryptionEncValuesSupported, ClientIdPrefixesSupported,
-            },
+    core::metadata::parameters::{
+        verifier::{EncryptedResponseEncValuesSupported, JWKs},
+        wallet::{
+            AuthorizationEncryptionAlgValuesSupported, AuthorizationEncryptionEncValuesSupported,
+            ClientIdPrefixesSupported,
         },
-        object::ParsingErrorContext,
     },
     wallet::Wallet,
 };
@@ -15,7 +12,7 @@ use anyhow::{bail, Error, Result};
 use async_trait::async_trait;
 
 use super::{
-    parameters::{ClientIdScheme, ClientMetadata, ResponseMode},
+    parameters::{ClientIdScheme, ClientMetadata},
     AuthorizationRequestObject,
 };
 
@@ -186,7 +183,7 @@ pub(crate) async fn validate_request_against_metadata<W: Wallet + ?Sized>(
 
     let client_metadata = ClientMetadata::resolve(request)?.0;
 
-    let response_mode = request.get::<ResponseMode>().parsing_error()?;
+    let response_mode = request.response_mode();
 
     // Validate encrypted response parameters per OID4VP v1.0 Section 8.3
     // For JARM (encrypted responses), the verifier provides:
-- 
2.43.0

