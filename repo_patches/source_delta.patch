From ec7167801facaf9af56cd96def3261f3d6e13d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:27 +0000
Subject: [PATCH 1/8] fix: percent-encode every reserved character of query
 names and values

---
 src/private/canonical_request.rs | 22 +++++++++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..9d9006c 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,32 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| {
+            format!(
+                "{}={}",
+                percent_encode_component(&k),
+                percent_encode_component(&v)
+            )
+        })
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+// Encodes every byte except the unreserved characters (RFC 3986 section 2.3).
+pub(crate) fn percent_encode_component(s: &str) -> String {
+    let mut encoded = String::new();
+    for b in s.bytes() {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b))
+            }
+            _ => encoded.push_str(&format!("%{b:02X}")),
+        }
+    }
+    encoded
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From 64f85ce577e3c3ec2fcb8fc04ada383cbb79a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:30 +0000
Subject: [PATCH 2/8] fix: escape the bucket name and the object name in signed
 URLs

---
 src/private.rs    |  4 +++-
 src/signed_url.rs | 29 +++++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/private.rs b/src/private.rs
index 69a29e7..5e99dce 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -17,7 +17,9 @@ pub mod utils;
 
 pub(crate) use self::active_datetime::ActiveDatetime;
 pub(crate) use self::bound_token::BoundToken;
-pub(crate) use self::canonical_request::{canonical_query_string, CanonicalRequest};
+pub(crate) use self::canonical_request::{
+    canonical_query_string, percent_encode_component, CanonicalRequest,
+};
 pub(crate) use self::credential_scope::CredentialScope;
 pub(crate) use self::date::Date;
 pub(crate) use self::expiration::Expiration;
diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..5e674ac 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        percent_encode_component, utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date,
+        Expiration, HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -30,6 +30,8 @@ enum ErrorKind {
     InvalidHeaderValue(http::header::InvalidHeaderValue),
     #[error(transparent)]
     InvalidQueryParameters(#[from] url::ParseError),
+    #[error("bucket name and object name cannot be represented in a URL path")]
+    InvalidResourceName,
     #[error(transparent)]
     Location(crate::private::location::Error),
     #[error("now out of range")]
@@ -78,14 +80,21 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
-    let mut url = url::Url::parse(
-        format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
-        )
-        .as_str(),
-    )
-    .map_err(ErrorKind::InvalidQueryParameters)?;
+    let path = format!(
+        "/{}/{}",
+        percent_encode_component(&bucket_name),
+        object_name
+            .split('/')
+            .map(percent_encode_component)
+            .collect::<Vec<String>>()
+            .join("/")
+    );
+    let mut url = url::Url::parse(format!("https://storage.googleapis.com{path}").as_str())
+        .map_err(ErrorKind::InvalidQueryParameters)?;
+    // The URL parser resolves `.` and `..` segments, i.e. the URL would name another object.
+    if url.path() != path {
+        return Err(Error::from(ErrorKind::InvalidResourceName));
+    }
     url.query_pairs_mut().extend_pairs(
         query_parameters
             .iter()
-- 
2.43.0


From bc851d82080ab98bf112f4f1e6b38c384d8627e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 3/8] fix: return an error instead of panicking for unsupported
 signing combinations

---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..4470e6b 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,6 +8,10 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac signing is not supported")]
+    HmacNotSupported,
+    #[error("service account must not use sign blob")]
+    ServiceAccountMustNotUseSignBlob,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountMustNotUseSignBlob)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From 98f929fad41cefaeb0d2fa54378acf9c40d53e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 4/8] fix: return an error instead of panicking when the signed
 URL is too long

---
 src/private/signed_url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..b78bfa9 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -15,6 +15,8 @@ pub(crate) enum Error {
     CanonicalRequest(crate::private::canonical_request::Error),
     #[error("host header not found")]
     HostHeaderNotFound,
+    #[error("invalid uri: {0}")]
+    InvalidUri(#[source] http::uri::InvalidUri),
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
 }
@@ -112,7 +114,7 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::InvalidUri)?;
     Ok(())
 }
 
-- 
2.43.0


From c64b8b10eaf637a3764c1d435110456e2f3a8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 5/8] fix: return an error instead of panicking on an
 out-of-range expires_in

---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..75000ac 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / invalid expires_in error: {0}")]
+    TokenRequestInvalidExpiresIn(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestInvalidExpiresIn(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From a78d2cbd5fb06314d0e8c1da9d1c17c4ddc9033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 6/8] fix: trim whitespace around header values in canonical
 headers

---
 src/private/canonical_request.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 9d9006c..b68cbbc 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -32,7 +32,8 @@ impl CanonicalRequest {
                     .push(
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .trim(),
                     );
             }
             canonical_headers
-- 
2.43.0


From 53f5281b9ae65ea169e8845654dc1eb216fcf031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 7/8] fix: return an error instead of panicking when there are
 too many headers

---
 src/signed_url.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index 5e674ac..7f3b4b0 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -37,6 +37,8 @@ enum ErrorKind {
     #[error("now out of range")]
     Now,
     #[error(transparent)]
+    TooManyHeaders(http::header::MaxSizeReached),
+    #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
 }
 
@@ -106,6 +108,10 @@ pub async fn build_signed_url(
         .uri(url.to_string())
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
+    request
+        .headers_mut()
+        .try_reserve(headers.len())
+        .map_err(ErrorKind::TooManyHeaders)?;
     request.headers_mut().extend(
         headers
             .iter()
-- 
2.43.0


From 3ab732af1c95b5533f7d9156036bae465eb517c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 8/8] verif hooks: expose private encoders behind --cfg
 cloud_storage_signature_verif

---
 src/lib.rs         |  5 +++++
 src/verif_hooks.rs | 25 +++++++++++++++++++++++++
 2 files changed, 30 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index d57f530..e14385d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,10 +26,15 @@
 //! This form data does not include the `file` field, so you need to add the `file` field to upload a file.
 //! See [image-uploader example](https://github.com/bouzuya/cloud-storage-signature/tree/master/examples/image-uploader).
 //!
+#![allow(unexpected_cfgs)]
+
 pub mod html_form_data;
 mod private;
 pub mod signed_url;
 pub mod signing_key;
+#[cfg(cloud_storage_signature_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
 
 pub use self::html_form_data::{HtmlFormData, HtmlFormDataBuilder, PolicyDocumentSigningOptions};
 pub use self::signed_url::{build_signed_url, BuildSignedUrlOptions};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..d224d37
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,25 @@
+//! Access to private functions for the external verification harness.
+//! Only compiled with `--cfg cloud_storage_signature_verif`.
+use crate::private::{canonical_request, signed_url};
+
+pub fn percent_encode(s: &str) -> String {
+    canonical_request::percent_encode(s)
+}
+
+pub fn percent_encode_component(s: &str) -> String {
+    canonical_request::percent_encode_component(s)
+}
+
+pub fn canonical_query_string(request: &http::Request<()>) -> String {
+    canonical_request::canonical_query_string(request)
+}
+
+pub fn canonical_request(request: &http::Request<()>) -> Result<String, String> {
+    canonical_request::CanonicalRequest::new(request)
+        .map(|it| it.to_string())
+        .map_err(|e| e.to_string())
+}
+
+pub fn hex_encode(bytes: &[u8]) -> String {
+    signed_url::hex_encode(bytes)
+}
-- 
2.43.0

