From 8a4335804c4a5c9455fd76cc8a79bf26f943d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 1/8] fix: simple body canonicalization of a body of only empty
 lines is a single CRLF

RFC 6376, section 3.4.3 converts *CRLF at the end of the body to a single
CRLF, so a body consisting of one or more CRLF only must canonicalize to
CRLF, just like the empty body, and not to nothing.
---
 src/canonicalize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..c15c291 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    only_empty_lines: bool,  // whether nothing but empty lines seen so far
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            only_empty_lines: true,
         }
     }
 
@@ -305,6 +307,8 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    // body of only empty lines is reduced to a single CRLF
+                    CanonState::CrLf if self.only_empty_lines => CRLF.to_vec(),
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +357,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.only_empty_lines = false;
     }
 }
 
-- 
2.43.0


From 03a9095266fdef22d7595c89ca255e0ceaac59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 2/8] fix: use exact modulus bit length as RSA key size

---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From 1bdf0ce4cb87ba333031d5567e68d685d19c3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 3/8] fix: reject signs in the numeric tags l=, t=, x=

---
 src/signature.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..6116bf0 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -821,6 +821,15 @@ pub struct DkimSignature {
     pub ext_tags: Box<[(Box<str>, Box<str>)]>,
 }
 
+// Numbers consist of digits only; unlike with `u64::from_str` no sign is allowed.
+fn parse_number(s: &str) -> Option<u64> {
+    if s.chars().all(|c| c.is_ascii_digit()) {
+        s.parse().ok()
+    } else {
+        None
+    }
+}
+
 impl DkimSignature {
     fn from_tag_list(tag_list: &TagList<'_>) -> Result<Self, DkimSignatureError> {
         Self::from_tag_list_internal(tag_list).map_err(|kind| {
@@ -957,8 +966,8 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
                 }
@@ -991,14 +1000,14 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
                 }
-- 
2.43.0


From f4605649a56f62000f002a17eeec29e532a3fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 4/8] fix: encode header names in z= tag, so that the result
 parses back

---
 src/signer/format.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..8dec700 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -410,7 +410,7 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
 
     let Fmt { width, indent, last, ascii } = fmt;
 
-    let format_field_value = |value| {
+    let encode_item = |value: &[u8]| {
         let encode = if ascii {
             quoted_printable::encode_ascii_only
         } else {
@@ -419,7 +419,8 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // names, too, may contain characters that need to be encoded (eg '|')
+    let mut iter = value.iter().map(|(f, v)| (encode_item(f.as_ref().as_bytes()), v));
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
@@ -431,7 +432,7 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
     advance_i_initial(out, i, taglen, fmt);
     write!(out, "z={first_name}:").unwrap();
 
-    let val = format_field_value(val);
+    let val = encode_item(val);
     format_chunks_into_string(out, i, fmt, &val);
 
     for (name, val) in iter {
@@ -451,7 +452,7 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
             *i = indent.len() + namelen;
         }
 
-        let val = format_field_value(val);
+        let val = encode_item(val);
         format_chunks_into_string(out, i, fmt, &val);
     }
 
-- 
2.43.0


From 110afd5d86193421d3a11d6c0d9f9aa27e4faaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 5/8] fix: fail signing with Overflow instead of saturating the
 expiration

---
 src/signer/sign.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/signer/sign.rs b/src/signer/sign.rs
index f56d85d..02c9ec5 100644
--- a/src/signer/sign.rs
+++ b/src/signer/sign.rs
@@ -94,10 +94,20 @@ where
         Timestamp::Exact(t) => Some(t),
     };
 
-    let expiration = request.valid_duration.map(|duration| {
-        timestamp.unwrap_or_else(now_unix_secs)
-            .saturating_add(duration.as_secs())
-    });
+    let expiration = match request.valid_duration {
+        None => None,
+        Some(duration) => {
+            let t = timestamp.unwrap_or_else(now_unix_secs);
+            // a saturated value would not in every case be after the timestamp
+            match t.checked_add(duration.as_secs()) {
+                Some(x) => Some(x),
+                None => {
+                    trace!("not signing, expiration too large");
+                    return Err(SigningError::Overflow);
+                }
+            }
+        }
+    };
 
     // calculate z= tag copied headers
 
-- 
2.43.0


From 4c54927e03f8769abaeebfd13c3a3eb240d81989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 6/8] fix: apply the configured lookup timeout to key record
 lookups

---
 src/verifier/query.rs | 50 +++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 84710ca..825506e 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -22,10 +22,13 @@ use crate::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet, BTreeSet},
+    collections::{HashMap, HashSet},
+    future::Future,
     io::{self, ErrorKind},
+    time::Duration,
 };
-use tokio::{task::JoinSet, time};
+#[cfg(not(target_arch = "wasm32"))]
+use tokio::{runtime::Handle, time};
 use tracing::trace;
 
 struct QueriesBuilder {
@@ -63,33 +66,34 @@ impl QueriesBuilder {
 
             let lookup_timeout = config.lookup_timeout;
 
-            // set.spawn(async move {
-            //     let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-                // let result = match time::timeout(lookup_timeout, f).await {
-                //     Ok(r) => r,
-                //     Err(e) => Err(e.into()),
-                // };
-
-            //     (indexes, result)
-            // });
-
-            let f = look_up_records(&resolver,domain.as_ref(),selector.as_ref()).await;
-            // let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-            // let result = match time::timeout(lookup_timeout, f).await {
-            //             Ok(r) => r,
-            //             Err(e) => Err(e.into()),
-            // };
-            
-            set.push(
-                (indexes, f)
-            );
-        }
+            let f = with_timeout(lookup_timeout, look_up_records(&resolver, &domain, &selector)).await;
 
+            set.push((indexes, f));
+        }
 
         Queries { set }
     }
 }
 
+// The timeout needs the Tokio timer, which is not available on WebAssembly, nor
+// when not executing on a Tokio runtime.
+async fn with_timeout(
+    timeout: Duration,
+    f: impl Future<Output = QueryResult>,
+) -> QueryResult {
+    #[cfg(not(target_arch = "wasm32"))]
+    if Handle::try_current().is_ok() {
+        return match time::timeout(timeout, f).await {
+            Ok(r) => r,
+            Err(e) => Err(e.into()),
+        };
+    }
+
+    let _ = timeout;
+
+    f.await
+}
+
 pub type QueryResult = io::Result<Vec<io::Result<String>>>;
 
 async fn look_up_records<T: LookupTxt + ?Sized>(
-- 
2.43.0


From acae1d218d63e92f4bb66a1d3b8da8033779ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 7/8] fix: perform key record lookups concurrently

---
 src/verifier/query.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 825506e..7b3ca20 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -23,8 +23,9 @@ use crate::{
 };
 use std::{
     collections::{HashMap, HashSet},
-    future::Future,
+    future::{self, Future},
     io::{self, ErrorKind},
+    task::Poll,
     time::Duration,
 };
 #[cfg(not(target_arch = "wasm32"))]
@@ -57,20 +58,44 @@ impl QueriesBuilder {
     where
         T: LookupTxt + Clone + 'static,
     {
-        let mut set = Vec::new();
+        let lookup_timeout = config.lookup_timeout;
+
+        let mut queries = Vec::new();
 
         for ((domain, selector), indexes) in self.lookup_pairs {
             trace!(%domain, %selector, "spawning DNS query");
 
             let resolver = resolver.clone();
 
-            let lookup_timeout = config.lookup_timeout;
+            queries.push(Box::pin(async move {
+                let f = look_up_records(&resolver, &domain, &selector);
+                let result = with_timeout(lookup_timeout, f).await;
 
-            let f = with_timeout(lookup_timeout, look_up_records(&resolver, &domain, &selector)).await;
-
-            set.push((indexes, f));
+                (indexes, result)
+            }));
         }
 
+        // Execute all queries concurrently, results are in order of completion.
+
+        let mut set = Vec::new();
+
+        future::poll_fn(|cx| {
+            queries.retain_mut(|query| match query.as_mut().poll(cx) {
+                Poll::Ready(result) => {
+                    set.push(result);
+                    false
+                }
+                Poll::Pending => true,
+            });
+
+            if queries.is_empty() {
+                Poll::Ready(())
+            } else {
+                Poll::Pending
+            }
+        })
+        .await;
+
         Queries { set }
     }
 }
-- 
2.43.0


From 191b8a1964c29024a0c1d5ff1fb8e57d57aa738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 8/8] fix: keep track of the line when an extra tag's value
 brings its own line breaks

The cursor counted such a value as if it were on one line, while the
insertion of the signature data looked at the actual last line. Tags after
b= could therefore get longer than the line width.
---
 src/signer/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 8dec700..87796fa 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -313,6 +313,12 @@ fn format_tag(out: &mut String, i: &mut usize, fmt: Fmt<'_>, name: &str, value:
     if !last {
         out.push(';');
     }
+
+    // A value that brings its own line breaks leaves the cursor in its last
+    // line.
+    if let Some((_, last_line)) = value.rsplit_once("\r\n") {
+        *i = last_line.chars().count() + if last { 0 } else { 1 };
+    }
 }
 
 fn format_tag_h(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[FieldName]) {
-- 
2.43.0

