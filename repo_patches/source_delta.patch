From 9e8ab99200e2ba2de1bc901e15fd32879418bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 01/19] fix: keep stray percent characters in
 PercentDecodedWhatwgBytes::into_bytes

---
 src/percent_encode/decode.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..568de62 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,15 +92,16 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            // The length from the beginning of the entire input, including the
+            // stray percent characters that are already skipped.
+            let len_before_pct = (self.not_yet_decoded.len() - rest.len()) + pct_pos;
+            let after_pct = &rest[(pct_pos + 1)..];
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
             if let Some(decoded) = decoded {
                 return Some((len_before_pct, decoded, rest));
             }
-            rest = after_pct;
         }
 
         None
@@ -167,7 +167,8 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            // A percent character that is not a part of a valid triplet is kept as is.
+            result.push(decoded.unwrap_or(b'%'));
         }
 
         Cow::Owned(result)
-- 
2.43.0


From ee04e559867b2d7ebe67688fe304d0b0ba1c0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 02/19] fix: reject an empty fragment in absolute-IRI

---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..17cf6b8 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((maybe_query, maybe_fragment)) => (maybe_query, Some(maybe_fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        None => Ok(()),
+        // Note that an empty fragment is still a fragment.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(maybe_fragment) => validate_fragment::<S>(maybe_fragment),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From ea2287657192908408d84b6b6859c65c7ae5820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 03/19] fix: treat an empty port as not normalized in
 is_normalized*

---
 src/parser/trusted.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..6adad73 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -378,6 +378,11 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
             return false;
         }
 
+        // Check `port`: an empty port and its delimiter should be omitted.
+        if authority_components.port() == Some("") {
+            return false;
+        }
+
         // Check pencent encodings in `userinfo`.
         if let Some(userinfo) = authority_components.userinfo() {
             if !is_pct_case_normalized::<S>(userinfo) {
-- 
2.43.0


From 090cde695af4d3e7873e87101a93fd87d1d26126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 04/19] fix: do not treat userinfo without a colon as having a
 password

---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..0be7b1a 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -28,7 +28,8 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        // `userinfo` without a separator colon has no password.
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From c591814b00167a6b0bde1f602ef31102c6d5b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 05/19] fix: validate the IRI with a replaced host as RiStr,
 not RiAbsoluteStr

---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..dc949ff 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                RiStr::<S>::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From d2f76c6cbc3cb9baf9156d5c78c4f9b463dd0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 06/19] fix: validate characters in the path on building an IRI

---
 src/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..90ff8ec 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,7 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    parser::validate_path::<S>(builder.path)?;
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
-- 
2.43.0


From e3ed79440501256895e3850582e92c058bff0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 07/19] fix: recognize the path normalized to a single slash as
 absolute

---
 src/normalize/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalize/path.rs b/src/normalize/path.rs
index da2f3a7..31b89c9 100644
--- a/src/normalize/path.rs
+++ b/src/normalize/path.rs
@@ -582,7 +582,9 @@ impl PathCharacteristic {
 
         let mut writer = Writer::default();
         match path.fmt_write_normalize::<S, _>(&mut writer, op, authority_is_present) {
-            // Empty path.
+            // Only a slash is written.
+            Ok(_) if writer.is_absolute == Some(true) => PathCharacteristic::CommonAbsolute,
+            // Empty path, or the relative path with only one segment.
             Ok(_) => PathCharacteristic::CommonRelative,
             Err(_) => writer
                 .result
-- 
2.43.0


From 794e872f127f50af235c46d42c31e206702496f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 08/19] fix: check normalizability of the base path when the
 reference path is empty

---
 src/normalize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 3e167b6..f5704c4 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -358,7 +358,10 @@ impl NormalizationInput<'_> {
             return Ok(());
         }
         match self.path {
-            Path::Done(_) => Ok(()),
+            // The path is written as is if the normalization is disabled.
+            Path::Done(_) if self.op.mode == NormalizationMode::None => Ok(()),
+            Path::Done(path) => PathToNormalize::from_single_path(path)
+                .ensure_rfc3986_normalizable_with_authority_absent(),
             Path::NeedsProcessing(path) => path.ensure_rfc3986_normalizable_with_authority_absent(),
         }
     }
-- 
2.43.0


From aa58a075b947da119ebc02588b7be43465658cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 09/19] fix: process non-ASCII and split percent-encoded
 sequences on reserved expansion

---
 src/parser/str/maybe_pct_encoded.rs | 35 ++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..c1f4ff6 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -142,19 +142,15 @@ where
         let mut rest = s;
         while !rest.is_empty() {
             let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
-            if len_consumed == 0 {
-                // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
-                    self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
-                }
-
+            if matches!(result, PushResult::Undecodable(0)) {
+                // `rest` does not start with the percent-encoded triplets, and
+                // nothing is left in the decoder.
                 // Write plain string prefix (if found).
+                debug_assert_eq!(len_consumed, 0);
                 let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
                 debug_assert!(
                     !plain_prefix.is_empty(),
-                    "`len_consumed == 0` indicates non-empty `rest` not starting with `%`"
+                    "`Undecodable(0)` indicates non-empty `rest` not starting with `%`"
                 );
                 self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
                 self.result_continue_or_err()?;
@@ -268,6 +264,19 @@ impl DecoderBuffer {
             buf.len() >= 12,
             "[precondition] destination buffer should be at least 12 bytes"
         );
+        if self.len_encoded > 0 && self.len_encoded % 3 == 0 {
+            // The last triplet of the previous undecodable sequence might be
+            // left in the buffer, and it can be a complete character by itself.
+            let len_decoded = usize::from(self.len_encoded) / 3;
+            let decoded = core::str::from_utf8(&self.decoded[..len_decoded]);
+            if let Some(c) = decoded.ok().and_then(|s| s.chars().next()) {
+                let len_result = NonZeroU8::new(self.len_encoded)
+                    .expect("`encoded` buffer is confirmed to be nonempty");
+                self.write_and_pop(buf, len_result.get());
+                return (0, PushResult::Decoded(len_result, c));
+            }
+        }
+
         let mut chars = s.chars();
         let mut len_triplet_incomplete = self.len_encoded % 3;
         for c in &mut chars {
@@ -275,8 +284,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +298,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
-- 
2.43.0


From 7e8bc96e3110e479d7da8a117b77edba45556060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 10/19] fix: count characters, not bytes, on truncating
 template variables

---
 src/template/expand.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..2c7b807 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,15 +463,11 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
-                    let sub_len = s.len() - chars.as_str().len();
-                    max_len -= count;
+                    let sub_len = s
+                        .char_indices()
+                        .nth(max_len)
+                        .map_or(s.len(), |(i, _)| i);
+                    max_len -= s[..sub_len].chars().count();
                     write!(
                         writer,
                         "{}",
@@ -528,20 +524,17 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
-        let len = s.len() - chars.as_str().len();
+        let len = s
+            .char_indices()
+            .nth(self.rest_num_chars)
+            .map_or(s.len(), |(i, _)| i);
         let truncated = &s[..len];
         write!(
             self.inner,
             "{}",
             PercentEncoded::<_, S>::unreserve(truncated)
         )?;
-        self.rest_num_chars -= skip_count;
+        self.rest_num_chars -= truncated.chars().count();
         Ok(())
     }
 }
-- 
2.43.0


From af344aa4b0af6e644ae5509e9e6ac3c1f4629212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 11/19] fix: do not encode percent-encoded triplets in variable
 names on expansion

---
 src/template/expand.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 2c7b807..8ac0755 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -785,11 +785,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
             }
@@ -872,11 +870,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-- 
2.43.0


From 4447f883d22c035f240e027cfc971f80dca40e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 12/19] fix: respect ifemp of RFC 6570 for empty members on
 exploded named expansion

---
 src/template/expand.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 8ac0755..725797e 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -586,6 +586,20 @@ impl<W: fmt::Write> fmt::Write for PrefixOnceWriter<'_, W> {
     }
 }
 
+/// Writes `=` and the escaped value, or only the `ifemp` string if the value is empty.
+fn write_eq_value_or_ifemp<S: Spec, T: fmt::Display, W: fmt::Write>(
+    writer: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    let mut prefix_writer = PrefixOnceWriter::with_prefix(writer, "=");
+    escape_write::<S, _, _>(&mut prefix_writer, v, oppr.allow_reserved)?;
+    if prefix_writer.has_unwritten_prefix() {
+        writer.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// An opaque token value that proves some variable is visited.
 // This should not be able to be created by any means other than `VarVisitor::visit_foo()`.
 // Do not derive any traits that allows the value to be generated or cloned.
@@ -776,7 +790,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 self.visitor
                     .writer
                     .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
+                if !is_explode {
+                    self.visitor.writer.write_char('=')?;
+                }
             }
         } else {
             // Write prefix for the non-first item.
@@ -788,12 +804,15 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                     self.visitor
                         .writer
                         .write_str(self.visitor.varspec.name().as_str())?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            write_eq_value_or_ifemp::<S, _, _>(self.visitor.writer, item, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
@@ -867,7 +886,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             }
             if is_explode {
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char('=')?;
+                if !self.oppr.named {
+                    self.visitor.writer.write_char('=')?;
+                }
             } else {
                 if self.oppr.named {
                     self.visitor
@@ -894,12 +915,15 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            write_eq_value_or_ifemp::<S, _, _>(self.visitor.writer, value, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
-- 
2.43.0


From e42d226a41fa36419d6d89cfa45690366df50b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 13/19] fix: do not panic on non-ASCII characters after a
 percent in URI templates

---
 src/template/parser/validate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..c02581f 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -118,20 +118,22 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                // Don't split the string before checking the bytes, since the
+                // second byte is not necessarily a char boundary.
+                let xdigits2 = &xdigits2_and_rest.as_bytes()[..2];
+                if !xdigits2[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !xdigits2[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0


From 679d49b1285174155596b11522f6b048d51badc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 14/19] fix: reject max-length of zero, with leading zeros, or
 out of range in URI templates

---
 src/template/parser/validate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index c02581f..5812b1c 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,8 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            // `max-length = %x31-39 0*3DIGIT ; positive integer < 10000`.
+            if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
-- 
2.43.0


From 801f2a3548f630de082c2ffb408802e1e71d01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 15/19] fix: reject consecutive and trailing dots in variable
 names of URI templates

---
 src/template/parser/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 5812b1c..6fc2bd5 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -62,7 +62,10 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         Some(b) if b.is_ascii() && is_ascii_varchar_start(*b) => &s[1..],
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
-    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
+    // `varname = varchar *( ["."] varchar )`: dots should be followed by a varchar.
+    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false)
+        && !rest.ends_with('.')
+        && !rest.contains("..");
     if !is_valid {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
-- 
2.43.0


From dda4b24f1185a5dbe5a57a65ba3518b8e7995e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 16/19] fix: accept non-ASCII literals in URI templates and
 encode them on expansion

---
 src/template/expand.rs          |  5 ++---
 src/template/parser/validate.rs | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 725797e..4f08f19 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -138,7 +138,7 @@ impl<S: Spec, C: Context> fmt::Display for Expanded<'_, S, C> {
         for chunk in Chunks::new(self.template) {
             let expr = match chunk {
                 Chunk::Literal(lit) => {
-                    f.write_str(lit)?;
+                    escape_write::<S, _, _>(f, lit, true)?;
                     continue;
                 }
                 Chunk::Expr(body) => body,
@@ -206,8 +206,7 @@ fn expand_whole_dynamic_impl<S: Spec, W: fmt::Write, C: DynamicContext>(
     for chunk in Chunks::new(template) {
         let expr = match chunk {
             Chunk::Literal(lit) => {
-                writer
-                    .write_str(lit)
+                escape_write::<S, _, _>(writer, lit, true)
                     .map_err(|_| Error::new(ErrorKind::WriteFailed, pos))?;
                 pos += lit.len();
                 continue;
diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 6fc2bd5..2760b4f 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -3,6 +3,7 @@
 use crate::parser::str::{
     find_split2_hole, find_split_hole, satisfy_chars_with_pct_encoded, starts_with_double_hexdigits,
 };
+use crate::spec::{IriSpec, Spec};
 use crate::template::components::MaybeOperator;
 use crate::template::error::{Error, ErrorKind};
 
@@ -10,11 +11,23 @@ use crate::template::parser::char::{
     is_ascii_literal_char, is_ascii_varchar_continue, is_ascii_varchar_start,
 };
 
+/// Returns true if the given non-ASCII character matches `ucschar / iprivate` rule.
+#[inline]
+fn is_nonascii_literal_char<S: Spec>(c: char) -> bool {
+    S::is_nonascii_char_unreserved(c) || S::is_nonascii_char_private(c)
+}
+
 /// Returns `Ok(())` if the given string is a valid literal.
 fn validate_literal(s: &str, offset: usize) -> Result<(), Error> {
     match s
         .chars()
-        .position(|c| !c.is_ascii() || !is_ascii_literal_char(c as u8))
+        .position(|c| {
+            if c.is_ascii() {
+                !is_ascii_literal_char(c as u8)
+            } else {
+                !is_nonascii_literal_char::<IriSpec>(c)
+            }
+        })
     {
         Some(pos) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
         None => Ok(()),
-- 
2.43.0


From adb0208a699599cd79eb9192171e406bc18f496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 17/19] fix: do not add an empty authority on unsetting
 userinfo or port of an authority-less builder

---
 src/build.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 90ff8ec..479e433 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -656,7 +656,9 @@ impl<'a> Builder<'a> {
     /// ```
     #[inline]
     pub fn unset_userinfo(&mut self) {
-        self.authority_builder().userinfo = UserinfoBuilder::default();
+        if let Some(authority) = &mut self.authority {
+            authority.userinfo = UserinfoBuilder::default();
+        }
     }
 
     /// Sets the reg-name or IP address (i.e. host) without port.
@@ -801,7 +803,9 @@ impl<'a> Builder<'a> {
     /// ```
     #[inline]
     pub fn unset_port(&mut self) {
-        self.authority_builder().port = PortBuilder::default();
+        if let Some(authority) = &mut self.authority {
+            authority.port = PortBuilder::default();
+        }
     }
 
     /// Sets the query.
-- 
2.43.0


From 714ecf5650267185ab3990c69b5549e07a7fb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 18/19] fix: formatting parameters no longer pad or truncate
 parts of built and masked IRIs

---
 src/build.rs         | 6 +++---
 src/mask_password.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 479e433..fec4ceb 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -189,7 +189,7 @@ impl AuthorityBuilder<'_> {
                 if normalize {
                     PctCaseNormalized::<S>::new(userinfo).fmt(f)?;
                 } else {
-                    userinfo.fmt(f)?;
+                    f.write_str(userinfo)?;
                 }
                 f.write_char('@')?;
             }
@@ -204,7 +204,7 @@ impl AuthorityBuilder<'_> {
                     if normalize {
                         PctCaseNormalized::<S>::new(password).fmt(f)?;
                     } else {
-                        password.fmt(f)?;
+                        f.write_str(password)?;
                     }
                 }
                 f.write_char('@')?;
@@ -221,7 +221,7 @@ impl AuthorityBuilder<'_> {
             }
             #[cfg(feature = "std")]
             HostRepr::IpAddr(ipaddr) => match ipaddr {
-                std::net::IpAddr::V4(v) => v.fmt(f)?,
+                std::net::IpAddr::V4(v) => write!(f, "{v}")?,
                 std::net::IpAddr::V6(v) => write!(f, "[{v}]")?,
             },
         }
diff --git a/src/mask_password.rs b/src/mask_password.rs
index 0be7b1a..edaa0e7 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -54,7 +54,7 @@ where
     );
 
     f.write_str(&s[..pw_range.start])?;
-    alt.fmt(f)?;
+    write!(f, "{alt}")?;
     f.write_str(&s[pw_range.end..])?;
     Ok(())
 }
-- 
2.43.0


From 8c16074cceab81a3cccc7c7e19d295bd0709d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:26 +0000
Subject: [PATCH 19/19] fix: `PasswordMasked::try_to_dedicated_string` reports
 allocation failures also without a password

---
 src/mask_password.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index edaa0e7..e5405bf 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -201,10 +201,8 @@ macro_rules! impl_mask {
             type Target = $owned<S>;
 
             fn try_to_dedicated_string(&self) -> Result<Self::Target, TryReserveError> {
-                let pw_range = match password_range_to_hide(self.iri_ref.as_ref()) {
-                    Some(pw_range) => pw_range,
-                    None => return Ok(self.iri_ref.to_owned()),
-                };
+                // When there is nothing to hide, the range is empty.
+                let pw_range = password_range_to_hide(self.iri_ref.as_ref()).unwrap_or_default();
                 let mut s = String::new();
                 let iri_ref = self.iri_ref.as_str();
                 s.try_reserve(iri_ref.len() - (pw_range.end - pw_range.start))?;
-- 
2.43.0

