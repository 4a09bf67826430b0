From e7f0ba7a36916a333abb658cc9ce48840e49e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 01/28] fix: separate unknown fmtp parameters with ";" when
 serialising

Joined with "," they merged into a single parameter when parsed again.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..205308d 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -700,7 +700,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From a54c291812b3663164c77412c798a3ed8097412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/28] fix: ignore whitespace around fmtp parameters

"maxplaybackrate=16000; stereo=1" (RFC 7587, section 7) lost every parameter after
the first, because " stereo" is not a known parameter name.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 205308d..396cd66 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2150,6 +2150,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From 6ec9cdb05e35644e7cda5d81c1eec6f85e6ff18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 03/28] fix: do not serialise an empty "a=" line

A section whose only attributes have an empty text form (an fmtp with nothing but
default values) was written as "a=", which the parser rejects.
---
 src/attribute_type.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 396cd66..4fd527e 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -40,16 +40,14 @@ macro_rules! write_option_string {
 #[macro_export]
 macro_rules! maybe_vector_to_string {
     ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
-            0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+        match $vec
+            .iter()
+            .map(ToString::to_string)
+            .filter(|s| !s.is_empty())
+            .collect::<Vec<String>>()
+        {
+            strings if strings.is_empty() => "".to_string(),
+            strings => format!($fmt_str, strings.join($sep)),
         }
     };
 }
-- 
2.43.0


From 4abc67314f030de768751ab4651712ae0214965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/28] fix: accept valid descriptions shorter than 51 bytes

The bound dates from when a connection line was mandatory; without one, a valid
description (and our own serialisation of a session) can be shorter.
---
 src/lib.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..8d2cbde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -827,14 +827,6 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
             line_number: 0,
         });
     }
-    // see test_parse_sdp_minimal_sdp_successfully
-    if sdp.len() < 51 {
-        return Err(SdpParserError::Line {
-            error: SdpParserInternalError::Generic("string too short to be valid SDP".to_string()),
-            line: sdp.to_string(),
-            line_number: 0,
-        });
-    }
     let lines = sdp.lines();
     let mut errors: Vec<SdpParserError> = Vec::new();
     let mut warnings: Vec<SdpParserError> = Vec::new();
-- 
2.43.0


From c4e285d14a42b507c4758e3dd5a63c10026cc3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:19 +0000
Subject: [PATCH 05/28] fix: keep the media sections in a masked session

SdpSession::masked_clone returned a session without any media section.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8d2cbde..0786240 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for m in &self.media {
+            masked.media.push(m.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From bb652ee06e5524a9eb88217dc1ec40ce8c439f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 06/28] fix: mask the connection address of a media section

---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..8103d94 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|c| c.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From 22d9daa24797b99989477d265c1687baa7fc063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 07/28] fix: give every masked fingerprint its own value

Only the low byte of the counter was written, so that fingerprint 257 was masked
to the same value as fingerprint 1 (and 256 to all zeroes).
---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From 92215a1c356bb7d0a802e9e898a0a0f0f331bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 08/28] fix: mask the ufrag extension of ICE candidates

The same value is masked in a=ice-ufrag.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 4fd527e..59c9c38 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -296,6 +296,7 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self.ufrag.as_ref().map(|u| anonymizer.mask_ice_user(u));
         masked
     }
 }
-- 
2.43.0


From 22002092862a98d48383de0f2311d5229af0fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 09/28] fix: mask the address of a=rtcp

---
 src/attribute_type.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 59c9c38..999776e 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -453,6 +453,18 @@ impl SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        SdpAttributeRtcp {
+            port: self.port,
+            unicast_addr: self
+                .unicast_addr
+                .as_ref()
+                .map(|addr| anon.mask_typed_address(addr)),
+        }
+    }
+}
+
 impl fmt::Display for SdpAttributeRtcp {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self.unicast_addr {
@@ -1580,6 +1592,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From 81aa2f4830d41b95b5884e2bbc7c327ed70e8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 10/28] fix: do not copy the remaining imageattr tokens for
 every set

Parsing a list of n sets copied n*n/2 tokens.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 999776e..b760748 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2699,7 +2699,7 @@ where
         "*" => Ok(SdpAttributeImageAttrSetList::Wildcard),
         x => {
             let mut sets = vec![parse_set(x)?];
-            while let Some(set_str) = tokens.clone().peek() {
+            while let Some(set_str) = tokens.peek() {
                 if set_str.starts_with('[') {
                     sets.push(parse_set(&tokens.next().unwrap())?);
                 } else {
-- 
2.43.0


From d8cf537c9baef34fc93d0054021655d0192c01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 11/28] fix: consume the parsed lines in linear time

remove(0) shifts all the remaining lines for every line of a description.
---
 src/lib.rs        | 3 +--
 src/media_type.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0786240..f10ff31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -304,8 +304,7 @@ impl SdpSession {
     }
 
     pub fn parse_session_vector(&mut self, lines: &mut Vec<SdpLine>) -> Result<(), SdpParserError> {
-        while !lines.is_empty() {
-            let line = lines.remove(0);
+        for line in lines.drain(..) {
             match line.sdp_type {
                 SdpType::Attribute(a) => {
                     let _line_number = line.line_number;
diff --git a/src/media_type.rs b/src/media_type.rs
index 8103d94..f2dd2f0 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -420,8 +420,7 @@ pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, Sdp
         }
     };
 
-    while !lines.is_empty() {
-        let line = lines.remove(0);
+    for line in lines.drain(..) {
         let _line_number = line.line_number;
         match line.sdp_type {
             SdpType::Connection(c) => {
-- 
2.43.0


From c05528910dd512ef3b4ca675a94a231e1c623675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 12/28] fix: do not panic on an empty list of media lines

---
 src/media_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/media_type.rs b/src/media_type.rs
index f2dd2f0..abd14fc 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -409,6 +409,10 @@ pub fn parse_media(value: &str) -> Result<SdpType, SdpParserInternalError> {
 pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, SdpParserError> {
     let mut media_sections: Vec<SdpMedia> = Vec::new();
 
+    if lines.is_empty() {
+        return Ok(media_sections);
+    }
+
     let media_line = lines.remove(0);
     let mut sdp_media = match media_line.sdp_type {
         SdpType::Media(v) => SdpMedia::new(v),
-- 
2.43.0


From e359b629ee46d381f8f35b174b99e08eaaf2206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:41 +0000
Subject: [PATCH 13/28] fix: reject fingerprint bytes with a sign

"+A" was accepted as the byte 0A.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b760748..c63c2b8 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -779,7 +779,7 @@ impl SdpAttributeFingerprintHashType {
         let bytes = octets_string
             .split(':')
             .map(|byte_token| {
-                if byte_token.len() != 2 {
+                if byte_token.len() != 2 || !byte_token.bytes().all(|b| b.is_ascii_hexdigit()) {
                     return Err(SdpParserInternalError::Generic(
                         "fingerpint's byte tokens must have 2 hexdigits".to_string(),
                     ));
-- 
2.43.0


From 298c12448d487734e00c4d99615f924c728dd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 14/28] fix: reject unbalanced braces at the end of an
 imageattr

Everything after the unbalanced brace was silently dropped.
---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index c63c2b8..bfc85ad 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2487,6 +2487,11 @@ fn parse_imageattr_tokens(to_parse: &str, separator: char) -> Vec<String> {
         }
     }
 
+    // Keep what follows an unbalanced brace, so that it is not silently ignored
+    if !current_tokens.is_empty() {
+        tokens.push(current_tokens.join(&separator.to_string()));
+    }
+
     tokens
 }
 
-- 
2.43.0


From 62b3d6f361811ec8bf174e53b77653088ba0048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 15/28] fix: keep the other fmtp parameters of an rtx payload
 when serialising

---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index bfc85ad..ac67677 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -652,10 +652,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -673,6 +669,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From 06f79eacc8397629c718cb77ef0fdb702f30b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 16/28] fix: check the rids of every simulcast attribute of a
 media section

Only the first one was checked.
---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f10ff31..4a1b737 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -742,9 +742,11 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             }
         }
 
-        if let Some(SdpAttribute::Simulcast(simulcast)) =
-            msection.get_attribute(SdpAttributeType::Simulcast)
-        {
+        for attr in msection.get_attributes() {
+            let simulcast = match attr {
+                SdpAttribute::Simulcast(simulcast) => simulcast,
+                _ => continue,
+            };
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
                  rid_ids: &[&str]|
-- 
2.43.0


From 31c6099d2c89d3b3dc0ce0a9e8b2003e24b04364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 17/28] fix: reject a rid attribute with a pt parameter that is
 not the first one

It was kept as an unknown parameter, which is written in first place, and so
becomes a list of formats, when the other parameters are not written.
---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index ac67677..ff04f36 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2968,6 +2968,11 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                 "max-fs" => params.max_fs = param_value_pair[1].parse::<u32>()?,
                 "max-br" => params.max_br = param_value_pair[1].parse::<u32>()?,
                 "max-pps" => params.max_pps = param_value_pair[1].parse::<u32>()?,
+                "pt" => {
+                    return Err(SdpParserInternalError::Generic(
+                        "The rid parameter pt must be the first parameter".to_string(),
+                    ));
+                }
                 "depends" => {
                     depends.extend(param_value_pair[1].split(',').map(ToString::to_string));
                 }
-- 
2.43.0


From 82be7a0735bb4c10d7c628dc600578b0bade27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 18/28] fix: reject simulcast ids with a "="

Serialised without "rid=", they made the attribute impossible to parse.
---
 src/attribute_type.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index ff04f36..b273e6d 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -3326,9 +3326,12 @@ fn parse_simulcast_version_list(
         let mut descriptor_versionlist_pair = to_parse.splitn(2, '=');
         match descriptor_versionlist_pair.next().unwrap() {
             // TODO Bug 1470568
-            "rid" => Ok(make_version_list(
-                descriptor_versionlist_pair.next().unwrap(),
-            )),
+            "rid" => match descriptor_versionlist_pair.next().unwrap() {
+                list if list.contains('=') => Err(SdpParserInternalError::Generic(
+                    "Simulcast attribute has a '=' in a list of ids".to_string(),
+                )),
+                list => Ok(make_version_list(list)),
+            },
             descriptor => Err(SdpParserInternalError::Generic(format!(
                 "Simulcast attribute has unknown list descriptor '{descriptor:?}'"
             ))),
-- 
2.43.0


From 9636f84da92eaacdae72d66a259143e7c1400890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 19/28] fix: report the real line number of a misplaced first
 line

The numbers 0, 1 and 2 were wrong after blank or unsupported lines.
---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a1b737..a308337 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -777,30 +777,33 @@ fn parse_sdp_vector(lines: &mut Vec<SdpLine>) -> Result<SdpSession, SdpParserErr
         });
     }
 
-    let version = match lines.remove(0).sdp_type {
+    let line = lines.remove(0);
+    let version = match line.sdp_type {
         SdpType::Version(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "first line needs to be version number".to_string(),
-                line_number: 0,
+                line_number: line.line_number,
             });
         }
     };
-    let origin = match lines.remove(0).sdp_type {
+    let line = lines.remove(0);
+    let origin = match line.sdp_type {
         SdpType::Origin(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "second line needs to be origin".to_string(),
-                line_number: 1,
+                line_number: line.line_number,
             });
         }
     };
-    let session = match lines.remove(0).sdp_type {
+    let line = lines.remove(0);
+    let session = match line.sdp_type {
         SdpType::Session(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "third line needs to be session".to_string(),
-                line_number: 2,
+                line_number: line.line_number,
             });
         }
     };
-- 
2.43.0


From 52f1650e533d05b17825a74770049f80af2ea7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 20/28] fix: drop blanks around the parameters of a rid

A blank at the end of a parameter was kept and got lost when printing moved
the parameter to the end of the line.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b273e6d..5533240 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2953,6 +2953,7 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
         }
 
         for param in parameters {
+            let param = param.trim();
             // TODO: Bug 1225877. Add support for params without '='
             let param_value_pair: Vec<&str> = param.splitn(2, '=').collect();
             if param_value_pair.len() != 2 {
-- 
2.43.0


From f51a6c84aaaa7909ed832494be93b5e3b6499b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:31 +0000
Subject: [PATCH 21/28] fix: reject unbalanced braces within an imageattr set

---
 src/attribute_type.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 5533240..c678295 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2560,6 +2560,13 @@ fn parse_image_attr_xyrange(
 fn parse_image_attr_set(
     to_parse: &str,
 ) -> Result<SdpAttributeImageAttrSet, SdpParserInternalError> {
+    // Otherwise part of a list would pass for a token of its own, and be ignored
+    if to_parse.matches('[').count() != to_parse.matches(']').count() {
+        return Err(SdpParserInternalError::Generic(
+            "imageattr set has unbalanced braces".to_string(),
+        ));
+    }
+
     let mut tokens = parse_imageattr_tokens(to_parse, ',').into_iter();
 
     let x_token = tokens.next().ok_or_else(|| {
-- 
2.43.0


From 8baddc667895695e5a2cf55af4b20f37673907d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 22/28] fix: accept any amount of whitespace between imageattr
 tokens

---
 src/attribute_type.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index c678295..7dab2d9 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2790,7 +2790,11 @@ where
 //             / ( "1" "." 1*2("0") )
 //                ; Values between 0.00 and 1.00
 fn parse_image_attr(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
-    let mut tokens = parse_imageattr_tokens(to_parse, ' ').into_iter().peekable();
+    // Any amount of whitespace may separate the tokens
+    let to_parse = to_parse.split_whitespace().collect::<Vec<_>>().join(" ");
+    let mut tokens = parse_imageattr_tokens(&to_parse, ' ')
+        .into_iter()
+        .peekable();
 
     let pt = parse_payload_type(
         tokens
-- 
2.43.0


From ef5b60d78859d29a185145ec8c25c432519f657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 23/28] fix: reject an imageattr sar list of a single value
 instead of ignoring it

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 7dab2d9..5274232 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2627,7 +2627,7 @@ fn parse_image_attr_set(
                     // Range
                     let range = parse_ps_range(sar_values)?;
                     sar = Some(SdpAttributeImageAttrSRange::Range(range.0, range.1))
-                } else if value_token.contains(',') {
+                } else {
                     // Discrete values
                     let values = sar_values
                         .split(',')
-- 
2.43.0


From cfe7372a9a07480252f6f4541da6d4f4ca1c6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 24/28] fix: reject imageattr q and ratio values that are out
 of range or not a number

---
 src/attribute_type.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 5274232..6f71631 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2593,6 +2593,16 @@ fn parse_image_attr_set(
     let mut par = None;
     let mut q = None;
 
+    let parse_sp_value = |value: &str| -> Result<f32, SdpParserInternalError> {
+        let ratio = value.parse::<f32>()?;
+        if !ratio.is_finite() || ratio <= 0.0 {
+            return Err(SdpParserInternalError::Generic(
+                "imageattr's par and sar values must be positive numbers".to_string(),
+            ));
+        }
+        Ok(ratio)
+    };
+
     let parse_ps_range = |resolution_range: &str| -> Result<(f32, f32), SdpParserInternalError> {
         let minmax_pair: Vec<&str> = resolution_range.split('-').collect();
 
@@ -2602,8 +2612,8 @@ fn parse_image_attr_set(
             ));
         }
 
-        let min = minmax_pair[0].parse::<f32>()?;
-        let max = minmax_pair[1].parse::<f32>()?;
+        let min = parse_sp_value(minmax_pair[0])?;
+        let max = parse_sp_value(minmax_pair[1])?;
 
         if min >= max {
             return Err(SdpParserInternalError::Generic(
@@ -2631,7 +2641,7 @@ fn parse_image_attr_set(
                     // Discrete values
                     let values = sar_values
                         .split(',')
-                        .map(str::parse::<f32>)
+                        .map(parse_sp_value)
                         .collect::<Result<Vec<f32>, _>>()?;
 
                     if values.len() < 2 {
@@ -2656,7 +2666,7 @@ fn parse_image_attr_set(
                 }
             } else {
                 sar = Some(SdpAttributeImageAttrSRange::DiscreteValues(vec![
-                    value_token.parse::<f32>()?,
+                    parse_sp_value(value_token)?,
                 ]))
             }
         } else if let Some(braced_value_token) = current_token.strip_prefix("par=") {
@@ -2677,7 +2687,13 @@ fn parse_image_attr_set(
                 max: range.1,
             })
         } else if let Some(qval) = current_token.strip_prefix("q=") {
-            q = Some(qval.parse::<f32>()?);
+            let value = qval.parse::<f32>()?;
+            if !(0.0..=1.0).contains(&value) {
+                return Err(SdpParserInternalError::Generic(
+                    "imageattr's q value must be between 0 and 1".to_string(),
+                ));
+            }
+            q = Some(value);
         }
     }
 
-- 
2.43.0


From cfceb530513c1ec11b42405e8dbe366b25510b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 25/28] fix: reject an imageattr size range whose end is not
 above its start

---
 src/attribute_type.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 6f71631..6f9b914 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2518,23 +2518,31 @@ fn parse_image_attr_xyrange(
             // Range values
             let range_tokens: Vec<&str> = value_tokens.split(':').collect();
 
-            if range_tokens.len() == 3 {
-                Ok(SdpAttributeImageAttrXyRange::Range(
+            let (min, max, step) = if range_tokens.len() == 3 {
+                (
                     range_tokens[0].parse::<u32>()?,
                     range_tokens[2].parse::<u32>()?,
                     Some(range_tokens[1].parse::<u32>()?),
-                ))
+                )
             } else if range_tokens.len() == 2 {
-                Ok(SdpAttributeImageAttrXyRange::Range(
+                (
                     range_tokens[0].parse::<u32>()?,
                     range_tokens[1].parse::<u32>()?,
                     None,
-                ))
+                )
             } else {
-                Err(SdpParserInternalError::Generic(
+                return Err(SdpParserInternalError::Generic(
                     "imageattr's xyrange must contain 2 or 3 fields".to_string(),
-                ))
+                ));
+            };
+
+            if min >= max {
+                return Err(SdpParserInternalError::Generic(
+                    "In imageattr's xyrange, first must be < than the last".to_string(),
+                ));
             }
+
+            Ok(SdpAttributeImageAttrXyRange::Range(min, max, step))
         } else {
             // Discrete values
             let values = value_tokens
-- 
2.43.0


From f4f2841ec616e64e57256080bf5aca10b9e7b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 26/28] fix: reject a negative framerate

---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 6f9b914..8a47c63 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2382,9 +2382,9 @@ fn parse_framerate(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalErro
         ));
     }
 
-    if framerate == 0.0 {
+    if framerate <= 0.0 {
         return Err(SdpParserInternalError::Generic(
-            "FrameRate attribute cannot be zero".to_string(),
+            "FrameRate attribute must be positive".to_string(),
         ));
     }
 
-- 
2.43.0


From 2a5708a4d6986cb09bb00855af53e4398f3d9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:41 +0000
Subject: [PATCH 27/28] fix: accept fmtp rtx-time before apt

---
 src/attribute_type.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8a47c63..b58bee5 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2153,6 +2153,8 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
         rtx: None,
         unknown_tokens: Vec::new(),
     };
+    // The parameters may come in any order, so RTX-TIME may precede APT
+    let mut rtx_time = None;
 
     for parameter_token in tokens[1..].iter() {
         if parameter_token.contains('=') {
@@ -2277,15 +2279,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                             rtx_time: None,
                         })
                     }
-                    "RTX-TIME" => {
-                        if let Some(ref mut rtx) = parameters.rtx {
-                            rtx.rtx_time = Some(parameter_val.parse::<u32>()?)
-                        } else {
-                            return Err(SdpParserInternalError::Generic(
-                                "RTX codec must have an APT field".to_string(),
-                            ));
-                        }
-                    }
+                    "RTX-TIME" => rtx_time = Some(parameter_val.parse::<u32>()?),
                     _ => parameters
                         .unknown_tokens
                         .push((*parameter_token).to_string()),
@@ -2357,6 +2351,17 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             };
         }
     }
+    if rtx_time.is_some() {
+        match parameters.rtx {
+            Some(ref mut rtx) => rtx.rtx_time = rtx_time,
+            None => {
+                return Err(SdpParserInternalError::Generic(
+                    "RTX codec must have an APT field".to_string(),
+                ));
+            }
+        }
+    }
+
     Ok(SdpAttribute::Fmtp(SdpAttributeFmtp {
         payload_type: payload_token.parse::<u8>()?,
         parameters,
-- 
2.43.0


From 773a13946a12489988b870d431ad2c29c170b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:14 +0000
Subject: [PATCH 28/28] fix: blanks around the elements of a rid's depends list
 made its print unstable

An element was taken with the blanks around it. As an empty element is not
printed, the blanks of the one before it could come to stand at the end of
the line, where the next read drops them: `a=rid:0 send depends=0 ,` printed
as `depends=0 ` and then as `depends=0`. The formats of pt= are trimmed
already; trim these too.
---
 src/attribute_type.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b58bee5..d60185a 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -3015,7 +3015,11 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                     ));
                 }
                 "depends" => {
-                    depends.extend(param_value_pair[1].split(',').map(ToString::to_string));
+                    depends.extend(
+                        param_value_pair[1]
+                            .split(',')
+                            .map(|rid| rid.trim().to_string()),
+                    );
                 }
                 _ => params.unknown.push(param.to_string()),
             }
-- 
2.43.0

