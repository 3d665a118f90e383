From 0c4a73a32b88af567ff5b11ab96e0dbb4c109321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 01/17] Add a cfg-guarded hook exposing the wire codec to
 verification harnesses

---
 src/messages.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/messages.rs b/src/messages.rs
index b7224c2..b5d2a0c 100644
--- a/src/messages.rs
+++ b/src/messages.rs
@@ -120,3 +120,37 @@ pub use flags::Flags;
 pub use negotiate::Negotiate;
 
 use field::Field;
+
+/// Byte-level access to the wire encoding, for the verification harnesses only.
+#[cfg(http_ntlm_verif)]
+pub mod verif_hooks {
+    use super::Wire;
+    use std::io;
+
+    pub use super::unicode_string::{OEMString, UnicodeString};
+
+    pub trait Codec: Sized {
+        fn encode_into<W: io::Write>(&self, writer: &mut W) -> io::Result<usize>;
+        fn encode(&self) -> Vec<u8>;
+        fn decode(input: &[u8]) -> Option<(Self, usize)>;
+    }
+
+    impl<T> Codec for T
+    where
+        T: for<'a> Wire<'a>,
+    {
+        fn encode_into<W: io::Write>(&self, writer: &mut W) -> io::Result<usize> {
+            self.serialize_into(writer)
+        }
+
+        fn encode(&self) -> Vec<u8> {
+            self.serialize()
+        }
+
+        /// The decoded value and the number of bytes left over.
+        fn decode(input: &[u8]) -> Option<(Self, usize)> {
+            let (rest, value) = Self::deserialize::<()>(input).ok()?;
+            Some((value, rest.len()))
+        }
+    }
+}
-- 
2.43.0


From 447a00f1b2304179858ea79dd16cf9c645f85325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:38 +0000
Subject: [PATCH 02/17] fix: reject payload descriptors that reach beyond the
 message instead of panicking

---
 src/messages/authenticate.rs |  2 ++
 src/messages/challenge.rs    |  2 +-
 src/messages/field.rs        | 21 +++++++++++++++++++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 9dd3524..9381d8e 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -142,6 +142,8 @@ impl<'a> Wire<'a> for Authenticate {
         )(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
+        // A malformed response is tolerated below, one beyond the message is not
+        lm_challenge_response_field.get_slice(input)?;
         let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index f51e804..ed2b84b 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -191,7 +191,7 @@ impl<'a> Wire<'a> for Challenge {
 
         if let Some(last) = target_infos.last() {
             if !matches!(last, AvPair::MsvAvEOL) {
-                let target_infos_data = &input[target_infos_field.get_range()];
+                let target_infos_data = target_infos_field.get_slice(input)?;
                 return Err(nom::Err::Error(E::add_context(
                     target_infos_data,
                     "Challenge/TargetInfos/EOL",
diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..b6e03a8 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -55,6 +55,23 @@ impl Field {
         start..end
     }
 
+    /// The bytes the field points at, if they all lie inside `input`.
+    pub(super) fn get_slice<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        if self.len == 0 {
+            return Ok(&input[..0]);
+        }
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Error(E::add_context(
+                input,
+                "Field::get_slice",
+                E::from_error_kind(input, nom::error::ErrorKind::Eof),
+            ))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +87,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_slice(input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +119,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_slice(input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From 788e8ad4354e34e51bdeed572f2783b16384c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 03/17] fix: reject AV pair values with leftover bytes instead
 of asserting

---
 src/messages/structures/avid.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..293f5b1 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::mem::size_of;
 
 use nom::bytes::complete::take;
-use nom::combinator::{map_opt, verify};
+use nom::combinator::{all_consuming, map_opt, verify};
 use nom::error::context;
 use nom::multi::length_data;
 use nom::number::complete::{le_u16, le_u32};
@@ -240,54 +240,44 @@ impl<'a> Wire<'a> for AvPair {
                 Ok((rest, Self::MsvAvEOL))
             }
             AvId::MsvAvNbComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
-                let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, f) = all_consuming(MsvAvFlags::deserialize)(data)?;
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
-                let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, ts) = all_consuming(FileTime::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
-                let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, shd) = all_consuming(SingleHostData::deserialize)(data)?;
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
-                let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(take(buf.len()))(data)?;
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From 2baee483a386aaf2a58c72ed68592691a7d1f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 04/17] fix: reject a CHALLENGE whose target information starts
 with a malformed pair

---
 src/messages/challenge.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index ed2b84b..bfd44a3 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -189,15 +189,14 @@ impl<'a> Wire<'a> for Challenge {
         )?;
         let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;
 
-        if let Some(last) = target_infos.last() {
-            if !matches!(last, AvPair::MsvAvEOL) {
-                let target_infos_data = target_infos_field.get_slice(input)?;
-                return Err(nom::Err::Error(E::add_context(
-                    target_infos_data,
-                    "Challenge/TargetInfos/EOL",
-                    E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
-                )));
-            }
+        // A field that is there must be a list ending with MsvAvEOL
+        if target_infos_field.len != 0 && !matches!(target_infos.last(), Some(AvPair::MsvAvEOL)) {
+            let target_infos_data = target_infos_field.get_slice(input)?;
+            return Err(nom::Err::Error(E::add_context(
+                target_infos_data,
+                "Challenge/TargetInfos/EOL",
+                E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
+            )));
         }
 
         Ok((
-- 
2.43.0


From 906f4d4e1814affbeb69c22d68bbd76fd73efd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 05/17] fix: decode UTF-16 surrogate pairs

---
 src/messages/unicode_string.rs | 36 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..d8784b6 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -4,8 +4,6 @@ use std::ops::{Deref, DerefMut};
 
 use nom::combinator::{map, map_opt};
 use nom::error::context;
-use nom::multi::fold_many0;
-use nom::number::complete::le_u16;
 
 use crate::messages::{utils::write_u16, Wire};
 
@@ -105,25 +103,19 @@ impl<'a> Wire<'a> for UnicodeString {
     where
         E: super::NomError<'a>,
     {
-        context(
-            "Unicode string",
-            map(
-                fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
-                    String::new,
-                    |mut acc: String, c| {
-                        acc.push(c);
-                        acc
-                    },
-                ),
-                |s| UnicodeString(s),
-            ),
-        )(input)
+        // Stops at the first NUL or invalid code unit
+        let units = input
+            .chunks_exact(2)
+            .map(|b| u16::from_le_bytes([b[0], b[1]]))
+            .take_while(|u| *u != 0);
+        let mut s = String::new();
+        for c in char::decode_utf16(units) {
+            match c {
+                Ok(c) => s.push(c),
+                Err(_) => break,
+            }
+        }
+        let consumed = s.encode_utf16().count() * 2;
+        Ok((&input[consumed..], UnicodeString(s)))
     }
 }
-- 
2.43.0


From a307c4448e252b1a81e24a5f38d7a5f7ebf888bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 06/17] fix: write AV pair strings with write_all

---
 src/messages/structures/avid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 293f5b1..cebeb84 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -167,7 +167,8 @@ where
     let utf16: Vec<_> = s.encode_utf16().collect();
     let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
-    written += writer.write(&data[..])?;
+    writer.write_all(&data[..])?;
+    written += data.len();
 
     Ok(written)
 }
-- 
2.43.0


From 23a6d06492c0b889e3edb828a5fa1c90c67c2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:23 +0000
Subject: [PATCH 07/17] fix: FileTime counts 100 ns intervals since 1601

---
 src/messages/structures/filetime.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..17b7a08 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,25 +11,33 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+/// Number of 100 nanoseconds intervals in a second
+const TICKS_PER_SECOND: u64 = 10_000_000;
+/// Number of seconds between January 1, 1601 (UTC) and `UNIX_EPOCH`
+const SECONDS_TO_UNIX_EPOCH: u64 = 11_644_473_600;
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
         let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let ticks = seconds
+            .checked_add(SECONDS_TO_UNIX_EPOCH)
+            .and_then(|s| s.checked_mul(TICKS_PER_SECOND))
+            .ok_or(None)?;
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (ticks >> 32) as u32,
+            low: (ticks & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        let ts = self.as_u64() / TICKS_PER_SECOND;
+        UNIX_EPOCH
+            .checked_sub(Duration::from_secs(SECONDS_TO_UNIX_EPOCH))?
+            .checked_add(Duration::from_secs(ts))
     }
 
     pub fn as_u64(&self) -> u64 {
-- 
2.43.0


From d0848aeb4d62175a3ed68a868f17fccd78c32d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:00 +0000
Subject: [PATCH 08/17] fix: strict feature is spelled feature, not features,
 in cfg attributes

---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From 1691454b85407e7c567b7f62fe0e187594f25201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 09/17] fix: do not panic on non-ASCII passwords when computing
 the LM hash

---
 src/crypto/lm.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..50ddbec 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,10 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
-    }
+fn prepare_password(password: &str) -> Vec<u8> {
+    // The 14 byte limit may fall inside a character, so it applies to bytes
+    let mut p = password.to_uppercase().into_bytes();
+    p.resize(14, 0);
+    p
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +15,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From 44ae296581ba39842e695fca40b5f4587b6f2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:00 +0000
Subject: [PATCH 10/17] fix: use the NTLM2 session KXKEY only with extended
 session security

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 117a26c..0b19cda 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -182,7 +182,10 @@ where
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            challenge
+                .negotiate_flags
+                .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+                .then(|| &challenge.server_challenge),
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From e03fd30e00cf84553049cc7c4f82945fdf2ab0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 11/17] fix: send an encrypted session key only when key
 exchange was negotiated

---
 src/client.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 0b19cda..eec4b06 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -166,6 +166,13 @@ where
         }
     }
 
+    /// Whether the server negotiated the exchange of a random session key
+    fn sends_session_key(flags: &flags::Flags) -> bool {
+        flags.has_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH)
+            && (flags.has_flag(flags::NTLMSSP_NEGOTIATE_SIGN)
+                || flags.has_flag(flags::NTLMSSP_NEGOTIATE_SEAL))
+    }
+
     fn send_authenticate_ntlmv1(&mut self, client_challenge: ClientChallenge) -> Authenticate {
         let challenge = self.get_challenge();
         let (lm_challenge, nt_challenge, session_base_key) = ntlmv1::compute_response(
@@ -198,7 +205,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            Self::sends_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -238,7 +248,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            Self::sends_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth.compute_mic(negotiate, challenge);
 
-- 
2.43.0


From 9842aaf6502ca6559785db2100caf4d432002eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 12/17] fix: do not announce a version the AUTHENTICATE message
 lacks

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index eec4b06..7058f93 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -297,6 +297,9 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From f87fdde2f50aa90decfa804b7aa9c0fc8c4b2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 13/17] fix: set the Unicode flag in AUTHENTICATE, whose
 strings are UTF-16

---
 src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 7058f93..cd2c883 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -304,6 +304,8 @@ where
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
         auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
+        auth.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
-- 
2.43.0


From 64595e3df858d2a3e8d77e28f44db38b855f1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:06 +0000
Subject: [PATCH 14/17] fix: do not panic on an empty /etc/hostname

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index cd2c883..e82d9a8 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -275,7 +275,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0


From 0b244142e0853af5aeb18551d0672adc816a93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 15/17] fix: keep the negotiated flags in NTLMv2 AUTHENTICATE
 messages

---
 src/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.rs b/src/client.rs
index e82d9a8..df84160 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -243,6 +243,7 @@ where
             encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
 
         let mut auth = Authenticate::default();
+        auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
         auth.nt_challenge_response = Some(nt_challenge.into());
         auth.domain = Some(self.domain.clone().into());
-- 
2.43.0


From 53ae0f60d4e8f2569e1fb05ef55124c9059ac300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 16/17] fix: compute the MIC over the AUTHENTICATE message that
 is sent

---
 src/client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index df84160..da5585f 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -215,7 +215,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -254,7 +253,6 @@ where
                 .then_some(encrypted_random_session_key),
         );
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
 
         auth
     }
@@ -310,6 +308,10 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        if matches!(V::version(), 3 | 4 | 5) {
+            // The MIC covers the message as it is sent
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From e8b7c5a892a6a630bd42997416371c15947ba720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 17/17] fix: send the NTLMv2 response with its proof, and
 decode it

---
 src/client.rs                           | 10 ++++-
 src/messages/structures.rs              |  2 +-
 src/messages/structures/nt_challenge.rs | 53 ++++++++++++++++++++++++-
 3 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index da5585f..3fb6f74 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -4,7 +4,7 @@ use crate::{
     crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
     messages::{
         flags,
-        structures::{AvPair, ClientChallenge, Version},
+        structures::{AvPair, ClientChallenge, Ntv2Response, Version},
         Authenticate, Challenge, Negotiate, Wire,
     },
     NtlmVersion,
@@ -244,7 +244,13 @@ where
         let mut auth = Authenticate::default();
         auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
-        auth.nt_challenge_response = Some(nt_challenge.into());
+        auth.nt_challenge_response = Some(
+            Ntv2Response {
+                nt_proof_str,
+                challenge: nt_challenge,
+            }
+            .into(),
+        );
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
diff --git a/src/messages/structures.rs b/src/messages/structures.rs
index d0d7291..3a0597d 100644
--- a/src/messages/structures.rs
+++ b/src/messages/structures.rs
@@ -13,7 +13,7 @@ mod lm_challenge;
 pub use lm_challenge::{LmChallenge, Lmv1Challenge, Lmv2Challenge};
 
 mod nt_challenge;
-pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge};
+pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge, Ntv2Response};
 
 mod version;
 pub use version::Version;
diff --git a/src/messages/structures/nt_challenge.rs b/src/messages/structures/nt_challenge.rs
index 971bb5d..88594d7 100644
--- a/src/messages/structures/nt_challenge.rs
+++ b/src/messages/structures/nt_challenge.rs
@@ -1,13 +1,14 @@
 use std::io;
 
 use nom::branch::alt;
-use nom::combinator::{map, verify};
+use nom::bytes::complete::tag;
+use nom::combinator::{all_consuming, map, verify};
 use nom::error::context;
 use nom::number::complete::{le_u16, le_u32, le_u8};
 use nom::sequence::{preceded, tuple};
 
 use crate::messages::{
-    structures::{AvPair, ClientChallenge, FileTime, Response24},
+    structures::{AvPair, ClientChallenge, FileTime, NtProofStr, Response24},
     utils::{write_u16, write_u32, write_u8},
     NomError, Wire,
 };
@@ -98,10 +99,50 @@ impl<'a> Wire<'a> for Ntv2Challenge {
     }
 }
 
+/// NTLMv2_RESPONSE: the proof, followed by the data it was computed over
+#[derive(Debug, Default, Clone, PartialEq, Eq)]
+pub struct Ntv2Response {
+    pub nt_proof_str: NtProofStr,
+    pub challenge: Ntv2Challenge,
+}
+
+impl<'a> Wire<'a> for Ntv2Response {
+    fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
+    where
+        W: io::Write,
+    {
+        let mut size = self.nt_proof_str.serialize_into(writer)?;
+        size += self.challenge.serialize_into(writer)?;
+        // Z(4)
+        size += write_u32(writer, 0)?;
+
+        Ok(size)
+    }
+
+    fn deserialize<E>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E>
+    where
+        E: NomError<'a>,
+    {
+        let (rest, nt_proof_str) = context("NtProofStr", NtProofStr::deserialize)(input)?;
+        let (temp, padding) = rest.split_at(rest.len().saturating_sub(4));
+        let (rest, _) = context("Z(4)", tag([0u8; 4]))(padding)?;
+        let (_, challenge) = all_consuming(Ntv2Challenge::deserialize)(temp)?;
+
+        Ok((
+            rest,
+            Self {
+                nt_proof_str,
+                challenge,
+            },
+        ))
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum NtChallenge {
     V1(Ntv1Challenge),
     V2(Ntv2Challenge),
+    V2Response(Ntv2Response),
 }
 
 impl Default for NtChallenge {
@@ -122,6 +163,12 @@ impl From<Ntv2Challenge> for NtChallenge {
     }
 }
 
+impl From<Ntv2Response> for NtChallenge {
+    fn from(r: Ntv2Response) -> Self {
+        Self::V2Response(r)
+    }
+}
+
 impl<'a> Wire<'a> for NtChallenge {
     fn serialize_into<W>(&self, writer: &mut W) -> std::io::Result<usize>
     where
@@ -130,6 +177,7 @@ impl<'a> Wire<'a> for NtChallenge {
         match self {
             Self::V1(ref v1) => v1.serialize_into(writer),
             Self::V2(ref v2) => v2.serialize_into(writer),
+            Self::V2Response(ref v2) => v2.serialize_into(writer),
         }
     }
 
@@ -138,6 +186,7 @@ impl<'a> Wire<'a> for NtChallenge {
         E: NomError<'a>,
     {
         alt((
+            map(Ntv2Response::deserialize, |r| Self::V2Response(r)),
             map(Ntv2Challenge::deserialize, |c| Self::V2(c)),
             map(Ntv1Challenge::deserialize, |c| Self::V1(c)),
         ))(input)
-- 
2.43.0

