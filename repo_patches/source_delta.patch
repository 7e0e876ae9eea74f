From bdf487a66038af829467e1c0686e42fe17d044ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 01/47] fix: matter parsing reports non-ASCII text as an error
 instead of panicking

---
 src/core/matter/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..804332e 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -334,7 +334,10 @@ pub trait Matter: Default {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::ParseQb64("hard code is not Base64".to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +356,10 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = match qb64.get(szg.hs as usize..cs as usize) {
+                Some(soft) => soft,
+                None => return err!(Error::ParseQb64("size is not Base64".to_string())),
+            };
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +373,10 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = match qb64.get(..fs as usize) {
+            Some(trim) => trim,
+            None => return err!(Error::ParseQb64("material is not Base64".to_string())),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-- 
2.43.0


From 32b56925fd82b4edb2e130d0646362fbfeda126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 02/47] fix: matter parsing rejects '=' padded text

---
 src/core/matter/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 804332e..256a82f 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -388,6 +388,10 @@ pub trait Matter: Default {
             b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
             buf.zeroize();
 
+            if paw.len() != (ps + fs - cs) as usize * 3 / 4 {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             let mut pi: i32 = 0;
             // readInt
             for b in &paw[..ps as usize] {
@@ -405,6 +409,10 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            if paw.len() != (fs - cs) as usize * 3 / 4 {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
-- 
2.43.0


From f4c05cd36265a581ba40464f2459f47b57437849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 03/47] fix: matter parsing reports missing lead bytes instead
 of panicking

---
 src/core/matter/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 256a82f..68d0f5a 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -413,6 +413,13 @@ pub trait Matter: Default {
                 return err!(Error::ParseQb64("padded material".to_string()));
             }
 
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {size}, ls = {}",
+                    szg.ls
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -498,6 +505,13 @@ pub trait Matter: Default {
                 return err!(Error::NonZeroedPadBits());
             }
         } else {
+            if trim.len() < (bcs + szg.ls) as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {size}, ls = {}",
+                    szg.ls
+                )));
+            }
+
             for value in trim.iter().take((bcs + szg.ls) as usize).skip(bcs as usize) {
                 if *value != 0 {
                     match szg.ls {
-- 
2.43.0


From 239c17bb1f234d9bb20952a5c775a2da169119b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 04/47] fix: matter construction rejects unknown
 variable-length codes instead of panicking

---
 src/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 68d0f5a..d0d941f 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -48,6 +48,9 @@ pub trait Matter: Default {
             return err!(Error::EmptyMaterial("empty code".to_string()));
         }
 
+        // the code must be known before any part of it is used
+        tables::sizage(code)?;
+
         let mut size: u32 = 0;
         // this unwrap can stay since we have validated that code is not empty, above
         let first = code.chars().next().unwrap();
-- 
2.43.0


From 4a79542cc824769a231352032e5a1143c7896126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 05/47] fix: indexer parsing reports non-ASCII text as an error
 instead of panicking

---
 src/core/indexer/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..27608c2 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -393,7 +393,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::ParseQb64("hard code is not Base64".to_string())),
+        };
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -407,8 +410,12 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let soft = match qb64.get(hs..cs as usize) {
+            Some(soft) if soft.is_ascii() => soft,
+            _ => return err!(Error::ParseQb64("index is not Base64".to_string())),
+        };
+        let index = util::b64_to_u32(&soft[..ms as usize])?;
+        let odx = &soft[ms as usize..];
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -457,7 +464,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = match qb64.get(..fs as usize) {
+            Some(qb64) => qb64,
+            None => return err!(Error::ParseQb64("material is not Base64".to_string())),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-- 
2.43.0


From c5a31de3ce81e0fe80c14debc710ab846d53ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 06/47] fix: indexer parsing rejects '=' padded text

---
 src/core/indexer/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 27608c2..f07f78e 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -478,6 +478,10 @@ pub trait Indexer: Default {
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
+            if paw.len() != (ps + fs - cs) as usize * 3 / 4 {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
                 pi = (pi * 256) + (*b as i32)
@@ -493,6 +497,10 @@ pub trait Indexer: Default {
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
+            if paw.len() != (fs - cs) as usize * 3 / 4 {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
-- 
2.43.0


From 5f1c700ed8fea4ccac880663f3920b5431a59473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 07/47] fix: single-index codes keep one index, a different
 other index is refused

---
 src/core/indexer/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index f07f78e..c954b3f 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,12 +97,14 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
-        } else if let Some(o) = ondex {
+        if ondex.is_none()
+            && (BothSigCodex::has_code(code) || (szg.os == 0 && !CurrentSigCodex::has_code(code)))
+        {
+            // when not provided make ondex match index
+            ondex = Some(index);
+        }
+
+        if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0


From 9b1aecf72f4560fde9036bcd2a4ba035d7729bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 08/47] fix: indexed codes with lead bytes leave them out of
 the raw material

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index c954b3f..778c533 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -132,7 +132,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -516,7 +516,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 3c67452af1d207e278643b10a460edb23976db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 09/47] fix: binary indexer encoding checks each index against
 its own field width

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 778c533..21cb4de 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -294,13 +294,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From 5d3bb0f2df6c045678b75485db4371e615a4ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 10/47] fix: encoding reports raw material of the wrong size
 instead of underflowing

---
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 21cb4de..5a51e18 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -257,7 +257,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code={both} for converted raw pad size={ps}."
             )));
@@ -343,7 +343,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code = '{both}' for converted raw pad size = '{ps}'.",
             )));
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index d0d941f..3a38a1a 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -232,7 +232,7 @@ pub trait Matter: Default {
             let both = code;
             let cs = both.len();
 
-            if (cs % 4) as u32 != ps as u32 - szg.ls {
+            if (cs % 4) as u32 + szg.ls != ps as u32 {
                 return err!(Error::InvalidCodeSize(format!(
                     "invalid code for converted raw pad size: code = '{both}', pad size = {ps}",
                 )));
-- 
2.43.0


From 159f1a14ce4189538be6196ca3ae002286446533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 11/47] fix: counter parsing reports short and non-ASCII text
 as an error instead of panicking

---
 src/core/counter/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..0c82be5 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -218,7 +218,10 @@ impl Counter {
         }
 
         // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = match qb64.get(..2) {
+            Some(first) => first,
+            None => return err!(Error::Shortage("insufficient material for code".to_string())),
+        };
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -229,7 +232,10 @@ impl Counter {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::ParseQb64("hard code is not Base64".to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +246,10 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = match qb64.get(szg.hs as usize..cs as usize) {
+            Some(count_b64) => count_b64,
+            None => return err!(Error::ParseQb64("count is not Base64".to_string())),
+        };
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
-- 
2.43.0


From ccae1d335567cd757393793d348cfd54b93355e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 12/47] fix: Base64 integers that do not fit are an error
 instead of wrapping

---
 src/core/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..778e909 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -146,6 +146,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("value out of range: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -156,6 +159,9 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion(format!("value out of range: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From b446bd87eb4d741dc00d9b065db7cf5b3f4dcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 13/47] fix: a salter is only made from salt material

---
 src/core/salter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..d28266f 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -53,6 +53,7 @@ impl Salter {
             } else {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
+        validate_code(&salter.code())?;
 
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
-- 
2.43.0


From e502bfda106232c3f44505e894ab369af9f648d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 14/47] fix: a number is only made from numeric material

---
 src/core/number.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6bfb308 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -89,6 +89,7 @@ impl Number {
             validate_code(code)?;
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
+        validate_code(&number.code())?;
 
         Ok(number)
     }
-- 
2.43.0


From d9218956a28578e3d04ee19cd982254af59d212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 15/47] fix: a prefix is only made from key or digest material

---
 src/core/prefixer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..85706c5 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -301,6 +301,7 @@ impl Prefixer {
 
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
+        validate_code(&prefixer.code())?;
 
         Ok(prefixer)
     }
-- 
2.43.0


From 29157d8b87a65237345c07c37b7473fb651ab404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 16/47] fix: Ed25519 verification refuses keys of small order

---
 src/crypto/sign.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/sign.rs b/src/crypto/sign.rs
index 44717c0..5026269 100644
--- a/src/crypto/sign.rs
+++ b/src/crypto/sign.rs
@@ -74,7 +74,7 @@ pub(crate) fn verify(code: &str, public_key: &[u8], sig: &[u8], ser: &[u8]) -> R
 }
 
 mod ed25519 {
-    use ed25519_dalek::{Signature, Signer, SigningKey, Verifier, VerifyingKey};
+    use ed25519_dalek::{Signature, Signer, SigningKey, VerifyingKey};
     use rand_core::OsRng;
 
     use crate::error::Result;
@@ -109,7 +109,9 @@ mod ed25519 {
         let public_key = VerifyingKey::from_bytes(public_key.try_into()?)?;
         let signature = Signature::from_bytes(sig.try_into()?);
 
-        match public_key.verify(ser, &signature) {
+        // like libsodium, refuse keys of small order: a signature can be made for them without a
+        // private key, and it verifies for any message
+        match public_key.verify_strict(ser, &signature) {
             Ok(_) => Ok(true),
             Err(_) => Ok(false),
         }
-- 
2.43.0


From 652c7a3678e3de353286e212bfa5140196125d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 17/47] fix: ECDSA verification accepts compressed public keys
 only

---
 src/crypto/sign.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crypto/sign.rs b/src/crypto/sign.rs
index 5026269..733e5bf 100644
--- a/src/crypto/sign.rs
+++ b/src/crypto/sign.rs
@@ -146,10 +146,14 @@ mod ecdsa_256k1 {
     }
 
     pub(crate) fn verify(public_key: &[u8], sig: &[u8], ser: &[u8]) -> Result<bool> {
-        let public_key = VerifyingKey::from_sec1_bytes(public_key)?;
+        let verifying_key = VerifyingKey::from_sec1_bytes(public_key)?;
+        // sec1 has several encodings of the same key, CESR carries the compressed one only
+        if verifying_key.to_encoded_point(true).as_bytes() != public_key {
+            return Ok(false);
+        }
         let signature = Signature::try_from(sig)?;
 
-        match public_key.verify(ser, &signature) {
+        match verifying_key.verify(ser, &signature) {
             Ok(_) => Ok(true),
             Err(_) => Ok(false),
         }
@@ -184,10 +188,14 @@ mod ecdsa_256r1 {
     }
 
     pub(crate) fn verify(public_key: &[u8], sig: &[u8], ser: &[u8]) -> Result<bool> {
-        let public_key = VerifyingKey::from_sec1_bytes(public_key)?;
+        let verifying_key = VerifyingKey::from_sec1_bytes(public_key)?;
+        // sec1 has several encodings of the same key, CESR carries the compressed one only
+        if verifying_key.to_encoded_point(true).as_bytes() != public_key {
+            return Ok(false);
+        }
         let signature = Signature::try_from(sig)?;
 
-        match public_key.verify(ser, &signature) {
+        match verifying_key.verify(ser, &signature) {
             Ok(_) => Ok(true),
             Err(_) => Ok(false),
         }
-- 
2.43.0


From 4db5217bf9894a639e3655f000b1a700f67d0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 18/47] fix: batch derivation reports an index overflow instead
 of panicking

---
 src/core/salter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index d28266f..81163b6 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -140,7 +140,11 @@ impl Salter {
         let mut signers: Vec<Signer> = vec![];
 
         for i in 0..count {
-            let path = format!("{path}{n:x}", n = (i + start));
+            let n = match start.checked_add(i) {
+                Some(n) => n,
+                None => return err!(Error::Value("signer index overflows".to_string())),
+            };
+            let path = format!("{path}{n:x}");
             signers.push(self.signer(code, transferable, Some(&path), tier, temp)?);
         }
 
-- 
2.43.0


From dcc746382753058aeeba6b5ddd6ea911723f6992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 19/47] fix: SAID verification handles documents without an
 identifier field and non-objects

---
 src/core/saider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..9f033ed 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -61,6 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
+    sad.to_map()?;
     let mut sad = sad.clone();
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
@@ -233,7 +234,9 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed
+            && (!sad.to_map()?.contains_key(label) || sad[label].to_string()? != self.qb64()?)
+        {
             return Ok(false);
         }
 
-- 
2.43.0


From 522258394799e7dfb4f793f4bdc9319918491db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 20/47] fix: JSON numbers like 1e100 and integers beyond i64
 convert instead of panicking

---
 src/data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..ff3a779 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -284,10 +284,11 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                // floats do not always have a decimal point, integers beyond i64 are held as floats
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
-- 
2.43.0


From c69c968d2c9a81ea4e5fc37f127f62dfcb7ce259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 21/47] fix: sizing never patches a version string in another
 field than the document's own

---
 src/core/common.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..eb81cb4 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -175,22 +175,17 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
         )));
     }
 
-    let fore = raw[..start].to_vec();
-    let mut back = raw[start + VERSION_FULL_SIZE..].to_vec();
     let vs = versify(Some(&result.ident), Some(&result.version), Some(&kind), Some(size as u32))?;
 
-    let mut raw = fore;
-    raw.append(&mut vs.as_bytes().to_vec());
-    raw.append(&mut back);
+    let mut ked = ked.clone();
+    ked["v"] = dat!(&vs);
+    let raw = dumps(&ked, Some(&kind))?;
 
-    if raw.len() != size {
-        // unreachable as we constructed this
+    // the version string found may belong to another field
+    if raw.len() != size || raw[start..start + VERSION_FULL_SIZE] != *vs.as_bytes() {
         return err!(Error::Value(format!("malformed version string size, version string = {vs}")));
     }
 
-    let mut ked = ked.clone();
-    ked["v"] = dat!(&vs);
-
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From 3c9b96c0701843fb8574aa89b291bad132015367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 22/47] fix: version strings refuse versions and sizes beyond
 their fields

---
 src/core/common.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index eb81cb4..da55a70 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -208,6 +208,17 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf {
+        return err!(Error::Value(format!(
+            "version {}.{} does not fit in a version string",
+            version.major, version.minor
+        )));
+    }
+
+    if size > 0xffffff {
+        return err!(Error::Value(format!("size {size} does not fit in a version string")));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From 86c24859c889933f5069037cf1b4f77391a7cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 23/47] fix: basic derivation of a non-transferable prefix
 accepts empty lists

---
 src/core/prefixer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 85706c5..7752dc3 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -85,6 +85,14 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+// absent material is written as an empty list or as an empty string
+fn is_empty(value: &Value) -> Result<bool> {
+    match value.to_vec() {
+        Ok(list) => Ok(list.is_empty()),
+        Err(_) => Ok(value.to_string()?.is_empty()),
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -110,17 +118,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From 677ad3b5c6dfa92cb4b31bb9f0bdc5dfdf654723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 24/47] fix: prefix derivation and verification report an event
 without a type instead of panicking

---
 src/core/prefixer.rs |  4 ++--
 src/data.rs          | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 7752dc3..e8a719a 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -56,7 +56,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.field(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -339,7 +339,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.field(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
diff --git a/src/data.rs b/src/data.rs
index ff3a779..b747260 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,16 @@ impl Value {
         }
     }
 
+    pub(crate) fn field(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field {label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From 4356ab3b0481565540b59eea86111a1a5d9bcf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 25/47] fix: weighted thresholds ignore indices beyond their
 weights instead of panicking

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..ddaceb9 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -224,7 +224,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // indices beyond the weights have no weight to add
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 7818152e94f75012a6b6233732860c341d6669cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 26/47] fix: numeric thresholds count each index once

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index ddaceb9..aba954d 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -206,6 +206,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From fa38cadf2a5746c59830c7b7e2e085f885f969e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 27/47] fix: threshold weights are exact fractions of any size,
 malformed ones are refused

---
 src/core/tholder.rs | 57 ++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index aba954d..f0b946c 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -8,8 +8,7 @@ use crate::{
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::BigRational;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,49 +25,41 @@ impl Default for Tholder {
     }
 }
 
-fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
+fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
-    let mut clauses: Vec<Vec<Rational32>> = Vec::new();
+    let one = BigRational::from_integer(1.into());
+    let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
     for _clause in threshold {
-        let mut clause: Vec<Rational32> = Vec::new();
+        let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
-                // must be 0 or 1
-                if parts[0] == "0" {
-                    clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
-                    clause.push(Rational32::new(1, 1));
-                } else {
-                    return err!(Error::Value("integral weight must be 0 or 1".to_string()));
-                }
-            } else {
-                let numer = parts[0].parse::<i32>()?;
-                let denom = parts[1].parse::<i32>()?;
-                if numer < 0 || denom < 0 {
-                    return err!(Error::Value("negative weights do not make sense".to_string()));
-                }
-                if numer > denom {
-                    return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
-                }
-                clause.push(Rational32::new(numer, denom));
+            if parts.len() > 2
+                || parts.iter().any(|p| p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()))
+            {
+                return err!(Error::Value(format!("invalid weight {weight}")));
+            }
+            // refuses a zero denominator
+            let rational: BigRational = weight.parse()?;
+            if rational > one {
+                return err!(Error::Value(format!("weight {weight} > 1")));
             }
+            clause.push(rational);
         }
         clauses.push(clause);
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = BigRational::from_integer(0.into());
 
         for weight in clause {
             sum += weight;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < one {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -79,12 +70,12 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
-fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
+fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
         let mut text_clause: Vec<String> = Vec::new();
         for weight in clause {
-            if *weight.denom() == 1 {
+            if weight.is_integer() {
                 text_clause.push(format!("{n}", n = weight.numer()));
             } else {
                 text_clause.push(format!("{n}s{d}", n = weight.numer(), d = weight.denom()));
@@ -218,9 +209,7 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
-        }
+        let one = BigRational::from_integer(1.into());
 
         let mut indices = indices.to_vec();
         indices.sort();
@@ -238,14 +227,14 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = BigRational::from_integer(0.into());
             for weight in clause {
                 if sats[wio] {
                     cw += weight;
                 }
                 wio += 1;
             }
-            if cw < *RATIONAL_ONE {
+            if cw < one {
                 return Ok(false);
             }
         }
@@ -377,7 +366,7 @@ impl Tholder {
         for clause in threshold {
             let mut inner: Vec<Value> = Vec::new();
             for weight in clause {
-                if *weight.denom() == 1 {
+                if weight.is_integer() {
                     inner.push(dat!(&format!("{n}", n = weight.numer())));
                 } else {
                     inner.push(dat!(&weight.to_string()));
-- 
2.43.0


From a33746510e60f3da8fdf28d949a50264e5108e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 28/47] fix: an empty list of clauses is not a threshold

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index f0b946c..7df5386 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -358,6 +358,10 @@ impl Tholder {
 
     fn process_weighted(&mut self, thold: &Value) -> Result<()> {
         let threshold = &values_to_rationals(thold)?;
+        if threshold.is_empty() {
+            return err!(Error::Value("empty weight list".to_string()));
+        }
+
         let mut size = 0;
         for clause in threshold {
             size += clause.len() as u32;
-- 
2.43.0


From a58ba3f9e5113f5b79829c4fdec7a3bd037e7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 29/47] fix: compact thresholds report short and non-ASCII text
 as an error instead of panicking

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 7df5386..bbe11a1 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -262,7 +262,10 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => return err!(Error::Shortage(format!("need {hs} characters for a code"))),
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From e1f959b2050abac1e2b65a6f13a9d22f3ca235e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 30/47] fix: stripping a path removes the root from its front
 only

---
 src/core/pather.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..89afc69 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,22 +134,14 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From b3a136b10733fc596a9cdcc204b33aaae7e63000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 31/47] fix: a path starts with another when its components do

---
 src/core/pather.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 89afc69..0cb419d 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -145,7 +145,7 @@ impl Pather {
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        Ok(self.path()?.to_vec()?.starts_with(&path.path()?.to_vec()?))
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From a9574c3bd7c25e32812e2548c685b534b23934d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 32/47] fix: a path refuses components that its text cannot
 carry

---
 src/core/pather.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cb419d..c66b160 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -182,6 +182,11 @@ impl Pather {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
+            // the separator would split it, and without text it would vanish
+            if p.is_empty() || p.contains('-') {
+                return err!(Error::Value(format!("path component '{p}' cannot be carried")));
+            }
+
             vath.push(p);
         }
 
-- 
2.43.0


From 3d90d98a7ac5c66cf8cdd02d428ef809afe05304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 33/47] fix: sniffing looks for the version string in the
 leading bytes only

---
 src/core/common.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index da55a70..0c5a789 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -2,7 +2,7 @@ use crate::data::{dat, Value};
 use crate::error::{err, Error, Result};
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{bytes, Regex};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct SizeifyResult {
@@ -260,6 +260,7 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref VERSION: bytes::Regex = bytes::Regex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -269,20 +270,13 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
-        Some(m) => m - VERSION_FULL_SIZE,
+    // what follows the version string need not be text
+    let raw = &raw[..MINIMUM_SNIFF_SIZE];
+    let vs = match VERSION.find(raw) {
+        Some(m) => std::str::from_utf8(m.as_bytes())?,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
 
-    if start > MAXIMUM_START_SIZE {
-        return err!(Error::Value(format!(
-            "invalid version string in raw = {raw:?} start = {start}"
-        )));
-    }
-
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
-
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
     let minor = u8::from_str_radix(&REVER.replace_all(vs, "$minor"), 16)?;
-- 
2.43.0


From ffc2daf0a236bb86623561898a7ccf804f41df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 34/47] fix: documents without a SAID field are reported as
 errors

---
 src/core/sadder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..2d2ea30 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
-- 
2.43.0


From a70b8aeb407b225883c6774edb5e2afcee62ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 35/47] fix: a declared size larger than the input is an error

---
 src/core/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 0c5a789..6760bef 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -230,6 +230,13 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        if raw.len() < size as usize {
+            return err!(Error::Value(format!(
+                "need more bytes than {bytes} for declared size {size}",
+                bytes = raw.len()
+            )));
+        }
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-- 
2.43.0


From 07a3e0e3b80086716d0d32c294791d203bd9ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 36/47] fix: accessors report missing fields as errors

---
 src/core/creder.rs | 4 ++--
 src/core/serder.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..4dffe59 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,11 +55,11 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked.field(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked.field(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..c627b71 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.field(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.field(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.field(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
-- 
2.43.0


From fb76b06badf6d9070543a29dd0b76af80545a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 37/47] fix: prettifying never cuts inside a character

---
 src/core/sadder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 2d2ea30..bb062e0 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -199,8 +199,11 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From 0d025c0b1b8f5ca481333517c2f6281565502331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 38/47] fix: sadder: populate nothing when the document is
 refused

---
 src/core/sadder.rs | 60 +++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index bb062e0..5d9b391 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -100,13 +100,7 @@ pub trait Sadder: Default + Clone {
     fn populate_from_raw(&mut self, raw: &[u8]) -> Result<()> {
         let result = inhale(raw)?;
 
-        self.set_raw(&raw[..(result.size as usize)]);
-        self.set_ked(&result.ked);
-        self.set_ident(&result.ident);
-        self.set_kind(&result.kind);
-        self.set_size(result.size);
-        self.set_version(&result.version);
-        self.set_saider(&Saider::new(
+        let saider = Saider::new(
             None,
             None,
             None,
@@ -116,27 +110,29 @@ pub trait Sadder: Default + Clone {
             None,
             Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
-        )?);
+        )?;
 
-        if self.code() != self.saider().code() {
+        if self.code() != saider.code() {
             return err!(Error::Validation(
                 "unmatched codes when constructing saider for sadder".to_string()
             ));
         }
 
+        self.set_raw(&raw[..(result.size as usize)]);
+        self.set_ked(&result.ked);
+        self.set_ident(&result.ident);
+        self.set_kind(&result.kind);
+        self.set_size(result.size);
+        self.set_version(&result.version);
+        self.set_saider(&saider);
+
         Ok(())
     }
 
     fn populate_from_ked(&mut self, ked: &Value, kind: Option<&str>) -> Result<()> {
         let result = exhale(ked, kind)?;
 
-        self.set_raw(&result.raw);
-        self.set_ked(&result.ked);
-        self.set_ident(&result.ident);
-        self.set_kind(&result.kind);
-        self.set_size(result.raw.len() as u32);
-        self.set_version(&result.version);
-        self.set_saider(&Saider::new(
+        let saider = Saider::new(
             None,
             None,
             None,
@@ -146,27 +142,29 @@ pub trait Sadder: Default + Clone {
             None,
             Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
-        )?);
+        )?;
 
-        if self.code() != self.saider().code() {
+        if self.code() != saider.code() {
             return err!(Error::Validation(
                 "unmatched codes when constructing saider for sadder".to_string()
             ));
         }
 
-        Ok(())
-    }
-
-    fn populate_from_kind_and_self(&mut self, kind: &str) -> Result<()> {
-        let result = exhale(&self.ked(), Some(kind))?;
-
         self.set_raw(&result.raw);
         self.set_ked(&result.ked);
         self.set_ident(&result.ident);
         self.set_kind(&result.kind);
         self.set_size(result.raw.len() as u32);
         self.set_version(&result.version);
-        self.set_saider(&Saider::new(
+        self.set_saider(&saider);
+
+        Ok(())
+    }
+
+    fn populate_from_kind_and_self(&mut self, kind: &str) -> Result<()> {
+        let result = exhale(&self.ked(), Some(kind))?;
+
+        let saider = Saider::new(
             None,
             None,
             None,
@@ -176,14 +174,22 @@ pub trait Sadder: Default + Clone {
             None,
             Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
-        )?);
+        )?;
 
-        if self.code() != self.saider().code() {
+        if self.code() != saider.code() {
             return err!(Error::Validation(
                 "unmatched codes when constructing saider for sadder".to_string()
             ));
         }
 
+        self.set_raw(&result.raw);
+        self.set_ked(&result.ked);
+        self.set_ident(&result.ident);
+        self.set_kind(&result.kind);
+        self.set_size(result.raw.len() as u32);
+        self.set_version(&result.version);
+        self.set_saider(&saider);
+
         Ok(())
     }
 
-- 
2.43.0


From 54d0161bfb8ef249e07902389d93d00108de59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 39/47] fix: number, seqner: error instead of panic on raw
 material of another size

---
 src/core/number.rs | 24 ++++--------------------
 src/core/seqner.rs |  5 ++++-
 2 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/core/number.rs b/src/core/number.rs
index 6bfb308..abeefca 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -120,26 +120,10 @@ impl Number {
 
     pub fn num(&self) -> Result<u128> {
         let num = match self.code().as_str() {
-            tables::Codex::Short => {
-                let mut bytes: [u8; 2] = [0; 2];
-                bytes.copy_from_slice(self.raw().as_slice());
-                u16::from_be_bytes(bytes) as u128
-            }
-            tables::Codex::Long => {
-                let mut bytes: [u8; 4] = [0; 4];
-                bytes.copy_from_slice(self.raw().as_slice());
-                u32::from_be_bytes(bytes) as u128
-            }
-            tables::Codex::Big => {
-                let mut bytes: [u8; 8] = [0; 8];
-                bytes.copy_from_slice(self.raw().as_slice());
-                u64::from_be_bytes(bytes) as u128
-            }
-            tables::Codex::Huge => {
-                let mut bytes: [u8; 16] = [0; 16];
-                bytes.copy_from_slice(self.raw().as_slice());
-                u128::from_be_bytes(bytes)
-            }
+            tables::Codex::Short => u16::from_be_bytes(self.raw().as_slice().try_into()?) as u128,
+            tables::Codex::Long => u32::from_be_bytes(self.raw().as_slice().try_into()?) as u128,
+            tables::Codex::Big => u64::from_be_bytes(self.raw().as_slice().try_into()?) as u128,
+            tables::Codex::Huge => u128::from_be_bytes(self.raw().as_slice().try_into()?),
             // unreachable when using api
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
diff --git a/src/core/seqner.rs b/src/core/seqner.rs
index 45f0e47..ac77b0c 100644
--- a/src/core/seqner.rs
+++ b/src/core/seqner.rs
@@ -79,7 +79,10 @@ impl Seqner {
     }
 
     pub fn sn(&self) -> Result<u128> {
-        Ok(u128::from_be_bytes(self.raw[0..16].try_into()?))
+        match self.raw.get(0..16) {
+            Some(raw) => Ok(u128::from_be_bytes(raw.try_into()?)),
+            None => err!(Error::Value(format!("not a sequence number: raw = {:?}", self.raw))),
+        }
     }
 
     pub fn snh(&self) -> Result<String> {
-- 
2.43.0


From 7733355655040c4a49b6dcf7fe2ccfffa9d1662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 40/47] fix: matter, indexer: size arithmetic of inconsistent
 objects overflowed

---
 src/core/indexer/mod.rs | 8 ++++----
 src/core/matter/mod.rs  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 5a51e18..aeac6ba 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -211,7 +211,7 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        let mut fs = szg.fs;
+        let mut fs = szg.fs as usize;
         if szg.fs == u32::MAX {
             if (cs % 4) != 0 {
                 // unreachable unless sizages broken
@@ -227,7 +227,7 @@ pub trait Indexer: Default {
                 )));
             }
 
-            fs = (index * 4) + cs
+            fs = (index as usize * 4) + cs as usize
         }
 
         if index > 64_u32.pow(ms) - 1 {
@@ -269,7 +269,7 @@ pub trait Indexer: Default {
         let b64 = b64_engine::URL_SAFE.encode(&buffer);
         let full = format!("{both}{}", &b64[(ps - szg.ls as usize)..]);
 
-        if full.len() != fs as usize {
+        if full.len() != fs {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code={both} for raw size={} {}.",
                 full.len(),
@@ -656,7 +656,7 @@ pub trait Indexer: Default {
             Ok(sizage.fs as usize)
         } else {
             let cs = sizage.hs + sizage.ss;
-            Ok((self.index() * 4 + cs) as usize)
+            Ok(self.index() as usize * 4 + cs as usize)
         }
     }
 }
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 3a38a1a..933b406 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -547,7 +547,7 @@ pub trait Matter: Default {
         if sizage.fs != u32::MAX {
             Ok(sizage.fs as usize)
         } else {
-            Ok((sizage.hs + sizage.ss + self.size() * 4) as usize)
+            Ok((sizage.hs + sizage.ss) as usize + self.size() as usize * 4)
         }
     }
 }
-- 
2.43.0


From 4b1cf9e1d1cf8c0c01d700098d512e8d7292f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 41/47] fix: wasm: the high half of a 128-bit number was
 misplaced

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..eecd095 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        u128::from(val.high) << 64 | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From c5fe5e1641990e7552e3f185662d60fa75e2dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 42/47] fix: wasm: documents handed out are JSON text

---
 wasm/src/primitives/saider.rs | 2 +-
 wasm/src/primitives/serder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..67d9abf 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -80,7 +80,7 @@ impl SaiderWrapper {
         .as_js()?;
         Ok(SaidifyRet {
             saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
+            value: ret.1.to_json().expect("unable unwrap value"),
         })
     }
 
diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From 2ff6c7d293ccbeefa23ecf0d0a76e53eea6aae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 43/47] fix: raw material of 4 GiB and more is refused, not
 truncated

---
 src/core/matter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 933b406..dc1875d 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -58,7 +58,7 @@ pub trait Matter: Default {
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
-                let rize = raw.len() as u32;
+                let rize = u32::try_from(raw.len())?;
 
                 let ls = (3 - (rize % 3)) % 3;
                 size = (rize + ls) / 3;
-- 
2.43.0


From 7c60d1bd6855fca28b58552f5cbca36bcd4391c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 44/47] fix: do not encode text whose raw material does not fit
 the code or size

Matter::infil wrote malformed qb64 for an object whose code, size and raw had been set
inconsistently (binfil and both Indexer encoders already refuse).
---
 src/core/matter/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index dc1875d..8b92083 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -227,6 +227,13 @@ pub trait Matter: Default {
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
             // this does a transmute of pointers under the hood so zeroizing the vec should be enough
             let b64 = std::str::from_utf8(&b64_vec)?;
+            if b64.len() != size as usize * 4 {
+                return err!(Error::InvalidCodeSize(format!(
+                    "invalid code for raw size: code = '{both}', raw size = {}",
+                    buffer.len() - szg.ls as usize
+                )));
+            }
+
             Ok(format!("{both}{b64}"))
         } else {
             let both = code;
@@ -245,6 +252,13 @@ pub trait Matter: Default {
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
             let b64 = std::str::from_utf8(&b64_vec)?;
+            if cs + b64.len() - cs % 4 != szg.fs as usize {
+                return err!(Error::InvalidCodeSize(format!(
+                    "invalid code for raw size: code = '{both}', raw size = {}",
+                    buffer.len() - ps
+                )));
+            }
+
             Ok(format!("{both}{}", &b64[cs % 4..]))
         }
     }
-- 
2.43.0


From 8b957422f8b083d26c74ab731eaec29f2acf6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:54 +0000
Subject: [PATCH 45/47] fix: read a primitive from text that goes on in bytes
 which are no text

---
 src/core/counter/mod.rs | 4 ++--
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 4 ++--
 src/core/util.rs        | 8 ++++++++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 0c82be5..52a7a44 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -138,10 +138,10 @@ impl Counter {
     }
 
     pub fn new_with_qb64b(qb64b: &[u8]) -> Result<Self> {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut counter: Counter = Default::default();
-        counter.exfil(&qb64)?;
+        counter.exfil(qb64)?;
         Ok(counter)
     }
 
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index aeac6ba..7844b36 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -162,10 +162,10 @@ pub trait Indexer: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut i: Self = Self::default();
-        i.exfil(&qb64)?;
+        i.exfil(qb64)?;
         Ok(i)
     }
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 8b92083..886b8c5 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -129,10 +129,10 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
diff --git a/src/core/util.rs b/src/core/util.rs
index 778e909..48d8109 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -2,6 +2,14 @@ use crate::error::{err, Error, Result};
 
 pub const REB64_STRING: &str = "^[A-Za-z0-9\\-_]*$";
 
+/// the text at the start of a stream, which may go on in binary
+pub(crate) fn leading_text(stream: &[u8]) -> Result<&str> {
+    match std::str::from_utf8(stream) {
+        Ok(text) => Ok(text),
+        Err(e) => Ok(std::str::from_utf8(&stream[..e.valid_up_to()])?),
+    }
+}
+
 pub fn b64_char_to_index(c: char) -> Result<u8> {
     Ok(match c {
         'A' => 0,
-- 
2.43.0


From a854ad27187246250eea3bc9d645783cda52bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:59 +0000
Subject: [PATCH 46/47] fix: refuse a path tail that continues after its said

---
 src/core/pather.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index c66b160..70bb7e6 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -158,7 +158,11 @@ impl Pather {
         if val.to_string().is_ok() {
             let result = val.to_string()?;
             // validate said
-            Saider::new(None, None, None, None, None, None, None, Some(&result), None)?;
+            let saider =
+                Saider::new(None, None, None, None, None, None, None, Some(&result), None)?;
+            if saider.qb64()? != result {
+                return err!(Error::Value(format!("tail {result} continues after its said")));
+            }
             Ok(result)
         } else if val.to_map().is_ok() || val.to_vec().is_ok() {
             val.to_json()
-- 
2.43.0


From 1edf9b4a40f9ff03e31d03f34cf20d537d454c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:05 +0000
Subject: [PATCH 47/47] fix: fail on a Base64 length beyond memory instead of
 aborting

---
 src/core/util.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 48d8109..67eea8a 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -182,7 +182,7 @@ pub fn u32_to_b64(n: u32, length: usize) -> Result<String> {
     }
 
     let mut x = n;
-    let mut out = String::with_capacity(length);
+    let mut out = String::new();
 
     let mut overflow = length as f32 - (n as f32).log2() / 64f32.log2();
     while x > 0 {
@@ -194,11 +194,15 @@ pub fn u32_to_b64(n: u32, length: usize) -> Result<String> {
         x /= 64;
     }
 
-    while out.len() < length {
-        out.insert(0, 'A');
+    // the length asked for may be more than there is memory for
+    let mut padded = String::new();
+    padded.try_reserve(length)?;
+    for _ in out.len()..length {
+        padded.push('A');
     }
+    padded.push_str(&out);
 
-    Ok(out)
+    Ok(padded)
 }
 
 pub fn u64_to_b64(n: u64, length: usize) -> Result<String> {
@@ -207,7 +211,7 @@ pub fn u64_to_b64(n: u64, length: usize) -> Result<String> {
     }
 
     let mut x = n;
-    let mut out = String::with_capacity(length);
+    let mut out = String::new();
 
     let mut overflow = length as f32 - (n as f32).log2() / 64f32.log2();
     while x > 0 {
@@ -219,11 +223,15 @@ pub fn u64_to_b64(n: u64, length: usize) -> Result<String> {
         x /= 64;
     }
 
-    while out.len() < length {
-        out.insert(0, 'A');
+    // the length asked for may be more than there is memory for
+    let mut padded = String::new();
+    padded.try_reserve(length)?;
+    for _ in out.len()..length {
+        padded.push('A');
     }
+    padded.push_str(&out);
 
-    Ok(out)
+    Ok(padded)
 }
 
 pub fn code_b2_to_b64(b2: &[u8], length: usize) -> Result<String> {
-- 
2.43.0

