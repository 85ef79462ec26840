From c94ad11ca0a4ca5c6d326390537994cfb37a78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 01/32] fix: refuse multi-byte characters in qualified text
 instead of panicking

Matter, Indexer and Counter sliced the text at byte offsets that need not
be character boundaries.
---
 src/core/counter/mod.rs | 13 ++++++++++++-
 src/core/indexer/mod.rs | 12 ++++++++++++
 src/core/matter/mod.rs  | 11 +++++++++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..5289895 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,7 +217,10 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
+        if !qb64.is_char_boundary(2) {
+            return err!(Error::Shortage("insufficient material for start of code".to_string()));
+        }
+
         let first = &qb64[..2];
 
         let hs = tables::hardage(first)? as usize;
@@ -228,6 +231,10 @@ impl Counter {
             )));
         }
 
+        if !qb64.is_char_boundary(hs) {
+            return err!(Error::UnexpectedCode("code is not base64".to_string()));
+        }
+
         // bounds already checked
         let hard = &qb64[..hs];
         let szg = tables::sizage(hard)?;
@@ -240,6 +247,10 @@ impl Counter {
             )));
         }
 
+        if !qb64.is_char_boundary(cs as usize) {
+            return err!(Error::UnexpectedCode("code is not base64".to_string()));
+        }
+
         let count_b64 = &qb64[szg.hs as usize..cs as usize];
         let count = util::b64_to_u64(count_b64)? as u32;
 
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..5cd7ac6 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -393,6 +393,10 @@ pub trait Indexer: Default {
             )));
         }
 
+        if !qb64.is_char_boundary(hs) {
+            return err!(Error::UnexpectedCode("code is not base64".to_string()));
+        }
+
         let hard = &qb64[..hs];
         let szg = tables::sizage(hard)?;
 
@@ -407,6 +411,10 @@ pub trait Indexer: Default {
             )));
         }
 
+        if !qb64.is_char_boundary(hs + ms as usize) || !qb64.is_char_boundary(cs as usize) {
+            return err!(Error::UnexpectedCode("code is not base64".to_string()));
+        }
+
         let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
         let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
 
@@ -457,6 +465,10 @@ pub trait Indexer: Default {
             )));
         }
 
+        if !qb64.is_char_boundary(fs as usize) {
+            return err!(Error::ParseQb64("material is not base64".to_string()));
+        }
+
         let qb64 = &qb64[..fs as usize];
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..a2d976b 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -333,6 +333,10 @@ pub trait Matter: Default {
             )));
         }
 
+        if !qb64.is_char_boundary(hs) {
+            return err!(Error::UnexpectedCode("code is not base64".to_string()));
+        }
+
         // bounds already checked
         let hard = &qb64[..hs];
         let szg = tables::sizage(hard)?;
@@ -353,6 +357,9 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
+            if !qb64.is_char_boundary(cs as usize) {
+                return err!(Error::UnexpectedCode("code is not base64".to_string()));
+            }
             let soft = &qb64[szg.hs as usize..cs as usize];
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
@@ -367,6 +374,10 @@ pub trait Matter: Default {
             )));
         }
 
+        if !qb64.is_char_boundary(cs as usize) || !qb64.is_char_boundary(fs as usize) {
+            return err!(Error::ParseQb64("material is not base64".to_string()));
+        }
+
         let trim = &qb64[..fs as usize];
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 3ebb9bde531b68af35870549fa7006af0d339064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 02/32] fix: refuse base64 padding inside qualified material

Material ending in '=' decoded to fewer raw bytes than its code declares.
---
 src/core/indexer/mod.rs | 8 ++++++++
 src/core/matter/mod.rs  | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 5cd7ac6..6e74e18 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -489,12 +489,20 @@ pub trait Indexer: Default {
                 return err!(Error::Prepad());
             }
 
+            if paw.len() != ps as usize + ((fs - cs) * 3 / 4) as usize {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             paw[ps as usize..].to_owned()
         } else {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
+            if paw.len() != ((fs - cs) * 3 / 4) as usize {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index a2d976b..6d8fc7b 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -402,11 +402,18 @@ pub trait Matter: Default {
 
             let raw = paw[ps as usize..].to_vec();
             paw.zeroize();
+            if raw.len() != ((fs - cs) * 3 / 4) as usize {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
             raw
         } else {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            if paw.len() != ((fs - cs) * 3 / 4) as usize {
+                return err!(Error::ParseQb64("padded material".to_string()));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
-- 
2.43.0


From 0aa0e82c1941541eabab5ff35033c3dd30e72ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 03/32] fix: refuse empty variable material of a code with lead
 bytes

"5AAA" and its binary form made the parser slice out of bounds.
---
 src/core/matter/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 6d8fc7b..a078490 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -414,6 +414,10 @@ pub trait Matter: Default {
                 return err!(Error::ParseQb64("padded material".to_string()));
             }
 
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage("insufficient material for lead bytes".to_string()));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -488,6 +492,10 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage("insufficient material for lead bytes".to_string()));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 754660b8a0ac2f8398af3d3af8176936b46df352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 04/32] fix: do not underflow when raw size does not fit the
 lead size

---
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 6e74e18..cfb8537 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -255,7 +255,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code={both} for converted raw pad size={ps}."
             )));
@@ -341,7 +341,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code = '{both}' for converted raw pad size = '{ps}'.",
             )));
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index a078490..45e7e0f 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -229,7 +229,7 @@ pub trait Matter: Default {
             let both = code;
             let cs = both.len();
 
-            if (cs % 4) as u32 != ps as u32 - szg.ls {
+            if (cs % 4) as u32 + szg.ls != ps as u32 {
                 return err!(Error::InvalidCodeSize(format!(
                     "invalid code for converted raw pad size: code = '{both}', pad size = {ps}",
                 )));
-- 
2.43.0


From f93fa3349057771c5e1989c1ccea5e66b665f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 05/32] fix: account for lead bytes of indexed codes

The raw size of codes with lead bytes included the lead, so that they could
not be qualified, and parsing text left the lead in the raw value.
---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index cfb8537..a955be2 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -130,7 +130,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -516,7 +516,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From a19e1ce8f28c30b4a72aebf8f059db166cbad3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/32] fix: check index and ondex against their own fields in
 Indexer::binfil

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index a955be2..080ad23 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -292,13 +292,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From ab9e1a05af8f85e57d53b1f82cf2c9e3028465d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/32] fix: refuse base64 numbers that do not fit instead of
 dropping digits

---
 src/core/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..197e7f1 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -146,6 +146,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion("base64 number too large".to_string()));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -156,6 +159,9 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion("base64 number too large".to_string()));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From a83732b7ba43840b94b42e70cfcae21defb5b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 08/32] fix: validate code and raw size of variable size
 material

A short or unknown variable size code could slice out of bounds or create
a primitive that cannot be qualified, and raw sizes wrapped at 4 GiB.
---
 src/core/matter/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 45e7e0f..24b5588 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -55,7 +55,8 @@ pub trait Matter: Default {
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
-                let rize = raw.len() as u32;
+                tables::sizage(&code)?;
+                let rize = u32::try_from(raw.len())?;
 
                 let ls = (3 - (rize % 3)) % 3;
                 size = (rize + ls) / 3;
-- 
2.43.0


From 39f6a27a4efb63a181ad5fcb168ee5fb9d805499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 09/32] fix: validate the code of parsed Salter, Number and
 Prefixer primitives

---
 src/core/number.rs   | 1 +
 src/core/prefixer.rs | 1 +
 src/core/salter.rs   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6228370 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
         Ok(number)
     }
 
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..6d125dc 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -302,6 +302,7 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code())?;
         Ok(prefixer)
     }
 
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..d58cca3 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -54,6 +54,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code)?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From 98630591934d35928d4bffbd19749dd3bafc8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 10/32] fix: refuse malformed threshold expressions instead of
 panicking or accepting them

---
 src/core/tholder.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..9064091 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -37,7 +37,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
+            if parts.len() > 2 {
+                return err!(Error::Value(format!("malformed weight {weight}")));
+            } else if parts.len() != 2 {
                 // must be 0 or 1
                 if parts[0] == "0" {
                     clause.push(Rational32::new(0, 1));
@@ -52,6 +54,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("zero denominator in weight {weight}")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
@@ -61,6 +66,10 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
         clauses.push(clause);
     }
 
+    if clauses.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
+
     for clause in &*clauses {
         let mut sum = Rational32::new(0, 1);
 
@@ -266,7 +275,10 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => return err!(Error::Shortage("limen is too short for its code".to_string())),
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From 393aa08d63c03632f578600fef524241c764e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 11/32] fix: sum threshold weights exactly instead of
 overflowing

---
 src/core/tholder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 9064091..d1d884f 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::{BigRational, Rational32};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,6 +26,11 @@ impl Default for Tholder {
     }
 }
 
+// sums of weights do not necessarily fit into a Rational32
+fn widen(weight: &Rational32) -> BigRational {
+    BigRational::new((*weight.numer()).into(), (*weight.denom()).into())
+}
+
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
@@ -71,13 +76,13 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = BigRational::new(0.into(), 1.into());
 
         for weight in clause {
-            sum += weight;
+            sum += widen(weight);
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < BigRational::new(1.into(), 1.into()) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -224,7 +229,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: BigRational = BigRational::new(1.into(), 1.into());
         }
 
         let mut indices = indices.to_vec();
@@ -240,10 +245,10 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = BigRational::new(0.into(), 1.into());
             for weight in clause {
                 if sats[wio] {
-                    cw += weight;
+                    cw += widen(&weight);
                 }
                 wio += 1;
             }
-- 
2.43.0


From a32a1b286595eed4af9860a598cc60623416b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 12/32] fix: ignore indices beyond the key list when satisfying
 a weighted threshold

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index d1d884f..38f91d3 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -238,7 +238,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // indices beyond the key list do not contribute
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 131dbce92ab6bce5122f51b316e2308f5206eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 13/32] fix: count repeated indices once when satisfying a
 numeric threshold

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 38f91d3..0874a6a 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -220,6 +220,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From 68e3fb1c513983bb5d372fee3c7f122eeacb29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 14/32] fix: refuse raw material shorter than its declared size

---
 src/core/common.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..78dff3c 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -226,8 +226,16 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     if let Some(size) = size {
         match kind {
             Serialage::JSON => {
-                let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                let raw = match raw.get(..(size as usize)) {
+                    Some(raw) => raw,
+                    None => {
+                        return err!(Error::Shortage(format!(
+                            "need more bytes than {bytes} to load {size}",
+                            bytes = raw.len()
+                        )))
+                    }
+                };
+                let v: serde_json::Value = serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From bb72616a68dc515f9de287a3c7fd1a12a365ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 15/32] fix: sniff events followed by material that is not text

---
 src/core/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 78dff3c..5cefeef 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -271,7 +271,8 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
+    // the version string is at the front, and whatever follows the event may not be text
+    let raw = &String::from_utf8_lossy(&raw[..MINIMUM_SNIFF_SIZE]);
     let start = match REVER.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
-- 
2.43.0


From 1cef3ef625ea3fb6fe5951d05800dc6605e36cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 16/32] fix: refuse to build version strings whose fields do
 not fit

---
 src/core/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5cefeef..cbf603d 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -213,6 +213,12 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf || size > 0xffffff {
+        return err!(Error::Validation(format!(
+            "version or size does not fit version string: version = {version:?}, size = {size}"
+        )));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From 80f0e729fa9aaf625af5b1d72fc84e0a34937917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 17/32] fix: refuse to size documents in which another field
 holds the first version string

---
 src/core/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index cbf603d..d376fa5 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -191,6 +191,10 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    if raw != dumps(&ked, Some(&kind))? {
+        return err!(Error::Value("version string is not the first field value".to_string()));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From d29cd2a70c6f4e649f3e0f4f03977d575182d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 18/32] fix: refuse documents without an identifier instead of
 panicking

---
 src/core/sadder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..e5786a6 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -56,6 +56,13 @@ fn exhale(ked: &Value, kind: Option<&str>) -> Result<ExhaleResult> {
     })
 }
 
+fn said(ked: &Value) -> Result<String> {
+    match ked.to_map()?.get(Ids::d) {
+        Some(said) => said.to_string(),
+        None => err!(Error::Validation(format!("missing id field labelled={}", Ids::d))),
+    }
+}
+
 pub trait Sadder: Default + Clone {
     fn code(&self) -> String;
     fn raw(&self) -> Vec<u8>;
@@ -114,7 +121,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&said(&result.ked)?),
             None,
         )?);
 
@@ -144,7 +151,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&said(&result.ked)?),
             None,
         )?);
 
@@ -174,7 +181,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&said(&result.ked)?),
             None,
         )?);
 
-- 
2.43.0


From a7bb8394d9ebfb85709a36488cea65e4765aff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 19/32] fix: do not split a character when truncating pretty
 output

---
 src/core/sadder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index e5786a6..a65446d 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -206,8 +206,11 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From 50e0de484af319df8e2a5ee8a5a82aa3828845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 20/32] fix: do not panic when verifying a document without the
 identifier field

---
 src/core/saider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..9f033ed 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -61,6 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
+    sad.to_map()?;
     let mut sad = sad.clone();
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
@@ -233,7 +234,9 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed
+            && (!sad.to_map()?.contains_key(label) || sad[label].to_string()? != self.qb64()?)
+        {
             return Ok(false);
         }
 
-- 
2.43.0


From 4d325892be15f95eb446c51283a933e8ea9a070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 21/32] fix: refuse events without an ilk instead of panicking

---
 src/core/prefixer.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 6d125dc..0df505f 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -52,11 +52,17 @@ fn validate_code(code: &str) -> Result<()> {
     Ok(())
 }
 
+fn ilk(ked: &Value) -> Result<String> {
+    match ked.to_map()?.get(Ids::t) {
+        Some(ilk) => ilk.to_string(),
+        None => err!(Error::Value("missing ilk for prefix".to_string())),
+    }
+}
+
 fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
-    let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ilk(ked)?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -330,8 +336,7 @@ impl Prefixer {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
         let prefixed = prefixed.unwrap_or(false);
-        let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ilk(ked)?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 325341bd044b35353f48e6a7ac9fea7bf4bb55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 22/32] fix: accept empty lists in non-transferable inception
 events

---
 src/core/prefixer.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 0df505f..62d33d6 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -91,6 +91,15 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+// a field without a value: an empty list or an empty string
+fn is_empty(val: &Value) -> bool {
+    match val {
+        Value::Array(array) => array.is_empty(),
+        Value::String(string) => string.is_empty(),
+        _ => false,
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -116,17 +125,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
@@ -200,15 +209,9 @@ fn verify_nontransferable(ked: &Value, pre: &str, prefixed: bool) -> Result<bool
     }
 
     let label = Ids::n;
-    if map.contains_key(label) {
-        if ked[label].to_vec().is_ok() && !ked[label].to_vec()?.is_empty() {
-            return Ok(false);
-        }
-
-        // unsure if 'n' can be a single key. if it can't we can simplify all this
-        if ked[label].to_string().is_ok() && !ked[label].to_string()?.is_empty() {
-            return Ok(false);
-        }
+    // unsure if 'n' can be a single key
+    if map.contains_key(label) && !is_empty(&ked[label]) {
+        return Ok(false);
     }
 
     Ok(true)
-- 
2.43.0


From 6dc222b1ec0c1ddca62584cbc69dcd2014a2877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 23/32] fix: convert large integers and floats without a
 fraction instead of panicking

---
 src/data.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..f7dd299 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,7 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    i: i128,
     float: bool,
 }
 
@@ -28,7 +28,13 @@ impl From<f64> for Number {
 
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
+    }
+}
+
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +73,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -110,7 +116,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -284,10 +290,13 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(i) = n.as_u64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    // without arbitrary precision, what is not an integer is always a float
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -338,7 +347,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From fbd9fe2556a82a9e8e4e5c8153108d30437a10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 24/32] fix: strip exactly the leading components of a path

---
 src/core/pather.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..89afc69 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,22 +134,14 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From 8791b2c3e4291ef3df777011098e5cbce77a25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 25/32] fix: refuse timestamps that cannot be represented
 instead of altering them

---
 src/core/dater.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/dater.rs b/src/core/dater.rs
index 81d8ddd..38fe68b 100644
--- a/src/core/dater.rs
+++ b/src/core/dater.rs
@@ -54,7 +54,13 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
-            Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
+            let dater: Self = Matter::new(code, raw, qb64b, Some(&qb64), qb2)?;
+            if let Some(dts) = dts {
+                if dater.dts()? != dts {
+                    return err!(Error::Value(format!("unrepresentable timestamp {dts}")));
+                }
+            }
+            dater
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
         };
-- 
2.43.0


From bccddbe5475535b7db6d7d993fdbbca33491a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 26/32] fix: keep the high word of 128-bit numbers in the wasm
 bindings

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..eecd095 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        u128::from(val.high) << 64 | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From 2e865829c7f81f92bcb7227ddcaf0d0bf73f9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 27/32] fix: refuse path components that contain the path
 separator

---
 src/core/pather.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 89afc69..dcb08dc 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -182,6 +182,11 @@ impl Pather {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
+            // would be read back as two components
+            if p.contains('-') {
+                return err!(Error::Value("separator in path component".to_string()));
+            }
+
             vath.push(p);
         }
 
-- 
2.43.0


From 6ae4d342e42f8e864bc810be21c1157a93516428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 28/32] fix: indexed codes without other index field refuse a
 differing other index

---
 src/core/indexer/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 080ad23..a91dd7e 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,12 +97,12 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
-        } else if let Some(o) = ondex {
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
+        }
+
+        if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0


From dfd8012e1cfce79e77154b8c82a0f20a7be1280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 29/32] fix: refuse to derive a basic prefix from a key with
 trailing text

---
 src/core/prefixer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 62d33d6..c64481d 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -115,7 +115,13 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
             )));
         }
 
-        Verfer::new(None, None, None, Some(&keys[0].to_string()?), None)?
+        let key = keys[0].to_string()?;
+        let verfer = Verfer::new(None, None, None, Some(&key), None)?;
+        if verfer.qb64()? != key {
+            return err!(Error::Derivation("key is not exactly one primitive".to_string()));
+        }
+
+        verfer
     } else {
         return err!(Error::Derivation("error extracting public key".to_string()));
     };
@@ -157,7 +163,13 @@ fn derive_transferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
             )));
         }
 
-        Verfer::new(None, None, None, Some(&keys[0].to_string()?), None)?
+        let key = keys[0].to_string()?;
+        let verfer = Verfer::new(None, None, None, Some(&key), None)?;
+        if verfer.qb64()? != key {
+            return err!(Error::Derivation("key is not exactly one primitive".to_string()));
+        }
+
+        verfer
     } else {
         return err!(Error::Derivation("error extracting public key".to_string()));
     };
-- 
2.43.0


From 4e1ff46cc9e47320fc40ae620597039ca247ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:51 +0000
Subject: [PATCH 30/32] fix: report a missing field from event and credential
 accessors instead of panicking

---
 src/core/creder.rs | 11 +++++++++--
 src/core/serder.rs | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..1e92eb6 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,11 +55,11 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.text(Ids::i)
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.text(Ids::s)
     }
 
     pub fn subject(&self) -> Value {
@@ -85,6 +85,13 @@ impl Creder {
             Ok(dat!({}))
         }
     }
+
+    fn text(&self, label: &str) -> Result<String> {
+        match self.ked.to_map()?.get(label) {
+            Some(value) => value.to_string(),
+            None => err!(Error::Value(format!("missing {label} field"))),
+        }
+    }
 }
 
 impl Default for Creder {
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..f4a2c2e 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -131,9 +131,7 @@ impl Serder {
     }
 
     pub fn sner(&self) -> Result<Number> {
-        let label = Ids::s;
-
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.text(Ids::s)?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -172,8 +170,7 @@ impl Serder {
     }
 
     pub fn pre(&self) -> Result<String> {
-        let label = Ids::i;
-        self.ked[label].to_string()
+        self.text(Ids::i)
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -183,12 +180,18 @@ impl Serder {
     pub fn est(&self) -> Result<bool> {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
-        let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.text(Ids::t)?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
 
+    fn text(&self, label: &str) -> Result<String> {
+        match self.ked.to_map()?.get(label) {
+            Some(value) => value.to_string(),
+            None => err!(Error::Value(format!("missing {label} field"))),
+        }
+    }
+
     // pretty implemented in Sadder (this was overridden for some reason in KERIpy)
 }
 
-- 
2.43.0


From 3b1e2b349fc6e27d18aa4b96efbf957c100c1872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:02 +0000
Subject: [PATCH 31/32] fix: Serder.ked of the WebAssembly wrapper panicked:
 the document is a map, not a string

---
 wasm/src/primitives/serder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From c36f70bebf551fc292723cf356213505ed3907c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:02 +0000
Subject: [PATCH 32/32] fix: Saider.saidify of the WebAssembly wrapper
 panicked: the document is a map, not a string

---
 wasm/src/primitives/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..67d9abf 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -80,7 +80,7 @@ impl SaiderWrapper {
         .as_js()?;
         Ok(SaidifyRet {
             saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
+            value: ret.1.to_json().expect("unable unwrap value"),
         })
     }
 
-- 
2.43.0

