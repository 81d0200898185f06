From 956289540772f156df5d9dffc7b8a279c391aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 01/38] fix: refuse text that is not base64 instead of
 panicking when decoding codes

Matter, Indexer and Counter sliced qb64 text at byte offsets that can fall
inside a multi-byte character, and Counter sliced two characters out of a
shorter text.
---
 src/cesr/core/counter/mod.rs | 17 ++++++++++++-----
 src/cesr/core/indexer/mod.rs | 17 +++++++++++++----
 src/cesr/core/matter/mod.rs  | 13 +++++++++----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index b94ef26..5ea223b 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -217,8 +217,12 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let Some(first) = qb64.get(..2) else {
+            return err!(Error::Shortage(format!(
+                "insufficient material for code start: qb64 size = {}",
+                qb64.len()
+            )));
+        };
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +232,9 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let Some(hard) = qb64.get(..hs) else {
+            return err!(Error::Conversion("hard part of code is not base64 text".to_string()));
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +245,9 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let Some(count_b64) = qb64.get(szg.hs as usize..cs as usize) else {
+            return err!(Error::Conversion("count is not base64 text".to_string()));
+        };
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index d6f5e97..792b2d3 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -394,7 +394,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let Some(hard) = qb64.get(..hs) else {
+            return err!(Error::Conversion("hard part of code is not base64 text".to_string()));
+        };
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -408,8 +410,13 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let (Some(idx), Some(odx)) = (
+            qb64.get(hs..(hs + ms as usize)),
+            qb64.get((hs + ms as usize)..(hs + (ms + szg.os) as usize)),
+        ) else {
+            return err!(Error::Conversion("soft part of code is not base64 text".to_string()));
+        };
+        let index = util::b64_to_u32(idx)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -458,7 +465,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let Some(qb64) = qb64.get(..fs as usize) else {
+            return err!(Error::Conversion("material is not base64 text".to_string()));
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fe9f663..d7f94d5 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -329,8 +329,9 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let Some(hard) = qb64.get(..hs) else {
+            return err!(Error::Conversion("hard part of code is not base64 text".to_string()));
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -349,7 +350,9 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let Some(soft) = qb64.get(szg.hs as usize..cs as usize) else {
+                return err!(Error::Conversion("soft part of code is not base64 text".to_string()));
+            };
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -363,7 +366,9 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let Some(trim) = qb64.get(..fs as usize) else {
+            return err!(Error::Conversion("material is not base64 text".to_string()));
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-- 
2.43.0


From f11f9eeb10512deb8b13aecf3e2a162f2f8be4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 02/38] fix: refuse base64 padding and missing lead bytes in
 qualified material

The base64 engine accepts '=' in the last quadlet, so text such as a key whose
last characters are '=' decoded to fewer raw bytes than its code prescribes,
and a zero-size lead-byte code panicked when its lead bytes were sliced.
---
 src/cesr/core/indexer/mod.rs |  5 +++++
 src/cesr/core/matter/mod.rs  | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 792b2d3..c694957 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -509,6 +509,11 @@ pub trait Indexer: Default {
             paw[ps as usize..].to_owned()
         };
 
+        // base64 padding in place of material leaves less raw than the code prescribes
+        if raw.len() != ((fs - cs) * 3 / 4) as usize {
+            return err!(Error::Conversion(format!("improperly qualified material: code = {hard}")));
+        }
+
         self.set_code(hard);
         self.set_raw(&raw);
         self.set_index(index);
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index d7f94d5..3715a55 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -396,6 +396,13 @@ pub trait Matter: Default {
         } else {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -413,6 +420,12 @@ pub trait Matter: Default {
             raw
         };
 
+        // base64 padding in place of material leaves less raw than the code prescribes
+        if raw.len() != ((fs - cs) * 3 / 4 - szg.ls) as usize {
+            raw.zeroize();
+            return err!(Error::Conversion(format!("improperly qualified material: code = {hard}")));
+        }
+
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
@@ -471,6 +484,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: bfs = {bfs}, ls = {}",
+                szg.ls
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From bf1c9e5ca2d2d5d98ca604e9dba8d802c84147a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 03/38] fix: account for the lead byte of indexed codes 1z and
 4z

The raw size of lead-byte codes did not exclude the lead byte, decoding text
returned it as raw material, and encoding cut the wrong characters or
underflowed.
---
 src/cesr/core/indexer/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index c694957..705b551 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -131,7 +131,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -256,7 +256,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code={both} for converted raw pad size={ps}."
             )));
@@ -266,7 +266,7 @@ pub trait Indexer: Default {
         buffer[ps..].clone_from_slice(&raw);
 
         let b64 = b64_engine::URL_SAFE.encode(&buffer);
-        let full = format!("{both}{}", &b64[(ps - szg.ls as usize)..]);
+        let full = format!("{both}{}", &b64[(cs % 4) as usize..]);
 
         if full.len() != fs as usize {
             return err!(Error::InvalidCodeSize(format!(
@@ -342,7 +342,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code = '{both}' for converted raw pad size = '{ps}'.",
             )));
@@ -506,11 +506,11 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         // base64 padding in place of material leaves less raw than the code prescribes
-        if raw.len() != ((fs - cs) * 3 / 4) as usize {
+        if raw.len() != ((fs - cs) * 3 / 4 - szg.ls) as usize {
             return err!(Error::Conversion(format!("improperly qualified material: code = {hard}")));
         }
 
-- 
2.43.0


From bad0f234cb52c2853fc9d1fc8044b1e6c08db09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 04/38] fix: check indices of binary indexed material against
 their own field sizes

binfil compared the main index with the size of both indices together, which
overflows for the 3A, 3B and 4z codes, and checked the other index only when it
is a single character.
---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 705b551..721bac4 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -293,13 +293,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From ab69e3d699edbf0525d6a5782db7aeab729930a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 05/38] fix: refuse undefined codes when building a primitive
 from raw material

A variable-size code shorter than two (or four) characters panicked, and an
unknown code of a variable family was accepted but could not be encoded.
---
 src/cesr/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 3715a55..138a615 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -48,6 +48,9 @@ pub trait Matter: Default {
             return err!(Error::EmptyMaterial("empty code".to_string()));
         }
 
+        // refuse undefined codes before any part of them is used
+        tables::sizage(code)?;
+
         let mut size: u32 = 0;
         // this unwrap can stay since we have validated that code is not empty, above
         let first = code.chars().next().unwrap();
-- 
2.43.0


From e8529b632a680f136a8cb09734ffd11d15e8c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 06/38] fix: refuse base64 integers that do not fit instead of
 wrapping around

---
 src/cesr/core/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 40fee97..dd506c9 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -146,6 +146,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out >> 26 != 0 {
+            return err!(Error::Conversion(format!("value does not fit in 32 bits: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -156,6 +159,9 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out >> 58 != 0 {
+            return err!(Error::Conversion(format!("value does not fit in 64 bits: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From 4a397cb5300353a90bbc04e8c70034901e560cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 07/38] fix: compare pad and lead sizes without underflow when
 encoding a primitive

---
 src/cesr/core/matter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 138a615..7fbc160 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -228,7 +228,7 @@ pub trait Matter: Default {
             let both = code;
             let cs = both.len();
 
-            if (cs % 4) as u32 != ps as u32 - szg.ls {
+            if (cs % 4) as u32 + szg.ls != ps as u32 {
                 return err!(Error::InvalidCodeSize(format!(
                     "invalid code for converted raw pad size: code = '{both}', pad size = {ps}",
                 )));
-- 
2.43.0


From 616efd750118246fabfbd90cad25506d15b9fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 08/38] fix: report the non-transferable P-256 key code as
 non-transferable

---
 src/cesr/core/matter/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 7fbc160..8fffe6d 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -174,8 +174,12 @@ pub trait Matter: Default {
     }
 
     fn transferable(&self) -> bool {
-        const CODES: &[&str] =
-            &[tables::Codex::Ed25519N, tables::Codex::ECDSA_256k1N, tables::Codex::Ed448N];
+        const CODES: &[&str] = &[
+            tables::Codex::Ed25519N,
+            tables::Codex::ECDSA_256k1N,
+            tables::Codex::Ed448N,
+            tables::Codex::ECDSA_256r1N,
+        ];
 
         !CODES.contains(&self.code().as_str())
     }
-- 
2.43.0


From dfbec218519773d859f37825b7a20300294f6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 09/38] fix: validate the code a number or salt was decoded
 with

Number and Salter checked only the code argument, so text or binary of any
other primitive was accepted.
---
 src/cesr/core/number.rs | 1 +
 src/cesr/core/salter.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index d5a27f9..0e2c484 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
         Ok(number)
     }
 
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index e8984a2..2aa4ad7 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -55,6 +55,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code())?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From 0581dfb4f5c95e824e543036dcd2b13d13b4f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 10/38] fix: refuse documents with missing fields instead of
 panicking

Serder, Creder, Sadder, Saider and Prefixer read fields of untrusted documents
by indexing, which panicked when a field was absent or the document was not a
map.
---
 src/cesr/core/saider.rs |  2 +-
 src/data.rs             | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 272cc74..4bd2597 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
diff --git a/src/data.rs b/src/data.rs
index b96be4d..d4f477b 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -143,13 +143,17 @@ impl fmt::Display for Value {
     }
 }
 
+// what reading an absent entry gives, so that documents with missing fields are refused by the
+// conversion that follows
+static NULL: Value = Value::Null;
+
 impl Index<usize> for Value {
     type Output = Value;
     fn index(&self, i: usize) -> &Self::Output {
         match self {
-            Value::Array(a) => &a[i],
-            Value::Object(o) => &o[i],
-            _ => panic!("attempted to index non-indexable Value object with usize"),
+            Value::Array(a) => a.get(i).unwrap_or(&NULL),
+            Value::Object(o) => o.get_index(i).map(|(_, v)| v).unwrap_or(&NULL),
+            _ => &NULL,
         }
     }
 }
@@ -158,8 +162,8 @@ impl Index<&str> for Value {
     type Output = Value;
     fn index(&self, i: &str) -> &Self::Output {
         match self {
-            Value::Object(o) => &o[i],
-            _ => panic!("attempted to index non-indexable Value object with string"),
+            Value::Object(o) => o.get(i).unwrap_or(&NULL),
+            _ => &NULL,
         }
     }
 }
-- 
2.43.0


From 63f8dfe5ad2720cb6e280e42e301be0921a93bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 11/38] fix: refuse messages shorter than their declared size
 instead of panicking

---
 src/cesr/core/common.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index bac8701..99a03cb 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -246,8 +246,13 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     if let Some(size) = size {
         match kind {
             Serialage::JSON => {
-                let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                let Some(raw) = raw.get(..(size as usize)) else {
+                    return err!(Error::Shortage(format!(
+                        "need {size} bytes to load, got {}",
+                        raw.len()
+                    )));
+                };
+                let v: serde_json::Value = serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From f3b1eeb1f61ee5d82108f4aa4e65f92a0e296f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 12/38] fix: sniff a message followed by attachments that are
 not UTF-8

sniff required the whole buffer to be UTF-8 text, so a message followed by
attachments in the binary domain, which reading is meant to leave alone, was
refused.
---
 src/cesr/core/common.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 99a03cb..3d53cbc 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -278,7 +278,7 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
-        static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref REVER: regex::bytes::Regex = regex::bytes::Regex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -288,7 +288,6 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
     let start = match REVER.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
@@ -301,12 +300,13 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     }
 
     let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let part = |name: &[u8]| String::from_utf8(REVER.replace_all(vs, name).to_vec());
 
-    let ident = REVER.replace_all(vs, "$ident").to_string();
-    let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-    let minor = u8::from_str_radix(&REVER.replace_all(vs, "$minor"), 16)?;
-    let kind = REVER.replace_all(vs, "$kind").to_string();
-    let size = u32::from_str_radix(&REVER.replace_all(vs, "$size"), 16)?;
+    let ident = part(b"$ident")?;
+    let major = u8::from_str_radix(&part(b"$major")?, 16)?;
+    let minor = u8::from_str_radix(&part(b"$minor")?, 16)?;
+    let kind = part(b"$kind")?;
+    let size = u32::from_str_radix(&part(b"$size")?, 16)?;
     let version = Version { major, minor };
 
     if !SERIALS.contains(&kind.as_str()) {
-- 
2.43.0


From 7bcb22923fec6ec7b6c5d9a97fbced53b7d2a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 13/38] fix: refuse versions and sizes that do not fit a
 version string

versify widened the field instead, producing a string that no parser accepts.
---
 src/cesr/core/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 3d53cbc..8c12648 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -233,6 +233,12 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf || size > 0xff_ffff {
+        return err!(Error::Value(format!(
+            "version or size does not fit a version string: {version:?}, size = {size}"
+        )));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From e1b158b82dc9fba67cbca14d46a7bf876e4e72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 14/38] fix: write the size into the version field and nowhere
 else when sizing

sizeify replaced the first text in the serialization that looks like a version
string, which can be a key or another field before the version field; raw and
fields then disagreed.
---
 src/cesr/core/common.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 8c12648..44ecbfd 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -195,22 +195,17 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
         )));
     }
 
-    let fore = raw[..start].to_vec();
-    let mut back = raw[start + VERSION_FULL_SIZE..].to_vec();
     let vs = versify(Some(&result.ident), Some(&result.version), Some(&kind), Some(size as u32))?;
 
-    let mut raw = fore;
-    raw.append(&mut vs.as_bytes().to_vec());
-    raw.append(&mut back);
+    let mut ked = ked.clone();
+    ked["v"] = dat!(&vs);
+    let raw = dumps(&ked, Some(&kind))?;
 
-    if raw.len() != size {
-        // unreachable as we constructed this
+    // the first version string in raw must be the one of the version field
+    if raw.len() != size || !raw[start..].starts_with(vs.as_bytes()) {
         return err!(Error::Value(format!("malformed version string size, version string = {vs}")));
     }
 
-    let mut ked = ked.clone();
-    ked["v"] = dat!(&vs);
-
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From 11c9a54a2b8e4f8fbbc1c3e6987b489fa87f07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 15/38] fix: truncate pretty output between characters instead
 of panicking inside one

---
 src/cesr/core/sadder.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index ea3018a..ca8288e 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -200,11 +200,7 @@ pub trait Sadder: Default + Clone {
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
                 let size = size.unwrap_or(1024);
-                if s.len() > size {
-                    Ok(s[..size].to_string())
-                } else {
-                    Ok(s)
-                }
+                Ok(s.chars().take(size).collect())
             }
             // pretty sure this is unreachable unless we borked .to_json()
             Err(_) => err!(Error::Value("cannot prettify ked".to_string())),
-- 
2.43.0


From 83824fd44082fe8acefcf0e231887cfcd3b33c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 16/38] fix: keep every JSON number when loading a document

Integers above the signed 64-bit range and floats printed without a decimal
point, such as 1e30, made the conversion panic.
---
 src/data.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index d4f477b..cb79c86 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,7 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    i: i128,
     float: bool,
 }
 
@@ -28,7 +28,7 @@ impl From<f64> for Number {
 
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +67,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -110,7 +110,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -288,10 +288,12 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(i) = n.as_u64() {
+                    Self::Number(Number { f: 0.0, i: i as i128, float: false })
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap_or(f64::NAN)))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -342,7 +344,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From 88fe572b681e6439e73420cef78ff0a11db1ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 17/38] fix: refuse an other index that an indexed code cannot
 carry

---
 src/cesr/core/indexer/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 721bac4..a86af45 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -98,12 +98,11 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
         } else if let Some(o) = ondex {
+            // without a field of its own the other index cannot differ
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0


From 5934c5d7f940ba6a77a7f9a36411c11f1942520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 18/38] fix: validate the code a prefix was decoded with

---
 src/prefexing/prefixer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index ed1ce86..de69308 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -304,6 +304,8 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code())?;
+
         Ok(prefixer)
     }
 
-- 
2.43.0


From 1c64c81cdabeb1ff6f37676fbaa10c97a35fc269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 19/38] fix: refuse a plus sign in hex numbers

---
 src/cesr/core/number.rs | 2 ++
 src/cesr/core/seqner.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index 0e2c484..fce9ca6 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -57,6 +57,8 @@ impl Number {
             } else if let Some(numh) = numh {
                 if numh.is_empty() {
                     0
+                } else if numh.starts_with('+') {
+                    return err!(Error::Value(format!("invalid hex number {numh}")));
                 } else {
                     u128::from_str_radix(numh, 16)?
                 }
diff --git a/src/cesr/core/seqner.rs b/src/cesr/core/seqner.rs
index 2c1351a..1eefef5 100644
--- a/src/cesr/core/seqner.rs
+++ b/src/cesr/core/seqner.rs
@@ -40,6 +40,9 @@ impl Seqner {
                 let sn = if let Some(sn) = sn {
                     sn
                 } else if let Some(snh) = snh {
+                    if snh.starts_with('+') {
+                        return err!(Error::Value(format!("invalid hex number {snh}")));
+                    }
                     u128::from_str_radix(snh, 16)?
                 } else {
                     0_u128
-- 
2.43.0


From 3bdae7717dc92cc163bd5c976d3f6205d0b48926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 20/38] fix: refuse datetimes longer than the encoding can hold

---
 src/cesr/core/dater.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/dater.rs b/src/cesr/core/dater.rs
index b4f1cc6..eba949a 100644
--- a/src/cesr/core/dater.rs
+++ b/src/cesr/core/dater.rs
@@ -54,6 +54,10 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
+            let fs = matter::sizage(matter::Codex::DateTime)?.fs as usize;
+            if qb64.len() > fs {
+                return err!(Error::Value(format!("datetime {b64} is too long")));
+            }
             Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
-- 
2.43.0


From e01faa25eb94013fe27b5e7ef2e8f37a8204b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 21/38] fix: count each signer once towards a numeric threshold

---
 src/cesr/core/tholder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c3dfdfc..2c68ea3 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -206,6 +206,11 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        // a signer counts once, however many signatures it made
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From 39a5e3229a6b0aafab8955842106c80020a0df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 22/38] fix: ignore signer indices outside a weighted threshold
 instead of panicking

---
 src/cesr/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 2c68ea3..c76a12e 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -229,7 +229,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // an index outside the list carries no weight
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true;
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From f15ebde9d3968f8cf93fed4db22ef7b4e8fc9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 23/38] fix: refuse malformed weights and empty weight lists in
 thresholds

---
 src/cesr/core/tholder.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c76a12e..b61c895 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -28,6 +28,9 @@ impl Default for Tholder {
 
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
+    if threshold.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
     let separator = "/";
     let mut clauses: Vec<Vec<Rational32>> = Vec::new();
 
@@ -39,9 +42,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
-                if parts[0] == "0" {
+                if weight == "0" {
                     clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
+                } else if weight == "1" {
                     clause.push(Rational32::new(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
@@ -52,6 +55,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {weight} divides by zero")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
@@ -274,7 +280,10 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => return err!(Error::UnexpectedCode(limen)),
+        };
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From bcf13c5ac4a1e46ada9ee991f03270bdfea49db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 24/38] fix: sum threshold weights exactly instead of
 overflowing 32 bits

---
 src/cesr/core/tholder.rs | 55 +++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index b61c895..9aed121 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -8,7 +8,6 @@ use crate::{
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
 use num_rational::Rational32;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -26,6 +25,38 @@ impl Default for Tholder {
     }
 }
 
+// Sums weights exactly over their common denominator, refusing what is too large to represent.
+fn weigh(clause: &[Rational32], counts: impl Fn(usize) -> bool) -> Result<bool> {
+    fn gcd(a: u128, b: u128) -> u128 {
+        if b == 0 {
+            a
+        } else {
+            gcd(b, a % b)
+        }
+    }
+
+    let overflow = || Error::Value("weights have no common denominator in range".to_string());
+
+    let mut denom: u128 = 1;
+    for weight in clause {
+        let d = u128::try_from(*weight.denom())?;
+        denom = (denom / gcd(denom, d)).checked_mul(d).ok_or_else(overflow)?;
+    }
+
+    let mut sum: u128 = 0;
+    for (i, weight) in clause.iter().enumerate() {
+        if counts(i) {
+            let share = denom / u128::try_from(*weight.denom())?;
+            sum = share
+                .checked_mul(u128::try_from(*weight.numer())?)
+                .and_then(|w| sum.checked_add(w))
+                .ok_or_else(overflow)?;
+        }
+    }
+
+    Ok(sum >= denom)
+}
+
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
     if threshold.is_empty() {
@@ -68,13 +99,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
-
-        for weight in clause {
-            sum += weight;
-        }
-
-        if sum < Rational32::new(1, 1) {
+        if !weigh(clause, |_| true)? {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -225,10 +250,6 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
-        }
-
         let mut indices = indices.to_vec();
         indices.sort();
         indices.dedup();
@@ -245,16 +266,10 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
-            for weight in clause {
-                if sats[wio] {
-                    cw += weight;
-                }
-                wio += 1;
-            }
-            if cw < *RATIONAL_ONE {
+            if !weigh(&clause, |i| sats[wio + i])? {
                 return Ok(false);
             }
+            wio += clause.len();
         }
 
         Ok(true)
-- 
2.43.0


From 2d51f8989d31af835a2f33f55df27e9eab31dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 25/38] fix: derive non-transferable prefixes from events whose
 lists are empty

---
 src/prefexing/prefixer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index de69308..2835321 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -87,6 +87,15 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+// fields which list things are empty as lists, older events have an empty string instead
+fn is_empty(value: &Value) -> Result<bool> {
+    if let Ok(list) = value.to_vec() {
+        return Ok(list.is_empty());
+    }
+
+    Ok(value.to_string()?.is_empty())
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -112,17 +121,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From 114e0c35d20fcfb17ae174537d0c68c2c2b8cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 26/38] fix: keep field order when ignoring fields in a digest

---
 src/cesr/core/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 4bd2597..670145b 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -76,7 +76,7 @@ fn derive(
     let mut map = sad.to_map()?;
     for key in ignore.unwrap_or(&[]) {
         if map.contains_key(*key) {
-            map.remove(*key);
+            map.shift_remove(*key);
         }
     }
     let ser = dat!(&map);
-- 
2.43.0


From 56228e450154956d2cd286aebd55df54ef20d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 27/38] fix: refuse a short Ed25519 private key instead of
 panicking

---
 src/cesr/crypto/sign.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/crypto/sign.rs b/src/cesr/crypto/sign.rs
index e6c02c8..99f47e1 100644
--- a/src/cesr/crypto/sign.rs
+++ b/src/cesr/crypto/sign.rs
@@ -95,7 +95,7 @@ mod ed25519 {
     }
 
     pub(crate) fn public_key(private_key: &[u8]) -> Result<Vec<u8>> {
-        let private_key = SigningKey::from_bytes(&private_key[..32].try_into()?);
+        let private_key = SigningKey::from_bytes(private_key.try_into()?);
         let public_key: VerifyingKey = (&private_key).into();
         Ok(public_key.as_bytes().to_vec())
     }
-- 
2.43.0


From b0f654df26827927fc9319cb33194fb7cf0f73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 28/38] fix: strip and compare paths by leading components

---
 src/pathing/pather.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 71a5cbe..e584a4f 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -134,26 +134,18 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        Ok(self.path()?.to_vec()?.starts_with(&path.path()?.to_vec()?))
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From 7c23b482a6f479372628836ea50d9568557eca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 29/38] fix: refuse path components that cannot be told apart
 once joined

---
 src/pathing/pather.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index e584a4f..a061f48 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -182,6 +182,11 @@ impl Pather {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
+            // the separator would split the component, and an empty one would vanish
+            if p.is_empty() || p.contains('-') {
+                return err!(Error::Value(format!("invalid path component '{p}'")));
+            }
+
             vath.push(p);
         }
 
-- 
2.43.0


From c76fdca8968b13e206e620610cc7c329abd6f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 30/38] fix: refuse a bad salt and count past 65535 keys
 instead of panicking when creating keys

---
 src/signify/creating.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 5b4c116..19f1b1b 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -54,7 +54,7 @@ impl SaltyCreator {
         if let Some(s) = salter {
             salty_creator.salter = s;
         } else {
-            salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
+            salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
 
         Ok(salty_creator)
@@ -103,7 +103,7 @@ impl SaltyCreator {
 
         let mut signers = vec![];
         for (i, c) in codes.iter().enumerate() {
-            let path = format!("{}{:x}{:x}", stem, &ridx, kidx + i as u16);
+            let path = format!("{}{:x}{:x}", stem, &ridx, kidx as usize + i);
             signers.push(
                 self.salter
                     .signer(Some(c), Some(transferable), Some(&path), Some(&self.tier), Some(temp))
-- 
2.43.0


From 436aa1ec51832bc57cbf9ec7621f39937dfae35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 31/38] fix: create keys with the security tier asked for

---
 src/signify/creating.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 19f1b1b..e36e2cb 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -5,7 +5,7 @@ use crate::cesr::common::Tierage;
 use crate::cesr::Salter;
 
 use crate::cesr::core::matter::tables as matter;
-use crate::error::Result;
+use crate::error::{err, Error, Result};
 use crate::signing::Signer;
 
 pub const STEM: &str = "signify:aid";
@@ -57,6 +57,12 @@ impl SaltyCreator {
             salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
 
+        let tier = salty_creator.salter.tier();
+        if ![Tierage::min, Tierage::low, Tierage::med, Tierage::high].contains(&tier.as_str()) {
+            return err!(Error::Value(format!("unknown security tier {tier}")));
+        }
+        salty_creator.tier = tier;
+
         Ok(salty_creator)
     }
 
-- 
2.43.0


From 5fba22b90728b8addfffe396d16dd7f0c3bf7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 32/38] fix: refuse key indices that overflow instead of
 panicking

---
 src/cesr/core/salter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index 2aa4ad7..dc5517b 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -141,7 +141,11 @@ impl Salter {
         let mut signers: Vec<Signer> = vec![];
 
         for i in 0..count {
-            let path = format!("{path}{n:x}", n = (i + start));
+            let n = match start.checked_add(i) {
+                Some(n) => n,
+                None => return err!(Error::Value(format!("start index {start} is too large"))),
+            };
+            let path = format!("{path}{n:x}");
             signers.push(self.signer(code, transferable, Some(&path), tier, temp)?);
         }
 
-- 
2.43.0


From 489bd2e43aa4a09c3454bc5c12c1bdd1ec826c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 33/38] hook: expose message composition, receipts and random
 key creation to the monitors (cfg keride_monitor)

---
 src/messaging.rs        | 13 +++++++++++++
 src/receipting.rs       | 12 ++++++++++++
 src/signify/creating.rs | 11 +++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/messaging.rs b/src/messaging.rs
index 6fd5a7c..de32c15 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -64,3 +64,16 @@ fn messagize(
 
     Ok(message + &atc)
 }
+
+#[cfg(keride_monitor)]
+/// Monitoring only: the seal is given as (identifier, sequence number, digest, last).
+pub fn monitor_messagize(
+    serder: &Serder,
+    sigers: Option<&[Siger]>,
+    seal: Option<(&str, &str, &str, bool)>,
+    wigers: Option<&[Siger]>,
+    cigars: Option<&[Cigar]>,
+) -> Result<String> {
+    let seal = seal.map(|(i, s, d, last)| Seal::new(i, s, d, Some(last)));
+    messagize(serder, sigers, seal.as_ref(), wigers, cigars)
+}
diff --git a/src/receipting.rs b/src/receipting.rs
index 64d7792..f9a1412 100644
--- a/src/receipting.rs
+++ b/src/receipting.rs
@@ -33,3 +33,15 @@ fn receipt(
 
     Serder::new_with_ked(&ked, None, None)
 }
+
+#[cfg(keride_monitor)]
+/// Monitoring only.
+pub fn monitor_receipt(
+    pre: &str,
+    sn: u128,
+    said: &str,
+    version: Option<&Version>,
+    kind: Option<&str>,
+) -> Result<Serder> {
+    receipt(pre, sn, said, version, kind)
+}
diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index e36e2cb..eecc804 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -162,6 +162,17 @@ impl RandyCreator {
     }
 }
 
+#[cfg(keride_monitor)]
+/// Monitoring only.
+pub fn monitor_randy(
+    codes: Option<Vec<&str>>,
+    count: Option<u16>,
+    code: Option<&str>,
+    transferable: Option<bool>,
+) -> Vec<Signer> {
+    RandyCreator::new().create(codes, count, code, transferable)
+}
+
 #[cfg(test)]
 mod test {
     use crate::cesr::{
-- 
2.43.0


From dd4ed565a0be3f0435d7bcc5a7bbdf7dde4864c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 34/38] fix: refuse key and next-key fields that are not lists
 instead of reading none

---
 src/cesr/core/serder.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/cesr/core/serder.rs b/src/cesr/core/serder.rs
index 75445f1..0eb969a 100644
--- a/src/cesr/core/serder.rs
+++ b/src/cesr/core/serder.rs
@@ -62,11 +62,8 @@ impl Serder {
 
         let label = Ids::k;
         if map.contains_key(label) {
-            let r = self.ked[label].to_vec();
-            if r.is_ok() {
-                for key in r? {
-                    result.push(Verfer::new(None, None, None, Some(&key.to_string()?), None)?);
-                }
+            for key in self.ked[label].to_vec()? {
+                result.push(Verfer::new(None, None, None, Some(&key.to_string()?), None)?);
             }
         }
 
@@ -78,12 +75,10 @@ impl Serder {
         let map = self.ked.to_map()?;
 
         let label = Ids::n;
-        if map.contains_key(label) {
-            let r = self.ked[label].to_vec();
-            if r.is_ok() {
-                for key in r? {
-                    result.push(Diger::new(None, None, None, None, Some(&key.to_string()?), None)?);
-                }
+        // events without next keys may have an empty string instead of an empty list
+        if map.contains_key(label) && self.ked[label] != dat!("") {
+            for key in self.ked[label].to_vec()? {
+                result.push(Diger::new(None, None, None, None, Some(&key.to_string()?), None)?);
             }
         }
 
-- 
2.43.0


From d6f8bfdd373228e7c0604e50671e98e2e874ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 35/38] fix: refuse a next-keys field of another type when
 verifying a non-transferable prefix

---
 src/prefexing/prefixer.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index 2835321..89c05dc 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -205,15 +205,8 @@ fn verify_nontransferable(ked: &Value, pre: &str, prefixed: bool) -> Result<bool
     }
 
     let label = Ids::n;
-    if map.contains_key(label) {
-        if ked[label].to_vec().is_ok() && !ked[label].to_vec()?.is_empty() {
-            return Ok(false);
-        }
-
-        // unsure if 'n' can be a single key. if it can't we can simplify all this
-        if ked[label].to_string().is_ok() && !ked[label].to_string()?.is_empty() {
-            return Ok(false);
-        }
+    if map.contains_key(label) && !is_empty(&ked[label])? {
+        return Ok(false);
     }
 
     Ok(true)
-- 
2.43.0


From 05c73951311b84dc747d9e98c32f30f26e056800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 36/38] fix: do not copy the whole binary, secret material
 included, to read its first sextets

---
 src/cesr/core/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index dd506c9..ccf979c 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -262,6 +262,8 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // the rest may be secret material, no copy of it is made
+    let binary = &binary[..n];
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
-- 
2.43.0


From 453f4c09c93dc580e688badf962bb3720e35ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 37/38] fix: convert between qualified text and its bytes
 without leaving a copy in released memory

---
 src/cesr/core/matter/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 8fffe6d..a99a082 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -129,10 +129,11 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        // read in place, a copy would leave secret material in released memory
+        let qb64 = std::str::from_utf8(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
@@ -150,7 +151,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
-- 
2.43.0


From f492edd9c9834a9d5c3300a3a6e2df9e514a7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 38/38] fix: sign, derive keys and stretch without leaving
 copies of the secret in released memory

---
 src/cesr/core/salter.rs | 2 +-
 src/signing/signer.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index dc5517b..9eccedb 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -93,7 +93,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &self.raw, size, tier)?;
 
         Ok(seed)
     }
diff --git a/src/signing/signer.rs b/src/signing/signer.rs
index 383b79b..576d4bb 100644
--- a/src/signing/signer.rs
+++ b/src/signing/signer.rs
@@ -151,7 +151,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code, &self.raw, ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +203,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code, &self.raw, ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +221,7 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        self.verfer = derive_verfer(&self.code, &self.raw, transferable)?;
         Ok(())
     }
 }
-- 
2.43.0

