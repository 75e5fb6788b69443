From 7ad34b329223ae6f21d4b2f987f628b6c22b751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:33 +0000
Subject: [PATCH 01/25] fix: bound-check BER header tag and length octets

---
 src/ber/header.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..7eacae8 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -69,9 +69,12 @@ impl BerHeader {
                 // > 30
                 let mut n = 0 as Tag;
                 loop {
-                    // @todo: check size
-                    let t = i[current];
+                    let t = *i.get(current).ok_or(Err::Incomplete(Needed::Unknown))?;
                     current += 1;
+                    if n > Tag::MAX >> 7 {
+                        // Tag number does not fit
+                        return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                    }
                     n = (n << 7) | ((t & 0x7f) as Tag);
                     if t & 0x80 == 0 {
                         break;
@@ -84,16 +87,21 @@ impl BerHeader {
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
         // @todo: Indefinite length
-        let n = i[current];
+        let n = *i.get(current).ok_or(Err::Incomplete(Needed::Unknown))?;
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
+            let mut ln = 0usize;
             for _ in 0..n & 0x7f {
-                ln = (ln << 8) + (i[current] as usize);
+                let x = *i.get(current).ok_or(Err::Incomplete(Needed::Unknown))?;
+                if ln > usize::MAX >> 8 {
+                    // Length does not fit
+                    return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                }
+                ln = (ln << 8) + (x as usize);
                 current += 1;
             }
             ln
-- 
2.43.0


From caccc044a6bf6d614aee74e62aaaad8e5096e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:58 +0000
Subject: [PATCH 02/25] fix: reject empty varbind instead of panicking

---
 src/snmp/getresponse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..5556193 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -46,7 +46,7 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
-            let (tail, oid) = match vs.0[0] as Tag {
+            let (tail, oid) = match *vs.0.first().ok_or(SnmpError::Incomplete)? as Tag {
                 TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
                 TAG_RELATIVE_OID => {
                     if vars.is_empty() {
-- 
2.43.0


From 274cbca49bc7a45c713391a6ee5d81b708678d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:59 +0000
Subject: [PATCH 03/25] fix: do not panic on malformed relative OID

---
 src/ber/relative_oid.rs | 29 +++++++++++++++++------------
 src/snmp/getresponse.rs |  3 +++
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..81169f1 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -24,30 +24,35 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 
 impl SnmpRelativeOid<'_> {
     /// Apply relative oid to absolute one
-    /// and return normalized absolute oid
+    /// and return normalized absolute oid.
+    /// The result is empty when no absolute oid may be formed.
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
         // Number of subelements
         let rel_si = SnmpRelativeOid::subelements(self.0);
         // Number of subelements in base. First octet holds 2 subidentifiers.
-        let base_si = SnmpRelativeOid::subelements(&oid.0[1..]) + 2;
+        let base_tail = oid.0.get(1..).unwrap_or_default();
+        let base_si = SnmpRelativeOid::subelements(base_tail) + 2;
         //
         if rel_si < base_si - 2 {
-            let offset = SnmpRelativeOid::find_subelement(&oid.0[1..], base_si - rel_si - 2)
-                .unwrap_or(0)
-                + 1;
+            let offset =
+                SnmpRelativeOid::find_subelement(base_tail, base_si - rel_si - 2).unwrap_or(0) + 1;
             let mut r = Vec::with_capacity(oid.0.len() + self.0.len());
             r.extend_from_slice(&oid.0[..offset]);
             r.extend_from_slice(self.0);
             SnmpOid::from(r)
         } else {
             // Replace fully
-            // First value is collapsed to one
-            let mut r = Vec::with_capacity(self.0.len() - 1);
-            // Collapse first two values into one octet
-            r.push(self.0[0] * 40 + self.0[1]);
-            // Push others
-            r.extend_from_slice(&self.0[2..]);
-            SnmpOid::from(r)
+            match *self.0 {
+                [first @ 0..=2, second @ 0..=39, ref rest @ ..] => {
+                    let mut r = Vec::with_capacity(self.0.len() - 1);
+                    // Collapse first two values into one octet
+                    r.push(first * 40 + second);
+                    // Push others
+                    r.extend_from_slice(rest);
+                    SnmpOid::from(r)
+                }
+                _ => SnmpOid::from(Vec::new()),
+            }
         }
     }
     // Calculate number of subelements
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 5556193..a83e789 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -56,6 +56,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
                     let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    if oid.0.is_empty() {
+                        return Err(SnmpError::InvalidData);
+                    }
                     // Apply relative oid
                     (t, oid)
                 }
-- 
2.43.0


From 83a9e28447f85a261e6eac4f950098225a873d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 04/25] fix: refuse encrypted replies with wrong salt size

---
 src/privacy/aes128.rs | 5 +++++
 src/privacy/des.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..7537883 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -17,6 +17,7 @@ use rand::Rng;
 
 const KEY_LENGTH: usize = 16;
 const BLOCK_SIZE: usize = 16;
+const SALT_SIZE: usize = 8;
 const PADDING: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
 
 type Aes128CfbEncryptor = Encryptor<Aes128>;
@@ -82,6 +83,10 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // Check salt size
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..1483291 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -90,6 +90,10 @@ impl SnmpPriv for DesKey {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // Check salt size
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 8];
         for (idx, (x, y)) in usm
-- 
2.43.0


From 7e07a4a74ab44f334b5dc7c1b486a73a5342a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:01 +0000
Subject: [PATCH 05/25] fix: stop getnext on noSuchObject and noSuchInstance

---
 src/snmp/op/getnext.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..8da8262 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -47,9 +47,10 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                         }
                         // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
-                            }
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
                             value => Ok(PyTuple::new(
                                 py,
                                 vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
-- 
2.43.0


From 7204a96b994be3170ceec0f9f9515677619ce6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:02 +0000
Subject: [PATCH 06/25] fix: report undecodable OID in get_many as
 SnmpDecodeError

---
 src/snmp/op/getmany.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snmp/op/getmany.rs b/src/snmp/op/getmany.rs
index a00dbe2..0bea60d 100644
--- a/src/snmp/op/getmany.rs
+++ b/src/snmp/op/getmany.rs
@@ -40,7 +40,7 @@ impl<'a> PyOp<'a, Vec<PyBackedStr>> for OpGetMany {
                         | SnmpValue::NoSuchInstance
                         | SnmpValue::EndOfMibView => continue,
                         _ => dict
-                            .set_item(&var.oid, &var.value)
+                            .set_item(var.oid.into_pyobject(py)?, var.value.into_pyobject(py)?)
                             .map_err(|e| PyRuntimeError::new_err(e.to_string()))?,
                     }
                 }
-- 
2.43.0


From a7d60527465c32dc413638bf46d2f0a7b8162876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 07/25] fix: decode REAL as X.690 8.5 prescribes, within its
 extent

---
 src/ber/real.rs   | 99 ++++++++++++++++++++++++++++++++---------------
 src/snmp/value.rs |  2 +-
 2 files changed, 69 insertions(+), 32 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..4fbe5d2 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -12,6 +12,12 @@ use pyo3::{Bound, IntoPyObject, PyAny, Python};
 
 pub struct SnmpReal(f64);
 
+// Limits for the binary exponent, well beyond the range of f64
+const MAX_EXPONENT: i64 = 1 << 32;
+const MAX_SCALE: i64 = 5000;
+// 2^SCALE_STEP and 2^-SCALE_STEP are exact
+const SCALE_STEP: i32 = 1000;
+
 impl<'a> BerDecoder<'a> for SnmpReal {
     const ALLOW_PRIMITIVE: bool = true;
     const ALLOW_CONSTRUCTED: bool = false;
@@ -25,6 +31,8 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        // Contents octets
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,18 +49,20 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
+                // 00, 01, 10 => 1, 2, 3 octets of exponent
+                // 11 => the second octet contains the number of exponent's octets
+                let (start, ln) = match f & 0x03 {
+                    3 => (2, *i.get(1).ok_or(SnmpError::InvalidData)? as usize),
+                    n => (1, n as usize + 1),
+                };
+                let exp_octets = i.get(start..start + ln).ok_or(SnmpError::InvalidData)?;
+                let exp = SnmpReal::parse_exponent(exp_octets)?;
+                // 8.5.7.5: The remaining contents octets encode the integer N
+                let (n, dropped) = SnmpReal::parse_mantissa(&i[start + ln..]);
                 // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
                 // encode the value of the binary scaling factor F
                 // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
-                }
+                let scale = ((f & 0x0c) >> 2) as i64;
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
                 // Bits6to5 => Base
@@ -60,13 +70,13 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_bits = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                let mut v = SnmpReal::scale(n as f64, exp * base_bits + scale + dropped);
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
                 if f & 0x40 == 0x40 {
@@ -84,21 +94,9 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    1..=3 => SnmpReal::parse_decimal(&i[1..])?,
                     _ => return Err(SnmpError::InvalidData),
                 }
             }
@@ -112,12 +110,51 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
+    // Parse two's complement exponent
+    fn parse_exponent(i: &[u8]) -> SnmpResult<i64> {
+        let first = *i.first().ok_or(SnmpError::InvalidData)?;
+        let mut v = if first & 0x80 == 0 { 0i64 } else { -1 };
+        for &n in i.iter() {
+            v = v.saturating_mul(256).saturating_add(n as i64);
+        }
+        Ok(v.clamp(-MAX_EXPONENT, MAX_EXPONENT))
+    }
+    // Parse unsigned mantissa.
+    // Returns up to 64 most significant bits and the number of dropped bits.
+    // The lowest bit is set when any of dropped bits is not zero
+    fn parse_mantissa(i: &[u8]) -> (u64, i64) {
+        let mut v = 0u64;
+        let mut dropped = 0;
         for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+            if v >> 56 == 0 {
+                v = (v << 8) | (n as u64);
+            } else {
+                dropped += 8;
+                if n != 0 {
+                    v |= 1;
+                }
+            }
         }
-        v
+        (v, dropped)
+    }
+    // Calculate v * 2^exp
+    fn scale(v: f64, exp: i64) -> f64 {
+        let mut v = v;
+        let mut left = exp.clamp(-MAX_SCALE, MAX_SCALE) as i32;
+        while left.abs() > SCALE_STEP {
+            let step = SCALE_STEP * left.signum();
+            v *= 2.0f64.powi(step);
+            left -= step;
+        }
+        v * 2.0f64.powi(left)
+    }
+    // Parse ISO 6093 number
+    fn parse_decimal(i: &[u8]) -> SnmpResult<f64> {
+        let s = from_utf8(i).map_err(|_| SnmpError::InvalidData)?;
+        s.trim_start_matches(' ')
+            .replace(',', ".")
+            .parse::<f64>()
+            .map_err(|_| SnmpError::InvalidData)
     }
 }
 
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..7aa730b 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -59,7 +59,7 @@ impl SnmpValue<'_> {
                     TAG_OBJECT_DESCRIPTOR => {
                         SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(tail, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
-- 
2.43.0


From c23db6b69d752b244b56fe61ee8297bbb733e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:49 +0000
Subject: [PATCH 08/25] fix: decode 8-octet INTEGER, refuse longer ones

---
 src/ber/int.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..e1d1def 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -23,22 +23,21 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
-        let v = i
-            .iter()
-            .take(h.length)
-            .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+        if h.length > MAX_OCTETS {
+            // Does not fit i64
+            return Err(SnmpError::InvalidData);
+        }
+        // Start from the sign bit
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
+        Ok(SnmpInt(
+            i.iter()
+                .take(h.length)
+                .fold(sign, |acc, x| (acc << 8) | (*x as i64)),
+        ))
     }
 }
 
+const MAX_OCTETS: usize = 8;
 const ZERO_BER: [u8; 3] = [TAG_INT, 1, 0];
 
 impl BerEncoder for SnmpInt {
-- 
2.43.0


From 8f32d889b034df6fb2869573d161e639f2234331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:50 +0000
Subject: [PATCH 09/25] fix: encode negative INTEGER as minimal two's
 complement

---
 src/ber/int.rs | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index e1d1def..4300540 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -65,33 +65,14 @@ impl BerEncoder for SnmpInt {
             }
             Ordering::Less => {
                 let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
-                    left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
+                // Write two's complement octets until only the sign is left
+                let mut left = self.0;
+                loop {
+                    buf.push_u8((left & 0xff) as u8)?;
+                    if left >> 7 == -1 {
+                        break;
                     }
+                    left >>= 8;
                 }
                 // Write tag and length
                 buf.push_tag_len(TAG_INT, buf.len() - start)
-- 
2.43.0


From 11a52ab50b17e4a78e3d9c5f3d7ff429948ddae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:51 +0000
Subject: [PATCH 10/25] fix: do not truncate version and security model to
 octet

---
 src/ber/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index 4300540..06d2546 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -89,7 +89,8 @@ impl From<i64> for SnmpInt {
 
 impl From<SnmpInt> for u8 {
     fn from(value: SnmpInt) -> Self {
-        value.0 as u8
+        // Values out of the range must not alias with the valid ones
+        u8::try_from(value.0).unwrap_or(u8::MAX)
     }
 }
 
-- 
2.43.0


From 795a446ce832a1e3f487a2a03c9cb74853c089f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:08 +0000
Subject: [PATCH 11/25] fix: refuse invalid OID text instead of sending another
 OID

---
 src/ber/objectid.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..9d1b6d0 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -104,9 +104,13 @@ impl Iterator for OidSubelementIterator<'_> {
     type Item = Result<u32, SnmpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0
-            .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+        self.0.next().map(|part| match part.as_bytes().first() {
+            // Must not accept leading sign
+            Some(c) if c.is_ascii_digit() => {
+                part.parse::<u32>().map_err(|_| SnmpError::InvalidData)
+            }
+            _ => Err(SnmpError::InvalidData),
+        })
     }
 }
 
@@ -123,9 +127,12 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > 2 || second > 39 {
+            return Err(SnmpError::InvalidData);
+        }
+        vec.push((40 * first + second) as u8);
         // Push other elements
         for sr in iter {
             let sub_id = sr?;
-- 
2.43.0


From 6b243a9dee33c5fc52f3c5cd8e41e4a73a7f51e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 12/25] fix: render OID with multi-octet first subidentifier

---
 src/ber/objectid.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 9d1b6d0..46ed402 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -68,17 +68,14 @@ impl TryFrom<&SnmpOid<'_>> for String {
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
+        let mut iter = value.subelements();
         // First two subelements
         let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
-        let mut b = 0u32;
-        for c in iter {
-            b = (b << 7) + ((*c as u32) & 0x7f);
-            if c & 0x80 == 0 {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
-                b = 0;
-            }
+        // X.690 pp 8.19.4: up to 39 for 0 and 1, not limited for 2
+        let root = (first / 40).min(2);
+        write!(r, "{}.{}", root, first - root * 40).map_err(|_| SnmpError::InvalidData)?;
+        for b in iter {
+            write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
         }
         Ok(r)
     }
@@ -90,6 +87,18 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Iterate over decoded subelements.
+    // First two ones are collapsed together
+    fn subelements(&self) -> impl Iterator<Item = u32> + '_ {
+        let mut b = 0u32;
+        self.0.iter().filter_map(move |c| {
+            b = (b << 7) + ((*c as u32) & 0x7f);
+            if c & 0x80 == 0 {
+                return Some(std::mem::take(&mut b));
+            }
+            None
+        })
+    }
 }
 
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
-- 
2.43.0


From 70e41947e1057deedbe13944b0163ce8cdeab39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:29 +0000
Subject: [PATCH 13/25] fix: stop a walk when the agent returns non-increasing
 OID

---
 src/ber/objectid.rs    | 5 +++++
 src/snmp/op/getiter.rs | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 46ed402..976011e 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -87,6 +87,11 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid is lexicographically after other one,
+    // comparing arc by arc
+    pub fn is_after(&self, other: &SnmpOid) -> bool {
+        self.subelements().gt(other.subelements())
+    }
     // Iterate over decoded subelements.
     // First two ones are collapsed together
     fn subelements(&self) -> impl Iterator<Item = u32> + '_ {
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..ae237fe 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -37,7 +37,11 @@ impl GetIter {
     // Save oid for next request.
     // Return true if next request may be send or return false otherwise
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        // Oid must be within the subtree and must follow the last accepted one.
+        // Otherwise the broken agent may lead us to the infinite loop.
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From cd86676d81bce5e8b92c94a48d9fca7e1e43d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:31 +0000
Subject: [PATCH 14/25] fix: refuse empty password and key material of wrong
 size

---
 src/auth/mod.rs | 6 +++---
 src/util.rs     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..bc5814b 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -76,9 +76,9 @@ impl AuthKey {
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
             match alg & KT_TYPE_MASK {
-                KT_PASSWORD => self.as_password(key, engine_id),
-                KT_MASTER => self.as_master(key, engine_id),
-                KT_LOCALIZED => self.as_localized(key),
+                KT_PASSWORD if !key.is_empty() => self.as_password(key, engine_id),
+                KT_MASTER if key.len() == self.get_key_size() => self.as_master(key, engine_id),
+                KT_LOCALIZED if key.len() == self.get_key_size() => self.as_localized(key),
                 _ => return Err(SnmpError::InvalidKey),
             }
         }
diff --git a/src/util.rs b/src/util.rs
index c02d500..819f788 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,9 @@ use pyo3::types::PyBytes;
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
     let auth = AuthKey::new(alg)?;
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
     Ok(PyBytes::new(py, &out).into())
-- 
2.43.0


From 234beb7d37183536ee6ef0d43aa5939e4d4efc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 15/25] fix: reset DES buffer before serialization

---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index 1483291..8f68120 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From bd497ce427a985bde97995c48e33a5afe2e8cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:58 +0000
Subject: [PATCH 16/25] fix: skip Report PDU in v1 and v2c sessions

---
 src/socket/v1.rs  | 6 +++++-
 src/socket/v2c.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..202ef33 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -135,8 +135,12 @@ impl SnmpSocket for SnmpV1ClientSocket {
         if msg.community != self.community.as_bytes() {
             return None;
         }
-        // Check request id
+        // Reports are defined for SNMPv3 only, and never match the request
         let pdu = msg.pdu;
+        if matches!(pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
+        // Check request id
         if !pdu.check(&self.request_id) {
             return None;
         }
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..ea61b21 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -134,8 +134,12 @@ impl SnmpSocket for SnmpV2cClientSocket {
         if msg.community != self.community.as_bytes() {
             return None;
         }
-        // Check request id
+        // Reports are defined for SNMPv3 only, and never match the request
         let pdu = msg.pdu;
+        if matches!(pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
+        // Check request id
         if !pdu.check(&self.request_id) {
             return None;
         }
-- 
2.43.0


From 1db683a5b6aab5cda050d5e7f430b6ae5b6f36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:10 +0000
Subject: [PATCH 17/25] fix: verify MAC and security level of incoming SNMPv3
 messages

---
 src/socket/snmpsocket.rs |  9 +++++----
 src/socket/v1.rs         |  2 +-
 src/socket/v2c.rs        |  2 +-
 src/socket/v3.rs         | 33 +++++++++++++++++++++++++++++++--
 4 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..f4751e2 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -97,7 +97,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // Check message and extract PDU. `data` is the whole datagram.
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &[u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -133,13 +134,13 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let (msg, data) = {
                 let io = self.get_io();
                 let data = Self::recv_socket(io, buf)?;
                 // Decode message
-                Self::Message::try_from(data)?
+                (Self::Message::try_from(data)?, data)
             };
-            match self.unwrap_pdu(msg) {
+            match self.unwrap_pdu(msg, data) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 202ef33..507f0ae 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -130,7 +130,7 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _data: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index ea61b21..1f9bcb9 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -129,7 +129,7 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _data: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..f6f174a 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -244,10 +244,23 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &[u8]) -> Option<SnmpPdu<'a>> {
+        // RFC-3414, pp. 3.2: Check message has at least our security level.
+        // Only reports may be accepted without the authentication.
+        let secure = !self.auth_key.has_auth()
+            || ((msg.flag_priv || !self.priv_key.has_priv())
+                && msg.flag_auth
+                && self.is_authentic(&msg.usm, data));
         // Get and decode scoped pdu
         let data = match msg.data {
-            MsgData::Plaintext(x) => x,
+            MsgData::Plaintext(x) => {
+                let is_report = matches!(x.pdu, SnmpPdu::Report(_));
+                if !is_report && (!secure || self.priv_key.has_priv()) {
+                    return None; // Insufficient security level
+                }
+                x
+            }
+            MsgData::Encrypted(_) if !secure => return None,
             MsgData::Encrypted(x) => match self.priv_key.decrypt(x, &msg.usm) {
                 Ok(x) => x,
                 Err(_) => return None, // Failed to decrypt
@@ -271,3 +284,19 @@ impl SnmpSocket for SnmpV3ClientSocket {
         Some(data.pdu)
     }
 }
+
+impl SnmpV3ClientSocket {
+    // RFC-3414, pp 6.3.2, 7.3.2: Check the digest of incoming message
+    fn is_authentic(&self, usm: &UsmParameters, data: &[u8]) -> bool {
+        let placeholder = self.auth_key.placeholder();
+        if usm.auth_params.len() != placeholder.len() {
+            return false;
+        }
+        // Auth params are the slice of data
+        let offset = usm.auth_params.as_ptr() as usize - data.as_ptr() as usize;
+        let mut whole_msg = data.to_vec();
+        whole_msg[offset..offset + placeholder.len()].copy_from_slice(placeholder);
+        self.auth_key.sign(&mut whole_msg, offset).is_ok()
+            && whole_msg[offset..offset + placeholder.len()] == *usm.auth_params
+    }
+}
-- 
2.43.0


From 5257a867d734fab4149a87dd90c136ee5a66f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:43 +0000
Subject: [PATCH 18/25] fix: skipped datagrams must not extend request timeout

---
 src/socket/snmpsocket.rs | 41 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f4751e2..6d548eb 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,10 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Minimal non-zero socket timeout
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
 
 pub(crate) trait SnmpSocket
 where
@@ -48,7 +51,7 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         if timeout_ns > 0 {
             // Blocking mode
-            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns)))
+            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns).max(MIN_TIMEOUT)))
                 .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         } else {
             // Mark socket as non-blocking
@@ -124,6 +127,30 @@ where
     }
 
     fn _recv_inner<'a, T, V>(&mut self, iter: Option<&mut GetIter>) -> PyResult<PyObject>
+    where
+        T: PyOp<'a, V>,
+        V: 'a,
+    {
+        // None in non-blocking mode
+        let timeout = self
+            .get_io()
+            .read_timeout()
+            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        let r = self._recv_until::<T, V>(iter, timeout.map(|t| Instant::now() + t));
+        // Timeout may be shortened while skipping unwanted replies
+        if timeout.is_some() {
+            self.get_io()
+                .set_read_timeout(timeout)
+                .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        }
+        r
+    }
+
+    fn _recv_until<'a, T, V>(
+        &mut self,
+        iter: Option<&mut GetIter>,
+        deadline: Option<Instant>,
+    ) -> PyResult<PyObject>
     where
         T: PyOp<'a, V>,
         V: 'a,
@@ -146,6 +173,16 @@ where
                 }
                 None => {
                     buf.reset();
+                    if let Some(deadline) = deadline {
+                        // Wait no longer than the rest of the timeout
+                        let left = deadline.saturating_duration_since(Instant::now());
+                        if left < MIN_TIMEOUT {
+                            return Err(SnmpError::WouldBlock.into());
+                        }
+                        self.get_io()
+                            .set_read_timeout(Some(left))
+                            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                    }
                     continue;
                 }
             }
-- 
2.43.0


From e342bc7322b317f98951b19c0a3b19055d9c0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:43 +0000
Subject: [PATCH 19/25] fix: apply policer and TimeoutError to sync refresh()

---
 src/gufo/snmp/sync_client/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..4adc160 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,16 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send single refresh request and await for response."""
+        if self._policer:
+            self._policer.wait_sync()
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
-- 
2.43.0


From 8262d6139f96b260de5008040b2ff5e0e0278854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:43 +0000
Subject: [PATCH 20/25] fix: round the policer interval up, not to exceed rps

---
 src/gufo/snmp/policer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/policer.py b/src/gufo/snmp/policer.py
index ddf1bc2..bd1657e 100644
--- a/src/gufo/snmp/policer.py
+++ b/src/gufo/snmp/policer.py
@@ -10,6 +10,7 @@
 # Python modules
 import asyncio
 from abc import ABC, abstractmethod
+from math import ceil
 from time import perf_counter_ns, sleep
 from typing import Optional
 
@@ -92,8 +93,9 @@ class RPSPolicer(BasePolicer):
             msg = "Invalid RPS"
             raise ValueError(msg)
         self._prev: Optional[int] = None
-        self._delta: int = int(NS / rps)
-        if not self._delta:
+        # Round up, as the shorter interval exceeds the rate
+        self._delta: int = ceil(NS / rps)
+        if rps > NS:
             msg = "RPS is too high"
             raise ValueError(msg)
 
-- 
2.43.0


From fbe1b50419b37aa361d697a358baec8ba75acabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:44 +0000
Subject: [PATCH 21/25] fix: keep Buffer.skip and Buffer.as_slice within
 written bytes

---
 src/buf/buffer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 8897c01..6157115 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -84,11 +84,10 @@ impl Buffer {
     }
     #[inline]
     pub fn skip(&mut self, size: usize) {
-        if self.pos < size {
-            self.pos = 0
-        } else {
-            self.pos -= size
-        }
+        let start = self.pos.saturating_sub(size);
+        // Skipped bytes become visible, so must be initialized
+        self.data[start..self.pos].fill(MaybeUninit::new(0));
+        self.pos = start;
     }
     #[inline]
     fn push_u8_unchecked(&mut self, v: u8) {
@@ -158,7 +157,7 @@ impl Buffer {
         self.pos = MAX_SIZE;
     }
     pub fn as_slice(&self, len: usize) -> &[u8] {
-        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len) }
+        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len.min(MAX_SIZE)) }
     }
 }
 
-- 
2.43.0


From 3a6c41442cb5e7737fcbd6ae26d7c428d795b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 22/25] fix: do not send requests in clear before engine id
 discovery

---
 src/gufo/snmp/async_client/client.py | 19 +++++++++++++++++++
 src/gufo/snmp/sync_client/client.py  | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/gufo/snmp/async_client/client.py b/src/gufo/snmp/async_client/client.py
index 65912ca..6c4194a 100755
--- a/src/gufo/snmp/async_client/client.py
+++ b/src/gufo/snmp/async_client/client.py
@@ -26,6 +26,7 @@ from typing import (
 
 # Gufo Labs modules
 from .._fast import (
+    SnmpAuthError,
     GetIter,
     SnmpV1ClientSocket,
     SnmpV2cClientSocket,
@@ -234,6 +235,20 @@ class SnmpSession(object):
         except AIOTimeoutError as e:
             raise TimeoutError from e  # Remap the error
 
+    def _check_ready(self: "SnmpSession") -> None:
+        """
+        Check the session can send the user requests.
+
+        Until the engine id is discovered there are no keys,
+        and the request would be exposed as plain text.
+
+        Raises:
+            SnmpAuthError: When engine id is not discovered yet.
+        """
+        if self._deferred_user:
+            msg = "engine id is not discovered, call refresh() first"
+            raise SnmpAuthError(msg)
+
     async def get(self: "SnmpSession", oid: str) -> ValueType:
         """
         Send SNMP GET request and await for response.
@@ -251,6 +266,7 @@ class SnmpSession(object):
             NoSuchInstance: When requested key is not found.
             SnmpError: On other SNMP-related errors.
         """
+        self._check_ready()
 
         def sender() -> None:
             self._sock.send_get(oid)
@@ -282,6 +298,7 @@ class SnmpSession(object):
             RuntimeError: On Python runtime failure.
             SnmpError: On other SNMP-related errors.
         """
+        self._check_ready()
 
         def sender() -> None:
             self._sock.send_get_many(list(oids))
@@ -307,6 +324,7 @@ class SnmpSession(object):
                 print(oid, value)
             ```
         """
+        self._check_ready()
         return GetNextIter(self, oid)
 
     def getbulk(
@@ -329,6 +347,7 @@ class SnmpSession(object):
                 print(oid, value)
             ```
         """
+        self._check_ready()
         return GetBulkIter(
             self,
             oid,
diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index 4adc160..518240b 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -13,6 +13,7 @@ from typing import Dict, Iterable, Iterator, Optional, Tuple, Type, Union
 
 # Gufo Labs modules
 from .._fast import (
+    SnmpAuthError,
     SnmpV1ClientSocket,
     SnmpV2cClientSocket,
     SnmpV3ClientSocket,
@@ -165,6 +166,20 @@ class SnmpSession(object):
     ) -> None:
         """Asynchronous context manager exit."""
 
+    def _check_ready(self: "SnmpSession") -> None:
+        """
+        Check the session can send the user requests.
+
+        Until the engine id is discovered there are no keys,
+        and the request would be exposed as plain text.
+
+        Raises:
+            SnmpAuthError: When engine id is not discovered yet.
+        """
+        if self._deferred_user:
+            msg = "engine id is not discovered, call refresh() first"
+            raise SnmpAuthError(msg)
+
     def get(self: "SnmpSession", oid: str) -> ValueType:
         """
         Send SNMP GET request and await for response.
@@ -182,6 +197,7 @@ class SnmpSession(object):
             NoSuchInstance: When requested key is not found.
             SnmpError: On other SNMP-related errors.
         """
+        self._check_ready()
         if self._policer:
             self._policer.wait_sync()
         try:
@@ -213,6 +229,7 @@ class SnmpSession(object):
             RuntimeError: On Python runtime failure.
             SnmpError: On other SNMP-related errors.
         """
+        self._check_ready()
         if self._policer:
             self._policer.wait_sync()
         try:
@@ -238,6 +255,7 @@ class SnmpSession(object):
                 print(oid, value)
             ```
         """
+        self._check_ready()
         return GetNextIter(self._sock, oid, self._policer)
 
     def getbulk(
@@ -260,6 +278,7 @@ class SnmpSession(object):
                 print(oid, value)
             ```
         """
+        self._check_ready()
         return GetBulkIter(
             self._sock,
             oid,
-- 
2.43.0


From e9d0980ba32c9cf7fcc6600d6ddc58c684b7ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 23/25] fix: return to the event loop after skipping an
 unwanted reply

---
 src/socket/snmpsocket.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 6d548eb..11a1642 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -173,16 +173,19 @@ where
                 }
                 None => {
                     buf.reset();
-                    if let Some(deadline) = deadline {
-                        // Wait no longer than the rest of the timeout
-                        let left = deadline.saturating_duration_since(Instant::now());
-                        if left < MIN_TIMEOUT {
-                            return Err(SnmpError::WouldBlock.into());
-                        }
-                        self.get_io()
-                            .set_read_timeout(Some(left))
-                            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                    let Some(deadline) = deadline else {
+                        // Non-blocking mode. Return to the caller, as endless stream
+                        // of unwanted replies must not outrun its timeout
+                        return Err(SnmpError::WouldBlock.into());
+                    };
+                    // Wait no longer than the rest of the timeout
+                    let left = deadline.saturating_duration_since(Instant::now());
+                    if left < MIN_TIMEOUT {
+                        return Err(SnmpError::WouldBlock.into());
                     }
+                    self.get_io()
+                        .set_read_timeout(Some(left))
+                        .map_err(|e| SnmpError::SocketError(e.to_string()))?;
                     continue;
                 }
             }
-- 
2.43.0


From 74bb838b6c079d6bfa76fb188b472318e812c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 24/25] fix: resume waiting for a reply after an interrupting
 signal

---
 src/error.rs             |  7 ++++--
 src/socket/snmpsocket.rs | 49 ++++++++++++++++++++--------------------
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6a57330..c802245 100755
--- a/src/error.rs
+++ b/src/error.rs
@@ -8,8 +8,8 @@
 use pyo3::{
     PyErr, create_exception,
     exceptions::{
-        PyBlockingIOError, PyException, PyNotImplementedError, PyOSError, PyTimeoutError,
-        PyValueError,
+        PyBlockingIOError, PyException, PyInterruptedError, PyNotImplementedError, PyOSError,
+        PyTimeoutError, PyValueError,
     },
 };
 use std::convert::Infallible;
@@ -48,6 +48,8 @@ pub enum SnmpError {
     SocketError(String),
     /// Blocking operation
     WouldBlock,
+    /// Interrupted by signal
+    Interrupted,
     /// Connection refused
     ConnectionRefused,
     /// Unknown Security Model
@@ -122,6 +124,7 @@ impl From<SnmpError> for PyErr {
             SnmpError::NotImplemented => PyNotImplementedError::new_err("not implemented"),
             SnmpError::NoSuchInstance => PyNoSuchInstance::new_err("no such instance"),
             SnmpError::WouldBlock => PyBlockingIOError::new_err("blocked"),
+            SnmpError::Interrupted => PyInterruptedError::new_err("interrupted"),
             SnmpError::SocketError(x) => PyOSError::new_err(x),
             SnmpError::ConnectionRefused => PyTimeoutError::new_err("connection refused"),
             SnmpError::UnknownSecurityModel => PySnmpDecodeError::new_err("unknown security model"),
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 11a1642..fe5093a 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -107,6 +107,7 @@ where
         match io.recv(buf.as_mut()) {
             Ok(s) => Ok(buf.as_slice(s)),
             Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Err(SnmpError::WouldBlock),
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Err(SnmpError::Interrupted),
             Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
                 Err(SnmpError::ConnectionRefused)
             }
@@ -161,34 +162,32 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let (msg, data) = {
-                let io = self.get_io();
-                let data = Self::recv_socket(io, buf)?;
-                // Decode message
-                (Self::Message::try_from(data)?, data)
-            };
-            match self.unwrap_pdu(msg, data) {
-                Some(ref pdu) => {
-                    return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
-                }
-                None => {
-                    buf.reset();
-                    let Some(deadline) = deadline else {
-                        // Non-blocking mode. Return to the caller, as endless stream
-                        // of unwanted replies must not outrun its timeout
-                        return Err(SnmpError::WouldBlock.into());
-                    };
-                    // Wait no longer than the rest of the timeout
-                    let left = deadline.saturating_duration_since(Instant::now());
-                    if left < MIN_TIMEOUT {
-                        return Err(SnmpError::WouldBlock.into());
+            match Self::recv_socket(self.get_io(), buf) {
+                // Run signal handlers, which may raise, then resume waiting
+                Err(SnmpError::Interrupted) => Python::with_gil(|py| py.check_signals())?,
+                r => {
+                    let data = r?;
+                    // Decode message
+                    let msg = Self::Message::try_from(data)?;
+                    if let Some(ref pdu) = self.unwrap_pdu(msg, data) {
+                        return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                     }
-                    self.get_io()
-                        .set_read_timeout(Some(left))
-                        .map_err(|e| SnmpError::SocketError(e.to_string()))?;
-                    continue;
+                    buf.reset();
                 }
             }
+            let Some(deadline) = deadline else {
+                // Non-blocking mode. Return to the caller, as endless stream
+                // of unwanted replies must not outrun its timeout
+                return Err(SnmpError::WouldBlock.into());
+            };
+            // Wait no longer than the rest of the timeout
+            let left = deadline.saturating_duration_since(Instant::now());
+            if left < MIN_TIMEOUT {
+                return Err(SnmpError::WouldBlock.into());
+            }
+            self.get_io()
+                .set_read_timeout(Some(left))
+                .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         }
     }
 
-- 
2.43.0


From 5f864a8456b4df2f7d973a9294a3fd944223341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 25/25] fix: do not resize the privacy key shared between the
 users

---
 src/gufo/snmp/user.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gufo/snmp/user.py b/src/gufo/snmp/user.py
index 8ad45ba..8050979 100644
--- a/src/gufo/snmp/user.py
+++ b/src/gufo/snmp/user.py
@@ -7,6 +7,7 @@
 """User structure definition."""
 
 # Python modules
+from copy import copy
 from enum import IntEnum
 from typing import List, Optional, Type, TypeVar
 
@@ -241,6 +242,8 @@ class User(object):
             and self.auth_key
             and self.priv_key.key_type._is_aligned
         ):
+            # Key may be shared with the other users
+            self.priv_key = copy(self.priv_key)
             self.priv_key._pad(self.auth_key.KEY_LENGTH)
 
     @classmethod
-- 
2.43.0

