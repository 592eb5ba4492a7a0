From 0bd59d1ef5fbd991e3205f7f9e9db7bc02161251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 1/3] fix: execute_with_limit polls the interrupt line once
 when leaving HALT and never asserts

While halted, an interrupt found by is_irq was polled for a second time
before being acknowledged; when the second poll disagreed, execution resumed
with the HALT state still set. The debug assertions were reachable through
the public interface (enable_interrupts() or a pending prefix, then halt()).
---
 src/z80.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..27706a3 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -490,15 +490,15 @@ impl<Q: Flavour> Cpu for Z80<Q> {
     {
         const DEBUG: Option<CpuDebugFn> = None;
 
+        let mut irq_requested = false;
         if self.halt {
-            debug_assert_eq!(self.prefix, None);
-            debug_assert!(!self.last_ei);
             let pc = self.pc.get16();
             loop {
                 if tsc.is_past_limit(vc_limit) {
                     return Ok(());
                 }
-                if self.iff1 && control.is_irq(tsc.as_timestamp()) {
+                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
+                    irq_requested = true;
                     break
                 }
                 tsc.add_m1(pc);
@@ -512,7 +512,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         if self.last_ei {
             self.last_ei = false;
         }
-        else if is_int_allowed(self.prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
+        else if irq_requested || self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
             self.irq_no_check::<M,T,_>(control, tsc, DEBUG)?;
 
             if tsc.is_past_limit(vc_limit) {
-- 
2.43.0


From ee3d0faf10bee1fffb8723c227b9534edf3c893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 2/3] fix: EI run as the interrupt mode 0 vector defers
 interrupts for one instruction only in execute_with_limit

last_ei stayed set for all the instructions that followed until the limit,
so is_after_ei() and the next poll were wrong.
---
 src/z80.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 27706a3..f1e5640 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -518,6 +518,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             if tsc.is_past_limit(vc_limit) {
                 return Ok(());
             }
+            self.last_ei = false; // EI may have been executed via the interrupt mode 0
         }
 
         // let mut prefix = self.prefix;
@@ -560,6 +561,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
                         if tsc.is_past_limit(vc_limit) {
                             return Ok(());
                         }
+                        self.last_ei = false; // EI may have been executed via the interrupt mode 0
                         continue;
                     }
                     Err(cause) => return Err(cause)
-- 
2.43.0


From b59c16bc6c59b3280f27591312cb429e801dd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 3/3] fix: build with the serde feature but without the
 standard library

---
 src/cpu/registers.rs | 10 +++---
 src/z80/serde.rs     | 72 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/src/cpu/registers.rs b/src/cpu/registers.rs
index 288ec58..ca2e539 100644
--- a/src/cpu/registers.rs
+++ b/src/cpu/registers.rs
@@ -8,7 +8,7 @@
 #![allow(dead_code)]
 #[cfg(feature = "serde")] use serde::{Serialize, Deserialize, Serializer, de::{
                                             self, Deserializer, Visitor, SeqAccess}};
-#[cfg(feature = "serde")] use std::fmt;
+#[cfg(feature = "serde")] use core::fmt;
 
 /// An enum of the maskable interrupt modes.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -232,18 +232,18 @@ impl<'de> Visitor<'de> for RegisterPairVisitor {
     }
 
     fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
-        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::i16::MAX) {
+        if value >= i64::from(i16::MIN) && value <= i64::from(i16::MAX) {
             Ok(RegisterPair::from(value as i16))
         } else {
-            Err(E::custom(format!("RegisterPair out of range: {}", value)))
+            Err(E::custom(format_args!("RegisterPair out of range: {}", value)))
         }
     }
 
     fn visit_u64<E: de::Error>(self, value: u64) -> Result<Self::Value, E> {
-        if value <= u64::from(std::u16::MAX) {
+        if value <= u64::from(u16::MAX) {
             Ok(RegisterPair::from(value as u16))
         } else {
-            Err(E::custom(format!("RegisterPair out of range: {}", value)))
+            Err(E::custom(format_args!("RegisterPair out of range: {}", value)))
         }
     }
 
diff --git a/src/z80/serde.rs b/src/z80/serde.rs
index 02281e2..689f86c 100644
--- a/src/z80/serde.rs
+++ b/src/z80/serde.rs
@@ -4,14 +4,13 @@
 
     For the full copyright notice, see the lib.rs file.
 */
-use std::borrow::Cow;
 use core::marker::PhantomData;
 use core::fmt;
 use core::num::Wrapping;
 use ::serde::{
     Serialize, Deserialize,
     ser::{Serializer, SerializeStruct},
-    de::{self, Deserializer, Visitor, SeqAccess, MapAccess}
+    de::{self, Deserializer, DeserializeSeed, Visitor, SeqAccess, MapAccess}
 };
 use crate::RegisterPair;
 use super::{Z80, NMOS, CMOS, BM1, Flavour, any::Z80Any};
@@ -119,12 +118,9 @@ impl<'de, Q> Deserialize<'de> for Z80<Q>
                     visit_seq(self, seq, 0)
                 }
                 else {
-                    let variant: Cow<str> = seq.next_element()?
-                                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                    match &*variant {
-                        "NMOS"|"CMOS"|"BM1" => visit_seq(self, seq, 1),
-                        _ => Err(de::Error::unknown_variant(&variant, &["NMOS", "CMOS", "BM1"]))
-                    }
+                    seq.next_element_seed(VariantSeed { any: false })?
+                       .ok_or_else(|| de::Error::invalid_length(0, &self))?;
+                    visit_seq(self, seq, 1)
                 }
             }
 
@@ -154,13 +150,13 @@ impl<'de> Deserialize<'de> for Z80Any {
                     visit_seq(self, seq, 0).map(Z80Any::NMOS)
                 }
                 else {
-                    let variant: Cow<str> = seq.next_element()?
+                    let variant = seq.next_element_seed(VariantSeed { any: false })?
                                      .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                    match &*variant {
+                    match variant {
                         "NMOS" => visit_seq(self, seq, 1).map(Z80Any::NMOS),
                         "CMOS" => visit_seq(self, seq, 1).map(Z80Any::CMOS),
                         "BM1"  => visit_seq(self, seq, 1).map(Z80Any::BM1),
-                        _ => Err(de::Error::unknown_variant(&variant, &["NMOS", "CMOS", "BM1"]))
+                        _ => Err(de::Error::unknown_variant(variant, VARIANTS))
                     }
                 }
             }
@@ -229,12 +225,51 @@ macro_rules! check_dup_assign {
     };
 }
 
-const DEFAULT_VARIANT: Cow<'_, str> = Cow::Borrowed("NMOS");
+const VARIANTS: &[&str] = &["NMOS", "CMOS", "BM1"];
+
+/// Deserializes the variant name, without requiring an allocator.
+/// An unknown name is accepted as the default one only if `any` is `true`.
+struct VariantSeed {
+    any: bool
+}
+
+impl<'de> DeserializeSeed<'de> for VariantSeed {
+    type Value = &'static str;
+
+    fn deserialize<D: Deserializer<'de>>(self, deserializer: D) -> Result<Self::Value, D::Error> {
+        deserializer.deserialize_str(self)
+    }
+}
+
+impl<'de> Visitor<'de> for VariantSeed {
+    type Value = &'static str;
+
+    fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
+        formatter.write_str("a string")
+    }
+
+    fn visit_str<E: de::Error>(self, value: &str) -> Result<Self::Value, E> {
+        match VARIANTS.iter().find(|&&name| name == value) {
+            Some(name) => Ok(name),
+            None if self.any => Ok(DEFAULT_VARIANT),
+            None => Err(E::unknown_variant(value, VARIANTS))
+        }
+    }
+
+    fn visit_bytes<E: de::Error>(self, value: &[u8]) -> Result<Self::Value, E> {
+        match core::str::from_utf8(value) {
+            Ok(name) => self.visit_str(name),
+            Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(value), &self))
+        }
+    }
+}
+
+const DEFAULT_VARIANT: &str = "NMOS";
 
 fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any, A::Error>
     where A: MapAccess<'de>
 {
-    let mut variant: Option<Cow<str>> = None;
+    let mut variant = None;
     let mut af       = None;
     let mut af_alt   = None;
     let mut regs     = None;
@@ -255,7 +290,12 @@ fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any,
 
     while let Some(key) = map.next_key()? {
         match key {
-            Z80Field::Type    => check_dup_assign!(variant  = map["type"]),
+            Z80Field::Type    => {
+                if variant.is_some() {
+                    return Err(de::Error::duplicate_field("type"));
+                }
+                variant = Some(map.next_value_seed(VariantSeed { any: force_variant.is_some() })?);
+            }
             Z80Field::Af      => check_dup_assign!(af       = map["af"]),
             Z80Field::AfAlt   => check_dup_assign!(af_alt   = map["afAlt"]),
             Z80Field::Regs    => check_dup_assign!(regs     = map["regs"]),
@@ -292,7 +332,7 @@ fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any,
     let prefix   = prefix.ok_or_else(||     de::Error::missing_field("prefix"))?;
     let r        = r.unwrap_or_else(|| Wrapping(ir.get8lo()));
 
-    match &*force_variant.map(Cow::Borrowed).unwrap_or_else(|| variant.unwrap_or(DEFAULT_VARIANT)) {
+    match force_variant.unwrap_or_else(|| variant.unwrap_or(DEFAULT_VARIANT)) {
         "NMOS" => Ok(Z80Any::NMOS(Z80 {
             af,
             af_alt,
@@ -350,7 +390,7 @@ fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any,
             r,
             flavour: flavour.map(BM1::from).unwrap_or_default()
         })),
-        v => Err(de::Error::unknown_variant(v, &["NMOS", "CMOS", "BM1"]))
+        v => Err(de::Error::unknown_variant(v, VARIANTS))
     }
 }
 
-- 
2.43.0

