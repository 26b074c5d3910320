From 4f490fee2b84b7f9fc81788a48655fffd1f57b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 01/17] verif: guarded view of profiles and record converters
 (cfg lcms2_verif)

---
 src/types.rs         | 23 ++++++++++++++++++
 src/types/profile.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index adc2bf3..ff35af7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -39,3 +39,26 @@ pub mod signatures;
 
 pub const MAX_TABLE_TAG: usize = 100;
 pub const MAX_CHANNELS: usize = 16;
+
+/// Access to the private record converters, for the verification harness only.
+#[cfg(lcms2_verif)]
+pub mod verif {
+    use super::{
+        icc_header::ICCHeaderConverter, tag_entry::TagEntryConverter, ICCHeader, TagEntry,
+    };
+
+    pub use super::profile::ProfileView;
+
+    pub fn header_from_bytes(bytes: [u8; 128]) -> ICCHeader {
+        ICCHeaderConverter::from_bytes(bytes)
+    }
+    pub fn header_to_bytes(value: ICCHeader) -> [u8; 128] {
+        ICCHeaderConverter::to_bytes(value)
+    }
+    pub fn tag_entry_from_bytes(bytes: [u8; 12]) -> TagEntry {
+        TagEntryConverter::from_bytes(bytes)
+    }
+    pub fn tag_entry_to_bytes(value: TagEntry) -> [u8; 12] {
+        TagEntryConverter::to_bytes(value)
+    }
+}
diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..a488654 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -255,6 +255,61 @@ impl PartialEq for Profile {
     }
 }
 
+/// Read-only view of an opened profile, for the verification harness only.
+#[cfg(lcms2_verif)]
+#[derive(Clone, Debug, PartialEq)]
+pub struct ProfileView {
+    pub created: chrono::NaiveDateTime,
+    pub version: u32,
+    pub device_class: Signature,
+    pub color_space: Signature,
+    pub pcs: Signature,
+    pub rendering_intent: u32,
+    pub flags: u32,
+    pub manufacturer: u32,
+    pub model: u32,
+    pub attributes: u64,
+    pub creator: u32,
+    pub profile_id: ProfileID,
+    /// Signature, offset, size and link of each retained directory entry.
+    pub tags: Vec<(Signature, usize, usize, Option<Signature>)>,
+    pub is_write: bool,
+}
+
+#[cfg(lcms2_verif)]
+impl Profile {
+    pub fn verif_view(&self) -> ProfileView {
+        ProfileView {
+            created: self.created,
+            version: self.version,
+            device_class: self.device_class,
+            color_space: self.color_space,
+            pcs: self.pcs,
+            rendering_intent: self.rendering_intent,
+            flags: self.flags,
+            manufacturer: self.manufacturer,
+            model: self.model,
+            attributes: self.attributes,
+            creator: self.creator,
+            profile_id: self.profile_id,
+            tags: (0..self.tag_count)
+                .map(|i| {
+                    (
+                        self.tag_names[i],
+                        self.tag_offsets[i],
+                        self.tag_sizes[i],
+                        self.tag_linked[i],
+                    )
+                })
+                .collect(),
+            is_write: self.is_write,
+        }
+    }
+    pub fn verif_search_tag(&self, sig: Signature, follow_links: bool) -> Option<usize> {
+        self.search_tag(sig, follow_links)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use chrono::NaiveDate;
-- 
2.43.0


From 5f289e1ebde691552d0c907e523f22dc766c937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 02/17] verif: guarded setter for the error handler (cfg
 lcms2_verif)

---
 src/state/context.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..de89e52 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -120,3 +120,17 @@ impl Context {
         eh(self, code, text.into())
     }
 }
+
+/// Handler installation, for the verification harness only.
+#[cfg(lcms2_verif)]
+impl Context {
+    pub fn verif_set_error_handler(&mut self, handler: fn(&mut Context, ErrorCode, String)) {
+        self.error_handler.handler = handler;
+    }
+    pub fn verif_set_global_error_handler(handler: fn(&mut Context, ErrorCode, String)) {
+        GLOBAL_CONTEXT
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
+            .verif_set_error_handler(handler);
+    }
+}
-- 
2.43.0


From 4f8b653d414c1ae9405640d5dac96cc7cf890c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 03/17] fix: reading from the null device fills the buffer with
 zeros

---
 src/io/file_null.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..98e9088 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -56,6 +56,7 @@ impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         let len = buf.len();
         self.pointer += len;
+        buf.fill(0);
 
         Ok(())
     }
-- 
2.43.0


From 20aaa90904472d9ec6b2147143b394f6e738ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 04/17] fix: null device refuses moves before the start or past
 the largest position

---
 src/io/file_null.rs | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 98e9088..843d149 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{Error, ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -44,6 +44,28 @@ impl FileNull {
     pub const fn new() -> FileNull {
         FileNull { pointer: 0, used_space: 0 }
     }
+
+    /// Position `len` bytes further on
+    fn after(&self, len: usize) -> Result<usize> {
+        self.pointer
+            .checked_add(len)
+            .ok_or_else(|| Error::from(ErrorKind::InvalidInput))
+    }
+}
+
+/// Position `offset` bytes away from `base`
+fn offset_from(base: usize, offset: i64) -> Result<usize> {
+    let distance = usize::try_from(offset.unsigned_abs()).ok();
+
+    distance
+        .and_then(|distance| {
+            if offset < 0 {
+                base.checked_sub(distance)
+            } else {
+                base.checked_add(distance)
+            }
+        })
+        .ok_or_else(|| Error::from(ErrorKind::InvalidInput))
 }
 
 impl Default for FileNull {
@@ -55,24 +77,21 @@ impl Default for FileNull {
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         let len = buf.len();
-        self.pointer += len;
+        self.pointer = self.after(len)?;
         buf.fill(0);
 
         Ok(())
     }
 
     fn seek(&mut self, pos: SeekFrom) -> Result<()> {
-        match pos {
+        self.pointer = match pos {
             SeekFrom::Start(value) => {
-                self.pointer = value as usize;
-            },
-            SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
-            },
-            SeekFrom::Current(value) => {
-                self.pointer += value as usize;
+                usize::try_from(value).map_err(|_| Error::from(ErrorKind::InvalidInput))?
             }
-        }
+            SeekFrom::End(value) => offset_from(self.used_space, value)?,
+            SeekFrom::Current(value) => offset_from(self.pointer, value)?,
+        };
+
         Ok(())
     }
 
@@ -86,7 +105,7 @@ impl IOHandler for FileNull {
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
         let len = buf.len();
-        self.pointer += len;
+        self.pointer = self.after(len)?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
-- 
2.43.0


From e8d9602681a428717deb7b68eec73a0fcc14fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 05/17] fix: decoding the lowest 15.16 fixed point code no
 longer overflows

---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From 776874e249f75cd9610aadf0ff7bffa5a24d81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 06/17] fix: a tag whose offset plus size overflows is skipped,
 not an abort

---
 src/types/profile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index a488654..5cf79bd 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -179,8 +179,9 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
-                continue;
+            match tag.offset.checked_add(tag.size) {
+                Some(end) if end as usize <= header_size => (),
+                _ => continue,
             }
 
             self.tag_names[self.tag_count] = tag.sig;
-- 
2.43.0


From 27ba619f2ffcc751fd57f44c7653c6ae5dbb1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 07/17] fix: the tag signature one past the last is blank, and
 index 100 does not abort

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 5cf79bd..ee63087 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -48,7 +48,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From 5ca9f7cce15c07c061ccf12c1da43c37c2b582bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 08/17] fix: a tag sharing data is linked to the earlier one,
 not that one to itself

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index ee63087..86e16ce 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -193,7 +193,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From 5e57eda873416d80e3e91b7f65f0567b00232b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 09/17] fix: opening a profile for writing does not try to read
 its header

---
 src/types/profile.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 86e16ce..da2798b 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -99,13 +99,12 @@ impl Profile {
 
         if let AccessMode::Read = mode {
             profile.io = Some(Box::new(File::open(filename)?));
+            profile.read_header_thr(context)?;
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
         };
 
-        profile.read_header_thr(context)?;
-
         Ok(profile)
     }
 
-- 
2.43.0


From 17de4a2be3ab476b553cff1c5e6bb8b69d140157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 10/17] fix: a stored date which does not exist in the calendar
 no longer aborts

---
 src/types/date_time_number.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..616893f 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -14,11 +14,10 @@ pub struct DateTimeNumber {
 
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
-        chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
-            d.hours as u32,
-            d.minutes as u32,
-            d.seconds as u32,
-        )
+        // A date which does not exist becomes the Unix epoch
+        chrono::NaiveDate::from_ymd_opt(d.year as i32, d.month as u32, d.day as u32)
+            .and_then(|date| date.and_hms_opt(d.hours as u32, d.minutes as u32, d.seconds as u32))
+            .unwrap_or_else(|| chrono::NaiveDateTime::from_timestamp(0, 0))
     }
 }
 impl From<chrono::NaiveDateTime> for DateTimeNumber {
-- 
2.43.0


From ed18e36d8e7d0caba92c4decb6671afe24455c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 11/17] fix: year 0 is stored as 0 when converting back from
 the calendar

---
 src/types/date_time_number.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 616893f..0f004d3 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -24,9 +24,8 @@ impl From<chrono::NaiveDateTime> for DateTimeNumber {
     fn from(d: chrono::NaiveDateTime) -> Self {
         let time = d.time();
 
-        let (_, year) = d.year_ce();
         Self {
-            year: year as u16,
+            year: d.year() as u16,
             month: d.month() as u16,
             day: d.day() as u16,
             hours: time.hour() as u16,
-- 
2.43.0


From c396af2ebe425b287fe3dc6e9076960a0d0a90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 12/17] fix: the last plugin of a chain is checked as well

---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index de89e52..8fbecfc 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -66,8 +66,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -105,7 +105,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From 9763811e0f8ef50332ee42ec21138b7f8b10a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 13/17] fix: looking up the lowest curve type number no longer
 overflows

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 025cf98..5cd2745 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -82,7 +82,7 @@ impl Default for ParametricCurves {
 impl ParametricCurves {
     pub fn is_in_set(&self, r#type: i32) -> Option<usize> {
         for i in 0..self.curves.len() {
-            if r#type.abs() == self.curves[i].function_curve_id {
+            if r#type.unsigned_abs() == self.curves[i].function_curve_id.unsigned_abs() {
                 return Some(i);
             }
         }
-- 
2.43.0


From 41423c3247b4b831a9b24dbba83760d5e9b4d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 14/17] fix: the gamma curve passes negative inputs only when
 gamma is 1

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 5cd2745..24d555f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -97,7 +97,7 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let gamma = params[0];
 
             if r < 0.0 {
-                if gamma.abs() - 1.0 < MATRIX_DET_TOLERANCE {
+                if (gamma - 1.0).abs() < MATRIX_DET_TOLERANCE {
                     r
                 } else {
                     0.0
-- 
2.43.0


From 369ae40f20c6f2fc4d5b931b69ea9c9a3a960c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 15/17] fix: the reversed logarithmic curve accepts negative
 parameters

---
 src/plugins/para_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 24d555f..8b74b69 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -386,7 +386,9 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let c = params[3];
             let d = params[4];
 
-            if gamma < MATRIX_DET_TOLERANCE || a < MATRIX_DET_TOLERANCE || b < MATRIX_DET_TOLERANCE
+            if gamma.abs() < MATRIX_DET_TOLERANCE
+                || a.abs() < MATRIX_DET_TOLERANCE
+                || b.abs() < MATRIX_DET_TOLERANCE
             {
                 0.0
             } else {
-- 
2.43.0


From 248d546decc817099e9adabfa3308f1f9da65845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 16/17] fix: the inverse sigmoid uses the natural logarithm

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 8b74b69..5a2889b 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -453,7 +453,7 @@ fn sigmoid_base(k: f64, t: f64) -> f64 {
 }
 #[inline]
 fn inverted_sigmoid_base(k: f64, t: f64) -> f64 {
-    -((1.0 / (t + 0.5)) - 1.0).log10() / k
+    -((1.0 / (t + 0.5)) - 1.0).ln() / k
 }
 #[inline]
 fn sigmoid_factory(k: f64, t: f64) -> f64 {
-- 
2.43.0


From 38a53adfe3527307becaf9d19e164d4270e1c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 17/17] verif: guarded plugin payloads and context contents
 (cfg lcms2_verif)

---
 src/plugins/tag.rs      | 12 ++++++++++
 src/plugins/tag_type.rs | 13 +++++++++++
 src/state/context.rs    | 49 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 74 insertions(+)

diff --git a/src/plugins/tag.rs b/src/plugins/tag.rs
index e159efb..16fbff0 100644
--- a/src/plugins/tag.rs
+++ b/src/plugins/tag.rs
@@ -27,3 +27,15 @@ impl Debug for TagDescriptor {
             .finish()
     }
 }
+
+/// Construction of plugin payloads, for the verification harness only.
+#[cfg(lcms2_verif)]
+impl TagDescriptor {
+    pub fn verif_new(element_count: usize, supported_types: Vec<Signature>) -> Self {
+        Self {
+            element_count,
+            supported_types,
+            decide_type: |_, _| Signature::default(),
+        }
+    }
+}
diff --git a/src/plugins/tag_type.rs b/src/plugins/tag_type.rs
index 4762172..c5a764f 100644
--- a/src/plugins/tag_type.rs
+++ b/src/plugins/tag_type.rs
@@ -38,3 +38,16 @@ impl Debug for TypeHandler {
             .finish()
     }
 }
+
+/// Construction of plugin payloads, for the verification harness only.
+#[cfg(lcms2_verif)]
+impl TypeHandler {
+    pub fn verif_new(signature: Signature, icc_version: u32) -> Self {
+        Self {
+            signature,
+            icc_version,
+            read: |_, _, _, _, _| None,
+            write: |_, _, _, _, _| None,
+        }
+    }
+}
diff --git a/src/state/context.rs b/src/state/context.rs
index 8fbecfc..a6b2163 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -133,4 +133,53 @@ impl Context {
             .unwrap_or_else(|poisoned| poisoned.into_inner())
             .verif_set_error_handler(handler);
     }
+    /// Gives every chunk a content of its own, distinct per `k`.
+    pub fn verif_fill(&mut self, k: u16) {
+        use crate::plugins::*;
+        let sig = crate::types::Signature::from(0x5645_0000 + k as u32);
+        self.alarm_codes.alarm_codes = [k; 16];
+        self.adaption_state.adaption_state = 1.0 / k as f64;
+        self.interpolation_plugin.interpolators =
+            |_, _, _| InterpFunction::InterpFnFloat(|_, _, _| {});
+        let mut curves = <ParametricCurvesCollection as IntoIterator>::Item::default();
+        curves.curves.truncate(1 + k as usize % 9);
+        self.curves_plugin.parametric_curves.push(curves);
+        self.formatters_plugin
+            .factory_list
+            .push(|_, _, _| Formatter::Fmt16(|_, _, _, _| Box::new([])));
+        self.tag_types_plugin
+            .tag_types
+            .push(TypeHandler::verif_new(sig, k as u32));
+        self.mpe_types_plugin
+            .tag_types
+            .push(TypeHandler::verif_new(sig, 1000 + k as u32));
+        self.tags_plugin.tags.push(TagListItem {
+            signature: sig,
+            descriptor: TagDescriptor::verif_new(k as usize, vec![sig]),
+        });
+        self.intents_plugin.intents.push(IntentsListItem {
+            intent: sig,
+            description: format!("intent {}", k),
+            link: |_, _, _, _, _, _, _| unreachable!(),
+        });
+        self.optimization_plugin
+            .optimization_collection
+            .push(OptimizationCollectionItem {
+                optimize_ptr: |_, _| None,
+            });
+        self.transform_plugin
+            .transform_collection
+            .push(TransformFactories::Legacy(|_, _, _| None));
+    }
+    /// The functions a context holds, which its Debug output does not show.
+    pub fn verif_functions(&self) -> Vec<usize> {
+        let mut all = vec![
+            self.error_handler.handler as usize,
+            self.interpolation_plugin.interpolators as usize,
+        ];
+        all.extend(self.formatters_plugin.factory_list.iter().map(|f| *f as usize));
+        all.extend(self.curves_plugin.parametric_curves.iter().map(|c| c.evaluator as usize));
+        all.extend(self.intents_plugin.intents.iter().map(|i| i.link as usize));
+        all
+    }
 }
-- 
2.43.0

