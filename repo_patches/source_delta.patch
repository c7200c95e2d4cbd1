From 9337284632bb0b1824d9b3aa9965f0e968b69636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 01/18] verification hooks (guarded by cfg verif_hooks)

---
 src/plugins/tag.rs               |  12 +++
 src/plugins/tag_type.rs          |  13 ++++
 src/state.rs                     |   2 +
 src/state/context.rs             |   3 +
 src/state/context/verif_hooks.rs |  31 ++++++++
 src/types.rs                     |   2 +
 src/types/profile.rs             |   3 +
 src/types/profile/verif_hooks.rs | 122 +++++++++++++++++++++++++++++++
 8 files changed, 188 insertions(+)
 create mode 100644 src/state/context/verif_hooks.rs
 create mode 100644 src/types/profile/verif_hooks.rs

diff --git a/src/plugins/tag.rs b/src/plugins/tag.rs
index e159efb..f5649ad 100644
--- a/src/plugins/tag.rs
+++ b/src/plugins/tag.rs
@@ -18,6 +18,18 @@ pub struct TagDescriptor {
     decide_type: TagTypeDecoder,
 }
 
+#[cfg(verif_hooks)]
+impl TagDescriptor {
+    /// Verification hook: builds a descriptor from its parts.
+    pub fn verif_new(
+        element_count: usize,
+        supported_types: Vec<Signature>,
+        decide_type: TagTypeDecoder,
+    ) -> Self {
+        Self { element_count, supported_types, decide_type }
+    }
+}
+
 impl Debug for TagDescriptor {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("TagDescriptor")
diff --git a/src/plugins/tag_type.rs b/src/plugins/tag_type.rs
index 4762172..0bee9c0 100644
--- a/src/plugins/tag_type.rs
+++ b/src/plugins/tag_type.rs
@@ -28,6 +28,19 @@ pub struct TypeHandler {
     write: TagTypeWriter,
 }
 
+#[cfg(verif_hooks)]
+impl TypeHandler {
+    /// Verification hook: builds a type handler from its parts.
+    pub fn verif_new(
+        signature: Signature,
+        icc_version: u32,
+        read: TagTypeReader,
+        write: TagTypeWriter,
+    ) -> Self {
+        Self { signature, icc_version, read, write }
+    }
+}
+
 impl Debug for TypeHandler {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("TypeHandler")
diff --git a/src/state.rs b/src/state.rs
index 0b2a2b9..b91aad2 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -3,4 +3,6 @@ mod context;
 
 pub use chunks::error_handler::ErrorCode;
 pub use context::Context;
+#[cfg(verif_hooks)]
+pub use context::verif_hooks;
 pub(crate) use context::GLOBAL_CONTEXT;
diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..dd54027 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -18,6 +18,9 @@ use super::chunks::{
     transform::TransformPluginChunk,
 };
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 type Result<T> = std::result::Result<T, String>;
 
 #[derive(Clone, Debug)]
diff --git a/src/state/context/verif_hooks.rs b/src/state/context/verif_hooks.rs
new file mode 100644
index 0000000..f3b8cfb
--- /dev/null
+++ b/src/state/context/verif_hooks.rs
@@ -0,0 +1,31 @@
+//! Verification hooks. Compiled only with `--cfg verif_hooks`.
+
+use super::*;
+use crate::state::chunks::error_handler::LogErrorHandlerFunction;
+
+/// Installs the function which errors signaled to `context` are reported to.
+pub fn set_error_handler(context: &mut Context, handler: LogErrorHandlerFunction) {
+    context.error_handler.handler = handler;
+}
+
+pub fn alarm_codes(context: &mut Context) -> &mut AlarmCodesChunk {
+    &mut context.alarm_codes
+}
+
+pub fn adaption_state(context: &mut Context) -> &mut AdaptionStateChunk {
+    &mut context.adaption_state
+}
+
+/// The number of items registered in each plug-in list of `context`.
+pub fn registered(context: &Context) -> [usize; 8] {
+    [
+        context.curves_plugin.parametric_curves.len(),
+        context.formatters_plugin.factory_list.len(),
+        context.tag_types_plugin.tag_types.len(),
+        context.tags_plugin.tags.len(),
+        context.intents_plugin.intents.len(),
+        context.mpe_types_plugin.tag_types.len(),
+        context.optimization_plugin.optimization_collection.len(),
+        context.transform_plugin.transform_collection.len(),
+    ]
+}
diff --git a/src/types.rs b/src/types.rs
index adc2bf3..e8ec680 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -27,6 +27,8 @@ pub use pipeline::PipelineEvalFn;
 pub use pipeline::Stage;
 pub use pipeline::StageEvalFn;
 pub use profile::Profile;
+#[cfg(verif_hooks)]
+pub use profile::verif_hooks;
 pub use profile_id::ProfileID;
 pub use seq::Sequence;
 pub use seq::SequenceDescriptor;
diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..8974f84 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -16,6 +16,9 @@ use super::{
     MAX_TABLE_TAG,
 };
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 #[derive(Debug)]
 pub struct Profile {
     io: Option<Box<dyn IOHandler>>,
diff --git a/src/types/profile/verif_hooks.rs b/src/types/profile/verif_hooks.rs
new file mode 100644
index 0000000..4958988
--- /dev/null
+++ b/src/types/profile/verif_hooks.rs
@@ -0,0 +1,122 @@
+//! Verification hooks. Compiled only with `--cfg verif_hooks`.
+//!
+//! Gives a verification harness the same entry to profile parsing that [`Profile::open_from_file_thr`] uses, over any
+//! [`IOHandler`], and access to the private state of a [`Profile`].
+
+use super::*;
+use crate::types::{icc_header::ICCHeader, tag_entry::TagEntry};
+
+/// Everything a [`Profile`] carries besides its tag directory.
+#[derive(Clone, Copy, Debug, PartialEq)]
+pub struct HeaderState {
+    pub created: chrono::NaiveDateTime,
+    pub version: u32,
+    pub device_class: Signature,
+    pub color_space: Signature,
+    pub pcs: Signature,
+    pub rendering_intent: u32,
+    pub flags: u32,
+    pub manufacturer: u32,
+    pub model: u32,
+    pub attributes: u64,
+    pub creator: u32,
+    pub profile_id: ProfileID,
+    pub is_write: bool,
+}
+
+/// One slot of the tag directory of a [`Profile`].
+#[derive(Clone, Copy, Debug, PartialEq)]
+pub struct TagState {
+    pub name: Signature,
+    pub linked: Option<Signature>,
+    pub size: usize,
+    pub offset: usize,
+    pub save_as_raw: bool,
+}
+
+/// A new profile which reads from `io`, before its header is read.
+pub fn profile_over(io: Box<dyn IOHandler>) -> Box<Profile> {
+    let mut profile = Box::new(Profile::new());
+    profile.io = Some(io);
+    profile
+}
+
+pub fn read_header(profile: &mut Profile, context: &mut Context) -> io::Result<()> {
+    profile.read_header_thr(context)
+}
+
+pub fn header(profile: &Profile) -> HeaderState {
+    HeaderState {
+        created: profile.created,
+        version: profile.version,
+        device_class: profile.device_class,
+        color_space: profile.color_space,
+        pcs: profile.pcs,
+        rendering_intent: profile.rendering_intent,
+        flags: profile.flags,
+        manufacturer: profile.manufacturer,
+        model: profile.model,
+        attributes: profile.attributes,
+        creator: profile.creator,
+        profile_id: profile.profile_id,
+        is_write: profile.is_write,
+    }
+}
+
+pub fn set_header(profile: &mut Profile, state: HeaderState) {
+    profile.created = state.created;
+    profile.version = state.version;
+    profile.device_class = state.device_class;
+    profile.color_space = state.color_space;
+    profile.pcs = state.pcs;
+    profile.rendering_intent = state.rendering_intent;
+    profile.flags = state.flags;
+    profile.manufacturer = state.manufacturer;
+    profile.model = state.model;
+    profile.attributes = state.attributes;
+    profile.creator = state.creator;
+    profile.profile_id = state.profile_id;
+    profile.is_write = state.is_write;
+}
+
+pub fn tag(profile: &Profile, n: usize) -> TagState {
+    TagState {
+        name: profile.tag_names[n],
+        linked: profile.tag_linked[n],
+        size: profile.tag_sizes[n],
+        offset: profile.tag_offsets[n],
+        save_as_raw: profile.tag_save_as_raw[n],
+    }
+}
+
+pub fn set_tag(profile: &mut Profile, n: usize, state: TagState) {
+    profile.tag_names[n] = state.name;
+    profile.tag_linked[n] = state.linked;
+    profile.tag_sizes[n] = state.size;
+    profile.tag_offsets[n] = state.offset;
+    profile.tag_save_as_raw[n] = state.save_as_raw;
+}
+
+pub fn set_tag_count(profile: &mut Profile, count: usize) {
+    profile.tag_count = count;
+}
+
+pub fn search_tag(profile: &Profile, sig: Signature, follow_links: bool) -> Option<usize> {
+    profile.search_tag(sig, follow_links)
+}
+
+pub fn header_from_bytes(bytes: [u8; 128]) -> ICCHeader {
+    ICCHeaderConverter::from_bytes(bytes)
+}
+
+pub fn header_to_bytes(value: ICCHeader) -> [u8; 128] {
+    ICCHeaderConverter::to_bytes(value)
+}
+
+pub fn tag_entry_from_bytes(bytes: [u8; 12]) -> TagEntry {
+    TagEntryConverter::from_bytes(bytes)
+}
+
+pub fn tag_entry_to_bytes(value: TagEntry) -> [u8; 12] {
+    TagEntryConverter::to_bytes(value)
+}
-- 
2.43.0


From 9fc39eea41634907df50cd23fa3ed96f02c9103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 02/18] verification hooks: profile_over returns the profile by
 value

---
 src/types/profile/verif_hooks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/profile/verif_hooks.rs b/src/types/profile/verif_hooks.rs
index 4958988..3b8c6f0 100644
--- a/src/types/profile/verif_hooks.rs
+++ b/src/types/profile/verif_hooks.rs
@@ -35,8 +35,8 @@ pub struct TagState {
 }
 
 /// A new profile which reads from `io`, before its header is read.
-pub fn profile_over(io: Box<dyn IOHandler>) -> Box<Profile> {
-    let mut profile = Box::new(Profile::new());
+pub fn profile_over(io: Box<dyn IOHandler>) -> Profile {
+    let mut profile = Profile::new();
     profile.io = Some(io);
     profile
 }
-- 
2.43.0


From 97ddc26de3fd4d1ca0d2fbb519d0c0d44cc2094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 03/18] fix: do not overflow on a tag whose offset + size
 exceeds 32 bits

---
 src/types/profile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 8974f84..9542766 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -182,8 +182,9 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
-                continue;
+            match tag.offset.checked_add(tag.size) {
+                Some(end) if end as usize <= header_size => (),
+                _ => continue,
             }
 
             self.tag_names[self.tag_count] = tag.sig;
-- 
2.43.0


From 3cad88c97fde7c00c8ed28a1700dce513802eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 04/18] fix: asking for the tag one past a full directory must
 not panic

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 9542766..42df70c 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -51,7 +51,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From 404fc69e848fde10b340a5d77d2f58605d2d352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 05/18] fix: link a tag to the earlier tag whose data it
 shares, not to itself

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 42df70c..592344b 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -196,7 +196,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From d31bac5667035a4ef1c7c71a39a5dfda37f5cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 06/18] fix: opening a profile for writing must not read a
 header from the new file

---
 src/types/profile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 592344b..49db2c3 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -105,6 +105,9 @@ impl Profile {
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
+
+            // Nothing to read yet
+            return Ok(profile);
         };
 
         profile.read_header_thr(context)?;
-- 
2.43.0


From 4ea4939075d53cbf7797699a6d12ebfb3c7b0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 07/18] fix: a profile with an invalid creation date must not
 panic

---
 src/types/date_time_number.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..0a02065 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -14,10 +14,21 @@ pub struct DateTimeNumber {
 
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
-        chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
-            d.hours as u32,
-            d.minutes as u32,
-            d.seconds as u32,
+        // The numbers come straight out of profiles: whatever is out of range is taken as the nearest valid value.
+        let year = d.year as i32;
+        let month = (d.month as u32).clamp(1, 12);
+        let day = (d.day as u32).clamp(1, 31);
+
+        // Every month has at least 28 days
+        let date = chrono::NaiveDate::from_ymd_opt(year, month, day)
+            .or_else(|| chrono::NaiveDate::from_ymd_opt(year, month, 30))
+            .or_else(|| chrono::NaiveDate::from_ymd_opt(year, month, 29))
+            .unwrap_or_else(|| chrono::NaiveDate::from_ymd(year, month, 28));
+
+        date.and_hms(
+            (d.hours as u32).min(23),
+            (d.minutes as u32).min(59),
+            (d.seconds as u32).min(59),
         )
     }
 }
-- 
2.43.0


From f6f58663507c11f4df94d8226d3f94be807f33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 08/18] fix: keep year 0 when converting into a DateTimeNumber

---
 src/types/date_time_number.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 0a02065..350b0c0 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -36,9 +36,8 @@ impl From<chrono::NaiveDateTime> for DateTimeNumber {
     fn from(d: chrono::NaiveDateTime) -> Self {
         let time = d.time();
 
-        let (_, year) = d.year_ce();
         Self {
-            year: year as u16,
+            year: d.year() as u16,
             month: d.month() as u16,
             day: d.day() as u16,
             hours: time.hour() as u16,
-- 
2.43.0


From 6d651036ab6b56c289437a1e3e665ab7c78fd522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 09/18] fix: validate every plug-in of a chain, including the
 last

---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index dd54027..df7fdb4 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -69,8 +69,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -108,7 +108,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From bf813f40a17ec6166ba53efb76cce4964c71cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 10/18] fix: decode the smallest s15Fixed16 number without
 overflow

---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From a80a1d4bb07d3c0b0878dfefa7d0cc4e565aab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 11/18] fix: FileNull must seek backwards, and reject seeking
 before the start

---
 src/io/file_null.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..7b0831f 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -61,18 +61,18 @@ impl IOHandler for FileNull {
     }
 
     fn seek(&mut self, pos: SeekFrom) -> Result<()> {
-        match pos {
-            SeekFrom::Start(value) => {
+        let (base, offset) = match pos {
+            SeekFrom::Start(value) => (value, 0),
+            SeekFrom::End(value) => (self.used_space as u64, value),
+            SeekFrom::Current(value) => (self.pointer as u64, value),
+        };
+        match base.checked_add_signed(offset) {
+            Some(value) => {
                 self.pointer = value as usize;
-            },
-            SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
-            },
-            SeekFrom::Current(value) => {
-                self.pointer += value as usize;
+                Ok(())
             }
+            None => Err(ErrorKind::InvalidInput.into()),
         }
-        Ok(())
     }
 
     fn close(self) -> Result<()> {
-- 
2.43.0


From 85e9098069bbd1e884913b6cfed96c7c1a450e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 12/18] fix: FileNull must read zeros, and not overflow its
 position

---
 src/io/file_null.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 7b0831f..8e2cb3a 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -44,6 +44,11 @@ impl FileNull {
     pub const fn new() -> FileNull {
         FileNull { pointer: 0, used_space: 0 }
     }
+
+    fn advance(&mut self, len: usize) -> Result<()> {
+        self.pointer = self.pointer.checked_add(len).ok_or(ErrorKind::InvalidInput)?;
+        Ok(())
+    }
 }
 
 impl Default for FileNull {
@@ -54,8 +59,8 @@ impl Default for FileNull {
 
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.advance(buf.len())?;
+        buf.fill(0);
 
         Ok(())
     }
@@ -84,8 +89,7 @@ impl IOHandler for FileNull {
     }
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.advance(buf.len())?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
-- 
2.43.0


From 2e14765816939275d0f8ac5f73fef3e376d49dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 13/18] fix: a power curve passes negative values on only when
 gamma is 1

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 025cf98..9d8e82f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -97,7 +97,7 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let gamma = params[0];
 
             if r < 0.0 {
-                if gamma.abs() - 1.0 < MATRIX_DET_TOLERANCE {
+                if (gamma - 1.0).abs() < MATRIX_DET_TOLERANCE {
                     r
                 } else {
                     0.0
-- 
2.43.0


From 1ccb033d59c675326763f05ae77eeea4234cd1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 14/18] fix: invert logarithmic curves with negative parameters

---
 src/plugins/para_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 9d8e82f..7ba6136 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -386,7 +386,9 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let c = params[3];
             let d = params[4];
 
-            if gamma < MATRIX_DET_TOLERANCE || a < MATRIX_DET_TOLERANCE || b < MATRIX_DET_TOLERANCE
+            if gamma.abs() < MATRIX_DET_TOLERANCE
+                || a.abs() < MATRIX_DET_TOLERANCE
+                || b.abs() < MATRIX_DET_TOLERANCE
             {
                 0.0
             } else {
-- 
2.43.0


From 0dc79b8c71da01202754ad48246cc01d433db2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 15/18] fix: the inverse sigmoid is a natural logarithm

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 7ba6136..b301492 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -453,7 +453,7 @@ fn sigmoid_base(k: f64, t: f64) -> f64 {
 }
 #[inline]
 fn inverted_sigmoid_base(k: f64, t: f64) -> f64 {
-    -((1.0 / (t + 0.5)) - 1.0).log10() / k
+    -((1.0 / (t + 0.5)) - 1.0).ln() / k
 }
 #[inline]
 fn sigmoid_factory(k: f64, t: f64) -> f64 {
-- 
2.43.0


From a4e6745a251e559998dd95b59286cf4194280a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 16/18] fix: looking up the smallest curve type must not
 overflow

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index b301492..5a2889b 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -82,7 +82,7 @@ impl Default for ParametricCurves {
 impl ParametricCurves {
     pub fn is_in_set(&self, r#type: i32) -> Option<usize> {
         for i in 0..self.curves.len() {
-            if r#type.abs() == self.curves[i].function_curve_id {
+            if r#type.unsigned_abs() == self.curves[i].function_curve_id.unsigned_abs() {
                 return Some(i);
             }
         }
-- 
2.43.0


From c54abb8fb61b8a597670d9952eb38a315e52aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 17/18] verification hooks: access to the plug-in lists of a
 context

---
 src/state/context/verif_hooks.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/state/context/verif_hooks.rs b/src/state/context/verif_hooks.rs
index f3b8cfb..47228ab 100644
--- a/src/state/context/verif_hooks.rs
+++ b/src/state/context/verif_hooks.rs
@@ -29,3 +29,28 @@ pub fn registered(context: &Context) -> [usize; 8] {
         context.transform_plugin.transform_collection.len(),
     ]
 }
+
+/// The plug-in lists of a context.
+pub struct Lists<'a> {
+    pub parametric_curves: &'a mut crate::plugins::ParametricCurvesCollection,
+    pub formatters: &'a mut crate::plugins::FormatterFactoryList,
+    pub tag_types: &'a mut crate::plugins::TagTypeList,
+    pub tags: &'a mut crate::plugins::TagList,
+    pub intents: &'a mut crate::plugins::IntentsList,
+    pub mpe_types: &'a mut crate::plugins::TagTypeList,
+    pub optimizations: &'a mut crate::plugins::OptimizationCollection,
+    pub transforms: &'a mut crate::plugins::TransformCollection,
+}
+
+pub fn lists(context: &mut Context) -> Lists<'_> {
+    Lists {
+        parametric_curves: &mut context.curves_plugin.parametric_curves,
+        formatters: &mut context.formatters_plugin.factory_list,
+        tag_types: &mut context.tag_types_plugin.tag_types,
+        tags: &mut context.tags_plugin.tags,
+        intents: &mut context.intents_plugin.intents,
+        mpe_types: &mut context.mpe_types_plugin.tag_types,
+        optimizations: &mut context.optimization_plugin.optimization_collection,
+        transforms: &mut context.transform_plugin.transform_collection,
+    }
+}
-- 
2.43.0


From d9c0930fe4d222681c0736a027d202d4955ae95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 18/18] Verification hook: the global context, if nobody uses
 it

---
 src/state/context/verif_hooks.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/state/context/verif_hooks.rs b/src/state/context/verif_hooks.rs
index 47228ab..c4d8f91 100644
--- a/src/state/context/verif_hooks.rs
+++ b/src/state/context/verif_hooks.rs
@@ -54,3 +54,17 @@ pub fn lists(context: &mut Context) -> Lists<'_> {
         transforms: &mut context.transform_plugin.transform_collection,
     }
 }
+
+/// Exclusive use of the global context, until it is dropped.
+pub struct Global(std::sync::MutexGuard<'static, Context>);
+
+impl Global {
+    pub fn context(&mut self) -> &mut Context {
+        &mut self.0
+    }
+}
+
+/// The global context, if nobody uses it.
+pub fn try_global() -> Option<Global> {
+    GLOBAL_CONTEXT.try_lock().ok().map(Global)
+}
-- 
2.43.0

