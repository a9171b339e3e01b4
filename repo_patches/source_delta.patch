From 021096e6b6268c4e8127776559861c0e7fbc805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:01 +0000
Subject: [PATCH 01/22] fix: keep a label's tag when it is cloned or made owned

---
 src/data.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..0a3bda4 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -163,7 +163,11 @@ impl<'computed> Label<'computed> {
         #[cfg(not(feature = "alloc"))]
         {
             self.as_static_str()
-                .map(Label::new)
+                .map(|label| {
+                    let mut label = Label::new(label);
+                    label.tag = self.tag.clone();
+                    label
+                })
                 .ok_or_else(crate::Error::new)
         }
     }
@@ -570,7 +574,9 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut label = Label::new_owned(unsafe { &*owned }.to_owned());
+                label.tag = self.tag.clone();
+                label
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +596,14 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut label = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+
+            label.tag = self.tag.clone();
+            label
         }
     }
 
-- 
2.43.0


From 33391cfa61b412eb2df335e2da09775af9b6e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:16 +0000
Subject: [PATCH 02/22] fix: don't fail buffering text or binary when a tag
 hint is given between fragments

---
 buffer/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..31a1eee 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -639,6 +639,12 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
         &mut self,
         tag: &sval::Tag,
     ) -> sval::Result {
+        // Fragments are appended to the current text or binary part,
+        // so a hint between them can't be buffered as a part of its own
+        if self.is_in_text_or_binary {
+            return Ok(());
+        }
+
         self.try_catch(|buf| {
             buf.push_kind(ValueKind::TagHint {
                 tag: tag.clone(),
-- 
2.43.0


From 099897339a1d775e99194e6c034423c3ddcf9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 03/22] fix: a value buffer holding only tag hints isn't
 complete

---
 buffer/src/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 31a1eee..133af6f 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -165,7 +165,13 @@ impl<'sval> ValueBuf<'sval> {
     Whether or not the contents of the value buffer are complete.
     */
     pub fn is_complete(&self) -> bool {
-        self.stack.len() == 0 && self.parts.len() > 0 && !self.is_in_text_or_binary
+        self.stack.len() == 0
+            && !self.is_in_text_or_binary
+            // Hints may come before the value itself
+            && self
+                .parts
+                .iter()
+                .any(|part| !matches!(part.kind, ValueKind::TagHint { .. }))
     }
 
     /**
-- 
2.43.0


From b191c43f9eafdb4763f602db0153d50a089a5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:23 +0000
Subject: [PATCH 04/22] fix: return an error instead of panicking when text or
 binary being collected fails to stream

---
 buffer/src/fragments.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..c0ac305 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -40,9 +40,11 @@ impl<'sval> TextBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+        })?;
 
         Ok(collector.buf)
     }
@@ -297,9 +299,11 @@ impl<'sval> BinaryBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+        })?;
 
         Ok(collector.buf)
     }
-- 
2.43.0


From e80dbab23ae7a559de76753dfce88f78c0cea13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 05/22] fix: fail when a writer accepts no more of the JSON
 instead of silently dropping it

---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From 70f44b3f08c5d41f7a748565d10526f25593d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 06/22] fix: keep the zero of numbers like 0e5 when writing
 them as JSON

---
 json/src/to_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..9e17bf3 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -605,8 +605,8 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
-                    // If we encounter a decimal point we might need to write a leading `0`
-                    b'.' => {
+                    // If we encounter a decimal point or an exponent we might need to write a leading `0`
+                    b'.' | b'e' | b'E' => {
                         if self.at_start {
                             if self.sign_negative {
                                 _try_no_conv!(out.write_char('-'));
-- 
2.43.0


From fcab418c9ac42a6381915e7502402ae49c684be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:40 +0000
Subject: [PATCH 07/22] fix: don't let a labeled map key make its value look
 like an enum variant in JSON

---
 json/src/to_fmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 9e17bf3..1386dca 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -249,6 +249,7 @@ where
         _try!(self.out.write_str("\":"));
 
         self.is_text_quoted = true;
+        self.is_internally_tagged = false;
 
         Ok(())
     }
-- 
2.43.0


From 413ca3bd7f5f0de48658accfb6ecd23bd13b67f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:14 +0000
Subject: [PATCH 08/22] fix: write enum variants tagged as numbers or encoded
 JSON

---
 json/src/to_fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 1386dca..c6c52c9 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -339,6 +339,8 @@ where
         label: Option<&sval::Label>,
         index: Option<&sval::Index>,
     ) -> sval::Result {
+        _try_no_conv!(self.internally_tagged_begin(label, index));
+
         match tag {
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
@@ -361,7 +363,6 @@ where
             _ => (),
         }
 
-        _try_no_conv!(self.internally_tagged_begin(label, index));
         self.is_current_depth_empty = true;
 
         Ok(())
-- 
2.43.0


From 14424963403c0a6ff472724d33d1f64793a763e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:23 +0000
Subject: [PATCH 09/22] fix: don't close an outer enum twice in JSON when the
 enum inside it has no name

---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index c6c52c9..703ef34 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -327,10 +327,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From 05f189d500898f444ac374d2bf3e19c71e51439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 10/22] fix: don't lose an error from a value that fails after
 its last event in sval_nested

---
 nested/src/flat.rs | 11 ++++++++++-
 nested/src/lib.rs  | 16 ++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..3792fa6 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -165,7 +165,16 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         }
     }
 
-    pub fn finish(&mut self) -> Result<S::Ok> {
+    pub fn finish_with(&mut self, r: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // The value may fail even after it's streamed everything we needed
+        r.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
+
+    fn finish(&mut self) -> Result<S::Ok> {
         if let State::Done(ref mut r) = self.state {
             r.take()
                 .unwrap_or_else(|| Err(Error::invalid_value("incomplete stream")))
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..1dd9105 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -937,8 +937,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(r)
     }
 
     /**
@@ -959,8 +959,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(r)
     }
 
     /**
@@ -992,8 +992,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
@@ -1033,8 +1033,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
-- 
2.43.0


From f9ae6e4bafd080a32ebda99caf576c5ad7720ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:00 +0000
Subject: [PATCH 11/22] fix: stream enums without a variant through sval_nested
 instead of recursing forever

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..856dd26 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -40,7 +40,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From 13ac94cd056a0487c600f2eae0e5e96ffd2da478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:55 +0000
Subject: [PATCH 12/22] fix: keep element boundaries when sval_nested buffers a
 sequence

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 3792fa6..f54360d 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -259,11 +259,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From a7dbd0a4be97ed2cb562a1cb76cc8fe7e7047a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:52 +0000
Subject: [PATCH 13/22] fix: don't panic on tuple and record variants of nested
 enums in sval_nested

---
 nested/src/flat.rs      | 28 ++++++++++++++++++++++++++++
 nested/src/flat_enum.rs |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index f54360d..f11f969 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -426,6 +426,8 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
+
         self.buffer_or_begin_with(
             |buf| buf.record_begin(tag, label, index, num_entries),
             |stream| {
@@ -501,6 +503,8 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
+
         self.buffer_or_begin_with(
             |buf| buf.tuple_begin(tag, label, index, num_entries),
             |stream| {
@@ -1077,6 +1081,20 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         r
     }
 
+    fn buffer_nested_variant(&mut self) {
+        // Compound variants of nested enums need to be streamed whole,
+        // because they're only completed within the enums that contain them
+        if let FlatStream {
+            buffered: buffered @ None,
+            state: State::Enum(Some(stream)),
+        } = self
+        {
+            if stream.stream.is_nested() {
+                *buffered = Some(Buffered::Value(ValueBuf::new()));
+            }
+        }
+    }
+
     fn buffer_or_begin_with(
         &mut self,
         mut buffer: impl FnMut(&mut ValueBuf<'sval>) -> sval::Result,
@@ -1173,6 +1191,16 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
                     let buf = mem::take(buf);
                     *buffered = None;
 
+                    if let State::Enum(ref mut stream) = stream.state {
+                        let stream = stream.take().ok_or_else(|| {
+                            Error::invalid_value(
+                                "failed to stream an enum; the stream is already completed",
+                            )
+                        })?;
+
+                        return Ok(Some(stream.stream.value_computed(&buf)?));
+                    }
+
                     return stream
                         .state
                         .value_computed(&buf, |stream, value| stream.value_computed(value));
diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 856dd26..91e79dc 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -39,6 +39,10 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         })
     }
 
+    pub fn is_nested(&self) -> bool {
+        !self.queue.is_empty()
+    }
+
     pub fn end(self) -> Result<S::Ok> {
         self.value_or_recurse(
             |stream, _| stream.stream.empty(),
-- 
2.43.0


From 9a4883e4ee9480223c160818be11668235054994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 14/22] fix: end the keys of maps nested inside flattened
 values

---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..83f6d65 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From e8a11fdc3a6f77db25fa1f5f8504d332d7695432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:52 +0000
Subject: [PATCH 15/22] fix: concatenate numbers in complex map keys flattened
 onto records

---
 flatten/src/label.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..5ee66a4 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,31 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::I128(
+            v.try_into().map_err(|_| sval::Error::new())?,
+        ))
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::U128(
+            v.try_into().map_err(|_| sval::Error::new())?,
+        ))
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::F64(
+            v.try_into().map_err(|_| sval::Error::new())?,
+        ))
+    }
+
+    fn number(&mut self, number: LabelBuf<'sval>) -> sval::Result {
+        if let LabelBuf::Empty = self {
+            *self = number;
+            Ok(())
+        } else {
+            // The number follows some other value in a complex key
+            number.with_label(|number| self.text_fragment_computed(number.as_str()))
+        }
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +111,14 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let preceding = mem::replace(self, LabelBuf::Text(TextBuf::new()));
+
+                // Text may follow a number in a complex key
+                if !matches!(preceding, LabelBuf::Empty) {
+                    preceding
+                        .with_label(|preceding| self.text_fragment_computed(preceding.as_str()))?;
+                }
+
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From 9e945b5ec44afe02ecc48ad8bb014fed35d497d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:38 +0000
Subject: [PATCH 16/22] fix: don't end enums that aren't there when flattening
 a tagged enum

---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 83f6d65..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From 633672876ef6ef5216bdccb47f9b1e0d5fb996a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:13 +0000
Subject: [PATCH 17/22] fix: don't panic when a value being formatted into a
 string fails

---
 fmt/src/to_string.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fmt/src/to_string.rs b/fmt/src/to_string.rs
index 7733d97..fc7c8e3 100644
--- a/fmt/src/to_string.rs
+++ b/fmt/src/to_string.rs
@@ -1,12 +1,21 @@
 use alloc::string::String;
+use core::fmt::Write as _;
 
 /**
 Format a value into a string.
 
 This method will use a default format that's like Rust's `Debug`.
+
+If the value fails to stream, what was formatted up to then is returned followed by the error,
+the same as [`crate::ToFmt`].
 */
 pub fn stream_to_string(v: impl sval::Value) -> String {
     let mut out = String::new();
-    crate::stream_to_write(&mut out, v).expect("infallible write");
+
+    // Writing to a `String` is infallible, but streaming the value may not be
+    if let Err(e) = crate::stream_to_write(&mut out, v) {
+        let _ = write!(out, "<{}>", e);
+    }
+
     out
 }
-- 
2.43.0


From 32a24ee2560c3c95d5984c8d4b485590313a21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:05 +0000
Subject: [PATCH 18/22] fix: don't format the name of an enum after a variant
 with nothing in it

---
 fmt/src/writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..8262f8c 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -402,6 +402,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
                 .map_err(|_| sval::Error::new())?;
         }
 
+        // The variant of an enum has been written, even if there was nothing in it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +474,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The variant of an enum has been written, even if there was nothing in it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +527,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The variant of an enum has been written, even if there was nothing in it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From 73a1d7e9b385bb64cc3915d5d38d706fd7d04f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:03 +0000
Subject: [PATCH 19/22] fix: give transparent newtypes the tag of the value
 they stream as

---
 derive_macros/src/derive/derive_newtype.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index 6662826..c0265c1 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -86,7 +86,12 @@ pub(crate) fn derive_newtype<'a>(
         attrs.transparent(),
     );
 
-    let tag = quote_optional_tag_owned(attrs.tag());
+    // A transparent newtype has no tag of its own; it has whatever tag its field has
+    let tag = if attrs.transparent() {
+        None
+    } else {
+        Some(quote_optional_tag_owned(attrs.tag()))
+    };
 
     impl_tokens(
         impl_generics,
@@ -100,6 +105,6 @@ pub(crate) fn derive_newtype<'a>(
 
             Ok(())
         }),
-        Some(tag),
+        tag,
     )
 }
-- 
2.43.0


From 54e5ff10796c3ec23e5346124a2160185b2bc85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:34 +0000
Subject: [PATCH 20/22] fix: keep the tag of static labels in sval_nested
 without an allocator

---
 nested/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index 1dd9105..0ab0763 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,11 +914,9 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
-        } else {
-            Err(Error::no_alloc("streaming value"))
-        }
+        label
+            .try_to_owned()
+            .map_err(|_| Error::no_alloc("streaming value"))
     }
 }
 
-- 
2.43.0


From 277a2880f7f6a2621024a8fc981881c5961d05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 21/22] fix: convert values that stream as signed integers to
 integers

---
 src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..523dd66 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -621,8 +621,8 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.i128(value as i128)
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From 1054554cad863ecad50af032b59fa94bae36540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:15 +0000
Subject: [PATCH 22/22] fix: report the failure of the formatter itself from
 ToFmt

The value's failure is marked in the text, but a writer that fails once
had its error swallowed and the rest of the text silently dropped.
---
 fmt/src/to_fmt.rs | 67 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/fmt/src/to_fmt.rs b/fmt/src/to_fmt.rs
index 31f00a2..6d80190 100644
--- a/fmt/src/to_fmt.rs
+++ b/fmt/src/to_fmt.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 
-use crate::writer::Writer;
+use crate::{writer::Writer, TokenWrite};
 
 /**
 Adapt an [`sval::Value`] into a [`fmt::Debug`] or [`fmt::Display`].
@@ -42,12 +42,73 @@ impl<V: sval::Value> fmt::Debug for ToFmt<V> {
 
 impl<V: sval::Value> fmt::Display for ToFmt<V> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        let mut out = TrackErr {
+            fmt: f,
+            is_err: false,
+        };
+
         // If the `Value` impl fails then swallow the error rather than
         // propagate it; Traits like `ToString` expect formatting to be
         // infallible unless the writer itself fails
-        match stream_to_fmt(f, &self.0) {
+        match self.0.stream(&mut Writer::new(&mut out)) {
             Ok(()) => Ok(()),
-            Err(e) => write!(f, "<{}>", e),
+            Err(_) if out.is_err => Err(fmt::Error),
+            Err(_) => write!(out.fmt, "<{}>", fmt::Error),
         }
     }
 }
+
+/**
+A formatter that remembers whether writing to it failed.
+*/
+struct TrackErr<'a, 'b> {
+    fmt: &'a mut fmt::Formatter<'b>,
+    is_err: bool,
+}
+
+impl<'a, 'b> TrackErr<'a, 'b> {
+    fn track(&mut self, r: fmt::Result) -> fmt::Result {
+        self.is_err |= r.is_err();
+        r
+    }
+}
+
+impl<'a, 'b> fmt::Write for TrackErr<'a, 'b> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        let r = self.fmt.write_str(s);
+        self.track(r)
+    }
+
+    fn write_char(&mut self, c: char) -> fmt::Result {
+        let r = self.fmt.write_char(c);
+        self.track(r)
+    }
+}
+
+macro_rules! track_number {
+    ($($write:ident: $ty:ty,)*) => {
+        $(
+            fn $write(&mut self, value: $ty) -> fmt::Result {
+                let r = self.fmt.$write(value);
+                self.track(r)
+            }
+        )*
+    };
+}
+
+impl<'a, 'b> TokenWrite for TrackErr<'a, 'b> {
+    track_number! {
+        write_u8: u8,
+        write_u16: u16,
+        write_u32: u32,
+        write_u64: u64,
+        write_u128: u128,
+        write_i8: i8,
+        write_i16: i16,
+        write_i32: i32,
+        write_i64: i64,
+        write_i128: i128,
+        write_f32: f32,
+        write_f64: f64,
+    }
+}
-- 
2.43.0

