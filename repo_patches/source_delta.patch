From 182db992eeb2c34af8cd6465fe422da19563c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 01/12] fix: count every element passed to Context::collect

The limit check used `n`, but only one element was ever recorded, so
batched calls could exceed max_collect by an arbitrary factor.
---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..6a6f4fa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From caec8e4a11dd822212c802cd925529688c35cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 02/12] fix: report a blob cut short by EOF from
 Blob::read_fully

Returning the bytes that happened to be available made strings and byte
vectors decode successfully from truncated input.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..0fa105f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1164,6 +1164,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From 3a6d99e301578d779484c1dea747544d8d5dce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 03/12] fix: report duplicated retrofitted fields as
 FieldOccursTooManyTimes

---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From c107b649aa39ff765c84db08bb87352b1d255df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 04/12] fix: check field tags in release builds too

The write methods document that they panic on an invalid tag, but without
debug assertions the tag silently corrupted the descriptor.
---
 src/wire.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wire.rs b/src/wire.rs
index 39cee78..02971ea 100644
--- a/src/wire.rs
+++ b/src/wire.rs
@@ -107,7 +107,7 @@ impl From<ParsedDescriptor> for Descriptor {
     fn from(d: ParsedDescriptor) -> Self {
         Descriptor(match d {
             ParsedDescriptor::Pair(ty, tag) => {
-                debug_assert!(tag >= 1 && tag <= 63);
+                assert!(tag >= 1 && tag <= 63);
                 tag | (ty as u8)
             },
             ParsedDescriptor::Special(ty) => ty as u8
-- 
2.43.0


From 3938caafe502888d202434c92f52f3b24cb14abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 05/12] fix: do not overflow when seeking a Blob by i64::MIN

Negating the offset panicked in debug builds.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 0fa105f..f125bf6 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1323,13 +1323,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = off.wrapping_neg() as u64;
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = off.wrapping_neg() as u64;
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From e74e3cd312492089e6ca3cee4f43354dc516cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 06/12] fix: do not panic on slicing a cursor positioned beyond
 its end

Cursors may legally be positioned beyond the end of their buffer, as
happens when seeking within a truncated blob.
---
 src/io.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..c717866 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,8 +9,15 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp;
 use std::io::{self, BufRead, Read, Seek, Write};
 
+/// Returns the part of `buf` at and after `pos`, which is empty if the
+/// position is beyond the end of the buffer.
+fn unconsumed(buf: &[u8], pos: u64) -> &[u8] {
+    &buf[(cmp::min(pos, buf.len() as u64) as usize)..]
+}
+
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
 /// `AsMut<[u8]>` for use with `Blob::slice()` and `Blob::slice_mut()`.
 ///
@@ -56,16 +63,17 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        unconsumed(self.0.get_ref().as_ref(), self.0.position())
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let start = cmp::min(pos, buf.len() as u64) as usize;
+        &mut buf[start..]
     }
 }
 
@@ -83,8 +91,7 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
-        let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        unconsumed(*self.get_ref(), self.position())
     }
 }
 
-- 
2.43.0


From a38595b96ab5360a08d921eba72d9eb79315166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 07/12] fix: fail instead of overflowing when a dynamic blob
 header does not fit

Near the maximum stream position the nominal length underflowed, after
the descriptor had already been written.
---
 src/stream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index f125bf6..aebbae8 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -898,6 +898,11 @@ impl<R> Stream<R> {
     fn write_desc_with_blob_dynamic(&mut self, desc: wire::ParsedDescriptor)
                                     -> Result<Blob<R>>
     where R : Write + Seek {
+        // 10 bytes length + 1 byte tag
+        const OVERHEAD: u64 = 11;
+
+        self.commit()?;
+        self.check_advance_pos(OVERHEAD)?;
         self.write_desc(desc)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
-- 
2.43.0


From 8a431cc72ec1e9b1e03a299c29cb81ab48d19387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 08/12] fix: detect truncation of a blob which is skipped by
 seeking

Seeking past the end of the input succeeds, so a truncated blob at the end
of the stream went unnoticed if EOF was being handled gracefully.
---
 src/stream.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index aebbae8..06ae80a 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -382,11 +382,22 @@ impl<R> Stream<R> {
                 Ok(first + second)
             }
         } else {
-            // Otherwise, try to seek directly.
+            // Otherwise, try to seek directly. Seeking beyond the end of the
+            // input generally succeeds, so only seek to the last byte and then
+            // actually read it to be sure that it exists.
             self.check_advance_pos(n)?;
-            if seek(&mut self.inner, io::SeekFrom::Current(n as i64)).is_ok() {
-                self.pos += n;
-                Ok(n)
+            if 0 == n { return Ok(0); }
+            if let Ok(last) = seek(&mut self.inner,
+                                   io::SeekFrom::Current((n - 1) as i64)) {
+                self.pos += n - 1;
+                if 1 == self.skip_by_discard(1)? {
+                    Ok(n)
+                } else {
+                    let end = min(
+                        last, seek(&mut self.inner, io::SeekFrom::End(0))?);
+                    self.pos -= min(n - 1, last - end);
+                    Ok(n - 1 - min(n - 1, last - end))
+                }
             } else {
                 // If seeking failed (maybe the underlying file descriptor isn't
                 // actually seekable?), fall back to read+discard.
-- 
2.43.0


From 12f3a5e9d18d34c9ad8da48d899a8152c53cb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 09/12] fix: make Blob::ext_slice consume the blob as
 documented

---
 src/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 06ae80a..fa73336 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1232,6 +1232,10 @@ impl<'d, R : 'd> Blob<'d, R> {
         if remaining > (buf.len() as u64) {
             Err(Error::TruncatedBlob(remaining - (buf.len() as u64)))
         } else {
+            // When reading, committing is what skips to the end of the blob.
+            if let Some(Nd(skip)) = self.stream.commit {
+                skip(self.stream)?;
+            }
             Ok(&buf[..(remaining as usize)])
         }
     }
-- 
2.43.0


From 3ee0d84004da34a71f2bdec788bcc9ba28bf661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 10/12] fix: respect limits lowered by a per-level config

---
 src/de.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 6a6f4fa..80a51e0 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -324,11 +324,14 @@ impl<'a> Context<'a> {
     /// to `max_collect`, update the running collection count and return `Ok`.
     /// Otherwise, return an error.
     pub fn collect(&self, n: usize) -> Result<()> {
-        if self.config.max_collect - self.stats.collected.get() < n {
-            Err(Error::MaxCollectExceeded(self.to_string()))
-        } else {
-            self.stats.collected.set(self.stats.collected.get() + n);
-            Ok(())
+        // The config may differ between levels, so the amount already
+        // collected is not necessarily within this level's limit.
+        match self.stats.collected.get().checked_add(n) {
+            Some(sum) if sum <= self.config.max_collect => {
+                self.stats.collected.set(sum);
+                Ok(())
+            },
+            _ => Err(Error::MaxCollectExceeded(self.to_string())),
         }
     }
 
@@ -336,12 +339,12 @@ impl<'a> Context<'a> {
     /// `max_blob`, update the running sum and return `Ok`. Otherwise, return
     /// an error.
     pub fn blob(&self, n: u64) -> Result<()> {
-        if ((self.config.max_blob - self.stats.total_blob.get()) as u64) < n {
-            Err(Error::MaxBlobExceeded(self.to_string()))
-        } else {
-            self.stats.total_blob.set(
-                self.stats.total_blob.get() + (n as usize));
-            Ok(())
+        match (self.stats.total_blob.get() as u64).checked_add(n) {
+            Some(sum) if sum <= self.config.max_blob as u64 => {
+                self.stats.total_blob.set(sum as usize);
+                Ok(())
+            },
+            _ => Err(Error::MaxBlobExceeded(self.to_string())),
         }
     }
 }
-- 
2.43.0


From 0e3f3b9f33567b2cbcbe6e1b8a36970b7a8dc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 11/12] fix: let skip_up end at the end of the document
 whatever the depth was set to

---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index fa73336..cab1190 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -671,6 +671,9 @@ impl<R> Stream<R> {
                          -> Result<Element<R>>
     where R : Read {
         if self.eof {
+            // The depth may have been changed since the end was found, and
+            // `skip_up` counts on EndOfDoc resetting it.
+            self.struct_depth = 0;
             return Ok(Element::EndOfDoc);
         }
 
-- 
2.43.0


From 3ae83b2d8492e5d4e88b9bb04437ec91ed00d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:21 +0000
Subject: [PATCH 12/12] fix: let a retried commit finish a dynamic blob instead
 of emptying it

If the seek back to the end of a dynamically sized blob failed, committing
again computed the length anew from the position of the header, and
overwrote the length with zero while reporting success.
---
 src/stream.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cab1190..c8943e2 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -947,8 +947,19 @@ impl<R> Stream<R> {
         self.inner.seek(io::SeekFrom::Current(-(displacement as i64)))?;
         self.pos -= displacement;
         wire::encode_fixed_u64(&mut self.track(false), blob_end - blob_start)?;
-        self.inner.seek(io::SeekFrom::Current((blob_end - blob_start) as i64))?;
-        self.pos = blob_end;
+
+        // The current position no longer tells where the blob ends, so if the
+        // seek fails, another commit must not determine the length anew.
+        self.blob_end = blob_end;
+        self.commit = Some(Nd(Self::return_to_blob_end));
+        self.return_to_blob_end()
+    }
+
+    fn return_to_blob_end(&mut self) -> Result<()>
+    where R : Seek {
+        let displacement = self.blob_end.wrapping_sub(self.pos) as i64;
+        self.inner.seek(io::SeekFrom::Current(displacement))?;
+        self.pos = self.blob_end;
         Ok(())
     }
 
-- 
2.43.0

