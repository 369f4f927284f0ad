From 0b0da14cc6049320870348f0aa13f7ba49b9257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 01/24] fix: do not yield a trailing CR which may belong to the
 boundary's CRLF

When the buffer of BoundaryReader ended between the CR and the LF preceding a boundary, the CR
was returned as field data and the delimiter was no longer recognised as preceded by CRLF, so the
field's data depended on how the body was segmented.
---
 src/server/boundary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..ff84c21 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -97,6 +97,12 @@ impl<R> BoundaryReader<R> where R: Read {
             }
         }
 
+        // don't yield a trailing CR yet, it could be the first half of a boundary's preceding CRLF
+        if self.state == Searching && self.search_idx > 0 && self.search_idx == buf.len()
+            && buf[self.search_idx - 1] == b'\r' {
+            self.search_idx -= 1;
+        }
+
         let ret_buf = &buf[..self.search_idx];
 
         trace!("Returning buf: {:?}", String::from_utf8_lossy(ret_buf));
-- 
2.43.0


From 4cf83b0569fea0ba6fbe38eac60ceb07b0169534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 02/24] fix: verify a found boundary only after discarding the
 unread data before it

With unread field data in front of a boundary which ends exactly where the buffer ends,
consume_boundary() reported 'not enough bytes to verify boundary' although the rest of the
request was still to come.
---
 src/server/boundary.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index ff84c21..b4d8df6 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -137,14 +137,18 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard any unread data before the boundary so that the minimum buffer size applies
+        // to the boundary itself and not to the data in front of it
+        let unread = self.search_idx;
+        self.consume(unread);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
             // if the boundary is found we should have at least this much in-buffer
-            let mut consume_amt = self.search_idx + self.boundary.len();
+            let mut consume_amt = self.boundary.len();
 
-            // we don't care about data before the cursor
-            let bnd_segment = &buf[self.search_idx..];
+            let bnd_segment = buf;
 
             if bnd_segment.starts_with(b"\r\n") {
                 // preceding CRLF needs to be consumed as well
-- 
2.43.0


From f401762395aae6477021303da9455750c797f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 03/24] fix: make room in the buffer when a large minimum
 buffer size is set

With set_min_buf_size() close to the capacity of the buffer, the buffered data could be left at
the end of the buffer with no space to read into, and the field was reported to end there.
---
 src/server/boundary.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index b4d8df6..c75dc0c 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -55,6 +55,14 @@ impl<R> BoundaryReader<R> where R: Read {
     }
 
     fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+        // `MinBuffered` only moves the data to the head of the buffer if the free space is at least
+        // the minimum; otherwise it may be left with no space to read into
+        let (buf_len, min_buffered) = (self.source.buf_len(), self.source.policy().0);
+
+        if buf_len < min_buffered && self.source.capacity() - buf_len < min_buffered {
+            self.source.make_room();
+        }
+
         let buf = self.source.fill_buf()?;
 
         trace!("Buf: {:?}", String::from_utf8_lossy(buf));
-- 
2.43.0


From e633020fa72da7d3883b82a154c45a15596adbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 04/24] fix: accept field headers longer than the minimum
 buffer size however they arrive

Headers of more than 1024 bytes were only accepted if they happened to be buffered at once, and
rejected as too large if the body arrived in smaller pieces.
---
 src/server/field.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..37e13d7 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -20,6 +20,9 @@ use self::ReadEntryResult::*;
 
 use super::save::SaveBuilder;
 
+/// The maximum length of the headers section of a field, the capacity of the read buffer.
+const MAX_HEADERS_LEN: usize = 8 * 1024;
+
 const EMPTY_STR_HEADER: StrHeader<'static> = StrHeader { name: "", val: "" };
 
 macro_rules! invalid_cont_disp {
@@ -435,8 +438,22 @@ pub trait PrivReadEntry {
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
-        FieldHeaders::read_from(self.source_mut())
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+        let mut min_buf_size = super::boundary::MIN_BUF_SIZE;
+
+        let res = loop {
+            match FieldHeaders::read_from(self.source_mut()) {
+                // the headers may simply be longer than what has been buffered so far
+                Err(ParseHeaderError::TooLarge) if min_buf_size < MAX_HEADERS_LEN => {
+                    min_buf_size *= 2;
+                    self.set_min_buf_size(min_buf_size);
+                }
+                res => break res,
+            }
+        };
+
+        self.set_min_buf_size(super::boundary::MIN_BUF_SIZE);
+
+        res.map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
     }
 
     fn read_to_string(&mut self) -> io::Result<String> {
-- 
2.43.0


From 70430cbbd72e2a711f7d320f4fec905780a1f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 05/24] fix: report I/O errors while reading field headers as
 they are and read the headers on retry

An I/O error in the middle of a field's headers was turned into InvalidData, and the next call
skipped to the following boundary, silently dropping the field.
---
 src/server/field.rs | 32 ++++++++++++++++++++++++++++----
 src/server/mod.rs   | 15 +++++++++++++--
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 37e13d7..855bd06 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -97,10 +97,10 @@ where
 fn copy_headers<'h, 'b: 'h>(
     raw: &[Header<'b>],
     headers: &'h mut [StrHeader<'b>],
-) -> io::Result<&'h [StrHeader<'b>]> {
+) -> Result<&'h [StrHeader<'b>], ParseHeaderError> {
     for (raw, header) in raw.iter().zip(&mut *headers) {
         header.name = raw.name;
-        header.val = io_str_utf8(raw.value)?;
+        header.val = str_utf8(raw.value)?;
     }
 
     Ok(&headers[..raw.len()])
@@ -371,8 +371,8 @@ fn get_str_after<'a>(
     ))
 }
 
-fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-    str::from_utf8(buf).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+fn str_utf8(buf: &[u8]) -> Result<&str, ParseHeaderError> {
+    str::from_utf8(buf).map_err(ParseHeaderError::from)
 }
 
 fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>> {
@@ -435,8 +435,14 @@ pub trait PrivReadEntry {
 
     /// Consume the next boundary.
     /// Returns `true` if a field should follow, `false` otherwise.
+    ///
+    /// If the headers following the last boundary are yet to be read because of an I/O error,
+    /// this returns `true` again.
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
+    /// Called when there's nothing left to be read of the headers following the last boundary.
+    fn headers_done(&mut self);
+
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
         let mut min_buf_size = super::boundary::MIN_BUF_SIZE;
 
@@ -453,6 +459,13 @@ pub trait PrivReadEntry {
 
         self.set_min_buf_size(super::boundary::MIN_BUF_SIZE);
 
+        if let Err(ParseHeaderError::Io(e)) = res {
+            // not an error in the headers themselves, reading them may be tried again
+            return Err(e);
+        }
+
+        self.headers_done();
+
         res.map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
     }
 
@@ -480,6 +493,10 @@ impl<'a, M: ReadEntry> PrivReadEntry for &'a mut M {
     fn consume_boundary(&mut self) -> io::Result<bool> {
         (**self).consume_boundary()
     }
+
+    fn headers_done(&mut self) {
+        (**self).headers_done()
+    }
 }
 
 /// Ternary result type returned by `ReadEntry::next_entry()`,
@@ -573,6 +590,13 @@ quick_error! {
             description("Failed to parse Content-Type")
             display(this) -> ("{}: {}", this.description(), cont_type)
         }
+        /// A header's value is not valid UTF-8
+        Utf8Error(err: str::Utf8Error) {
+            description(GENERIC_PARSE_ERR)
+            display(x) -> ("{}: {}", x.description(), err)
+            cause(err)
+            from()
+        }
         TooLarge {
             description("field headers section ridiculously long or missing trailing CRLF-CRLF")
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 8cd01a0..d0f4d9c 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -78,6 +78,8 @@ pub mod save;
 /// Implements `Borrow<R>` to allow access to the request body, if desired.
 pub struct Multipart<R> {
     reader: BoundaryReader<R>,
+    /// A boundary has been consumed but the headers following it have not been read.
+    headers_pending: bool,
 }
 
 impl Multipart<()> {
@@ -112,6 +114,7 @@ impl<R: Read> Multipart<R> {
 
         Multipart { 
             reader: BoundaryReader::from_reader(body, boundary),
+            headers_pending: false,
         }
     }
 
@@ -175,8 +178,16 @@ impl<R: Read> PrivReadEntry for Multipart<R> {
     /// Consume the next boundary.
     /// Returns `true` if a field should follow this boundary, `false` otherwise.
     fn consume_boundary(&mut self) -> io::Result<bool> {
-        debug!("Consume boundary!");
-        self.reader.consume_boundary()
+        if !self.headers_pending {
+            debug!("Consume boundary!");
+            self.headers_pending = self.reader.consume_boundary()?;
+        }
+
+        Ok(self.headers_pending)
+    }
+
+    fn headers_done(&mut self) {
+        self.headers_pending = false;
     }
 }
 
-- 
2.43.0


From 4529e6f89c8400d963a4d61b63028914dae69cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 06/24] fix: apply the size limit exactly and to the whole
 field

The limit was checked per buffer and dropped the whole buffer which crossed it, and a file was
allowed a further size_limit bytes on top of what had been read to memory before.
---
 src/server/save.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..db1ad11 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -422,7 +422,13 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // the data already written counts towards the limit
+        let limit = match self.size_limit {
+            u64::MAX => u64::MAX,
+            limit => limit - data.size(),
+        };
+
+        self.write_limited(file, limit).map(move |written| data.add_size(written))
     }
 
 
@@ -432,9 +438,14 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
-        if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        let limit = self.size_limit;
+        self.write_limited(dest, limit)
+    }
+
+    fn write_limited<W: Write>(&mut self, mut dest: W, limit: u64) -> SaveResult<u64, u64> {
+        if limit < u64::MAX {
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
@@ -970,13 +981,24 @@ fn create_dir_all(path: &Path) -> io::Result<()> {
 }
 
 fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(src: R, mut with_buf: Wb, limit: u64) -> SaveResult<u64, u64> {
-    let mut copied = 0u64;
+    let mut remaining = limit;
     try_read_buf(src, |buf| {
-        let new_copied = copied.saturating_add(buf.len() as u64);
-        if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
+        let over_limit = buf.len() as u64 > remaining;
+
+        // truncate exactly to the limit
+        let res = with_buf(if over_limit { &buf[..remaining as usize] } else { buf });
 
-        with_buf(buf)
+        if let Full(copied) | Partial(copied, _) = res {
+            remaining -= copied as u64;
+        }
+
+        match res {
+            Full(copied) if over_limit && remaining == 0 => Partial(copied, PartialReason::SizeLimit),
+            // the character was cut short by the limit
+            Partial(copied, Utf8Error(ref e)) if over_limit && e.error_len().is_none() =>
+                Partial(copied, PartialReason::SizeLimit),
+            res => res,
+        }
     })
 }
 
-- 
2.43.0


From fd68a1143fd371a7bfbcb93550fe1e1c75b4e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 07/24] fix: detect invalid UTF-8 when saving text however the
 field is buffered

An invalid sequence in the middle of a buffer made the save loop forever once it was at the start
of a buffer of 4 bytes or more.
---
 src/server/save.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index db1ad11..a5e3d4b 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -469,13 +469,18 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
-                        Partial(0, e.into())
+                Err(e) => {
+                    let valid = e.valid_up_to();
+                    string.push_str(str::from_utf8(&buf[..valid]).unwrap());
+
+                    // a character may just be cut short by the end of the buffer,
+                    // unless there's nothing else left
+                    if e.error_len().is_none() && valid > 0 {
+                        Full(valid)
                     } else {
-                        string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
-                        Full(e.valid_up_to())
+                        Partial(valid, e.into())
                     }
+                }
             }
         }, 0);
 
-- 
2.43.0


From d922d378b17674a9c7f57496dd625aa1e5c48b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 08/24] fix: keep a file that was created and data read to
 memory in the result of a failed save

When writing to a newly created file failed at once, or the source failed before the first write,
the result was Error and did not name the file; when the file could not be opened, the data
which had already been read to memory was dropped.
---
 src/server/save.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index a5e3d4b..8a8a357 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -39,15 +39,6 @@ macro_rules! try_start (
     )
 );
 
-macro_rules! try_full (
-    ($try:expr) => {
-        match $try {
-            Full(full) => full,
-            other => return other,
-        }
-    }
-);
-
 macro_rules! try_partial (
     ($try:expr) => {
         match $try {
@@ -414,13 +405,18 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let mut file = match create_dir_all(&path).and_then(|_| self.open_opts.open(&path)) {
             Ok(file) => file,
-            Err(e) => return Error(e),
+            // nothing has been read yet
+            Err(e) => return if bytes.is_empty() { Error(e) }
+                             // don't lose what has been read to memory
+                             else { Partial(bytes.into(), e.into()) },
         };
 
-        let data = try_full!(
-            try_write_all(&bytes, &mut file)
-                .map(move |size| SavedData::File(path, size as u64))
-        );
+        // from here on the file has to be part of the result
+        let data = match try_write_all(&bytes, &mut file) {
+            Full(size) => SavedData::File(path, size as u64),
+            Partial(size, reason) => return Partial(SavedData::File(path, size as u64), reason),
+            Error(e) => return Partial(SavedData::File(path, 0), e.into()),
+        };
 
         // the data already written counts towards the limit
         let limit = match self.size_limit {
@@ -428,7 +424,11 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
             limit => limit - data.size(),
         };
 
-        self.write_limited(file, limit).map(move |written| data.add_size(written))
+        match self.write_limited(file, limit) {
+            Full(written) => Full(data.add_size(written)),
+            Partial(written, reason) => Partial(data.add_size(written), reason),
+            Error(e) => Partial(data, e.into()),
+        }
     }
 
 
-- 
2.43.0


From 15ef13ffa78fbd80eb03345a84361bad33c5b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 09/24] fix: report the count limit only for an excess field
 and hand that field back

A request with exactly count_limit fields was reported as over the limit, the headers of the
first excess field were lost, and Intercept never finished such a request in lenient mode.
---
 src/server/save.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 8a8a357..c98b7a6 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -297,7 +297,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -310,6 +310,20 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            if entries.fields_count >= count_limit {
+                // hand the field back as its headers have already been read
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit,
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -331,14 +345,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From 8b596b51c4121fe5c0426b97cf8a39888f2ee2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 10/24] fix: save into the temporary directory in
 with_filename()

The name of the temporary directory itself was replaced instead, so that the file was created in
the parent of the temporary directory.
---
 src/server/save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index c98b7a6..08c654c 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -364,10 +364,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
-
-        self.with_path(tempdir)
+        let path = env::temp_dir().join(filename);
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 574adec4303d47524a4cf697d51b8dcbff52a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 11/24] fix: count text fields in the content length of a lazy
 request

---
 src/client/lazy.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..7117c4e 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -312,6 +312,7 @@ impl<'d> PreparedFields<'d> {
             boundary.push_str("--");
         }
 
+        content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
 
         Ok(PreparedFields {
-- 
2.43.0


From 8f49a2e9692bb82d22eb2ac60ccc4d63e1266ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 12/24] fix: close the body of a lazy request without fields

boundary() panicked for such a request, and its body was empty and had no boundary at all.
---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7117c4e..7bde2f5 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // always write the closing boundary, even for empty bodies
+        boundary.push_str("--");
 
         content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
-- 
2.43.0


From 6158997ad00c09cee25ac2c7543060c12356c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 13/24] fix: do not lose data of a lazy request when a later
 source fails in the same read

---
 src/client/lazy.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7bde2f5..523224b 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -343,10 +343,9 @@ impl<'d> Read for PreparedFields<'d> {
 
         let mut total_read = 0;
 
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
-            let buf = &mut buf[total_read..];
-
-            total_read += if !cursor_at_end(&self.text_data) {
+        // return as soon as there's data so that it isn't lost if the next source fails
+        while total_read == 0 && !cursor_at_end(&self.end_boundary) {
+            total_read = if !cursor_at_end(&self.text_data) {
                 self.text_data.read(buf)?
             } else if let Some(mut field) = self.streams.pop() {
                 match field.read(buf) {
-- 
2.43.0


From 7fb1f67a55e096851373593ee6609cdf0c3b5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 14/24] fix: do not finish a client request after a field was
 not written completely

After a failed write_*() call, further fields and the closing boundary could still be sent, so that
the server received a truncated field as a complete one.
---
 src/client/mod.rs | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..c93a5ea 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -223,6 +223,8 @@ struct MultipartWriter<'a, W> {
     inner: W,
     boundary: Cow<'a, str>,
     data_written: bool,
+    /// Set if writing failed, the body may have been left with an incomplete field.
+    failed: Option<io::ErrorKind>,
 }
 
 impl<'a, W: Write> MultipartWriter<'a, W> {
@@ -231,9 +233,33 @@ impl<'a, W: Write> MultipartWriter<'a, W> {
             inner,
             boundary: boundary.into(),
             data_written: false,
+            failed: None,
         }
     }
 
+    fn check_failed(&self) -> io::Result<()> {
+        match self.failed {
+            Some(kind) => Err(io::Error::new(kind, "a previous write to this request failed")),
+            None => Ok(()),
+        }
+    }
+
+    /// Do nothing if a previous write failed, and remember if this one does.
+    fn try_write<F>(&mut self, write: F) -> io::Result<()>
+    where
+        F: FnOnce(&mut Self) -> io::Result<()>,
+    {
+        self.check_failed()?;
+
+        let res = write(self);
+
+        if let Err(ref err) = res {
+            self.failed = Some(err.kind());
+        }
+
+        res
+    }
+
     fn write_boundary(&mut self) -> io::Result<()> {
         if self.data_written {
             self.inner.write_all(b"\r\n")?;
@@ -243,10 +269,10 @@ impl<'a, W: Write> MultipartWriter<'a, W> {
     }
 
     fn write_text(&mut self, name: &str, text: &str) -> io::Result<()> {
-        chain_result! {
-            self.write_field_headers(name, None, None),
-            self.inner.write_all(text.as_bytes())
-        }
+        self.try_write(|this| chain_result! {
+            this.write_field_headers(name, None, None),
+            this.inner.write_all(text.as_bytes())
+        })
     }
 
     fn write_file(&mut self, name: &str, path: &Path) -> io::Result<()> {
@@ -265,11 +291,11 @@ impl<'a, W: Write> MultipartWriter<'a, W> {
         // This is necessary to make sure it is interpreted as a file on the server end.
         let content_type = Some(content_type.unwrap_or(mime::APPLICATION_OCTET_STREAM));
 
-        chain_result! {
-            self.write_field_headers(name, filename, content_type),
-            io::copy(stream, &mut self.inner),
+        self.try_write(|this| chain_result! {
+            this.write_field_headers(name, filename, content_type),
+            io::copy(stream, &mut this.inner),
             Ok(())
-        }
+        })
     }
 
     fn write_field_headers(
@@ -292,6 +318,9 @@ impl<'a, W: Write> MultipartWriter<'a, W> {
     }
 
     fn finish(mut self) -> io::Result<W> {
+        // don't make a body with an incomplete field look complete
+        self.check_failed()?;
+
         if self.data_written {
             self.inner.write_all(b"\r\n")?;
         }
-- 
2.43.0


From 37e1152f179ed67e1e88ef3623bc267c25446dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 15/24] fix: do not send a body if the request refused the
 multipart headers

---
 src/client/lazy.rs |  4 +++-
 src/client/mod.rs  | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 523224b..9ab7079 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -202,7 +202,9 @@ impl<'n, 'd> Multipart<'n, 'd> {
     {
         let mut prepared = self.prepare().map_err(LazyError::transform_err)?;
 
-        req.apply_headers(prepared.boundary(), prepared.content_len());
+        if !req.apply_headers(prepared.boundary(), prepared.content_len()) {
+            return Err(LazyError::without_field(super::headers_refused()));
+        }
 
         let mut stream = try_lazy!(req.open_stream());
 
diff --git a/src/client/mod.rs b/src/client/mod.rs
index c93a5ea..9a7be0c 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -210,12 +210,23 @@ fn gen_boundary() -> String {
     ::random_alphanumeric(BOUNDARY_LEN)
 }
 
+fn headers_refused() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Other,
+        "the request refused the multipart headers",
+    )
+}
+
 fn open_stream<R: HttpRequest>(
     mut req: R,
     content_len: Option<u64>,
 ) -> Result<(String, R::Stream), R::Error> {
     let boundary = gen_boundary();
-    req.apply_headers(&boundary, content_len);
+
+    if !req.apply_headers(&boundary, content_len) {
+        return Err(headers_refused().into());
+    }
+
     req.open_stream().map(|stream| (boundary, stream))
 }
 
-- 
2.43.0


From 672b7130e1eb07fa66e2c324002307b0a47a6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 16/24] fix: do not repeat bytes in the inner writer of
 StdoutTee

If standard output took only a part of a buffer or was interrupted, the caller passed the rest
again and it was written to the inner writer twice.
---
 src/mock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..408012a 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -192,8 +192,10 @@ impl<'s, W> StdoutTee<'s, W> {
 
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        // write the same bytes to both, so that the caller doesn't pass any of them again
+        let written = self.inner.write(buf)?;
+        self.stdout.write_all(&buf[..written])?;
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 19768e592e1ea61ff6f7714c21917b56b44e23da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 17/24] fix: Intercept: create the configured parent directory
 if it does not exist

---
 src/server/iron.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..3816074 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -10,7 +10,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -128,7 +128,10 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| {
+                        fs::create_dir_all(path)?;
+                        tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    }
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From a0c2cf1aded1167de480064e3fccd52f3f0b0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 18/24] fix: parse parameters of Content-Disposition in any
 order and with semicolons in quotes

---
 src/server/field.rs | 67 +++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 855bd06..7b933b2 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -169,7 +169,7 @@ impl ContentDisp {
             Some((disp_type, after_disp_type)) => {
                 // assert Content-Disposition: form-data
                 // but needs to be parsed out to trim the spaces (allowed by spec IIRC)
-                if disp_type.trim() != "form-data" {
+                if !disp_type.trim().eq_ignore_ascii_case("form-data") {
                     invalid_cont_disp!("unexpected Content-Disposition value", disp_type);
                 }
                 after_disp_type
@@ -180,21 +180,18 @@ impl ContentDisp {
             ),
         };
 
-        // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let field_name = match get_param("name", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => trim_quotes(field_name),
         };
 
+        let filename =
+            get_param("filename", after_disp_type).map(|filename| trim_quotes(filename).to_owned());
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -355,20 +352,42 @@ fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Get the value of the given header parameter, including any quotes around it.
+///
+/// The parameters may come in any order; a `;` in a quoted value doesn't end that value.
+fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+    let mut rest = params;
+
+    while !rest.is_empty() {
+        let name_end = rest.find(|c| c == '=' || c == ';').unwrap_or(rest.len());
+        let (param_name, value) = rest.split_at(name_end);
+
+        if !value.starts_with('=') {
+            // not a parameter with a value
+            rest = value.get(1..).unwrap_or("");
+            continue;
+        }
+
+        let value = &value[1..];
+
+        // skip to the closing quote, if there is one
+        let quoted_len = match value.trim_start().starts_with('"') {
+            true => value.match_indices('"').nth(1).map_or(0, |(idx, _)| idx),
+            false => 0,
+        };
+
+        let value_end = value[quoted_len..]
+            .find(';')
+            .map_or(value.len(), |end_idx| end_idx + quoted_len);
+
+        if param_name.trim().eq_ignore_ascii_case(name) {
+            return Some(value[..value_end].trim());
+        }
+
+        rest = value.get(value_end + 1..).unwrap_or("");
+    }
+
+    None
 }
 
 fn str_utf8(buf: &[u8]) -> Result<&str, ParseHeaderError> {
-- 
2.43.0


From d0382d08b76fee4a34423ee4c7b81715d3b02e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 19/24] fix: hyper: recognise a boundary that hyper parses as a
 charset name

---
 src/server/hyper.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..f1fe845 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -16,7 +16,7 @@ use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
+use hyper::mime::{Mime, TopLevel, SubLevel, Attr};
 
 use super::{Multipart, HttpRequest};
 
@@ -89,12 +89,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
@@ -123,12 +118,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
-- 
2.43.0


From 4cc88ea93eb3d20dbc73ee662e35849975aee126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 20/24] fix: nickel: only accept multipart/form-data requests

---
 src/server/nickel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..5c1f5bb 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,7 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::mime::{Mime, SubLevel, TopLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -21,7 +22,11 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 41fabc4a7206b47e7cde8f4aabd276cb1e306df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 21/24] fix: lazy: keep to the announced content length if a
 file changes while it is sent

---
 src/client/lazy.rs | 55 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 9ab7079..d8c0cc1 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -8,7 +8,7 @@ use std::path::{Path, PathBuf};
 
 use std::io::prelude::*;
 use std::io::Cursor;
-use std::{fmt, io};
+use std::{cmp, fmt, io};
 
 use super::{HttpRequest, HttpStream};
 
@@ -290,7 +290,10 @@ impl<'d> PreparedFields<'d> {
                 .unwrap(),
                 Data::File(file) => {
                     let (stream, len) = PreparedField::from_path(field.name, &file, &boundary)?;
-                    content_len += len;
+                    match len {
+                        Some(len) => content_len += len,
+                        None => use_len = false,
+                    }
                     streams.push(stream);
                 }
                 Data::Stream(stream) => {
@@ -376,17 +379,28 @@ impl<'d> PreparedField<'d> {
         name: Cow<'n, str>,
         path: &Path,
         boundary: &str,
-    ) -> Result<(Self, u64), LazyIoError<'n>> {
+    ) -> Result<(Self, Option<u64>), LazyIoError<'n>> {
         let (content_type, filename) = super::mime_filename(&path);
 
         let file = try_lazy!(name, File::open(path));
-        let content_len = try_lazy!(name, file.metadata()).len();
+        let metadata = try_lazy!(name, file.metadata());
+
+        // only the length of a regular file is known beforehand
+        if !metadata.is_file() {
+            let stream = Self::from_stream(&name, boundary, &content_type, filename, Box::new(file));
+            return Ok((stream, None));
+        }
+
+        let file = SizedFile {
+            file,
+            remaining: metadata.len(),
+        };
 
         let stream = Self::from_stream(&name, boundary, &content_type, filename, Box::new(file));
 
-        let content_len = content_len + (stream.header.get_ref().len() as u64);
+        let content_len = metadata.len() + (stream.header.get_ref().len() as u64);
 
-        Ok((stream, content_len))
+        Ok((stream, Some(content_len)))
     }
 
     fn from_stream(
@@ -430,6 +444,35 @@ impl<'d> Read for PreparedField<'d> {
     }
 }
 
+/// A file which is read to the length it was measured at, as that was announced
+/// as part of the content-length.
+struct SizedFile {
+    file: File,
+    remaining: u64,
+}
+
+impl Read for SizedFile {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let max = cmp::min(buf.len() as u64, self.remaining) as usize;
+
+        if max == 0 {
+            return Ok(0);
+        }
+
+        let read = self.file.read(&mut buf[..max])?;
+
+        if read == 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "file was truncated while it was being read",
+            ));
+        }
+
+        self.remaining -= read as u64;
+        Ok(read)
+    }
+}
+
 impl<'d> fmt::Debug for PreparedField<'d> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("PreparedField")
-- 
2.43.0


From 465c8deba28b1aed25d2409d55caedc7539cabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 22/24] fix: tiny_http: only accept multipart/form-data
 requests, and unquote the boundary

---
 src/server/field.rs     |  4 ++--
 src/server/tiny_http.rs | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 7b933b2..4c72b99 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -348,14 +348,14 @@ fn split_once(s: &str, delim: char) -> Option<(&str, &str)> {
     s.find(delim).map(|idx| s.split_at(idx))
 }
 
-fn trim_quotes(s: &str) -> &str {
+pub(crate) fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
 /// Get the value of the given header parameter, including any quotes around it.
 ///
 /// The parameters may come in any order; a `;` in a quoted value doesn't end that value.
-fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+pub(crate) fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
     let mut rest = params;
 
     while !rest.is_empty() {
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..0e7e895 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,7 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use super::field::{get_param, trim_quotes};
 use super::HttpRequest;
 
 use std::io::Read;
@@ -14,20 +15,21 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        const BOUNDARY: &str = "boundary=";
-
         let content_type = try_opt!(self
             .headers()
             .iter()
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
 
-        Some(&content_type[start..end])
+        let params_start = try_opt!(content_type.find(';'));
+        let (media_type, params) = content_type.split_at(params_start);
+
+        if !media_type.trim().eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
+
+        get_param("boundary", &params[1..]).map(trim_quotes)
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 98695d04de4a6ab60a6181bdd8fd000374175192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 23/24] fix: don't read from the source again once it has
 reported its end

---
 src/server/boundary.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index c75dc0c..9ff6cb7 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -37,6 +37,8 @@ pub struct BoundaryReader<R> {
     boundary: Vec<u8>,
     search_idx: usize,
     state: State,
+    /// The source has reported its end. It's not read again as not every reader allows that.
+    source_ended: bool,
 }
 
 impl<R> BoundaryReader<R> where R: Read {
@@ -51,10 +53,16 @@ impl<R> BoundaryReader<R> where R: Read {
             boundary,
             search_idx: 0,
             state: Searching,
+            source_ended: false,
         }
     }
 
-    fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+    /// Make sure that the minimum is buffered, unless the source has less left.
+    fn fill_buffer(&mut self) -> io::Result<()> {
+        if self.source_ended {
+            return Ok(());
+        }
+
         // `MinBuffered` only moves the data to the head of the buffer if the free space is at least
         // the minimum; otherwise it may be left with no space to read into
         let (buf_len, min_buffered) = (self.source.buf_len(), self.source.policy().0);
@@ -63,7 +71,16 @@ impl<R> BoundaryReader<R> where R: Read {
             self.source.make_room();
         }
 
-        let buf = self.source.fill_buf()?;
+        // less than the minimum is only returned at the end of the source
+        self.source_ended = self.source.fill_buf()?.len() < min_buffered;
+
+        Ok(())
+    }
+
+    fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+        self.fill_buffer()?;
+
+        let buf = self.source.buffer();
 
         trace!("Buf: {:?}", String::from_utf8_lossy(buf));
 
@@ -150,8 +167,10 @@ impl<R> BoundaryReader<R> where R: Read {
         let unread = self.search_idx;
         self.consume(unread);
 
+        self.fill_buffer()?;
+
         let consume_amt = {
-            let buf = self.source.fill_buf()?;
+            let buf = self.source.buffer();
 
             // if the boundary is found we should have at least this much in-buffer
             let mut consume_amt = self.boundary.len();
@@ -243,6 +262,7 @@ impl<'a> BoundaryReader<io::Cursor<&'a [u8]>> {
         self.source.seek(io::SeekFrom::Start(0));
         self.state = Searching;
         self.search_idx = 0;
+        self.source_ended = false;
     }
 }
 
-- 
2.43.0


From d9c35c629f8506d69057368c25b109e9178a19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 24/24] fix: create the directory given to with_dir(), not only
 its parents

---
 src/server/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 08c654c..f2f5ee2 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -262,7 +262,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
     pub fn with_dir<P: Into<PathBuf>>(self, dir: P) -> EntriesSaveResult<M> {
         let dir = dir.into();
 
-        try_start!(create_dir_all(&dir));
+        try_start!(fs::create_dir_all(&dir));
 
         self.with_entries(Entries::new(SaveDir::Perm(dir)))
     }
-- 
2.43.0

