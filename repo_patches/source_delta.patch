From e9624eca67a237eb8a9d2accda587d21d0e72003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 01/12] fix: zero-length reads at the end of the buffer succeed

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..4d685e9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // There may not be any chunks left, but none are needed.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
-- 
2.43.0


From 5a1131b6e9a50d00c6bad100c700a43f8e7ce0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 02/12] fix: parse_rest on an exhausted buffer returns no bytes

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4d685e9..eab357c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -394,7 +394,11 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From 00890afef8881b33340f749f39184bcdb808fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 03/12] fix: ParseBufCursor::remaining_hint accounts for
 consumed bytes

---
 src/parsebuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..ad655d1 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -234,7 +234,8 @@ unsafe impl<'p> ParseBuf<'p> for ParseBufCursor<'p> {
             .checked_add(count)
             .expect("advanced past the end of the buffer");
 
-        self.len
+        self.len = self
+            .len
             .checked_sub(count)
             .expect("advanced past the end of the buffer");
 
-- 
2.43.0


From f5f0dfe0dc4e7ad96bdf0eeb2c4e3b4b41b4c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 04/12] fix: dispatch PERF_RECORD_SWITCH to visit_switch

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index eab357c..aab58e3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -589,6 +589,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From a98324aa321a884ebf82c51db0a59ba572d44ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 05/12] fix: Namespaces::uts returns the UTS namespace

---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From 0d3211b4af114f6a3fd4f96c4a204dc8724cb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 06/12] fix: parse the weight field of samples with
 PERF_SAMPLE_WEIGHT_STRUCT

---
 src/records/sample.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..34e3704 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,8 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight =
+            p.parse_if(sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT))?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From 89173d69ae725a9309718eeffb21c3bbb4c3869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 07/12] fix: do not parse registers when their ABI is
 PERF_SAMPLE_REGS_ABI_NONE

---
 src/records/sample.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 34e3704..1003395 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -356,10 +356,17 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi = p.parse()?;
+        // The kernel only emits the registers if there is an ABI for them.
+        let len = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(len)? },
         })
     }
 }
-- 
2.43.0


From 3c8c08acf782ec3bf71348ce6511fba07e5205fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 08/12] fix: perf_event_attr parsing consumes exactly attr.size
 bytes

---
 src/impls/perf_event_attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..107b454 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,9 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        let mut p = p.split_at(
+            attr.size as usize - mem::size_of_val(&attr.type_) - mem::size_of_val(&attr.size),
+        )?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From 8b7eae37967092e17d8c436537eaf0bb07d424f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 09/12] fix: splitting an owned cow at either end

---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From 3b09e3f5ace7c38b0841a4655a5ab66d9d73dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 10/12] fix: HexStr writes the digits of each byte

---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From ee2658025eb765c9832da11820163e6b00afc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 11/12] fix: separate the error kind from its source in
 ParseError messages

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From 3f2ce1248d5b282eccfd099209dd1e8fe8e06060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 12/12] fix: the parser returned by parse_metadata knows the
 record's misc flags

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index aab58e3..9f05f4c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -533,7 +533,7 @@ where
         let mut rp = self.split_at(data_len)?;
         // MMAP and SAMPLE records do not have the sample_id struct.
         // All other records do.
-        let (p, sample_id) = match header.type_ {
+        let (mut p, sample_id) = match header.type_ {
             PERF_RECORD_MMAP | PERF_RECORD_SAMPLE => (rp, SampleId::default()),
             _ => {
                 let remaining_len = data_len
@@ -548,6 +548,9 @@ where
             }
         };
 
+        // Some records (e.g. MMAP2) are laid out differently depending on misc.
+        p.config = p.config.with_misc(header.misc);
+
         let metadata = RecordMetadata::new(header, sample_id);
         Ok((p, metadata))
     }
-- 
2.43.0

