From 12f2e33b6ba23705ca08c557da6e97062e78e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 01/39] fix: keep the entry-offset capacity of a basket when an
 entry is long

---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..f46adf7 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -145,7 +145,8 @@ where
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
                 let n = (sz_new - sz_old) as i32;
-                if n > basket.basket.nev_size {
+                // with entry offsets, `nev_size` is the capacity of the offset table
+                if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
                     basket.basket.nev_size = n;
                 }
 
-- 
2.43.0


From ec85922d9a0634dd36249959efdb94f27a309893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 02/39] fix: support vectors of bool when writing

---
 oxyroot/src/rbytes/mod.rs   | 2 +-
 oxyroot/src/rmeta/consts.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..9d17c03 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -175,7 +175,7 @@ macro_rules! impl_marshalers_primitive {
                     "u8" => "uint8_t",
                     "f32" => "float",
                     "f64" => "double",
-
+                    "bool" => "bool",
                     _ => unimplemented!("Marshaler.class_name for {}", type_name::<Self>()),
                 };
                 ret.to_string()
diff --git a/oxyroot/src/rmeta/consts.rs b/oxyroot/src/rmeta/consts.rs
index 4ecd486..6ec6c6f 100644
--- a/oxyroot/src/rmeta/consts.rs
+++ b/oxyroot/src/rmeta/consts.rs
@@ -156,6 +156,7 @@ impl EnumNamed {
             "uint64_t" => Ok(EnumNamed::ULong64),
             "float" => Ok(EnumNamed::Float),
             "double" => Ok(EnumNamed::Double),
+            "bool" => Ok(EnumNamed::Bool),
             _ => unimplemented!("{} not implemented", s),
         }
     }
-- 
2.43.0


From bc1087bfe9741cb31840f535e52d53095bad071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 03/39] fix: recognise the header of a vector entry of 16 MiB
 or more

---
 oxyroot/src/rbytes/rbuffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 955617e..f00f66a 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -517,11 +517,12 @@ impl<'a> RBuffer<'a> {
             }
 
             if self.len() > 1 && s > 1 {
-                let mut hdr = [0; 1];
-                self.read_array_u8_into(&mut hdr)?;
-                self.rewind(1)?;
+                // a header begins with a byte count, flagged by its bit 30
+                let byte_count = self.read_u32()? as i64;
+                self.rewind(4)?;
 
-                if hdr != [64] {
+                let n_bytes = byte_count & !kByteCountMask;
+                if byte_count & kByteCountMask == 0 || n_bytes + 4 > self.len() {
                     return Ok(());
                 }
             }
-- 
2.43.0


From cb4f77505fccf2b6e966ed1368ca2a0c99a6dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 04/39] fix: decompress every block of a record, not only the
 first

---
 oxyroot/src/rcompress.rs | 50 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..f74a2e7 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -54,24 +54,22 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
-pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
-    let _beg = 0;
-    let mut end = 0;
-    let buflen = dst.len() as i64;
+/// Decompress `src`, a sequence of compressed blocks, until `dst` is filled.
+pub fn decompress(mut dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let mut hdr = [0_u8; HEADER_SIZE];
 
-    // let mut v =
-
-    while end < buflen {
-        // let src = src.as_mut();
+    while !dst.is_empty() {
         src.read_exact(&mut hdr)?;
-        // let _ = src.read_exact(dst)?;
-        // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
-        let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
-        // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
-        end += tgtsz;
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        let tgtsz = hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
+
+        if srcsz > src.len() || tgtsz > dst.len() {
+            return Err(Error::Io(std::io::ErrorKind::InvalidData.into()));
+        }
+
+        let (block_src, src_rest) = src.split_at(srcsz);
+        let (block_dst, dst_rest) = dst.split_at_mut(tgtsz);
 
         match kind_of(hdr.as_ref()) {
             Kind::Inherit => {
@@ -82,22 +80,25 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
-                return Ok(0);
+                let mut d = ZlibDecoder::new(block_src);
+                d.read_exact(block_dst)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
+                let mut d = XzDecoder::new(block_src);
+                d.read_exact(block_dst)?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
-                return Ok(0);
-                // let mut d = LZ4Decoder::new(src)?;
-                // d.read_exact(dst.as_mut())?;
+                // the block begins with a checksum of 8 bytes
+                let payload = block_src
+                    .get(8..)
+                    .ok_or(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
+                let n = LZ4_decompress_to_buffer(payload, Some(tgtsz as i32), block_dst)?;
+                if n != tgtsz {
+                    return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+                }
             }
             Kind::Zstd => {
                 unimplemented!()
@@ -106,6 +107,9 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 unimplemented!()
             }
         }
+
+        src = src_rest;
+        dst = dst_rest;
     }
 
     Ok(0)
-- 
2.43.0


From 5d6924a9677e72c4bb753d6968cce1d280dfeb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 05/39] fix: closing a written file flushes it

---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..9346694 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From b9f9dbb30b07da1a92e97384ace2655a1abc1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 06/39] fix: refuse names too long for the 16-bit key length

---
 oxyroot/src/riofs/error.rs |  4 ++++
 oxyroot/src/riofs/key.rs   | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 821c6c7..f0e1716 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -37,6 +37,10 @@ pub enum Error {
     FileIsNotOpened,
     // Writer Errors
     NameContainsSlash(String),
+    KeyTooLong {
+        class: String,
+        key_len: i32,
+    },
     KeyClassMismatch {
         key: String,
         key_class: String,
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..30a7477 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -218,7 +218,7 @@ impl Key {
         f: &mut RootFile,
     ) -> Result<Self> {
         let mut key = Key {
-            key_len: key_len_for(&name, &title, &class, f),
+            key_len: checked_key_len_for(&name, &title, &class, f)?,
             name,
             title,
             class,
@@ -252,7 +252,7 @@ impl Key {
         let indent = name.clone() + "-" + &name;
         trace!(";KEY.new_from_buffer.{indent}.f.end:{:?}", f.end());
         // trace!(";KEY.new_from_buffer.{indent}.buf.value:{:?}", &buf);
-        let key_len = key_len_for(&name, &title, &class, f);
+        let key_len = checked_key_len_for(&name, &title, &class, f)?;
         let obj_len = buf.len() as i32;
         let mut key = Key {
             key_len,
@@ -337,7 +337,7 @@ impl Key {
         trace!(";KEY.new_from_object.title:{:?}", title);
         trace!(";KEY.new_from_object.class:{:?}", class);
 
-        let key_len = key_len_for(name, title, class, f);
+        let key_len = checked_key_len_for(name, title, class, f)?;
         trace!(";KEY.new_from_object.key_len:{:?}", key_len);
 
         let mut buf = WBuffer::new(key_len as u32);
@@ -510,6 +510,18 @@ impl Key {
     }
 }
 
+/// The length of a key is stored on 16 bits: names that do not fit are refused
+fn checked_key_len_for(name: &str, title: &str, class: &str, f: &RootFile) -> Result<i32> {
+    let key_len = key_len_for(name, title, class, f);
+    if key_len > i16::MAX as i32 {
+        return Err(riofs::Error::KeyTooLong {
+            class: class.to_string(),
+            key_len,
+        });
+    }
+    Ok(key_len)
+}
+
 fn key_len_for(name: &str, title: &str, class: &str, f: &RootFile) -> i32 {
     let mut nbytes = 22;
 
-- 
2.43.0


From 841760f5370e34167f53a433ac97e8779ed284a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 07/39] fix: reopen files whose recorded path is long (same
 limit as ROOT)

---
 oxyroot/src/riofs/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..870533e 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -173,11 +173,11 @@ impl TDirectoryFile {
         dir.dir.named.name = r.read_string()?.to_string();
         dir.dir.named.title = r.read_string()?.to_string();
 
-        if dir.n_bytes_name < 10 || dir.n_bytes_name > 1000 {
+        if dir.n_bytes_name < 10 || dir.n_bytes_name > 10000 {
             return Err(crate::riofs::error::Error::CantReadDirectoryInfo {
                 n_bytes_name_read: dir.n_bytes_name,
                 n_bytes_name_min_allowed: 10,
-                n_bytes_name_max_allowed: 1000,
+                n_bytes_name_max_allowed: 10000,
             });
         }
 
-- 
2.43.0


From 02b76234de0318b0c8e515ea64b5f27f4b87af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 08/39] fix: the basket embedded in a branch holds its last
 entries, not its first

---
 oxyroot/src/rtree/branch/tbranch.rs         | 2 +-
 oxyroot/src/rtree/branch/tbranch_element.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..834405e 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -269,7 +269,7 @@ impl TBranch {
             });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            Some(embedded) => Box::new(ret.chain(embedded)),
         }
     }
 
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..3d4d3e2 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -437,7 +437,7 @@ impl TBranchElement {
         });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            Some(embedded) => Box::new(ret.chain(embedded)),
         }
     }
 }
-- 
2.43.0


From da93d54302f662e863f2f3bcc79eb107aabb85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 09/39] fix: split an embedded basket into its entries by its
 offset table

---
 oxyroot/src/rtree/branch/tbranch.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 834405e..06ad868 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -183,17 +183,25 @@ impl TBranch {
 
             Some(self.baskets.iter().map(|b| {
                 let key_lenght = b.key().key_len() as usize;
-                let buf = b
-                    .key()
-                    .buffer()
+                let buf = b.key().buffer();
+
+                if b.offsets().is_empty() {
+                    let n = b.nev_buf();
+                    let chunk_size = 1;
+
+                    return BranchChunks::RegularSized((n, chunk_size, buf[key_lenght..].to_vec()));
+                }
+
+                let last = buf.len() as i32;
+                let stops = b.offsets().iter().skip(1).chain(std::iter::once(&last));
+                let data: Vec<_> = b
+                    .offsets()
                     .iter()
-                    .skip(key_lenght)
-                    .cloned()
-                    .collect::<Vec<_>>();
-                let n = b.nev_buf();
-                let chunk_size = 1;
+                    .zip(stops)
+                    .map(|(start, stop)| buf[*start as usize..*stop as usize].to_vec())
+                    .collect();
 
-                BranchChunks::RegularSized((n, chunk_size, buf))
+                BranchChunks::IrregularSized((b.nev_buf(), data, 0))
             }))
         } else {
             None
-- 
2.43.0


From 3f4e8c128a5b35013f97d3fda90438d0ba93ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 10/39] fix: read fixed-size entries of an embedded basket
 without offset table

---
 oxyroot/src/rtree/branch/tbranch_element.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 3d4d3e2..a70abc6 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -270,6 +270,11 @@ impl TBranchElement {
                 let key_lenght = b.key().key_len();
                 let buf = b.key().buffer();
 
+                if b.offsets().is_empty() {
+                    let data = buf[key_lenght as usize..].to_vec();
+                    return BranchChunks::RegularSized((b.nev_buf(), b.entry_size(), data));
+                }
+
                 let n = buf.len() as i32;
 
                 let offsets = b.offsets().iter().chain(once(&n));
-- 
2.43.0


From f9df7551aa355d220601c7fdd7bbd2fd438b6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 11/39] fix: cut entries of variable length by their offsets,
 whatever their total size

---
 oxyroot/src/rtree/branch/tbranch.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 06ad868..ec35ba9 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -245,27 +245,14 @@ impl TBranch {
                             panic!("I dont want to be here (Element should be in TBranchElement)");
                         }
                         _ => {
-                            let n_elements_in_buffer = buf.len() / chunk_size as usize;
-                            // trial and error...
-                            if n_elements_in_buffer == self.entries as usize {
-                                // assert_eq!(n, self.entries as usize);
-                                trace!("send ({n},{chunk_size},{:?})", buf);
-                                BranchChunks::RegularSized((
-                                    n_elements_in_buffer as i32,
-                                    chunk_size,
-                                    buf,
-                                ))
-                            } else {
-                                let byte_offsets =
-                                    byte_offsets.iter().zip(byte_offsets.iter().skip(1));
-                                let data: Vec<_> = byte_offsets
-                                    .map(|(start, stop)| {
-                                        let b = &buf[*start as usize..*stop as usize];
-                                        b.to_vec()
-                                    })
-                                    .collect();
-                                BranchChunks::IrregularSized((n, data, 0))
-                            }
+                            let byte_offsets = byte_offsets.iter().zip(byte_offsets.iter().skip(1));
+                            let data: Vec<_> = byte_offsets
+                                .map(|(start, stop)| {
+                                    let b = &buf[*start as usize..*stop as usize];
+                                    b.to_vec()
+                                })
+                                .collect();
+                            BranchChunks::IrregularSized((n, data, 0))
                         } // _ => {
                           //     trace!("leave = {:?}", leave);
                           //     let n = buf.len() / chunk_size as usize;
-- 
2.43.0


From 66552c5e5a1c5936a33acdf25940aa39939c141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 12/39] fix: take every dimension of a column into account, not
 only the first number

---
 oxyroot/src/rtree/branch/tbranch.rs         | 24 ++-------------------
 oxyroot/src/rtree/branch/tbranch_element.rs | 23 ++------------------
 oxyroot/src/rtree/streamer_type.rs          | 17 +++++++++++++++
 3 files changed, 21 insertions(+), 43 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index ec35ba9..eb5709f 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -8,12 +8,11 @@ use crate::rtree::basket::{Basket, BasketData};
 use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::BranchChunks;
 use crate::rtree::leaf::Leaf;
+use crate::rtree::streamer_type::flat_dim_from_title;
 use crate::rtree::tree::tio_features::TioFeatures;
 use crate::{factory_fn_register_impl, rbase, rvers, Branch, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
-use lazy_static::lazy_static;
 use log::trace;
-use regex::Regex;
 
 pub(crate) const DEFAULT_BASKET_SIZE: i32 = 32 * 1024;
 // pub(crate) const DEFAULT_SPLIT_LEVEL: i32 = 99;
@@ -281,26 +280,7 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = flat_dim_from_title(leave.title());
 
             match leave.type_name() {
                 Some(s) => match dim {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index a70abc6..5122561 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -9,7 +9,7 @@ use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::{BranchChunks, TBranch};
 use crate::rtree::leaf::Leaf;
 use crate::rtree::streamer_type;
-use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name};
+use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name, flat_dim_from_title};
 use crate::{factory_fn_register_impl, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
 use lazy_static::lazy_static;
@@ -128,26 +128,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = flat_dim_from_title(leave.title());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 05f793c..2baddb5 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -196,6 +196,23 @@ pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
     }
 }
 
+/// Number of elements given by the dimensions in the title of a leaf (`x[2][3]` -> 6), 0 if one of
+/// them varies (`x[n]`, `x[n][3]`), None if the title has no dimension.
+pub(crate) fn flat_dim_from_title(title: &str) -> Option<i32> {
+    lazy_static! {
+        static ref RE_TITLE_HAS_DIMS: Regex = Regex::new(r"^[^\[\]]*((\[[^\[\]]+\])+)").unwrap();
+        static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([^\[\]]+)\]").unwrap();
+    }
+
+    let dims = RE_TITLE_HAS_DIMS.captures(title)?.get(1)?.as_str();
+    let dim = RE_ITEM_DIM_PATTERN
+        .captures_iter(dims)
+        .map(|m| m[1].parse::<i32>().ok().filter(|n| *n > 0))
+        .product::<Option<i32>>();
+
+    Some(dim.unwrap_or(0))
+}
+
 pub fn replace_string(s: &str, from: &str, to: &str) -> String {
     let mut ret = String::new();
     let indices: Vec<_> = s.match_indices(from).collect();
-- 
2.43.0


From 4d5308b76ea81eaabc082869737a74d7aad2d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 13/39] fix: a HashMap or HashSet is only handed out for a
 column of that map or set type

---
 oxyroot/src/rbytes/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 9d17c03..542dada 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -382,7 +382,11 @@ where
     {
         match T::classe_name() {
             None => None,
-            Some(tys) => vec![format!("set<{}>", tys.first().unwrap())].into(),
+            Some(tys) => tys
+                .iter()
+                .map(|t| format!("set<{}>", t))
+                .collect::<Vec<String>>()
+                .into(),
         }
     }
 }
@@ -423,6 +427,17 @@ where
 
         Ok(())
     }
+
+    fn class_name() -> Option<Vec<String>>
+    where
+        Self: Sized,
+    {
+        let (keys, values) = (K::classe_name()?, V::classe_name()?);
+        keys.iter()
+            .flat_map(|k| values.iter().map(move |v| format!("map<{},{}>", k, v)))
+            .collect::<Vec<String>>()
+            .into()
+    }
 }
 
 impl<T, const N: usize> Unmarshaler for [T; N]
-- 
2.43.0


From 9bcaf1b5c52ad675147eb5f4c78097e27b09626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 14/39] fix: derived writers store nested structs in columns
 named after their path, row by row

---
 oxyroot_derive/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5d125ac..e1a435c 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -827,8 +827,9 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                     }
                 };
 
-                #new_branch
+                // has to be called before the callbacks of the nested structs
                 tree.add_callback(Box::new(func));
+                #new_branch
 
                 Ok(())
 
@@ -952,7 +953,13 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                     let recv_name = format_ident!("recv_{field_name}");
 
                     quote_spanned! {
-                        f.span() => <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, stringify!(#field_name).into())?;
+                        f.span() => {
+                            let field_branch_name = match branch_name {
+                                Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
+                                None => stringify!(#field_name).to_string(),
+                            };
+                            <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(field_branch_name.as_str()))?;
+                        }
                     }
                 });
                 quote!(#(#recurse)*)
-- 
2.43.0


From b8ba4d428991b588093036e7591a67b24116c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 15/39] fix: reading past the end of a buffer is an error, not
 a panic

---
 oxyroot/src/rbytes/rbuffer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index f00f66a..cf63aad 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -27,19 +27,22 @@ impl<'a> Rbuff<'a> {
     // }
 
     fn extract_const_n<const N: usize>(&mut self) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + N)];
-        self.c += N;
-        Ok(buf)
+        self.extract_n(N)
     }
 
     fn extract_as_array<const N: usize>(&mut self) -> Result<[u8; N]> {
-        let buf: [u8; N] = self.p[self.c..(self.c + N)].as_ref().try_into()?;
-        self.c += N;
-        Ok(buf)
+        Ok(self.extract_n(N)?.try_into()?)
     }
 
     fn extract_n(&mut self, n: usize) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + n)];
+        let end = self.c.checked_add(n);
+        let buf = end.and_then(|end| self.p.get(self.c..end)).ok_or_else(|| {
+            Misc(format!(
+                "rbytes: {n} bytes wanted at position {} of a buffer of {}",
+                self.c,
+                self.p.len()
+            ))
+        })?;
         self.c += n;
         Ok(buf)
     }
-- 
2.43.0


From ffc0c731baa255e023ad9eb887f939621e5e623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 16/39] fix: decoding a container replaces its contents and
 refuses impossible sizes

---
 oxyroot/src/rbytes/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 542dada..f0d4a06 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -293,15 +293,21 @@ impl Marshaler for String {
     }
 }
 
+/// Number of elements of the container that follows in the buffer.
+fn read_size(r: &mut RBuffer) -> Result<usize> {
+    Ok(usize::try_from(r.read_i32()?)?)
+}
+
 impl<T> Unmarshaler for Vec<T>
 where
     T: UnmarshalerInto<Item = T>,
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        let size = r.read_i32()?;
+        let size = read_size(r)?;
 
-        self.reserve(size as usize);
+        self.clear();
+        self.reserve(size.min(r.len() as usize));
         r.set_skip_header(None);
 
         for _ in 0..size {
@@ -366,8 +372,9 @@ where
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        let size = r.read_i32()?;
-        self.reserve(size as usize);
+        let size = read_size(r)?;
+        self.clear();
+        self.reserve(size.min(r.len() as usize));
         r.set_skip_header(None);
         for _ in 0..size {
             let a = r.read_object_into::<T>()?;
@@ -399,9 +406,9 @@ where
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
 
-        let size = r.read_i32()?;
-        let mut keys = Vec::with_capacity(size as usize);
-        let mut values = Vec::with_capacity(size as usize);
+        let size = read_size(r)?;
+        let mut keys = Vec::with_capacity(size.min(r.len() as usize));
+        let mut values = Vec::with_capacity(size.min(r.len() as usize));
 
         r.set_skip_header(Some(6));
 
@@ -419,7 +426,8 @@ where
             values.push(v);
         }
 
-        self.reserve(size as usize);
+        self.clear();
+        self.reserve(size);
 
         keys.into_iter().zip(values).for_each(|(k, v)| {
             self.insert(k, v);
-- 
2.43.0


From 48a12c75f091b1ec5f8e36b604263007b89b1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 17/39] fix: a string that is not UTF-8 is an error, not an
 empty string

---
 oxyroot/src/rbytes/rbuffer.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index cf63aad..1258514 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -448,20 +448,12 @@ impl<'a> RBuffer<'a> {
 
         // trace!("read_string: buf = {:?}", buf);
 
-        if let Ok(s) = from_utf8(buf) {
-            // trace!("read_string = {}", s);
-            return Ok(s);
-        }
-        Ok("")
+        from_utf8(buf).map_err(|e| Misc(format!("rbytes: string is not UTF-8: {e}")))
     }
 
     pub fn read_cstring(&mut self, n: usize) -> Result<&'a str> {
         let buf = self.r.extract_until(n, |a| *a == 0)?;
-        if let Ok(s) = from_utf8(buf) {
-            return Ok(s);
-        }
-
-        Ok("")
+        from_utf8(buf).map_err(|e| Misc(format!("rbytes: string is not UTF-8: {e}")))
     }
 
     pub(crate) fn read_header(&mut self, class: &str) -> crate::rbytes::Result<Header> {
-- 
2.43.0


From 5d198fa6c19da9743a4b541879193ab1c65f147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 18/39] fix: a C string that fills its limit takes exactly that
 many bytes

---
 oxyroot/src/rbytes/rbuffer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 1258514..37c8ea9 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -52,13 +52,18 @@ impl<'a> Rbuff<'a> {
         F: FnMut(&u8) -> bool,
     {
         let m = min(self.c + n, self.p.len());
-        let buf = &self.p[self.c..m];
-        let mut iter = buf.split(pred);
-        if let Some(buf) = iter.next() {
-            self.c += buf.len() + 1;
-            return Ok(buf);
+        let buf = &self.p[self.c.min(m)..m];
+        match buf.iter().position(pred) {
+            Some(i) => {
+                self.c += i + 1;
+                Ok(&buf[..i])
+            }
+            None if buf.len() == n => {
+                self.c = m;
+                Ok(buf)
+            }
+            None => Err(Misc("rbytes: unterminated string".to_string())),
         }
-        Ok(buf)
     }
 
     // pub fn visible_buffer(&self) -> &'_ [u8] {
-- 
2.43.0


From c18bbdcf4e1ef803821f35211f3e826b78712c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 19/39] fix: decoding a slice replaces its contents and passes
 errors on

---
 oxyroot/src/rusty/containers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rusty/containers.rs b/oxyroot/src/rusty/containers.rs
index 1073a2e..99b9dfd 100644
--- a/oxyroot/src/rusty/containers.rs
+++ b/oxyroot/src/rusty/containers.rs
@@ -63,10 +63,11 @@ where
         trace!("Slice<T>.unmarshal.{beg}.pos.after_header.:{}", r.pos());
         // r.skip(1)?;
 
+        self.inner.clear();
         let mut len = r.len() as usize;
         while len > 0 {
             let before = r.pos();
-            self.inner.push(r.read_object_into::<T>().unwrap());
+            self.inner.push(r.read_object_into::<T>()?);
             let after = r.pos();
             len -= (after - before) as usize;
         }
@@ -118,8 +119,9 @@ where
     T: UnmarshalerInto<Item = T>,
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> crate::rbytes::Result<()> {
+        self.inner.clear();
         for _i in 0..self.n {
-            self.inner.push(r.read_object_into::<T>().unwrap());
+            self.inner.push(r.read_object_into::<T>()?);
         }
 
         Ok(())
-- 
2.43.0


From 5a6c235befbac95b8111e5926fabf79568656841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 20/39] fix: decoding a map leaves no header pending for what
 follows

---
 oxyroot/src/rbytes/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index f0d4a06..3fd9666 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -425,6 +425,7 @@ where
             r.set_skip_header(Some(0));
             values.push(v);
         }
+        r.set_skip_header(None);
 
         self.clear();
         self.reserve(size);
-- 
2.43.0


From 0a4a935d3b20720ba9031c1b3e1d8166c836d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 21/39] fix: asking for a tree under the name of another object
 is an error, not a panic

---
 oxyroot/src/riofs/file.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9346694..0b19718 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -899,7 +899,15 @@ impl RootFile {
 
     pub fn get_tree(&mut self, name: &str) -> Result<ReaderTree> {
         let objet = self.get_object(name)?;
-        let mut objet: ReaderTree = *objet.downcast::<ReaderTree>().expect("");
+        let key_class = objet.class().to_string();
+        let mut objet: ReaderTree =
+            *objet
+                .downcast::<ReaderTree>()
+                .map_err(|_| Error::KeyClassMismatch {
+                    key: name.to_string(),
+                    key_class,
+                    obj_class: "TTree".to_string(),
+                })?;
 
         objet.set_reader(Some(self.reader()?.clone()));
         objet.set_streamer_info(self.sinfos.clone());
-- 
2.43.0


From 688f15c237fdde45f291a01ca33bbf634374af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 22/39] fix: the command-line tools pass over objects that are
 not trees

---
 oxyroot-dump/src/main.rs | 8 +++++---
 oxyroot-ls/src/main.rs   | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index bdc43c7..bdef6e3 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -7,7 +7,7 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use env_logger::{Builder, Target, WriteStyle};
-use oxyroot::ReaderTree;
+use oxyroot::{Named, Object, ReaderTree};
 use regex::Regex;
 
 #[derive(Parser)]
@@ -1612,8 +1612,10 @@ fn main() {
 
     let mut f = RootFile::open(file).unwrap();
     let keys = f
-        .keys_name()
-        .map(|s| s.to_string())
+        .keys()
+        .iter()
+        .filter(|k| k.class() == "TTree")
+        .map(|k| k.name().to_string())
         .collect::<Vec<String>>();
 
     for trees in keys {
diff --git a/oxyroot-ls/src/main.rs b/oxyroot-ls/src/main.rs
index 2666227..b85a032 100644
--- a/oxyroot-ls/src/main.rs
+++ b/oxyroot-ls/src/main.rs
@@ -51,6 +51,9 @@ fn main() {
             k.name(),
             k.title()
         );
+        if k.class() != "TTree" {
+            continue;
+        }
         println!("> Data in {}:", k.name());
         let tree = f.get_tree(k.name()).unwrap();
         tree.show();
-- 
2.43.0


From 688b7dc04a573ce6125ba18904106e8c7c105271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 23/39] fix: oxyroot-dump prints vectors and arrays of 64-bit
 integers

---
 oxyroot-dump/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index bdef6e3..10aa1c0 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -149,6 +149,12 @@ impl<'a> ZipperDumperItem<'a> {
             "u32" => make_box_branch_for_type::<u32>(branch),
             "u64" => make_box_branch_for_type::<u64>(branch),
             "i64" => make_box_branch_for_type::<i64>(branch),
+            "Vec<u64>" => make_box_branch_for_type::<Vec<u64>>(branch),
+            "Vec<Vec<u64>>" => make_box_branch_for_type::<Vec<Vec<u64>>>(branch),
+            "Slice<u64>" => make_box_branch_for_type::<Slice<u64>>(branch),
+            "Vec<i64>" => make_box_branch_for_type::<Vec<i64>>(branch),
+            "Vec<Vec<i64>>" => make_box_branch_for_type::<Vec<Vec<i64>>>(branch),
+            "Slice<i64>" => make_box_branch_for_type::<Slice<i64>>(branch),
             "Vec<u32>" => make_box_branch_for_type::<Vec<u32>>(branch),
             "Vec<Vec<u32>>" => make_box_branch_for_type::<Vec<Vec<u32>>>(branch),
             "Slice<u32>" => make_box_branch_for_type::<Slice<u32>>(branch),
-- 
2.43.0


From 9ec8a97c6d6ffb7cc1431a2c626b350a3e45faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 24/39] fix: find objects by name and cycle, and objects whose
 name contains a semicolon

---
 oxyroot/src/riofs/dir.rs   | 18 +++++++-----------
 oxyroot/src/riofs/utils.rs |  5 ++++-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 870533e..d645970 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -299,23 +299,19 @@ impl TDirectoryFile {
     ) -> Result<Box<dyn FactoryItemRead>> {
         trace!("get_object, namecycle = {}", namecycle);
 
-        let (name, cycle) = decode_name_cycle(namecycle)?;
+        // a name may itself contain a semicolon
+        let (name, cycle) = if self.keys.iter().any(|k| k.name() == namecycle) {
+            (namecycle, 9999)
+        } else {
+            decode_name_cycle(namecycle)?
+        };
         trace!("get_object, name = {}", name);
         trace!("self.keys.len = {}", self.keys.len());
 
         let mut keys = self
             .keys
             .iter()
-            .filter(|k| {
-                if k.name() == name {
-                    if cycle != 9999 {
-                        todo!();
-                    }
-                    true
-                } else {
-                    false
-                }
-            })
+            .filter(|k| k.name() == name && (cycle == 9999 || k.cycle() == cycle as i32))
             .collect::<Vec<_>>();
 
         let key = match keys.len() {
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..fe33e6c 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -7,7 +7,10 @@ pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
     match toks.len() {
         1 => Ok((toks[0], 9999)),
         2 => {
-            unimplemented!()
+            let cycle = toks[1]
+                .parse::<u16>()
+                .map_err(|_| Error::CantDecodeNameCycle(namecycle.to_string()))?;
+            Ok((toks[0], cycle))
         }
 
         _ => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
-- 
2.43.0


From cae8b1e5b8ea762ab3ac0fe0edbb36a19a2abd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 25/39] fix: refuse to write to a closed file, and refuse
 before values are consumed

---
 oxyroot/src/riofs/file.rs        | 3 +++
 oxyroot/src/rtree/tree/writer.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 0b19718..14e45d0 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -356,6 +356,7 @@ impl RootFile {
     }
 
     pub fn close(&mut self) -> Result<()> {
+        self.writer()?;
         let mut dir = self.dir().clone();
         dir.close(self)?;
         let _ = std::mem::replace(&mut self.dir, dir);
@@ -363,6 +364,8 @@ impl RootFile {
         self.write_free_segments()?;
         self.write_header()?;
         self.writer()?.flush()?;
+        // nothing written from here on would be part of the file
+        self.inner = RootFileInner::None;
 
         Ok(())
     }
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 1429660..9c640eb 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -113,6 +113,8 @@ impl WriterTree {
     /// - Before writing branches with the argument [StateCallBack::Before](enum.StateCallBack.html)
     /// - Before writing each branch with the argument [StateCallBack::Branch](enum.StateCallBack.html)
     pub fn write(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
+        // refuse before any value is taken from the providers
+        file.writer()?;
         let mut branchs_done = self
             .tree
             .branches
-- 
2.43.0


From 8fd2cb41a92489725f9c6cf31c744a080d6696a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 26/39] fix: a tree is written only once: its providers are
 consumed

---
 oxyroot/src/riofs/error.rs       |  1 +
 oxyroot/src/rtree/tree/writer.rs | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index f0e1716..8a670cf 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -37,6 +37,7 @@ pub enum Error {
     FileIsNotOpened,
     // Writer Errors
     NameContainsSlash(String),
+    TreeAlreadyWritten(String),
     KeyTooLong {
         class: String,
         key_len: i32,
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 9c640eb..c381b11 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -2,6 +2,7 @@ use crate::rbytes::{RVersioner, WBuffer};
 use crate::rcont::objarray::WriterObjArray;
 use crate::rdict::StreamerInfo;
 use crate::riofs::file::RootFileStreamerInfoContext;
+use crate::riofs::Error;
 use crate::rtree::branch::wbranch::WBranch;
 use crate::rtree::tree::base::Tree;
 use crate::rtree::tree::tio_features::TioFeatures;
@@ -115,6 +116,12 @@ impl WriterTree {
     pub fn write(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
         // refuse before any value is taken from the providers
         file.writer()?;
+        // the providers are consumed by the first attempt
+        let sinfos = self
+            .tree
+            .sinfos
+            .take()
+            .ok_or_else(|| Error::TreeAlreadyWritten(self.tree.named.name().to_string()))?;
         let mut branchs_done = self
             .tree
             .branches
@@ -151,7 +158,7 @@ impl WriterTree {
 
         trace!(";WriterTree.write_all.entries:{:?}", self.tree.entries);
 
-        self.close(file)
+        self.close(file, sinfos)
     }
 
     fn flush(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
@@ -163,7 +170,11 @@ impl WriterTree {
     }
 
     /// Called by file close method.
-    fn close(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
+    fn close(
+        &mut self,
+        file: &mut RootFile,
+        sinfos: RootFileStreamerInfoContext,
+    ) -> crate::riofs::Result<()> {
         trace!(";WriterTree.close:{:?}", true);
         self.flush(file)?;
 
@@ -171,9 +182,7 @@ impl WriterTree {
 
         file.put(self.tree.named.name(), self)?;
 
-        let sis = self.tree.sinfos.take().unwrap();
-
-        for si in sis.list().iter() {
+        for si in sinfos.list().iter() {
             file.add_streamer_info(si.clone());
         }
 
-- 
2.43.0


From f388f413acae32548624a68306683ebe0c9a14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 27/39] fix: brackets in a column name are not dimensions

---
 oxyroot/src/rtree/branch/tbranch.rs         | 2 +-
 oxyroot/src/rtree/branch/tbranch_element.rs | 2 +-
 oxyroot/src/rtree/leaf.rs                   | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index eb5709f..6a7d3d9 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -280,7 +280,7 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            let dim = flat_dim_from_title(leave.title());
+            let dim = flat_dim_from_title(leave.dimensions());
 
             match leave.type_name() {
                 Some(s) => match dim {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 5122561..308c074 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -128,7 +128,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            let dim = flat_dim_from_title(leave.title());
+            let dim = flat_dim_from_title(leave.dimensions());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 8446c5b..b9494ec 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -144,6 +144,14 @@ impl Leaf {
         self.tleaf().title()
     }
 
+    /// The title without the name it begins with: what is left are the dimensions, if any. The name
+    /// itself may contain brackets.
+    pub(crate) fn dimensions(&self) -> &str {
+        let named = &self.tleaf().named;
+        let title = self.title();
+        title.strip_prefix(named.name()).unwrap_or(title)
+    }
+
     pub fn unsigned(&self) -> Option<bool> {
         match self {
             Leaf::Base(_) => None,
-- 
2.43.0


From a111b224bbcac27d10335d0df9f71eba29148404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 28/39] fix: create files under paths that are not UTF-8

---
 oxyroot/src/riofs/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 14e45d0..89a9855 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -65,7 +65,7 @@ pub(crate) struct RootFileReader {
 
 impl Display for RootFileReader {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        f.write_str(self.path.to_str().unwrap())?;
+        f.write_str(&self.path.to_string_lossy())?;
         Ok(())
     }
 }
@@ -203,7 +203,7 @@ impl RootFile {
     where
         P: AsRef<Path>,
     {
-        let s = path.as_ref().to_str().unwrap().to_string();
+        let s = path.as_ref().to_string_lossy().into_owned();
         let writer = RootFileWriter::new(path)?;
 
         let inner = RootFileInner::Writer(writer);
-- 
2.43.0


From a220d61b7154e4a1db0ac1f87c2a190998508716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 29/39] fix: objects referred to again in lists, maps and
 arrays are found again

---
 oxyroot/src/rbytes/rbuffer.rs | 53 ++++++++++++++++++++++++-----------
 oxyroot/src/rcont/list.rs     |  4 ++-
 oxyroot/src/rcont/objarray.rs |  2 +-
 oxyroot/src/rcont/tmap.rs     |  4 +--
 4 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 37c8ea9..6f2c7cd 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -1,5 +1,5 @@
 use crate::rbytes::consts::{kByteCountMask, kClassMask, kMapOffset, kNewClassTag, kNullTag};
-use crate::rbytes::rbuffer::RBufferRefsItem::Func;
+use crate::rbytes::rbuffer::RBufferRefsItem::{Func, Obj};
 use crate::rbytes::Error::Misc;
 use crate::rbytes::Result;
 use crate::rbytes::{Header, StreamerInfoContext, Unmarshaler, UnmarshalerInto};
@@ -99,7 +99,8 @@ impl<'a> Read for Rbuff<'a> {
 #[derive(Debug)]
 pub(crate) enum RBufferRefsItem {
     Func(FactoryBuilderValue),
-    // Obj(&'a Box<dyn FactoryItem>),
+    /// position of an object already read
+    Obj(i64),
 }
 
 /// Helper struct to parse data read in file
@@ -276,6 +277,34 @@ impl<'a> RBuffer<'a> {
         obj.unmarshal(self)
     }
 
+    /// Like [read_object_any_into](Self::read_object_any_into), but an object already read that is
+    /// referred to again is read again.
+    pub(crate) fn read_shared_object_any_into(
+        &mut self,
+    ) -> Result<Option<Box<dyn FactoryItemRead>>> {
+        let beg = self.pos();
+        let tag = self.read_u32()? as i64;
+        let next = self.pos();
+
+        let shared = match self.refs.get(&tag) {
+            Some(Obj(pos)) => Some(*pos),
+            _ => None,
+        };
+
+        match shared {
+            Some(pos) => {
+                self.set_pos(pos);
+                let obj = self.read_object_any_into()?;
+                self.set_pos(next);
+                Ok(obj)
+            }
+            None => {
+                self.set_pos(beg);
+                self.read_object_any_into()
+            }
+        }
+    }
+
     pub(crate) fn read_object_any_into(&mut self) -> Result<Option<Box<dyn FactoryItemRead>>> {
         let _beg = self.pos();
         // if (_beg == 868) {
@@ -397,9 +426,7 @@ impl<'a> RBuffer<'a> {
             self.read_boxed_object(&mut obj)?;
 
             if vers > 0 {
-
-                // self.refs.insert(beg + kMapOffset, Obj(&obj));
-                // todo!()
+                self.refs.insert(_beg + kMapOffset, Obj(_beg));
             } else {
                 todo!()
             }
@@ -416,20 +443,14 @@ impl<'a> RBuffer<'a> {
 
             // trace!(";rbuffer.ReadObjectAny.default.{}.uref: {}", tag64, uref);
 
-            let fct = self.refs.get(&uref);
-            assert!(fct.is_some());
-            let fct = fct.unwrap();
-
-            // let fct = if let Func(fct) = fct {
-            //     fct
-            // } else {
-            //     unimplemented!()
-            // };
-
-            let Func(fct) = fct;
+            let fct = match self.refs.get(&uref) {
+                Some(Func(fct)) => fct,
+                _ => panic!("tag {tag64} does not refer to a class"),
+            };
 
             let mut obj: Box<dyn rtypes::FactoryItemRead> = fct();
             self.read_boxed_object(&mut obj)?;
+            self.refs.insert(_beg + kMapOffset, Obj(_beg));
             Ok(Some(obj))
         }
     }
diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 1c26e21..9e43744 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -96,7 +96,9 @@ impl Unmarshaler for ReaderList {
         let size = r.read_i32()?;
 
         for _ in 0..size {
-            let obj = r.read_object_any_into()?.expect("something is wrong");
+            let obj = r
+                .read_shared_object_any_into()?
+                .expect("something is wrong");
             self.objs.push(obj);
 
             let n = r.read_u8()?;
diff --git a/oxyroot/src/rcont/objarray.rs b/oxyroot/src/rcont/objarray.rs
index f5ce333..6fca843 100644
--- a/oxyroot/src/rcont/objarray.rs
+++ b/oxyroot/src/rcont/objarray.rs
@@ -131,7 +131,7 @@ impl Unmarshaler for ReaderObjArray {
             trace!(";ObjArray.unmarshal.{}.i: {}", _beg, i);
             let pos = r.pos();
             trace!(";ObjArray.unmarshal.{}.objs.{}.pos: {}", _beg, i, pos);
-            let obj = r.read_object_any_into()?;
+            let obj = r.read_shared_object_any_into()?;
             if let Some(obj) = obj {
                 self.objs.push(obj);
             }
diff --git a/oxyroot/src/rcont/tmap.rs b/oxyroot/src/rcont/tmap.rs
index cb812d9..d1c2397 100644
--- a/oxyroot/src/rcont/tmap.rs
+++ b/oxyroot/src/rcont/tmap.rs
@@ -74,10 +74,10 @@ impl Unmarshaler for TMap {
         trace!(";TMap.unmarshal.nobjs={}", nobjs);
 
         for _ in 0..nobjs {
-            let key = r.read_object_any_into()?.unwrap();
+            let key = r.read_shared_object_any_into()?.unwrap();
             trace!(";TMap.unmarshal.key={:?}", key);
 
-            let value = r.read_object_any_into()?.unwrap();
+            let value = r.read_shared_object_any_into()?.unwrap();
 
             match key.class() {
                 "TObjString" => {
-- 
2.43.0


From 06ec3a1ba76bd63a2c9eb0a68dbb26ec88480aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 30/39] fix: read lists whose objects have drawing options; the
 class of a named list is TList

---
 oxyroot/src/rcont/list.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 9e43744..6a97284 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -66,19 +66,13 @@ impl ReaderList {
 
 impl traits::Object for ReaderList {
     fn class(&self) -> &'_ str {
-        match &self.name {
-            None => "TList",
-            Some(s) => s,
-        }
+        "TList"
     }
 }
 
 impl traits::Object for WriterList<'_> {
     fn class(&self) -> &'_ str {
-        match &self.name {
-            None => "TList",
-            Some(s) => s,
-        }
+        "TList"
     }
 }
 
@@ -101,13 +95,13 @@ impl Unmarshaler for ReaderList {
                 .expect("something is wrong");
             self.objs.push(obj);
 
-            let n = r.read_u8()?;
-
-            if n > 0 {
-                unimplemented!()
+            // drawing option of the object
+            if hdr.vers > 4 {
+                let _option = r.read_string()?;
+            } else {
+                let n = r.read_u8()?;
+                let _option = r.read_array_u8(n as usize)?;
             }
-
-            // todo!()
         }
 
         r.check_header(&hdr)?;
-- 
2.43.0


From f3da3c03bbf718ffe0bdab714218b85c283c5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 31/39] fix: files past two gigabytes are consistent wherever
 the limit is crossed

The form of a record is decided before the record itself is counted, the directory uses the long
form when its list of keys lies past the limit, the last free segment ends after the file, and the
record of free segments is made again when it crosses the limit itself.
---
 oxyroot/src/riofs/dir.rs  |  9 ++++++--
 oxyroot/src/riofs/file.rs | 43 +++++++++++++++++++++++----------------
 oxyroot/src/riofs/key.rs  |  7 ++++---
 3 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index d645970..4ecb026 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -3,6 +3,7 @@ use crate::riofs::file::{RootFile, RootFileReader};
 use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
 use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
 use crate::root::traits::Named;
@@ -369,7 +370,7 @@ impl TDirectoryFile {
         &self.dir
     }
     pub(crate) fn is_big_file(&self) -> bool {
-        self.dir.rvers > 1000
+        self.dir.rvers > 1000 || self.seek_keys > kStartBigFile
     }
 }
 
@@ -432,7 +433,11 @@ impl Unmarshaler for TDirectoryFile {
 impl Marshaler for TDirectoryFile {
     fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> {
         let beg = w.pos();
-        let version = self.dir().rvers;
+        let version = if self.is_big_file() && self.dir().rvers < 1000 {
+            self.dir().rvers + 1000
+        } else {
+            self.dir().rvers
+        };
         trace!(";TDirectoryFile.marshal.beg:{:?}", beg);
         trace!(";TDirectoryFile.marshal.version:{:?}", version);
         w.write_i16(version)?;
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 89a9855..9176a54 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -476,10 +476,10 @@ impl RootFile {
             panic!("self.spans.len()")
         }
         let blk = self.spans.vec().last_mut().unwrap();
-        if blk.last != kStartBigFile {
-            panic!("blk.last")
-        }
         blk.first = pos;
+        while blk.last < pos {
+            blk.last += 1_000_000_000;
+        }
         Ok(())
     }
 
@@ -706,24 +706,15 @@ impl RootFile {
             unimplemented!("self.header.seek_free != 0")
         }
 
-        let mut nbytes = 0;
-        for span in self.spans.vec() {
-            nbytes += span.size_of();
-        }
-        trace!(";RootFile.write_free_segments.nbytes:{}", nbytes);
-
-        let mut key = Key::new(
-            self.dir.dir().named().name.clone(),
-            self.dir.dir().named().title.clone(),
-            "TFile".to_string(),
-            nbytes,
-            self,
-        )?;
+        let was_big_file = self.is_big_file();
+        let mut key = self.free_segments_key()?;
 
         assert_ne!(key.seek_key(), 0);
 
-        if !self.is_big_file() && self.end() > kStartBigFile {
-            unimplemented!("!self.is_big_file() && self.end() > kStartBigFile")
+        if !was_big_file && self.is_big_file() {
+            // the record itself takes the file past the limit, where the segments are larger
+            self.set_end(key.seek_key())?;
+            key = self.free_segments_key()?;
         }
 
         let nbytes = key.obj_len();
@@ -745,6 +736,22 @@ impl RootFile {
         Ok(())
     }
 
+    fn free_segments_key(&mut self) -> Result<Key> {
+        let mut nbytes = 0;
+        for span in self.spans.vec() {
+            nbytes += span.size_of();
+        }
+        trace!(";RootFile.write_free_segments.nbytes:{}", nbytes);
+
+        Key::new(
+            self.dir.dir().named().name.clone(),
+            self.dir.dir().named().title.clone(),
+            "TFile".to_string(),
+            nbytes,
+            self,
+        )
+    }
+
     fn find_deep_streamer(&mut self) -> Result<()> {
         trace!(";Rootfile.find_deep_streamer.call:true");
         trace!(
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 30a7477..2a29f22 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -228,13 +228,14 @@ impl Key {
         };
         key.n_bytes = key.obj_len + key.key_len;
         let eof = f.end();
+        // as for the length of the key: decided before the record itself is counted
+        if f.is_big_file() {
+            key.rvers += 1000
+        }
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
-- 
2.43.0


From 858ababe36b34818388990234abae527dd705829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 32/39] fix: columns of more than 32767 units are written, not
 a panic

---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index f46adf7..999f409 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -168,7 +168,8 @@ where
             ";WBranch.create_new_basket.b.write_basket:{:?}",
             self.branch.tbranch_mut().write_basket
         );
-        let cycle = self.branch.tbranch_mut().write_basket as i16 + 1;
+        // the cycle is stored on 16 bits and starts again after the 32767th unit, as in ROOT
+        let cycle = (self.branch.tbranch_mut().write_basket + 1) as i16;
         let basket_size = self.branch.tbranch_mut().basket_size;
         let offset_len = self.branch.tbranch_mut().entry_offset_len;
         let basket = Basket::new_from_branch(&self.branch, cycle, basket_size, offset_len, tree, f);
-- 
2.43.0


From fa3f0331564536d5ba38139f9e44d6dfc142a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 33/39] fix: refuse the 32768th version of a name, whose number
 does not fit its key

---
 oxyroot/src/riofs/error.rs | 1 +
 oxyroot/src/riofs/file.rs  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 8a670cf..d996444 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -38,6 +38,7 @@ pub enum Error {
     // Writer Errors
     NameContainsSlash(String),
     TreeAlreadyWritten(String),
+    TooManyCycles(String),
     KeyTooLong {
         class: String,
         key_len: i32,
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9176a54..61c3e05 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -321,6 +321,10 @@ impl RootFile {
         }
 
         cycle += 1;
+        // stored on 16 bits
+        if cycle > i16::MAX as i32 {
+            return Err(Error::TooManyCycles(name.to_string()));
+        }
         let typename = obj.class();
         trace!(";TDirectoryFile.put.typename:{:?}", typename);
         trace!(
-- 
2.43.0


From 0dc1702787d1501117327f4911e7eff6b8affd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 34/39] fix: refuse entries and units whose size does not fit
 32 bits, instead of storing something else

---
 oxyroot/src/rbytes/mod.rs           |  2 +-
 oxyroot/src/rbytes/wbuffer.rs       |  2 +-
 oxyroot/src/riofs/error.rs          |  1 +
 oxyroot/src/rtree/branch/wbranch.rs | 12 ++++++------
 oxyroot/src/rtree/tree/writer.rs    |  2 +-
 oxyroot/src/rtree/wbasket.rs        | 11 +++++++++++
 6 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 3fd9666..040c991 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -339,7 +339,7 @@ where
 {
     fn marshal(&self, w: &mut WBuffer) -> Result<i64> {
         let beg = w.pos();
-        w.write_i32(self.len() as i32)?;
+        w.write_i32(self.len().try_into()?)?;
         for item in self.iter() {
             item.marshal(w)?;
         }
diff --git a/oxyroot/src/rbytes/wbuffer.rs b/oxyroot/src/rbytes/wbuffer.rs
index 6343587..450fc1e 100644
--- a/oxyroot/src/rbytes/wbuffer.rs
+++ b/oxyroot/src/rbytes/wbuffer.rs
@@ -137,7 +137,7 @@ impl WBuffer {
     }
 
     pub(crate) fn write_string(&mut self, p0: &str) -> Result<()> {
-        let len = p0.len() as i32;
+        let len: i32 = p0.len().try_into()?;
         let bytes = p0.as_bytes();
         if len < 255 {
             self.write_u8(len as u8)?;
diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index d996444..78d41f7 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -39,6 +39,7 @@ pub enum Error {
     NameContainsSlash(String),
     TreeAlreadyWritten(String),
     TooManyCycles(String),
+    BasketTooLarge(String),
     KeyTooLong {
         class: String,
         key_len: i32,
diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 999f409..d2973ad 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -112,7 +112,7 @@ where
         &mut self,
         tree: &WriterTree,
         file: &mut RootFile,
-    ) -> crate::riofs::Result<Option<i32>> {
+    ) -> crate::riofs::Result<Option<i64>> {
         // trace!(";WBranch.write.call:{:?}", true);
         let basket = match &mut self.basket {
             None => {
@@ -144,18 +144,18 @@ where
                 // basket.wbuf.write_object(&item).unwrap();
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
-                let n = (sz_new - sz_old) as i32;
+                let n = sz_new - sz_old;
                 // with entry offsets, `nev_size` is the capacity of the offset table
-                if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
-                    basket.basket.nev_size = n;
+                if basket.basket.offsets().is_empty() && n as i32 > basket.basket.nev_size {
+                    basket.basket.nev_size = n as i32;
                 }
 
-                if sz_new + n as usize >= tbranch.basket_size as usize {
+                if sz_new + n >= tbranch.basket_size as usize {
                     self.flush(file)?;
                     self.basket = Some(self.create_new_basket(tree, file));
                 }
 
-                Some(n)
+                Some(n as i64)
             }
             None => None,
         };
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index c381b11..f6230e5 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -147,7 +147,7 @@ impl WriterTree {
                 }
             }
 
-            self.tree.tot_bytes += tot as i64;
+            self.tree.tot_bytes += tot;
             self.tree.zip_bytes += zip as i64;
             if branchs_done.iter().all(|d| *d) {
                 break;
diff --git a/oxyroot/src/rtree/wbasket.rs b/oxyroot/src/rtree/wbasket.rs
index b2266ce..31fe455 100644
--- a/oxyroot/src/rtree/wbasket.rs
+++ b/oxyroot/src/rtree/wbasket.rs
@@ -71,6 +71,17 @@ impl WBasket {
             file.is_big_file()
         );
 
+        // every size and position within a basket is stored on 32 bits, also when its key grows
+        let n_bytes = self.basket.key().key_len() as usize
+            + 8
+            + self.wbuf.len()
+            + 4 * (self.basket.nev_buf as usize + 2);
+        if n_bytes > i32::MAX as usize {
+            return Err(riofs::Error::BasketTooLarge(
+                self.basket.key().name().to_string(),
+            ));
+        }
+
         let adjust = self.basket.key().rvers() <= 1000 && file.is_big_file();
         trace!(";WBasket.write_to_file.adjust:{:?}", adjust);
         trace!(
-- 
2.43.0


From 50802a5800f7af97864ab680efe676d3d683ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 35/39] fix: reserve no memory for what a damaged file
 announces but does not hold

---
 oxyroot/src/rbytes/rbuffer.rs       |  9 +++++++++
 oxyroot/src/rcompress.rs            | 18 ++++++++++++++++++
 oxyroot/src/riofs/file.rs           | 16 +++++++++++-----
 oxyroot/src/riofs/key.rs            |  3 ++-
 oxyroot/src/rtree/basket.rs         |  2 +-
 oxyroot/src/rtree/branch/mod.rs     |  2 +-
 oxyroot/src/rtree/branch/tbranch.rs | 14 +++++++-------
 oxyroot/src/rtree/tree/reader.rs    |  5 +++--
 8 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 6f2c7cd..72b01a7 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -138,6 +138,15 @@ impl<'a> RBuffer<'a> {
         self.len() <= 0
     }
 
+    /// `n` as a number of elements of `size` bytes each, if that many are left in the buffer:
+    /// to be asked before memory is reserved for a number of elements found in a file.
+    pub(crate) fn count_left(&self, n: i32, size: usize) -> Result<usize> {
+        match usize::try_from(n)?.checked_mul(size) {
+            Some(bytes) if bytes as i64 <= self.len() => Ok(n as usize),
+            _ => Err(Misc(format!("{} elements announced, {} bytes left", n, self.len()))),
+        }
+    }
+
     pub fn pos(&self) -> i64 {
         self.r.c as i64 + self.offset as i64
     }
diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index f74a2e7..6fd3716 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -54,6 +54,24 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
+/// Check that the compressed blocks of `src` announce at least `len` bytes, before memory
+/// is reserved for them.
+pub fn check_len(mut src: &[u8], len: usize) -> Result<()> {
+    let mut announced = 0;
+    while announced < len {
+        let (hdr, rest) = match src.len() {
+            n if n >= HEADER_SIZE => src.split_at(HEADER_SIZE),
+            _ => return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into())),
+        };
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        announced += hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
+        src = rest
+            .get(srcsz..)
+            .ok_or(Error::Io(std::io::ErrorKind::InvalidData.into()))?;
+    }
+    Ok(())
+}
+
 /// Decompress `src`, a sequence of compressed blocks, until `dst` is filled.
 pub fn decompress(mut dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let mut hdr = [0_u8; HEADER_SIZE];
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 61c3e05..df40961 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -85,12 +85,18 @@ impl RootFileReader {
     }
 
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
-        self.reader
-            .as_mut()
-            .expect("ERROR")
-            .seek(SeekFrom::Start(start))?;
+        let reader = self.reader.as_mut().expect("ERROR");
+        // no memory for what the file does not hold
+        let left = reader.get_ref().metadata()?.len().saturating_sub(start);
+        if len > left {
+            return Err(Error::CantReadAmountOfBytesFromFile {
+                requested: len as usize,
+                read: left as usize,
+            });
+        }
+        reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; len as usize];
-        self.reader.as_mut().expect("ERROR").read_exact(&mut buf)?;
+        reader.read_exact(&mut buf)?;
         Ok(buf)
     }
 }
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 2a29f22..28a880f 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -400,10 +400,11 @@ impl Key {
 
     fn load(&self, file: &mut RootFileReader) -> Result<Vec<u8>> {
         if self.is_compressed() {
-            let mut buf = vec![0; self.obj_len as usize];
             let start = self.seek_key as u64 + self.key_len as u64;
             let sr = file.read_at(start, (self.n_bytes as u64) - (self.key_len as u64))?;
 
+            rcompress::check_len(&sr, self.obj_len as usize)?;
+            let mut buf = vec![0; self.obj_len as usize];
             rcompress::decompress(&mut buf, &sr)?;
 
             return Ok(buf);
diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 08b49c2..137cd2a 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -229,7 +229,7 @@ impl Unmarshaler for Basket {
         if !must_gen_offsets && flag != 0 && (flag % 10 != 2) {
             if self.nev_buf > 0 {
                 let n = r.read_i32()?;
-                self.offsets.reserve(n as usize);
+                self.offsets.reserve(r.count_left(n, 4)?);
                 for _ in 0..n {
                     self.offsets.push(r.read_i32()?);
                 }
diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index fc1e4f4..f6aab05 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -197,7 +197,7 @@ impl Branch {
                     match chunk {
                         BranchChunks::RegularSized((n, _chunk_size, buf)) => {
                             let mut r = RBuffer::new(&buf, 0);
-                            let mut v = Vec::with_capacity(n as usize);
+                            let mut v = Vec::with_capacity((n as usize).min(r.len() as usize));
 
                             for _i in 0..n {
                                 v.push(func(&mut r));
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 6a7d3d9..285dfed 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -405,7 +405,7 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0; self.max_baskets as usize];
+                let mut b = vec![0; r.count_left(self.max_baskets, 4)?];
                 r.read_array_i32(b.as_mut_slice())?;
 
                 self.basket_bytes
@@ -414,7 +414,7 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i64; self.max_baskets as usize];
+                let mut b = vec![0_i64; r.count_left(self.max_baskets, 8)?];
                 r.read_array_i64(b.as_mut_slice())?;
 
                 self.basket_entry
@@ -423,7 +423,7 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i64; self.max_baskets as usize];
+                let mut b = vec![0_i64; r.count_left(self.max_baskets, 8)?];
                 r.read_array_i64(b.as_mut_slice())?;
 
                 self.basket_seek
@@ -534,7 +534,7 @@ impl Unmarshaler for TBranch {
             );
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0; self.max_baskets as usize];
+                let mut b = vec![0; r.count_left(self.max_baskets, 4)?];
                 r.read_array_i32(b.as_mut_slice())?;
 
                 self.basket_bytes.extend_from_slice(b.as_slice());
@@ -562,7 +562,7 @@ impl Unmarshaler for TBranch {
             );
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i32; self.max_baskets as usize];
+                let mut b = vec![0_i32; r.count_left(self.max_baskets, 4)?];
                 r.read_array_i32(b.as_mut_slice())?;
                 self.basket_entry.reserve(b.len());
 
@@ -581,14 +581,14 @@ impl Unmarshaler for TBranch {
             {
                 match r.read_i8()? {
                     2 => {
-                        let mut b = vec![0_i64; self.max_baskets as usize];
+                        let mut b = vec![0_i64; r.count_left(self.max_baskets, 8)?];
                         r.read_array_i64(b.as_mut_slice())?;
 
                         self.basket_seek
                             .extend_from_slice(&b.as_slice()[..self.write_basket as usize]);
                     }
                     _ => {
-                        let mut b = vec![0_i32; self.max_baskets as usize];
+                        let mut b = vec![0_i32; r.count_left(self.max_baskets, 4)?];
                         r.read_array_i32(b.as_mut_slice())?;
                         self.basket_seek.reserve(b.len());
 
diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index 3ebaac7..f9f5f0f 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -213,8 +213,9 @@ impl Unmarshaler for ReaderTree {
         }
 
         if hdr.vers >= 19 {
-            self.tree.clusters.ranges = vec![0; nclus as usize];
-            self.tree.clusters.sizes = vec![0; nclus as usize];
+            let nclus = r.count_left(nclus, 16)?;
+            self.tree.clusters.ranges = vec![0; nclus];
+            self.tree.clusters.sizes = vec![0; nclus];
             let _ = r.read_i8();
             r.read_array_i64(&mut self.tree.clusters.ranges)?;
 
-- 
2.43.0


From aae0363130a4616f0014ef11ddcfb8f0f7d40abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 36/39] fix: objects that contain themselves or are nested
 without end are refused, instead of exhausting the stack

---
 oxyroot/src/rbytes/rbuffer.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 72b01a7..5e2ec77 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -113,8 +113,15 @@ pub struct RBuffer<'a> {
     // sictx: Option<&'a dyn StreamerInfoContext>,
     refs: HashMap<i64, RBufferRefsItem>,
     skip_header: Option<i32>,
+    /// positions of the objects being read again because something refers to them
+    referred: Vec<i64>,
+    /// number of objects being read, one inside the other
+    depth: usize,
 }
 
+/// Objects nested deeper than this are refused, as they would exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 impl<'a> RBuffer<'a> {
     pub fn new(data: &[u8], offset: u32) -> RBuffer {
         RBuffer {
@@ -302,8 +309,14 @@ impl<'a> RBuffer<'a> {
 
         match shared {
             Some(pos) => {
+                if self.referred.contains(&pos) {
+                    return Err(Misc(format!("rbytes: object at {pos} contains itself")));
+                }
+                self.referred.push(pos);
                 self.set_pos(pos);
-                let obj = self.read_object_any_into()?;
+                let obj = self.read_object_any_into();
+                self.referred.pop();
+                let obj = obj?;
                 self.set_pos(next);
                 Ok(obj)
             }
@@ -315,6 +328,16 @@ impl<'a> RBuffer<'a> {
     }
 
     pub(crate) fn read_object_any_into(&mut self) -> Result<Option<Box<dyn FactoryItemRead>>> {
+        if self.depth == MAX_DEPTH {
+            return Err(Misc("rbytes: objects nested too deeply".to_string()));
+        }
+        self.depth += 1;
+        let obj = self.read_object_any();
+        self.depth -= 1;
+        obj
+    }
+
+    fn read_object_any(&mut self) -> Result<Option<Box<dyn FactoryItemRead>>> {
         let _beg = self.pos();
         // if (_beg == 868) {
         //     panic!(";rbuffer.ReadObjectAny.beg: {}", _beg);
-- 
2.43.0


From 763ef9d1b74c8d59a8d732ee5cd461daf79e3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 37/39] fix: a split column read as a whole takes the parts of
 split parts, arrays and embedded units as they are

---
 oxyroot/src/rtree/branch/mod.rs | 44 +++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index f6aab05..661dd18 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -13,6 +13,7 @@ use crate::rbytes::UnmarshalerInto;
 use crate::riofs::file::{RootFileReader, RootFileStreamerInfoContext};
 use crate::root::traits::{Named, Object};
 
+use crate::rtree::leaf::Leaf;
 use crate::rtree::streamer_type::type_name_cpp_to_rust;
 use crate::rtypes::FactoryItemRead;
 use log::trace;
@@ -315,24 +316,7 @@ pub struct ZiperBranches<'a, T> {
 impl<'a, T> ZiperBranches<'a, T> {
     pub fn new(branches: &'a Vec<Branch>, _nb_entries: u32) -> Self {
         let mut v = Vec::new();
-        // let mut v: Vec<dyn Iterator<Item = (u32, i32, Vec<u8>)>> = Vec::new();
-        for branch in branches {
-            let tbranch: &TBranch = branch.into();
-            let data = tbranch.get_baskets_buffer();
-
-            // let b = data.collect::<Vec<_>>();
-            //
-            // trace!("b = {:?}", b);
-
-            // todo!();
-
-            v.push(data);
-
-            // let d = data as &dyn Iterator<Item = (u32, i32, Vec<u8>)>;
-            // v.push(Box::new(data));
-        }
-
-        // todo!();
+        Self::add_parts(branches, &mut v);
 
         ZiperBranches {
             _branches: branches,
@@ -343,6 +327,30 @@ impl<'a, T> ZiperBranches<'a, T> {
             nb_entries: Default::default(),
         }
     }
+
+    /// Data of the parts, including those of parts that are split themselves
+    fn add_parts(branches: &'a [Branch], v: &mut Vec<Box<dyn Iterator<Item = BranchChunks> + 'a>>) {
+        for branch in branches {
+            let tbranch: &TBranch = branch.into();
+            if !tbranch.branches().is_empty() {
+                Self::add_parts(tbranch.branches(), v);
+                continue;
+            }
+            let is_string = matches!(tbranch.leaves.first(), Some(Leaf::C(_)));
+            let data = tbranch.get_baskets_buffer().map(move |chunk| match chunk {
+                BranchChunks::RegularSized(_) if is_string => {
+                    unimplemented!("string as a part of a split column")
+                }
+                // the leaf knows the size of its elements, not that of an entry
+                BranchChunks::RegularSized((n, _, buf)) if n > 0 => {
+                    assert_eq!(buf.len() % n as usize, 0);
+                    BranchChunks::RegularSized((n, (buf.len() / n as usize) as i32, buf))
+                }
+                chunk => chunk,
+            });
+            v.push(Box::new(data));
+        }
+    }
 }
 
 impl<'a, T> ZiperBranches<'a, T> {
-- 
2.43.0


From bad5a2decc9a5b5170cff95f9a8981fc529ef6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 38/39] fix: read the units of a column from the file the
 column names

---
 oxyroot/src/riofs/file.rs                   |  5 +++++
 oxyroot/src/rtree/branch/tbranch.rs         | 12 +++++++++++-
 oxyroot/src/rtree/branch/tbranch_element.rs |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index df40961..ffe5959 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -84,6 +84,11 @@ impl RootFileReader {
         Ok(reader)
     }
 
+    /// Reader of the file called `name` by this one: the name is relative to the directory of this file
+    pub(crate) fn other_file(&self, name: &str) -> Result<Self> {
+        Self::new(self.path.with_file_name(name))
+    }
+
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
         let reader = self.reader.as_mut().expect("ERROR");
         // no memory for what the file does not hold
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 285dfed..30ab382 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -210,7 +210,7 @@ impl TBranch {
             .filter(|(_start, len, _chunk_size, _leave)| **len > 0)
             .map(|(start, len, mut chunk_size, leave)| {
                 assert_ne!(*len, 0);
-                let mut reader = self.reader.as_ref().unwrap().clone();
+                let mut reader = self.basket_reader();
                 let buf = reader.read_at(*start as u64, *len as u64).unwrap();
                 let mut r = RBuffer::new(&buf, 0);
                 let b = r.read_object_into::<Basket>().unwrap();
@@ -304,6 +304,16 @@ impl TBranch {
     pub(crate) fn reader(&self) -> &Option<RootFileReader> {
         &self.reader
     }
+
+    /// Reader of the file that holds the baskets
+    pub(crate) fn basket_reader(&self) -> RootFileReader {
+        let reader = self.reader.as_ref().unwrap();
+        if self.fname.is_empty() {
+            reader.clone()
+        } else {
+            reader.other_file(&self.fname).unwrap()
+        }
+    }
 }
 
 impl Named for TBranch {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 308c074..2047177 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -325,7 +325,7 @@ impl TBranchElement {
         )
         .filter(|(_start, len, _chunk_size, _leave)| **len > 0)
         .map(|(start, len, mut chunk_size, leave)| {
-            let mut reader = self.branch.reader().as_ref().unwrap().clone();
+            let mut reader = self.branch.basket_reader();
             let buf = reader.read_at(*start as u64, *len as u64).unwrap();
             let mut r = RBuffer::new(&buf, 0);
             let b = r.read_object_into::<Basket>().unwrap();
-- 
2.43.0


From 166664406ffc7c583a1e1cfe7ffab4533af1cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:48 +0000
Subject: [PATCH 39/39] fix: the columns of a tree no longer each keep the file
 open

Every column has a reader of its own, so a tree with more columns than files may be open at a time could not be read.
---
 oxyroot/src/riofs/file.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index ffe5959..0768ac1 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -90,7 +90,10 @@ impl RootFileReader {
     }
 
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
-        let reader = self.reader.as_mut().expect("ERROR");
+        let reader = match &mut self.reader {
+            Some(reader) => reader,
+            closed => closed.insert(BufReader::new(File::open(&self.path)?)),
+        };
         // no memory for what the file does not hold
         let left = reader.get_ref().metadata()?.len().saturating_sub(start);
         if len > left {
@@ -107,8 +110,13 @@ impl RootFileReader {
 }
 
 impl Clone for RootFileReader {
+    /// The copy opens the file when it is first read from: every column of a tree has a reader, and
+    /// there can be more columns than files that may be open.
     fn clone(&self) -> Self {
-        RootFileReader::new(&self.path).unwrap()
+        RootFileReader {
+            path: self.path.clone(),
+            reader: None,
+        }
     }
 }
 
-- 
2.43.0

