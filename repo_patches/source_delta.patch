From f9e33dbb51c4fb6396290577425cf399957e3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 01/85] fix: find the footer of small paks and of paks whose
 data contains the magic

Paks shorter than the newest footer could not be opened because seeking to its
position failed, and a magic number inside of the last entry was preferred over
the actual footer.
---
 unreal_pak/src/index.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..37f65d7 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -158,13 +158,22 @@ pub(crate) struct Footer {
 impl Footer {
     pub(crate) fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, PakError> {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
-        let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
+        let possible_offsets = vec![-0x2Ci64, -0xAC, -0xCC, -0xCD];
+
+        let file_len = reader.seek(SeekFrom::End(0))?;
 
         let mut magic_offset = None;
         for offset in possible_offsets {
+            // small files of old versions end before the footer of newer versions would start
+            if offset.unsigned_abs() > file_len {
+                break;
+            }
+
             reader.seek(SeekFrom::End(offset))?;
+            // anything further up may also be the contents of an entry, so the first match is the footer
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
+                break;
             }
         }
         let magic_offset = magic_offset.ok_or_else(PakError::pak_invalid)?;
-- 
2.43.0


From fb842130de0dfadd5177a121019ee433bf637dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 02/85] fix: write the timestamp field of v1 pak entry headers

The reader expects it, so v1 paks which had been written could not be read.
---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..edde142 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        if pak_version <= PakVersion::Initial {
+            // timestamp
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From 5133a0df1d7dbdd81bb7403aae93bed94c913cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 03/85] fix: write absolute compression block offsets for pak
 v3 and v4

The reader subtracts the entry offset for these versions, which overflowed for
every compressed entry that was not the first one.
---
 unreal_pak/src/entry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..154e072 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -102,6 +102,12 @@ where
             let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
             let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
+            // block offsets were absolute before they were made relative to the header
+            let block_base = if pak_version < PakVersion::RelativeChunkOffsets {
+                offset + header_len
+            } else {
+                header_len
+            };
 
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
@@ -110,7 +116,7 @@ where
                 compressed_data.extend_from_slice(&block_compressed_data);
 
                 compression_blocks_inner.push(Block {
-                    start: begin + header_len,
+                    start: begin + block_base,
                     size: block_compressed_data.len() as u64,
                 });
             }
-- 
2.43.0


From f50c4cad4292af0a8071cd69911832bb3b09cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 04/85] fix: report encrypted paks as unsupported

The encryption flags were ignored, so the ciphertext was parsed as an index or
returned as the data of an entry.
---
 unreal_pak/src/entry.rs | 3 +++
 unreal_pak/src/index.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 154e072..bb2ab19 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -26,6 +26,9 @@ where
     reader.seek(SeekFrom::Start(offset))?;
 
     let header = Header::read(reader, pak_version, compression)?;
+    if header.flags.map_or(false, |flags| flags & 1 != 0) {
+        return Err(PakError::enrcryption_unsupported());
+    }
 
     match header.compression_method {
         Compression::None => {
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 37f65d7..2fc28d9 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -21,6 +21,9 @@ pub(crate) struct Index {
 impl Index {
     pub(crate) fn read<R: Read + Seek>(mut reader: &mut R) -> Result<Self, PakError> {
         let footer = Footer::read(&mut reader)?;
+        if footer.index_encrypted == Some(true) {
+            return Err(PakError::enrcryption_unsupported());
+        }
 
         reader.seek(SeekFrom::Start(footer.index_offset))?;
 
-- 
2.43.0


From 863a5733def9b209f04320ef4f2115334d296abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:55 +0000
Subject: [PATCH 05/85] fix: reject corrupted pak headers instead of panicking
 or aborting

Counts and sizes were used for allocations before it was known if the file has
that much data, and block offsets were subtracted unchecked.
---
 unreal_helpers/src/read_ext.rs |  2 +-
 unreal_pak/src/entry.rs        | 20 ++++++++++++++------
 unreal_pak/src/header.rs       | 14 +++++++++-----
 unreal_pak/src/index.rs        |  2 +-
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..158d354 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -54,7 +54,7 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            true => (len.saturating_neg(), true),
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index bb2ab19..aef3bcc 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -32,12 +32,10 @@ where
 
     match header.compression_method {
         Compression::None => {
-            let mut data = vec![0u8; header.decompressed_size as usize];
-            reader.read_exact(data.as_mut_slice())?;
-            Ok(data)
+            read_bytes(reader, header.decompressed_size)
         }
         Compression::Known(_) => {
-            let mut data = Vec::with_capacity(header.decompressed_size as usize);
+            let mut data = Vec::new();
 
             let compression_blocks = header
                 .compression_blocks
@@ -45,8 +43,7 @@ where
                 .ok_or_else(PakError::entry_invalid)?;
             for block in compression_blocks {
                 // we do not need to seek here because the reader is at the end of the header and compression blocks are continuous
-                let mut compressed_data = vec![0u8; block.size as usize];
-                reader.read_exact(&mut compressed_data)?;
+                let compressed_data = read_bytes(reader, block.size)?;
                 header
                     .compression_method
                     .decompress(&mut data, compressed_data.as_slice())?;
@@ -58,6 +55,17 @@ where
     }
 }
 
+/// Read exactly `len` bytes without allocating more than the reader can provide, because sizes in
+/// corrupted files can be arbitrarily large
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, PakError> {
+    let mut data = Vec::new();
+    reader.by_ref().take(len).read_to_end(&mut data)?;
+    if data.len() as u64 != len {
+        return Err(PakError::entry_invalid());
+    }
+    Ok(data)
+}
+
 /// Write an entry with Header at the position the write is at
 ///
 /// # Arguments
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index edde142..8f70901 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -75,20 +75,24 @@ impl Header {
         if pak_version >= PakVersion::CompressionEncryption {
             if !matches!(compression_method, Compression::None) {
                 let block_count = reader.read_u32::<LE>()? as usize;
-                let mut compression_blocks_inner = Vec::with_capacity(block_count);
+                let mut compression_blocks_inner = Vec::new();
 
                 for _ in 0..block_count {
                     // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
+                    let start_offset = reader
+                        .read_u64::<LE>()?
+                        .checked_sub(if pak_version < PakVersion::RelativeChunkOffsets {
                             offset
                         } else {
                             0
-                        };
+                        })
+                        .ok_or_else(PakError::entry_invalid)?;
                     let end_offset = reader.read_u64::<LE>()?;
                     compression_blocks_inner.push(Block {
                         start: start_offset,
-                        size: end_offset - start_offset,
+                        size: end_offset
+                            .checked_sub(start_offset)
+                            .ok_or_else(PakError::entry_invalid)?,
                     });
                 }
                 compression_blocks = Some(compression_blocks_inner);
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2fc28d9..12bd741 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -31,7 +31,7 @@ impl Index {
         let mut path_hash_seed = None;
 
         let entry_count = reader.read_u32::<LE>()?;
-        let mut entries = Vec::with_capacity(entry_count as usize);
+        let mut entries = Vec::new();
 
         if footer.pak_version < PakVersion::PathHashIndex {
             for _ in 0..entry_count {
-- 
2.43.0


From 6199c14644f8b5d39c2e170c66c8ca9150386510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:20 +0000
Subject: [PATCH 06/85] fix: reject paks whose version does not match the
 footer position

A cut off or damaged file could be read with the footer layout of another
version, which panicked or produced wrong entries.
---
 unreal_pak/src/index.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 12bd741..f773475 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -189,6 +189,20 @@ impl Footer {
             pak_version.set_subversion();
         }
 
+        // the position of the magic has to match the version or the file has been cut off
+        let expected_offset = match pak_version {
+            PakVersion::FnameBasedCompressionMethodInitial => -0xAC,
+            PakVersion::FrozenIndex => -0xCD,
+            PakVersion::FnameBasedCompressionMethod
+            | PakVersion::PathHashIndex
+            | PakVersion::Fnv64BugFix => -0xCC,
+            PakVersion::Invalid => return Err(PakError::pak_invalid()),
+            _ => -0x2C,
+        };
+        if magic_offset != expected_offset {
+            return Err(PakError::pak_invalid());
+        }
+
         let index_offset = reader.read_u64::<LE>()?;
         let index_size = reader.read_u64::<LE>()?;
 
-- 
2.43.0


From 3d24bc2a0d77772f0c5a5e9e3e375d9ec3463e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:20 +0000
Subject: [PATCH 07/85] fix: count the terminator of wide strings in the size
 returned by write_fstring

It was only counted for single byte strings, so property lengths calculated from
the returned size were two bytes short.
---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From 573cadc1751b290654e4476a9473bd429823ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:20 +0000
Subject: [PATCH 08/85] fix: reject guid strings with non hexadecimal
 characters

Multi-byte characters caused a panic because of slicing inside of a character,
and signs were accepted as part of a byte.
---
 unreal_helpers/src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/guid.rs b/unreal_helpers/src/guid.rs
index 71509a8..490dc45 100644
--- a/unreal_helpers/src/guid.rs
+++ b/unreal_helpers/src/guid.rs
@@ -214,7 +214,7 @@ impl FromStr for Guid {
             return Ok(Guid::new([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|byte| byte.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 9f7ddb916b01ee8a9154c1886caf0f3596068e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:20 +0000
Subject: [PATCH 09/85] fix: do not expand capture group references in game
 names

A `$` in the name of the game was interpreted by the regex replacement.
---
 unreal_helpers/src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/path.rs b/unreal_helpers/src/path.rs
index 910416a..b496cca 100644
--- a/unreal_helpers/src/path.rs
+++ b/unreal_helpers/src/path.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{NoExpand, Regex};
 
 lazy_static! {
     static ref GAME_REGEX: Regex = Regex::new(r"^/Game/").unwrap();
@@ -19,7 +19,7 @@ pub fn game_to_absolute(game_name: &str, path: &str) -> Option<String> {
     }
 
     let path_str = GAME_REGEX
-        .replace(path, String::from(game_name) + "/Content/")
+        .replace(path, NoExpand(&(String::from(game_name) + "/Content/")))
         .to_string();
     let path = Path::new(&path_str);
     match path.extension() {
-- 
2.43.0


From a9733977fb9e2d5fbbee905319bf23673b364f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:20 +0000
Subject: [PATCH 10/85] fix: return an error for invalid dependency version
 requirements

Loading the metadata of such a mod panicked.
---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From 488d6d41ff9085405b87cc632ddac273ce3db23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:29 +0000
Subject: [PATCH 11/85] fix: make equality and hash of mod metadata independent
 of map order

Integrator data containing arrays or objects hit an unreachable!(), and equal
metadata compared unequal or hashed differently when the iteration order of the
maps differed.
---
 unreal_mod_metadata/src/lib.rs | 35 +++++++++++++++++++++++++++-------
 unreal_mod_metadata/src/v2.rs  | 31 +++++++++++-------------------
 2 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..f8c1239 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -1,7 +1,9 @@
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 use semver::VersionReq;
 use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
+use serde_json::Value;
 
 use error::Error;
 
@@ -13,16 +15,35 @@ pub use crate::v2::Metadata;
 #[macro_export]
 macro_rules! hash_value {
     ($name:expr, $state:expr) => {
-        match $name {
-            Value::String(s) => s.hash($state),
-            Value::Number(n) => n.hash($state),
-            Value::Bool(b) => b.hash($state),
-            Value::Null => (),
-            _ => unreachable!(),
-        }
+        $crate::hash_json_value($name, $state)
     };
 }
 
+/// Hash a json value. Object entries are hashed in the order of their keys.
+pub fn hash_json_value<H: Hasher>(value: &Value, state: &mut H) {
+    match value {
+        Value::String(s) => s.hash(state),
+        Value::Number(n) => n.hash(state),
+        Value::Bool(b) => b.hash(state),
+        Value::Null => (),
+        Value::Array(elements) => {
+            elements.len().hash(state);
+            for element in elements {
+                hash_json_value(element, state);
+            }
+        }
+        Value::Object(elements) => {
+            elements.len().hash(state);
+            let mut elements = elements.iter().collect::<Vec<_>>();
+            elements.sort_unstable_by_key(|(name, _)| *name);
+            for (name, element) in elements {
+                name.hash(state);
+                hash_json_value(element, state);
+            }
+        }
+    }
+}
+
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
 pub enum SyncMode {
     #[default]
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..e71214c 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -1,5 +1,5 @@
-use std::collections::{hash_map::DefaultHasher, HashMap};
-use std::hash::{Hash, Hasher};
+use std::collections::HashMap;
+use std::hash::Hash;
 use std::marker::PhantomData;
 use std::str::FromStr;
 
@@ -96,13 +96,18 @@ impl Hash for Metadata {
         self.download.hash(state);
 
         self.dependencies.len().hash(state);
-        for (element_name, element) in &self.dependencies {
+        // equal maps may iterate in different orders
+        let mut dependencies = self.dependencies.iter().collect::<Vec<_>>();
+        dependencies.sort_unstable_by_key(|(name, _)| *name);
+        for (element_name, element) in dependencies {
             element_name.hash(state);
             element.hash(state);
         }
 
         self.integrator.len().hash(state);
-        for (element_name, element) in &self.integrator {
+        let mut integrator = self.integrator.iter().collect::<Vec<_>>();
+        integrator.sort_unstable_by_key(|(name, _)| *name);
+        for (element_name, element) in integrator {
             element_name.hash(state);
             hash_value!(element, state);
         }
@@ -113,7 +118,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +130,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0


From 002eeb0a78b379282718bff085d220a62974761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 12/85] fix: keep IndexedMap indices consistent after removing
 entries

---
 .../src/containers/indexed_map/mod.rs         | 58 ++++++++++++-------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..a5cdad4 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -160,9 +160,13 @@ where
     type Item = (usize, &'map K, &'map V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index_iter.next()?;
-        let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        let store_place = self.index_iter.next()?;
+        let value = &self.store[*store_place];
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -171,9 +175,13 @@ where
     K: Eq + Hash,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = self.index_iter.next_back()?;
-        let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        let store_place = self.index_iter.next_back()?;
+        let value = &self.store[*store_place];
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -216,16 +224,17 @@ where
     type Item = (usize, &'map K, &'map mut V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index_iter.next()?;
-        let value = &mut self.store[*index];
+        let store_place = self.index_iter.next()?;
+        let value = &mut self.store[*store_place];
 
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -236,16 +245,17 @@ where
     K: Eq + Hash,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = self.index_iter.next_back()?;
-        let value = &mut self.store[*index];
+        let store_place = self.index_iter.next_back()?;
+        let value = &mut self.store[*store_place];
 
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -278,11 +288,11 @@ where
     type Item = (usize, K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index_iter.next()?;
-        let value = self.store.remove(index);
+        let store_place = self.index_iter.next()?;
+        let value = self.store.remove(store_place);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -294,11 +304,11 @@ where
     K: Eq + Hash,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = self.index_iter.next_back()?;
-        let value = self.store.remove(index);
+        let store_place = self.index_iter.next_back()?;
+        let value = self.store.remove(store_place);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -568,17 +578,22 @@ where
             return &mut self.store[*storage_place];
         }
 
+        // entries keep their insertion index when others are removed, so the length may be in use
+        let index = self
+            .index_map
+            .last_key_value()
+            .map_or(0, |(last_index, _)| last_index + 1);
         let key_rc = KeyItem(Rc::new(key));
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
@@ -680,6 +695,9 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        for store_place in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*store_place].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From 7797c8d1b682c44aef80e0582101393267979f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:00 +0000
Subject: [PATCH 13/85] fix: compare the values of IndexedMaps

---
 .../src/containers/indexed_map/mod.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index a5cdad4..b916bd7 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -772,15 +772,19 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.iter().eq(other.iter())
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From d32d5ac55d4a9afd54eee49f41a99651252e24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:08 +0000
Subject: [PATCH 14/85] fix: read the start of the second reader of a Chain
 after seeking back into the first

---
 unreal_asset/unreal_asset_base/src/containers/chain.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..efadfee 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -80,7 +80,11 @@ impl<C: Read + Seek> Seek for Chain<C> {
             Some(sec) => match pos {
                 SeekFrom::Start(offset) => {
                     self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
+                        true => {
+                            // reads that cross into the second reader start at its beginning
+                            sec.rewind()?;
+                            self.first.seek(pos)?
+                        }
                         false => {
                             self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
                         }
-- 
2.43.0


From 21336f30f3a133d7809af29296f157a3cc3adaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:16 +0000
Subject: [PATCH 15/85] fix: refuse to seek a Chain before its start

---
 .../unreal_asset_base/src/containers/chain.rs | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index efadfee..98e8cea 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,6 +1,6 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
@@ -74,6 +74,15 @@ impl<C: Read + Seek> Read for Chain<C> {
     }
 }
 
+fn offset_from(base: u64, offset: i64) -> Result<u64> {
+    base.checked_add_signed(offset).ok_or_else(|| {
+        Error::new(
+            ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 impl<C: Read + Seek> Seek for Chain<C> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
         match self.second.as_mut() {
@@ -91,11 +100,13 @@ impl<C: Read + Seek> Seek for Chain<C> {
                     };
                     Ok(offset)
                 }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
+                SeekFrom::End(offset) => {
+                    let offset = offset_from(self.first_len + self.second_len, offset)?;
+                    self.seek(SeekFrom::Start(offset))
+                }
                 SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
+                    let offset = offset_from(self.pos, offset)?;
+                    self.seek(SeekFrom::Start(offset))
                 }
             },
             None => self.first.seek(pos),
-- 
2.43.0


From 79ea02c83f33e21fc330fcf34a53b9ae91ec208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 16/85] fix: return None for the import index right behind the
 last import

---
 unreal_asset/src/asset.rs                | 2 +-
 unreal_asset/src/asset_archive_writer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..3e308cb 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -827,7 +827,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
 
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..f76a7f0 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -56,7 +56,7 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
         }
 
         let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
 
-- 
2.43.0


From 678b01e0e15426eea23b78fc17477b1b5e44faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 17/85] fix: find names by their current content after they
 were edited in place

---
 .../unreal_asset_base/src/containers/name_map.rs  | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..5146197 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -16,6 +16,8 @@ pub struct NameMap {
     name_map_lookup: IndexedMap<u64, i32>,
     /// Name map index list
     name_map_index_list: Vec<String>,
+    /// Names may have been edited in place, so the lookup can't be relied on
+    lookup_outdated: bool,
     /// A reference to self
     self_ref: SharedResourceWeakRef<NameMap>,
 }
@@ -26,6 +28,7 @@ impl NameMap {
         SharedResource::new_cyclic(|me| NameMap {
             name_map_lookup: IndexedMap::new(),
             name_map_index_list: Vec::new(),
+            lookup_outdated: false,
             self_ref: me.clone(),
         })
     }
@@ -44,6 +47,14 @@ impl NameMap {
 
     /// Search an FName reference
     pub fn search_name_reference(&self, name: &str) -> Option<i32> {
+        if self.lookup_outdated {
+            return self
+                .name_map_index_list
+                .iter()
+                .rposition(|e| e == name)
+                .map(|e| e as i32);
+        }
+
         let mut s = DefaultHasher::new();
         name.hash(&mut s);
 
@@ -94,6 +105,7 @@ impl NameMap {
 
     /// Get a mutable name reference by an FName map index
     pub fn get_name_reference_mut(&mut self, index: i32) -> &mut String {
+        self.lookup_outdated = true;
         &mut self.name_map_index_list[index as usize]
     }
 
@@ -132,8 +144,7 @@ impl CyclicSharedResource<NameMap> for NameMap {
 
 impl PartialEq for NameMap {
     fn eq(&self, other: &Self) -> bool {
-        self.name_map_lookup == other.name_map_lookup
-            && self.name_map_index_list == other.name_map_index_list
+        self.name_map_index_list == other.name_map_index_list
     }
 }
 
-- 
2.43.0


From 3ecd34b9180dc3fd490ca7cd57cde8428b0b3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:41 +0000
Subject: [PATCH 18/85] fix: write the sub face index of font data

---
 .../src/slate_core/font_data_property.rs                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..17c87c3 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,10 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.ok_or_else(|| {
+                PropertyError::property_field_none("sub_face_index", "Some(i32)")
+            })?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 248a2d0c430a7e1b0d9c9f3d79a9c243e24840fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:41 +0000
Subject: [PATCH 19/85] fix: reserve space for the size of a unique net id
 before writing it

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..91e4fca 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?;
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From 3355161494469e9e563535d932e46951723908a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 20/85] fix: write the weight of cloth vertex data once

---
 .../unreal_asset_properties/src/cloth_lod_property.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..1741ad1 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -89,13 +89,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From 1e9093012befca55c9ac912e140e42b8219c9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 21/85] fix: read all items of an evaluation tree container

---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..cd38712 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::with_capacity(items_amount as usize);
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From 7f65b746edcfcfb64338e73f5dd323053140e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 22/85] fix: keep the struct guid of struct arrays

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..3b3ca9e 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From cf58c3b28d5e5528867eaf82cbe9e0aaaa81ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:13 +0000
Subject: [PATCH 23/85] fix: keep all removed keys of a map

---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..dd87c3c 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -155,8 +155,8 @@ impl MapProperty {
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
-        for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
+        for _ in 0..num_keys_to_remove {
+            let vec: &mut Vec<Property> = keys_to_remove.get_or_insert_with(Vec::new);
             vec.push(MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
@@ -166,7 +166,6 @@ impl MapProperty {
                 false,
                 true,
             )?);
-            keys_to_remove = Some(vec);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From 2b7a470e4e9d8c9aa6ce7425bbedd6e5b277b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:13 +0000
Subject: [PATCH 24/85] fix: write the empty type name of movie scene pointers
 without a value

---
 .../src/movies/movie_scene_eval_template_ptr_property.rs      | 4 ++++
 .../movies/movie_scene_track_implementation_ptr_property.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..1d2a9a5 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -101,6 +101,10 @@ impl PropertyTrait for MovieSceneEvalTemplatePtrProperty {
             }
         }
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename && !asset.has_unversioned_properties() {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..f0b2721 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -89,6 +89,10 @@ impl PropertyTrait for MovieSceneTrackImplementationPtrProperty {
             }
         }
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
-- 
2.43.0


From ac70966326558e136c1b26ee1f28ad17945ab2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:32 +0000
Subject: [PATCH 25/85] fix: keep the use constant flag of material inputs

---
 .../src/material_input_property.rs            | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/material_input_property.rs b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
index aba95b2..1f8a15e 100644
--- a/unreal_asset/unreal_asset_properties/src/material_input_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
@@ -32,6 +32,8 @@ pub struct ColorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: i32,
     /// Color value
     pub value: ColorProperty,
 }
@@ -50,6 +52,8 @@ pub struct ScalarMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: i32,
     /// Scalar value
     pub value: OrderedFloat<f32>,
 }
@@ -68,6 +72,8 @@ pub struct ShadingModelMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: i32,
     /// Shading model value
     pub value: u32,
 }
@@ -86,6 +92,8 @@ pub struct VectorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: i32,
     /// Vector value
     pub value: VectorProperty,
 }
@@ -104,6 +112,8 @@ pub struct Vector2MaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: i32,
     /// Vector2D value
     pub value: Vector2DProperty,
 }
@@ -188,7 +198,7 @@ impl ColorMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = ColorProperty::new(
             asset,
@@ -204,6 +214,7 @@ impl ColorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -217,7 +228,7 @@ impl PropertyTrait for ColorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -234,7 +245,7 @@ impl ScalarMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = asset.read_f32::<LE>()?;
 
@@ -244,6 +255,7 @@ impl ScalarMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value: OrderedFloat(value),
         })
     }
@@ -257,7 +269,7 @@ impl PropertyTrait for ScalarMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_f32::<LE>(self.value.0)?;
         Ok(exp_len + size_of::<f32>() + size_of::<i32>())
     }
@@ -275,7 +287,7 @@ impl ShadingModelMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = asset.read_u32::<LE>()?;
         Ok(ShadingModelMaterialInputProperty {
             name,
@@ -283,6 +295,7 @@ impl ShadingModelMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -296,7 +309,7 @@ impl PropertyTrait for ShadingModelMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_u32::<LE>(self.value)?;
         Ok(exp_len + size_of::<u32>() + size_of::<i32>())
     }
@@ -314,7 +327,7 @@ impl VectorMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = VectorProperty::new(
             asset,
             name.clone(),
@@ -328,6 +341,7 @@ impl VectorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -341,7 +355,7 @@ impl PropertyTrait for VectorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -359,7 +373,7 @@ impl Vector2MaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = Vector2DProperty::new(
             asset,
             name.clone(),
@@ -373,6 +387,7 @@ impl Vector2MaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -386,7 +401,7 @@ impl PropertyTrait for Vector2MaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
-- 
2.43.0


From 8de3464dd8a948618d1d014c44ca9a8efd43e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:18 +0000
Subject: [PATCH 26/85] fix: write the header of assets with legacy version -4
 as it is read

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 3e308cb..5c68b38 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1006,7 +1006,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From 518e9567583835f74aab41916d633cc245e76b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:18 +0000
Subject: [PATCH 27/85] fix: write the compatible engine version of assets

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 5c68b38..e788b90 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1090,7 +1090,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From fdb9cc98fd70e34fe4abc9fa3335be4849879a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:18 +0000
Subject: [PATCH 28/85] fix: read the single chunk id of old assets

---
 unreal_asset/src/asset.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index e788b90..975c0f6 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -712,8 +712,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
-- 
2.43.0


From f79d1de853fc6688680fa40ccce6dc12c69542fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:35 +0000
Subject: [PATCH 29/85] fix: read the fields of bool property exports

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..77584c9 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -183,6 +183,7 @@ impl UProperty {
                 }
                 "InterfaceProperty" => UInterfaceProperty::new(asset)?.into(),
                 "MapProperty" => UMapProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 "ByteProperty" => UByteProperty::new(asset)?.into(),
                 "StructProperty" => UStructProperty::new(asset)?.into(),
                 "DoubleProperty" => UDoubleProperty::new(asset)?.into(),
-- 
2.43.0


From 40f2b666f222de9f5e70e224c7ad60bfedc5d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:24 +0000
Subject: [PATCH 30/85] fix: do not keep the name map borrowed while the
 content of a name is used

---
 unreal_asset/unreal_asset_base/src/types/fname.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/fname.rs b/unreal_asset/unreal_asset_base/src/types/fname.rs
index 5da3169..3590733 100644
--- a/unreal_asset/unreal_asset_base/src/types/fname.rs
+++ b/unreal_asset/unreal_asset_base/src/types/fname.rs
@@ -132,8 +132,9 @@ impl FName {
             FName::Backed {
                 name_map, index, ..
             } => {
-                let name_map = name_map.get_ref();
-                func(name_map.get_name_reference(*index))
+                // the name map must not stay borrowed, `func` may add names to it
+                let content = name_map.get_ref().get_owned_name(*index);
+                func(&content)
             }
             FName::Dummy { value, .. } => func(value),
         }
-- 
2.43.0


From 78b19860ed961aa79b13f2879e3f32f1c1fb56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:47 +0000
Subject: [PATCH 31/85] fix: take the channels of colors from their argb value

---
 unreal_asset/unreal_asset_base/src/types/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/vector.rs b/unreal_asset/unreal_asset_base/src/types/vector.rs
index d072bdd..bd307db 100644
--- a/unreal_asset/unreal_asset_base/src/types/vector.rs
+++ b/unreal_asset/unreal_asset_base/src/types/vector.rs
@@ -79,16 +79,16 @@ impl Color<u8> {
     /// Create a new `Color<u8>` instance from an argb int
     pub fn from_argb(argb: i32) -> Self {
         Color::new(
-            ((argb >> 24) & 0xff) as u8,
             ((argb >> 16) & 0xff) as u8,
             ((argb >> 8) & 0xff) as u8,
             (argb & 0xff) as u8,
+            ((argb >> 24) & 0xff) as u8,
         )
     }
 
     /// Convert to argb int
     pub fn to_argb(&self) -> i32 {
-        ((self.r as i32) << 24) | ((self.g as i32) << 16) | ((self.b as i32) << 8) | self.a as i32
+        ((self.a as i32) << 24) | ((self.r as i32) << 16) | ((self.g as i32) << 8) | self.b as i32
     }
 }
 
-- 
2.43.0


From 86b22814f98c5fc364caa716e9f2ae072afa4f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:02 +0000
Subject: [PATCH 32/85] fix: write names added while serializing properties to
 the name table

---
 unreal_asset/src/asset.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 975c0f6..069a79f 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1171,6 +1171,23 @@ impl<'a, C: Read + Seek> Asset<C> {
 
     /// Write asset data
     pub fn write_data<W: Read + Seek + Write>(
+        &self,
+        cursor: &mut W,
+        mut uexp_cursor: Option<&mut W>,
+    ) -> Result<(), Error> {
+        // serializing properties may add names, e.g. of property types, to the name map
+        // they have to be in the name table which is written before any properties
+        loop {
+            let name_count = self.name_map.get_ref().get_name_map_index_list().len();
+            self.write_data_once(cursor, uexp_cursor.as_deref_mut())?;
+            if self.name_map.get_ref().get_name_map_index_list().len() == name_count {
+                return Ok(());
+            }
+        }
+    }
+
+    /// Write asset data with the current name map
+    fn write_data_once<W: Read + Seek + Write>(
         &self,
         cursor: &mut W,
         uexp_cursor: Option<&mut W>,
-- 
2.43.0


From 5876921758b87077a2a7299b35e9ed001f2c3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:10 +0000
Subject: [PATCH 33/85] fix: keep the struct type of struct arrays for when
 they are emptied

---
 .../unreal_asset_properties/src/array_property.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 3b3ca9e..14cc218 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -158,14 +158,13 @@ impl ArrayProperty {
                 full_type = asset.add_fname(&type_override);
             }
 
-            if num_entries == 0 {
-                dummy_struct = Some(StructProperty::dummy(
-                    name.clone(),
-                    ancestry.with_parent(name.clone()),
-                    full_type.clone(),
-                    struct_guid,
-                ));
-            }
+            // the struct type has to be known even if all entries are removed later
+            dummy_struct = Some(StructProperty::dummy(
+                name.clone(),
+                ancestry.with_parent(name.clone()),
+                full_type.clone(),
+                struct_guid,
+            ));
             for _i in 0..num_entries {
                 let data = StructProperty::custom_header(
                     asset,
-- 
2.43.0


From fe8643b8fa91702768f7afe9e9745d5af63301d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 34/85] fix: do not overflow when getting an import by the
 smallest package index

---
 unreal_asset/src/asset.rs                | 3 ++-
 unreal_asset/src/asset_archive_writer.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 069a79f..99b3fc4 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -825,7 +825,8 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
+        // negating first would overflow for i32::MIN
+        let index = -(index.index + 1);
         if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f76a7f0..e92f0cc 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,7 +55,8 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
+        // negating first would overflow for i32::MIN
+        let index = -(index.index + 1);
         if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
-- 
2.43.0


From 7e456bb90a31170541e1d9b9f127c2291bae33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 35/85] fix: write the number of pairs as the entry count of
 map expressions

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..f3d4dfb 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -2533,7 +2533,7 @@ impl KismetExpressionTrait for ExMapConst {
         let mut offset = size_of::<i32>();
         offset += self.key_property.write(asset)?;
         offset += self.value_property.write(asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
@@ -2952,7 +2952,7 @@ impl KismetExpressionTrait for ExSetMap {
     ) -> Result<usize, Error> {
         let mut offset = size_of::<i32>();
         offset += KismetExpression::write(self.map_property.as_ref(), asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
-- 
2.43.0


From 8e8368eff098410528bc66ba79faec00faeab812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 36/85] fix: count the in-memory sizes of assert and inline
 event expressions right

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index f3d4dfb..58a6deb 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
@@ -3274,7 +3274,7 @@ impl KismetExpressionTrait for ExInstrumentationEvent {
             asset.write_fname(self.event_name.as_ref().ok_or_else(|| {
                 Error::no_data("event_type is InlineEvent but event_name is None".to_string())
             })?)?;
-            return Ok(1 + 2 * size_of::<i32>());
+            return Ok(1 + 12);
         }
 
         Ok(1)
-- 
2.43.0


From fcf8f45f077033323da6eab7573939cb6348afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 37/85] fix: keep script bytecode raw when it does not end
 where its size says

---
 unreal_asset/unreal_asset_exports/src/struct_export.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..130cc19 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -118,6 +118,11 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         while (asset.position() - start_offset) < storage_size as u64 {
             code.push(KismetExpression::new(asset)?);
         }
+        if asset.position() - start_offset != storage_size as u64 {
+            return Err(Error::invalid_file(
+                "Script bytecode does not end where its size says".to_string(),
+            ));
+        }
         Ok(code)
     }
 }
-- 
2.43.0


From 6b19cb1f30949b67a3792e9b859f645a50c1faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 38/85] fix: do not extract records to outside of the output
 directory

---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..78bc945 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // Do not let records be written outside of the output folder
+                        if !Path::new(file_name)
+                            .components()
+                            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Invalid path of record {i}: {file_name:?}!");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From 3fb722c13316e1f39d3f90a189e10cdad382f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:30 +0000
Subject: [PATCH 39/85] fix: accept the dependencies of asset registry nodes

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..45acad0 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 3f1b352625645a39f0cf1363a9e1d30cc307484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:30 +0000
Subject: [PATCH 40/85] fix: write the size of the dependency section as it is
 read

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..62ea6fa 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -137,7 +137,8 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            // the size does not include itself
+            writer.write_i64::<LE>(end_pos as i64 - pos as i64 - 8)?;
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From 54c200930907f1b14b1241f5d0d61dd30af6bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:30 +0000
Subject: [PATCH 41/85] fix: do not write a count of flag words, which are read
 without one

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 45acad0..a09bd63 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -280,9 +280,6 @@ impl DependsNode {
             );
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
-
         for byte in out_flag_bits.chunks(8).map(|chunk| {
             let mut byte = 0u8;
             for i in 0..8 {
-- 
2.43.0


From 57055e1a25329feb8444eedf572f37401f52e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 42/85] fix: do not allocate for counts the file has no data
 for, refuse headers of too many properties

---
 .../src/reader/archive_reader.rs              | 20 +++++++++++++++----
 .../src/unversioned/header.rs                 | 11 +++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..4fafe96 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -131,7 +131,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
 
         let hashes = match hash_version {
             hash if hash == enums::HASH_VERSION_CITYHASH64 => {
-                let mut hashes = Vec::with_capacity(num_strings as usize);
+                let mut hashes = Vec::new();
                 for _ in 0..num_strings {
                     hashes.push(self.read_u64::<LE>()?); // cityhash64 of crc::to_lower_string
                 }
@@ -143,12 +143,12 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
             ))),
         }?;
 
-        let mut name_headers = Vec::with_capacity(num_strings as usize);
+        let mut name_headers = Vec::new();
         for _ in 0..num_strings {
             name_headers.push(SerializedNameHeader::read(self)?);
         }
 
-        let mut name_batch = Vec::with_capacity(num_strings as usize);
+        let mut name_batch = Vec::new();
 
         for name_header in name_headers {
             name_batch.push(self.read_name_map_string(Some(name_header)).map(|e| e.0)?);
@@ -179,6 +179,18 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         Ok((name_batch, hash_version))
     }
 
+    /// Read the specified number of bytes
+    ///
+    /// The buffer grows with the data that is there, the length might be from a damaged file
+    fn read_bytes(&mut self, length: usize) -> io::Result<Vec<u8>> {
+        let mut data = Vec::new();
+        Read::take(&mut *self, length as u64).read_to_end(&mut data)?;
+        if data.len() != length {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(data)
+    }
+
     /// Read an array with specified length
     ///
     /// # Examples
@@ -196,7 +208,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         length: i32,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let mut array = Vec::with_capacity(length as usize);
+        let mut array = Vec::new();
         for _ in 0..length {
             array.push(getter(self)?);
         }
diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..5a70057 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -135,14 +135,19 @@ impl UnversionedHeader {
 
         let mut fragments = Vec::new();
 
-        let mut first_num = 0;
+        let mut first_num = 0u8;
         let mut zero_mask_num = 0u16;
         let mut unmasked_num = 0u16;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            fragment.first_num = first_num
+                .checked_add(fragment.skip_num)
+                .ok_or_else(|| Error::invalid_file("Too many properties".to_string()))?;
+            first_num = fragment
+                .first_num
+                .checked_add(fragment.value_num)
+                .ok_or_else(|| Error::invalid_file("Too many properties".to_string()))?;
 
             fragments.push(fragment);
 
-- 
2.43.0


From 571245c20414dbc93b48bd425c4644de7b941766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 43/85] fix: read the lengths of preload dependency lists as
 numbers, not as capacities

---
 unreal_asset/src/asset.rs      | 53 ++++++++++++++++++++--------------
 unreal_asset/src/asset_data.rs |  3 +-
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 99b3fc4..88e1a13 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -91,6 +91,9 @@ pub struct UAssetExportMapEntry {
     pub serialization_before_create_dependencies: Vec<PackageIndex>,
     /// Dependencies that should be created before this export is created
     pub create_before_create_dependencies: Vec<PackageIndex>,
+
+    /// Lengths of the dependency lists, in the order of the lists
+    dependency_counts: [i32; 4],
 }
 
 impl UAssetExportMapEntry {
@@ -149,14 +152,9 @@ impl UAssetExportMapEntry {
             >= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS
         {
             entry.first_export_dependency_offset = archive.read_i32::<LE>()?;
-            entry.serialization_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.serialization_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
+            for count in &mut entry.dependency_counts {
+                *count = archive.read_i32::<LE>()?;
+            }
         }
 
         Ok(entry)
@@ -312,6 +310,7 @@ impl UAssetExportMapEntry {
                 .serialization_before_create_dependencies
                 .clone(),
             create_before_create_dependencies: b.create_before_create_dependencies.clone(),
+            dependency_counts: Default::default(),
         }
     }
 }
@@ -897,7 +896,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             }
         }
 
-        let mut export_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+        let mut export_map = Vec::new();
         if self.export_offset > 0 {
             self.seek(SeekFrom::Start(self.export_offset as u64))?;
             for _i in 0..self.asset_data.summary.export_count {
@@ -911,7 +910,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.depends_offset > 0
             || depends_offset_zero_version_range.contains(&self.get_object_version())
         {
-            let mut depends_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+            let mut depends_map = Vec::new();
 
             // 4.14-4.15 the depends offset wasnt updated so always serialized as 0
             if self.depends_offset > 0 {
@@ -930,8 +929,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         if self.soft_package_reference_offset > 0 {
-            let mut soft_package_reference_list =
-                Vec::with_capacity(self.soft_package_reference_count as usize);
+            let mut soft_package_reference_list = Vec::new();
 
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
@@ -958,16 +956,27 @@ impl<'a, C: Read + Seek> Asset<C> {
                     entry.first_export_dependency_offset as i64 * size_of::<i32>() as i64,
                 ))?;
 
-                let mut read_deps = |list: &mut Vec<PackageIndex>| -> Result<(), Error> {
-                    for _ in 0..list.capacity() {
-                        list.push(PackageIndex::new(self.raw_reader.read_i32::<LE>()?))
-                    }
-                    Ok(())
-                };
-                read_deps(&mut entry.serialization_before_serialization_dependencies)?;
-                read_deps(&mut entry.create_before_serialization_dependencies)?;
-                read_deps(&mut entry.serialization_before_create_dependencies)?;
-                read_deps(&mut entry.create_before_create_dependencies)?;
+                let mut read_deps =
+                    |list: &mut Vec<PackageIndex>, count: i32| -> Result<(), Error> {
+                        for _ in 0..count {
+                            list.push(PackageIndex::new(self.raw_reader.read_i32::<LE>()?))
+                        }
+                        Ok(())
+                    };
+                let counts = entry.dependency_counts;
+                read_deps(
+                    &mut entry.serialization_before_serialization_dependencies,
+                    counts[0],
+                )?;
+                read_deps(
+                    &mut entry.create_before_serialization_dependencies,
+                    counts[1],
+                )?;
+                read_deps(
+                    &mut entry.serialization_before_create_dependencies,
+                    counts[2],
+                )?;
+                read_deps(&mut entry.create_before_create_dependencies, counts[3])?;
             }
             self.seek(SeekFrom::Start(self.preload_dependency_offset as u64))?;
         }
diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index f51517d..20d9fba 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -423,8 +423,7 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
                 new_array_overrides,
             ));
         } else if let Some(normal_export) = export.get_normal_export_mut() {
-            let mut extras = vec![0u8; extras_len as usize];
-            self.read_exact(&mut extras)?;
+            let extras = self.read_bytes(extras_len as usize)?;
             normal_export.extras = extras;
         }
 
-- 
2.43.0


From ee3ba37e0f883befcbe68b3978e2c4b15ef8c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 44/85] fix: refuse arrays and maps longer than their data

---
 .../unreal_asset_properties/src/array_property.rs         | 8 ++++++++
 .../unreal_asset_properties/src/cloth_lod_property.rs     | 5 ++---
 .../unreal_asset_properties/src/delegate_property.rs      | 2 +-
 .../src/gameplay_tag_container_property.rs                | 2 +-
 unreal_asset/unreal_asset_properties/src/map_property.rs  | 8 ++++++++
 .../src/movies/movie_scene_evaluation.rs                  | 4 ++--
 .../src/movies/movie_scene_event_parameters_property.rs   | 3 +--
 .../src/movies/movie_scene_float_channel_property.rs      | 4 ++--
 .../src/movies/movie_scene_segment_property.rs            | 2 +-
 .../unreal_asset_properties/src/per_platform_property.rs  | 6 +++---
 .../unreal_asset_properties/src/raw_struct_property.rs    | 3 +--
 .../unreal_asset_properties/src/sampler_property.rs       | 8 ++++----
 .../unreal_asset_properties/src/unknown_property.rs       | 3 +--
 .../unreal_asset_properties/src/world_tile_property.rs    | 2 +-
 14 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 14cc218..f85a20a 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -166,6 +166,7 @@ impl ArrayProperty {
                 struct_guid,
             ));
             for _i in 0..num_entries {
+                let start = asset.position();
                 let data = StructProperty::custom_header(
                     asset,
                     name.clone(),
@@ -176,6 +177,9 @@ impl ArrayProperty {
                     struct_guid,
                     None,
                 )?;
+                if asset.position() == start {
+                    return Err(Error::invalid_file("Array entry without data".to_string()));
+                }
                 entries.push(data.into());
             }
         } else if num_entries > 0 {
@@ -185,6 +189,7 @@ impl ArrayProperty {
                 .as_ref()
                 .ok_or_else(|| Error::invalid_file("Unknown array type".to_string()))?;
             for i in 0..num_entries {
+                let start = asset.position();
                 let entry: Property = if array_type == "StructProperty" {
                     let struct_type = match array_struct_type {
                         Some(ref e) => Some(e.clone()),
@@ -215,6 +220,9 @@ impl ArrayProperty {
                     )?
                 };
 
+                if asset.position() == start {
+                    return Err(Error::invalid_file("Array entry without data".to_string()));
+                }
                 entries.push(entry);
             }
         }
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 1741ad1..78179bd 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -133,14 +133,13 @@ impl ClothLodDataProperty {
         )?;
 
         let transition_up_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_up_skin_data = Vec::with_capacity(transition_up_skin_data_len as usize);
+        let mut transition_up_skin_data = Vec::new();
         for _ in 0..transition_up_skin_data_len {
             transition_up_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
 
         let transition_down_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_down_skin_data =
-            Vec::with_capacity(transition_down_skin_data_len as usize);
+        let mut transition_down_skin_data = Vec::new();
         for _ in 0..transition_down_skin_data_len {
             transition_down_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/delegate_property.rs b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
index a0934d7..a5c74a2 100644
--- a/unreal_asset/unreal_asset_properties/src/delegate_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
@@ -106,7 +106,7 @@ macro_rules! impl_multicast {
                 let property_guid = optional_guid!(asset, include_header);
 
                 let length = asset.read_i32::<LE>()?;
-                let mut value = Vec::with_capacity(length as usize);
+                let mut value = Vec::new();
                 for _ in 0..length {
                     value.push(Delegate::new(
                         PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
index e963d48..fc085a0 100644
--- a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
@@ -31,7 +31,7 @@ impl GameplayTagContainerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let length = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(length as usize);
+        let mut value = Vec::new();
         for _i in 0..length as usize {
             value.push(asset.read_fname()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index dd87c3c..2999686 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -156,6 +156,7 @@ impl MapProperty {
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
         for _ in 0..num_keys_to_remove {
+            let start = asset.position();
             let vec: &mut Vec<Property> = keys_to_remove.get_or_insert_with(Vec::new);
             vec.push(MapProperty::map_type_to_class(
                 asset,
@@ -166,12 +167,16 @@ impl MapProperty {
                 false,
                 true,
             )?);
+            if asset.position() == start {
+                return Err(Error::invalid_file("Map key without data".to_string()));
+            }
         }
 
         let num_entries = asset.read_i32::<LE>()?;
         let mut values: IndexedMap<Property, Property> = IndexedMap::new();
 
         for _ in 0..num_entries {
+            let start = asset.position();
             let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
@@ -190,6 +195,9 @@ impl MapProperty {
                 false,
                 false,
             )?;
+            if asset.position() == start {
+                return Err(Error::invalid_file("Map entry without data".to_string()));
+            }
             values.insert(key, value);
         }
 
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index cd38712..e9c7e59 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -136,14 +136,14 @@ where
         item_reader: fn(&mut Reader) -> Result<T, Error>,
     ) -> Result<Self, Error> {
         let entries_amount = asset.read_i32::<LE>()?;
-        let mut entries = Vec::with_capacity(entries_amount as usize);
+        let mut entries = Vec::new();
 
         for _ in 0..entries_amount {
             entries.push(FEntry::new(asset)?);
         }
 
         let items_amount = asset.read_i32::<LE>()?;
-        let mut items = Vec::with_capacity(items_amount as usize);
+        let mut items = Vec::new();
 
         for _ in 0..items_amount {
             items.push(item_reader(asset)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
index ab178b6..21538f4 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
@@ -19,8 +19,7 @@ impl MovieSceneEventParameters {
         let struct_type = SoftObjectPath::new(asset)?;
 
         let struct_bytes_length = asset.read_i32::<LE>()?;
-        let mut struct_bytes = vec![0u8; struct_bytes_length as usize];
-        asset.read_exact(&mut struct_bytes)?;
+        let struct_bytes = asset.read_bytes(struct_bytes_length as usize)?;
 
         Ok(MovieSceneEventParameters {
             struct_type,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
index 55ae5a1..47f493f 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
@@ -46,7 +46,7 @@ impl MovieSceneFloatChannel {
         let times_struct_length = asset.read_i32::<LE>()?;
         let times_length = asset.read_i32::<LE>()?;
 
-        let mut times = Vec::with_capacity(times_length as usize);
+        let mut times = Vec::new();
         for _ in 0..times_length {
             times.push(FrameNumber::new(asset.read_i32::<LE>()?));
         }
@@ -54,7 +54,7 @@ impl MovieSceneFloatChannel {
         let values_struct_length = asset.read_i32::<LE>()?;
         let values_length = asset.read_i32::<LE>()?;
 
-        let mut values = Vec::with_capacity(values_length as usize);
+        let mut values = Vec::new();
         for _ in 0..values_length {
             //todo: clangwin64 is always false?
             values.push(MovieSceneFloatValue::new(asset, false)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
index 0a0e075..ad1bc93 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
@@ -60,7 +60,7 @@ impl MovieSceneSegment {
         let allow_empty = asset.read_i32::<LE>()? != 0;
 
         let impls_length = asset.read_i32::<LE>()?;
-        let mut impls = Vec::with_capacity(impls_length as usize);
+        let mut impls = Vec::new();
 
         for _ in 0..impls_length {
             let mut properties_list = Vec::new();
diff --git a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
index 615ac35..8392d05 100644
--- a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
@@ -63,7 +63,7 @@ impl PerPlatformBoolProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_bool()?);
@@ -107,7 +107,7 @@ impl PerPlatformIntProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_i32::<LE>()?);
@@ -151,7 +151,7 @@ impl PerPlatformFloatProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(OrderedFloat(asset.read_f32::<LE>()?));
diff --git a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
index 7aa89b2..ee07eb0 100644
--- a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
@@ -30,8 +30,7 @@ impl RawStructProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length as usize)?;
 
         Ok(RawStructProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/sampler_property.rs b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
index d54b6b3..c199c44 100644
--- a/unreal_asset/unreal_asset_properties/src/sampler_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
@@ -71,13 +71,13 @@ impl WeightedRandomSamplerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
@@ -135,13 +135,13 @@ impl SkeletalMeshAreaWeightedTriangleSampler {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/unknown_property.rs b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
index ade5731..542c59f 100644
--- a/unreal_asset/unreal_asset_properties/src/unknown_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
@@ -34,8 +34,7 @@ impl UnknownProperty {
         serialized_type: FName,
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length as usize)?;
 
         Ok(UnknownProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
index 76d0d8f..92ec18b 100644
--- a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
@@ -186,7 +186,7 @@ impl FWorldTileInfo {
         let mut lod_list = None;
         if object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST {
             let num_entries = asset.read_i32::<LE>()? as usize;
-            let mut list = Vec::with_capacity(num_entries);
+            let mut list = Vec::new();
             for _i in 0..num_entries {
                 list.push(FWorldTileLODInfo::new(asset)?);
             }
-- 
2.43.0


From efd5c76c2f14515683950161aee6939ac475650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 45/85] fix: do not abort on counts in exports and scripts the
 file has no data for

---
 unreal_asset/unreal_asset_exports/src/class_export.rs  | 10 ++++------
 .../unreal_asset_exports/src/data_table_export.rs      |  2 +-
 unreal_asset/unreal_asset_exports/src/raw_export.rs    |  3 +--
 unreal_asset/unreal_asset_exports/src/struct_export.rs |  7 +++----
 unreal_asset/unreal_asset_kismet/src/lib.rs            |  4 ++--
 5 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d738020..719d7d1 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -79,7 +79,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         let struct_export = StructExport::from_base(base, asset)?;
 
         let num_func_index_entries = asset.read_i32::<LE>()? as usize;
-        let mut func_map = IndexedMap::with_capacity(num_func_index_entries);
+        let mut func_map = IndexedMap::new();
         for _i in 0..num_func_index_entries {
             let name = asset.read_fname()?;
             let function_export = PackageIndex::new(asset.read_i32::<LE>()?);
@@ -102,10 +102,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         {
             interfaces_start = Some(asset.position());
             let num_interfaces = asset.read_i32::<LE>()?;
-            asset.seek(SeekFrom::Start(
-                interfaces_start.unwrap()
-                    + size_of::<i32>() as u64
-                    + num_interfaces as u64 * (size_of::<i32>() as u64 * 3),
+            asset.seek(SeekFrom::Current(
+                num_interfaces as i64 * (size_of::<i32>() as i64 * 3),
             ))?;
         }
 
@@ -118,7 +116,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
             asset.seek(SeekFrom::Start(interfaces_start.unwrap()))?;
         }
         let num_interfaces = asset.read_i32::<LE>()? as usize;
-        let mut interfaces = Vec::with_capacity(num_interfaces);
+        let mut interfaces = Vec::new();
         for _i in 0..num_interfaces {
             interfaces.push(SerializedInterfaceReference::new(
                 PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 29ef6a1..35ee9f8 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -61,7 +61,7 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
 
         asset.read_i32::<LE>()?;
         let num_entries = asset.read_i32::<LE>()? as usize;
-        let mut data = Vec::with_capacity(num_entries);
+        let mut data = Vec::new();
 
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
diff --git a/unreal_asset/unreal_asset_exports/src/raw_export.rs b/unreal_asset/unreal_asset_exports/src/raw_export.rs
index c9ccadf..53dd7da 100644
--- a/unreal_asset/unreal_asset_exports/src/raw_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/raw_export.rs
@@ -46,8 +46,7 @@ impl<Index: PackageIndexTrait> RawExport<Index> {
         base: BaseExport<Index>,
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; base.serial_size as usize];
-        asset.read_exact(&mut data)?;
+        let data = asset.read_bytes(base.serial_size as usize)?;
 
         Ok(RawExport {
             base_export: base,
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 130cc19..358284e 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -56,7 +56,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
         let num_index_entries = asset.read_i32::<LE>()?;
-        let mut children = Vec::with_capacity(num_index_entries as usize);
+        let mut children = Vec::new();
         for _i in 0..num_index_entries as usize {
             children.push(PackageIndex::new(asset.read_i32::<LE>()?));
         }
@@ -66,7 +66,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         {
             true => {
                 let num_props = asset.read_i32::<LE>()?;
-                let mut props = Vec::with_capacity(num_props as usize);
+                let mut props = Vec::new();
                 for _i in 0..num_props as usize {
                     props.push(FProperty::new(asset)?);
                 }
@@ -89,8 +89,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             Some(_) => None,
             None => {
                 asset.seek(SeekFrom::Start(start_offset))?;
-                let mut data = vec![0u8; script_storage_size as usize];
-                asset.read_exact(&mut data)?;
+                let data = asset.read_bytes(script_storage_size as usize)?;
                 Some(data)
             }
         };
diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 58a6deb..44d1391 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -762,7 +762,7 @@ impl KismetPropertyPointer {
             >= KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
         {
             let num_entries = asset.read_i32::<LE>()?;
-            let mut names = Vec::with_capacity(num_entries as usize);
+            let mut names = Vec::new();
             for _i in 0..num_entries as usize {
                 names.push(asset.read_fname()?);
             }
@@ -3117,7 +3117,7 @@ impl ExSwitchValue {
         let end_goto_offset = asset.read_u32::<LE>()?;
         let index_term = Box::new(KismetExpression::new(asset)?);
 
-        let mut cases = Vec::with_capacity(num_cases as usize);
+        let mut cases = Vec::new();
         for _i in 0..num_cases as usize {
             let term_a = KismetExpression::new(asset)?;
             let term_b = asset.read_u32::<LE>()?;
-- 
2.43.0


From a025946f08fc0065a351dcef0bb038b8607c4bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 46/85] fix: refuse asset registries with more nodes or a
 larger section than data

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 33 +++++++++++++++----
 .../src/objects/depends_node.rs               |  6 ++--
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 62ea6fa..2c21128 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -60,6 +60,22 @@ pub struct AssetRegistryState {
 }
 
 impl AssetRegistryState {
+    /// Read the number of dependency nodes
+    ///
+    /// All nodes are created before any is read, so there has to be data for them
+    fn read_num_depends_nodes<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+    ) -> Result<i32, Error> {
+        let num_depends_nodes = asset.read_i32::<LE>()?;
+        let data_left = asset.data_length()?.saturating_sub(asset.position());
+        if num_depends_nodes as i64 > data_left as i64 {
+            return Err(Error::invalid_file(format!(
+                "Invalid number of dependency nodes: {num_depends_nodes}"
+            )));
+        }
+        Ok(num_depends_nodes)
+    }
+
     /// Read an `AssetRegistryState` from an asset
     fn load<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -71,8 +87,8 @@ impl AssetRegistryState {
         *assets_data = asset.read_array(|asset: &mut Reader| AssetData::new(asset, version))?;
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            let local_num_depends_nodes = Self::read_num_depends_nodes(asset)?;
+            *depends_nodes = Vec::new();
 
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
@@ -86,10 +102,15 @@ impl AssetRegistryState {
             }
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
-            let dependency_section_end = asset.position() + dependency_section_size as u64;
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
-
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            let dependency_section_end = asset
+                .position()
+                .checked_add_signed(dependency_section_size)
+                .ok_or_else(|| {
+                    Error::invalid_file("Invalid size of the dependency section".to_string())
+                })?;
+            let local_num_depends_nodes = Self::read_num_depends_nodes(asset)?;
+
+            *depends_nodes = Vec::new();
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
             }
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index a09bd63..286e4cc 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -224,7 +224,7 @@ impl DependsNode {
             }
         }
 
-        let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
+        let mut out_flag_bits = BitVec::new();
         for write_index in 0..in_dependencies.len() as i32 {
             let read_index = &sort_indexes[write_index as usize];
 
@@ -486,8 +486,8 @@ impl DependsNode {
         };
         let num_referencers = asset.read_i32::<LE>()?;
 
-        let mut name_dependencies = Vec::with_capacity(num_name as usize);
-        let mut referencers = Vec::with_capacity(num_referencers as usize);
+        let mut name_dependencies = Vec::new();
+        let mut referencers = Vec::new();
 
         Self::read_node_array(
             asset,
-- 
2.43.0


From 13acd4ba6a18cfde302a5e3bf943ac36ef42c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:48 +0000
Subject: [PATCH 47/85] fix: return an error for stored blocks shorter than
 their content

---
 unreal_asset/unreal_asset_base/src/compression/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/compression/mod.rs b/unreal_asset/unreal_asset_base/src/compression/mod.rs
index e7d7e68..91c0bb6 100644
--- a/unreal_asset/unreal_asset_base/src/compression/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/compression/mod.rs
@@ -55,8 +55,8 @@ pub fn decompress(
 ) -> Result<(), Error> {
     match method {
         CompressionMethod::None => {
-            decompressed.copy_from_slice(&compressed[..decompressed.len()]);
-            Ok(())
+            let mut compressed = compressed;
+            Ok(compressed.read_exact(decompressed)?)
         }
         CompressionMethod::Zlib => Ok(ZlibDecoder::new(compressed).read_exact(decompressed)?),
         CompressionMethod::Gzip => Ok(GzDecoder::new(compressed).read_exact(decompressed)?),
-- 
2.43.0


From 21f17abc7395414fbe9310e6909a18dd045db8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:48 +0000
Subject: [PATCH 48/85] fix: key mapped properties by their array index, keep
 the mapping file version, refuse damaged mapping files

---
 .../unreal_asset_base/src/unversioned/mod.rs  | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..7e38d94 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -101,7 +101,7 @@ impl UsmapSchema {
         let prop_count = reader.read_u16::<LE>()?;
         let serializable_property_count = reader.read_u16::<LE>()?;
 
-        let mut properties = IndexedMap::with_capacity(prop_count as usize);
+        let mut properties = IndexedMap::new();
 
         for _ in 0..serializable_property_count {
             let property = UsmapProperty::new(reader)?;
@@ -109,10 +109,13 @@ impl UsmapSchema {
             for j in 0..property.array_size {
                 let mut property = property.clone();
                 property.array_index = j as u16;
-                property.schema_index += j as u16;
+                property.schema_index = property
+                    .schema_index
+                    .checked_add(j as u16)
+                    .ok_or_else(|| Error::invalid_file("Invalid schema index".to_string()))?;
 
                 properties.insert(
-                    (property.name.clone(), property.schema_index as u32),
+                    (property.name.clone(), property.array_index as u32),
                     property,
                 );
             }
@@ -248,9 +251,9 @@ impl Usmap {
             ));
         }
 
-        let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
+        self.version = EUsmapVersion::try_from(reader.read_u8()?)?;
 
-        let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
+        let mut has_versioning = self.version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
             has_versioning = reader.read_bool()?;
         }
@@ -267,8 +270,7 @@ impl Usmap {
         let compressed_size = reader.read_u32::<LE>()?;
         let decompressed_size = reader.read_u32::<LE>()?;
 
-        let mut compressed_data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut compressed_data)?;
+        let compressed_data = reader.read_bytes(compressed_size as usize)?;
 
         let data = match self.compression_method {
             EUsmapCompressionMethod::None => {
@@ -281,7 +283,7 @@ impl Usmap {
                 compressed_data
             }
             EUsmapCompressionMethod::Brotli => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
+                let mut decompressed_data = Cursor::new(Vec::new());
                 brotli::BrotliDecompress(
                     &mut Cursor::new(compressed_data),
                     &mut decompressed_data,
@@ -289,7 +291,7 @@ impl Usmap {
                 decompressed_data.into_inner()
             }
             EUsmapCompressionMethod::ZStandard => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
+                let mut decompressed_data = Cursor::new(Vec::new());
                 zstd::stream::copy_decode(
                     &mut Cursor::new(compressed_data),
                     &mut decompressed_data,
@@ -332,14 +334,16 @@ impl Usmap {
         );
 
         self.name_map = reader.read_array(|reader| {
-            let name_length = reader.read_u8()?;
-            let mut buf = vec![0u8; name_length as usize - 1];
-            reader.read_exact(&mut buf)?;
+            let name_length = reader
+                .read_u8()?
+                .checked_sub(1)
+                .ok_or_else(|| Error::invalid_file("Invalid name length".to_string()))?;
+            let buf = reader.read_bytes(name_length as usize)?;
             Ok(String::from_utf8(buf)?)
         })?;
 
         let enum_len = reader.read_u32::<LE>()?;
-        self.enum_map = IndexedMap::with_capacity(enum_len as usize);
+        self.enum_map = IndexedMap::new();
 
         let mut reader = UsmapReader::new(&mut reader, &self.name_map, &self.custom_versions);
 
@@ -357,7 +361,7 @@ impl Usmap {
         }
 
         let schemas_len = reader.read_u32::<LE>()?;
-        self.schemas = IndexedMap::with_capacity(schemas_len as usize);
+        self.schemas = IndexedMap::new();
 
         for _ in 0..schemas_len {
             let schema = UsmapSchema::read(&mut reader)?;
@@ -385,7 +389,10 @@ impl Usmap {
                         true => reader.read_u16::<LE>()?,
                         false => reader.read_u8()? as u16,
                     };
-                    schema.module_path = Some(module_paths[index as usize].clone());
+                    let module_path = module_paths.get(index as usize).ok_or_else(|| {
+                        Error::invalid_file("Invalid module path index".to_string())
+                    })?;
+                    schema.module_path = Some(module_path.clone());
                 }
             }
         }
-- 
2.43.0


From dbf9bbc2fc8cacb18d08152d3bc71d30b7c51398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:49 +0000
Subject: [PATCH 49/85] fix: write the description of a mod under the array
 index it is read from

---
 unreal_mod_integrator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index f2668ac..24b362f 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -230,7 +230,7 @@ fn bake_mod_data(asset: &mut Asset<Cursor<&[u8]>>, mods: &Vec<Metadata>) -> Resu
                 name: columns[2].clone(),
                 ancestry: Ancestry::default(),
                 property_guid: None,
-                duplication_index: 9,
+                duplication_index: 0,
                 value: Some(mod_data.description.clone().unwrap_or_default()),
             }
             .into(),
-- 
2.43.0


From c1bc30de2f9bbf6efca6023db6c5cae12d23ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:24 +0000
Subject: [PATCH 50/85] fix: add persistent actors once to a map that several
 mods ask for

---
 unreal_mod_integrator/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 24b362f..b9d1780 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -496,13 +496,19 @@ pub fn integrate_mods<
 
         let empty_vec: Vec<Value> = Vec::new();
 
-        let persistent_actor_maps: Vec<&str> = optional_mods_data
+        // several mods may ask for the same map
+        let mut persistent_actor_maps: Vec<&str> = Vec::new();
+        for map in optional_mods_data
             .get("persistent_actor_maps")
             .unwrap_or(&empty_vec)
             .iter()
             .filter_map(|e| e.as_array())
             .flat_map(|e| e.iter().filter_map(|e| e.as_str()))
-            .collect();
+        {
+            if !persistent_actor_maps.contains(&map) {
+                persistent_actor_maps.push(map);
+            }
+        }
 
         let persistent_actors = optional_mods_data
             .get("persistent_actors")
-- 
2.43.0


From 994b4cbd5b799e03149101920e362e9eb5da1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:24 +0000
Subject: [PATCH 51/85] fix: find persistent actors that are named by their
 class

---
 .../src/handlers/ue4_23/persistent_actors.rs      | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 357daf8..4e3a868 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -98,15 +98,16 @@ pub fn handle_persistent_actors(
 
         for component_path_raw in &persistent_actors {
             let component = Path::new(component_path_raw)
-                .file_stem()
+                .file_name()
                 .and_then(|e| e.to_str())
                 .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid persistent actors"))?;
-            let (component_path_raw, component) = match component.contains('.') {
-                true => {
-                    let split: Vec<&str> = component.split('.').collect();
-                    (split[0].to_string(), &split[1][..split[1].len() - 2])
-                }
-                false => (component_path_raw.to_string(), component),
+            // the class may be named as well: Package.Class_C
+            let (component_path_raw, component) = match component.split_once('.') {
+                Some((_, class)) => (
+                    component_path_raw[..component_path_raw.len() - class.len() - 1].to_string(),
+                    class.strip_suffix("_C").unwrap_or(class),
+                ),
+                None => (component_path_raw.to_string(), component),
             };
             let mut actor_template = actor_template.clone();
 
-- 
2.43.0


From 1a645114af2f486ad2c592e0d8b0047eae13895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:43 +0000
Subject: [PATCH 52/85] fix: read the construction scripts of persistent actors
 from their own asset

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 60 +++++++++++--------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 4e3a868..1ddb36e 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -31,6 +31,32 @@ struct ScsNode {
     original_category: PackageIndex,
 }
 
+/// Find an import of another asset, or add it with the names of this one
+fn find_or_add_import<C: io::Read + io::Seek>(
+    asset: &mut Asset<C>,
+    import: &Import,
+    outer_index: PackageIndex,
+) -> PackageIndex {
+    match asset.find_import(
+        &import.class_package,
+        &import.class_name,
+        outer_index,
+        &import.object_name,
+    ) {
+        Some(e) => PackageIndex::new(e),
+        None => {
+            let import = Import {
+                class_package: import.class_package.get_content(|e| asset.add_fname(e)),
+                class_name: import.class_name.get_content(|e| asset.add_fname(e)),
+                outer_index,
+                object_name: import.object_name.get_content(|e| asset.add_fname(e)),
+                optional: import.optional,
+            };
+            asset.add_import(import)
+        }
+    }
+}
+
 #[allow(clippy::ptr_arg)]
 pub fn handle_persistent_actors(
     game_name: &'static str,
@@ -161,7 +187,7 @@ pub fn handle_persistent_actors(
                 let export = &actor_asset.asset_data.exports[i];
                 if let Some(normal_export) = export.get_normal_export() {
                     if normal_export.base_export.class_index.is_import() {
-                        let import = asset
+                        let import = actor_asset
                             .get_import(normal_export.base_export.class_index)
                             .ok_or_else(|| io::Error::new(ErrorKind::Other, "Import not found"))?;
                         if import.object_name == "SimpleConstructionScript" {
@@ -209,7 +235,7 @@ pub fn handle_persistent_actors(
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-                            let import = asset
+                            let import = actor_asset
                                 .get_import(known_category.base_export.class_index)
                                 .ok_or_else(|| {
                                 io::Error::new(ErrorKind::Other, "Import not found")
@@ -292,29 +318,13 @@ pub fn handle_persistent_actors(
 
                     if let (Some(first_import), Some(second_import)) = (first_import, second_import)
                     {
-                        if asset
-                            .find_import(
-                                &second_import.class_package,
-                                &second_import.class_name,
-                                second_import.outer_index,
-                                &second_import.object_name,
-                            )
-                            .is_none()
-                        {
-                            asset.add_import(second_import);
-                        }
-
-                        let type_link = match asset.find_import(
-                            &first_import.class_package,
-                            &first_import.class_name,
-                            first_import.outer_index,
-                            &first_import.object_name,
-                        ) {
-                            Some(e) => PackageIndex::new(e),
-                            None => asset.add_import(first_import),
-                        };
-
-                        new_scs.type_link = type_link;
+                        let package = find_or_add_import(
+                            &mut asset,
+                            &second_import,
+                            PackageIndex::default(),
+                        );
+                        new_scs.type_link =
+                            find_or_add_import(&mut asset, &first_import, package);
                     }
                     created_components.push(new_scs);
                 }
-- 
2.43.0


From a916210f7ba78fb8771a30bc0016c13dbc58b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:54 +0000
Subject: [PATCH 53/85] fix: keep the numbers of component names of persistent
 actors

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 1ddb36e..acbd534 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -4,6 +4,7 @@ use std::io::{self, BufReader, Cursor, ErrorKind};
 use std::path::Path;
 
 use unreal_asset::engine_version::EngineVersion;
+use unreal_asset::reader::ArchiveTrait;
 use unreal_asset::unversioned::Ancestry;
 use unreal_asset::Guid;
 use unreal_asset::{
@@ -26,6 +27,7 @@ const LEVEL_TEMPLATE_ASSET: &[u8] = include_bytes!("assets/LevelTemplate.umap");
 #[derive(Default)]
 struct ScsNode {
     internal_variable_name: String,
+    internal_variable_number: i32,
     type_link: PackageIndex,
     attach_parent: Option<PackageIndex>,
     original_category: PackageIndex,
@@ -250,6 +252,7 @@ pub fn handle_persistent_actors(
 
                     let mut new_scs = ScsNode {
                         internal_variable_name: String::from("Unknown"),
+                        internal_variable_number: 0,
                         type_link: PackageIndex::new(0),
                         attach_parent: None,
                         original_category: PackageIndex::new(known_node_category),
@@ -267,6 +270,8 @@ pub fn handle_persistent_actors(
                                     {
                                         new_scs.internal_variable_name =
                                             name_property.value.get_owned_content();
+                                        new_scs.internal_variable_number =
+                                            name_property.value.get_number();
                                     }
                                 }
                                 "ComponentClass" => {
@@ -349,8 +354,10 @@ pub fn handle_persistent_actors(
             for created_component in &created_components {
                 let mut scene_export = scene_export.clone();
                 scene_export.base_export.class_index = created_component.type_link;
-                scene_export.base_export.object_name =
-                    asset.add_fname(&created_component.internal_variable_name);
+                scene_export.base_export.object_name = asset.add_fname_with_number(
+                    &created_component.internal_variable_name,
+                    created_component.internal_variable_number,
+                );
                 scene_export.base_export.outer_index = PackageIndex::new(template_category_pointer);
 
                 let mut prop_data: Vec<Property> = Vec::from([
@@ -408,7 +415,10 @@ pub fn handle_persistent_actors(
                 );
 
                 node_name_to_export_index.insert(
-                    created_component.internal_variable_name.clone(),
+                    (
+                        created_component.internal_variable_name.clone(),
+                        created_component.internal_variable_number,
+                    ),
                     asset.asset_data.exports.len() as i32,
                 );
                 old_export_to_new_export.insert(
@@ -420,13 +430,16 @@ pub fn handle_persistent_actors(
                     .get_import(created_component.type_link)
                     .ok_or_else(|| io::Error::new(ErrorKind::Other, "No type link"))?;
 
+                // numbers of names count from one
+                let variable_name = match created_component.internal_variable_number {
+                    0 => created_component.internal_variable_name.clone(),
+                    number => format!("{}_{}", created_component.internal_variable_name, number - 1),
+                };
                 let import = Import {
                     class_package: asset.add_fname("/Script/Engine"),
                     class_name: type_link.object_name.clone(),
                     outer_index: actor_template.base_export.class_index,
-                    object_name: asset.add_fname(
-                        &(created_component.internal_variable_name.clone() + "_GEN_VARIABLE"),
-                    ),
+                    object_name: asset.add_fname(&(variable_name + "_GEN_VARIABLE")),
                     optional: false,
                 };
                 asset.add_import(import);
@@ -468,8 +481,8 @@ pub fn handle_persistent_actors(
                 .into(),
             ]);
 
-            for (node_name, export_index) in node_name_to_export_index {
-                if node_name == "DefaultSceneRoot" {
+            for ((node_name, node_number), export_index) in node_name_to_export_index {
+                if node_name == "DefaultSceneRoot" && node_number == 0 {
                     determined_prop_data.push(
                         ObjectProperty {
                             name: asset.add_fname("RootComponent"),
@@ -483,7 +496,7 @@ pub fn handle_persistent_actors(
                 }
                 determined_prop_data.push(
                     ObjectProperty {
-                        name: asset.add_fname(&node_name),
+                        name: asset.add_fname_with_number(&node_name, node_number),
                         ancestry: Ancestry::default(),
                         property_guid: Some(Guid::default()),
                         duplication_index: 0,
-- 
2.43.0


From a9881f1bf19c51419931a03bdca9bb6af3bea762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 54/85] fix: report mod files with an invalid version or
 priority instead of crashing

---
 unreal_mod_manager/src/mod_processing/pakfile_reading.rs | 6 ++++++
 unreal_mod_manager/src/mod_processing/verify.rs          | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 35ee4c9..35cee2e 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -83,6 +83,12 @@ pub(crate) fn read_pak_files(
                 return Err(ModLoaderWarning::invalid_metadata(file_name));
             }
 
+            // check that the version can be compared with others
+            if Version::parse(version).is_err() {
+                warn!("Version {:?} of mod {:?} is invalid", version, mod_id);
+                return Err(ModLoaderWarning::invalid_version(file_name));
+            }
+
             let mod_id = metadata.mod_id.to_owned();
 
             if !mods_read.contains_key(&mod_id) {
diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index a63683b..b1dce1c 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -14,7 +14,7 @@ lazy_static! {
     /// Match 2: ModName69.author
     /// Match 3: 1.1.1
     // regex explanation                                           (  000 )-(Mod69<.author>)-( 1 . 1 . 1 )_P.pak
-    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+.\d+.\d+)_P.pak$").unwrap();
+    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"^([0-9]{3})-([a-zA-Z0-9\.]+)-([0-9]+\.[0-9]+\.[0-9]+)_P\.pak$").unwrap();
 }
 
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
-- 
2.43.0


From 6c08d2367d060c381f45ac5c0e91b903fc70744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 55/85] fix: do not destroy mod files that are imported from
 the mods directory

---
 unreal_mod_manager/src/background_work.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index bbc3fd5..129cae7 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -212,6 +212,19 @@ where
 
                         // copy the file to the mods directory
                         let new_file_path = mods_path.join(file_name);
+
+                        // a file that already is in the mods directory would be emptied by copying it onto itself
+                        let is_same_file = match (
+                            fs::canonicalize(file_path),
+                            fs::canonicalize(&new_file_path),
+                        ) {
+                            (Ok(from), Ok(to)) => from == to,
+                            _ => false,
+                        };
+                        if is_same_file {
+                            return Some(FileToProcess::new(new_file_path, false));
+                        }
+
                         match fs::copy(file_path, &new_file_path) {
                             Ok(_) => Some(FileToProcess::new(new_file_path, file.newly_added)),
                             Err(err) => {
-- 
2.43.0


From d10ecee895f03ad22cb542710d6cc3115d77adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:35 +0000
Subject: [PATCH 56/85] fix: keep installed mods when a damaged file of the
 same name is imported

---
 unreal_mod_manager/src/background_work.rs    | 12 +++++++++++-
 unreal_mod_manager/src/mod_processing/mod.rs |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 129cae7..73e44fc 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -30,7 +30,7 @@ use crate::mod_config::{load_config, write_config};
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
-    process_modfiles,
+    process_modfiles, read_pak_files,
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -225,6 +225,16 @@ where
                             return Some(FileToProcess::new(new_file_path, false));
                         }
 
+                        // a file that is not a valid mod must not replace an installed one
+                        if new_file_path.exists() {
+                            let (_, read_warnings) =
+                                read_pak_files(&[FileToProcess::new(file_path.clone(), false)]);
+                            if !read_warnings.is_empty() {
+                                data_guard.warnings.extend(read_warnings);
+                                return None;
+                            }
+                        }
+
                         match fs::copy(file_path, &new_file_path) {
                             Ok(_) => Some(FileToProcess::new(new_file_path, file.newly_added)),
                             Err(err) => {
diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index 355fcdb..3b5e946 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -9,7 +9,8 @@ pub(crate) mod dependencies;
 pub(crate) mod index_file;
 use index_file::{download_index_files, gather_index_files, insert_index_file_data};
 mod pakfile_reading;
-use pakfile_reading::{insert_mods_from_readdata, read_pak_files};
+use pakfile_reading::insert_mods_from_readdata;
+pub(crate) use pakfile_reading::read_pak_files;
 mod version_handling;
 use version_handling::{auto_pick_versions, set_mod_data_from_version};
 
-- 
2.43.0


From 4a1522c76464399f5bbf46e93459cfa561b1495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 57/85] fix: do not crash when the paks directory of the
 platform is unknown

---
 unreal_mod_manager/src/background_work.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 73e44fc..ac76a43 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -312,7 +312,10 @@ where
 
                 let mut data_guard = background_thread_data.data.lock();
 
-                let paks_path = data_guard.paks_path.as_ref().unwrap().clone();
+                let paks_path = match data_guard.paks_path {
+                    Some(ref paks_path) => paks_path.clone(),
+                    None => continue,
+                };
                 let install_path = match data_guard.game_install_path {
                     Some(ref install_path) => install_path.clone(),
                     None => continue,
-- 
2.43.0


From 20aee44d9243bb2a923e88e9062839e00af7f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 58/85] fix: fall back to another platform when the configured
 one does not exist

---
 unreal_mod_manager/src/mod_config.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index bb42aad..9129cba 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -105,9 +105,11 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         }
     };
 
-    if let Some(ref selected_game_platform) = config.selected_game_platform {
-        let _ = data.set_game_platform(selected_game_platform);
-    } else if data.set_game_platform("Steam").is_err() {
+    let platform_set = match config.selected_game_platform {
+        Some(ref selected_game_platform) => data.set_game_platform(selected_game_platform).is_ok(),
+        None => false,
+    };
+    if !platform_set && data.set_game_platform("Steam").is_err() {
         let first_platform = data.install_managers.keys().next().unwrap();
         let _ = data.set_game_platform(first_platform);
     }
-- 
2.43.0


From cdd5e64c6ffeb929bf57cbf83435424f7b6ebb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 59/85] fix: do not select mod versions from the config that do
 not exist

---
 unreal_mod_manager/src/mod_config.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 9129cba..a22852b 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -86,7 +86,16 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
                 continue;
             }
 
-            game_mod.selected_version = SelectedVersion::Specific(config_version.unwrap());
+            let config_version = config_version.unwrap();
+            if !game_mod.versions.contains_key(&config_version) {
+                warn!(
+                    "Version {} of mod {} is not available",
+                    config_version, mod_id
+                );
+                continue;
+            }
+
+            game_mod.selected_version = SelectedVersion::Specific(config_version);
         }
     }
 
-- 
2.43.0


From de55992adb12dd6834e868df2d6a260e3c473ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 60/85] fix: do not crash on config files that are not valid
 UTF-8

---
 unreal_mod_manager/src/mod_config.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index a22852b..ab16394 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -52,7 +52,14 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         bail!()
     }
 
-    let config: ModConfig = match serde_json::from_str(&fs::read_to_string(&config_path).unwrap()) {
+    let config = match fs::read(&config_path) {
+        Ok(config) => config,
+        Err(err) => {
+            error!("{}", err);
+            bail!();
+        }
+    };
+    let config: ModConfig = match serde_json::from_slice(&config) {
         Ok(config) => config,
         Err(err) => {
             error!("{}", err);
-- 
2.43.0


From feb94c229f8efdd17fc56d671102bc284fd6aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 61/85] fix: do not crash when a mod is required by very many
 mods

The requirements were joined as text, which semver only parses up to 32 comparators.
---
 .../src/mod_processing/dependencies.rs         | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 031f11b..e04ce5f 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -42,21 +42,9 @@ pub struct DependencyGraph {
 
 // https://github.com/dtolnay/semver/issues/170#issuecomment-734284639
 fn intersect_requirements(reqs: impl IntoIterator<Item = VersionReq>) -> VersionReq {
-    let reqs: Vec<_> = reqs
-        .into_iter()
-        .filter_map(|req| {
-            if req == VersionReq::STAR {
-                None
-            } else {
-                Some(req.to_string())
-            }
-        })
-        .collect();
-
-    if reqs.is_empty() {
-        VersionReq::STAR
-    } else {
-        reqs.join(", ").parse().unwrap()
+    // a requirement without comparators is `VersionReq::STAR`
+    VersionReq {
+        comparators: reqs.into_iter().flat_map(|req| req.comparators).collect(),
     }
 }
 
-- 
2.43.0


From 3ad08423245eec02275545344b28323ed9c47dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 62/85] fix: report the requirements of the dependents of an
 unresolved dependency

Edges go from the dependent to the dependency; they were looked up the other way round, which crashed the background thread.
---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index e04ce5f..87017d2 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -143,7 +143,7 @@ impl DependencyGraph {
                                 (
                                     self.graph.node_weight(e).unwrap().mod_id.clone(),
                                     self.graph
-                                        .edges_connecting(node, e)
+                                        .edges_connecting(e, node)
                                         .next()
                                         .unwrap()
                                         .weight(),
@@ -188,14 +188,14 @@ impl DependencyGraph {
                 .map(|e| {
                     (
                         self.graph.node_weight(e).unwrap().mod_id.clone(),
-                        self.graph.find_edge_undirected(node, e),
+                        self.graph.find_edge(e, node),
                     )
                 })
                 .filter(|(_, edge)| edge.is_some())
                 .map(|(mod_id, edge)| {
                     (
                         mod_id,
-                        self.graph.edge_weight(edge.unwrap().0).unwrap().to_string(),
+                        self.graph.edge_weight(edge.unwrap()).unwrap().to_string(),
                     )
                 })
                 .collect::<Vec<_>>();
-- 
2.43.0


From 0fb11e0c4ddaa237de74e5dc1502644fd52f6b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:15 +0000
Subject: [PATCH 63/85] fix: do not take the versions of a mod for those of its
 dependencies

A dependency was considered available in the versions of the mod that needs it,
so missing dependencies went unnoticed and available ones were not found.
Baked mods only worked as dependencies because of that; their version is now
read from their metadata.
---
 unreal_mod_manager/src/background_work.rs     | 41 ++++++++++++++++++-
 .../src/mod_processing/dependencies.rs        |  3 +-
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index ac76a43..d7ac1ff 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::env;
 use std::fs::{self, File};
-use std::io::{self, Error};
+use std::io::{self, Cursor, Error};
 use std::path::{Path, PathBuf};
 use std::process::Command;
 use std::sync::mpsc::Receiver;
@@ -18,7 +18,8 @@ use semver::Version;
 use sha2::{Digest, Sha256};
 
 use unreal_mod_integrator::{
-    integrate_mods, FileMod, IntegratorConfig, IntegratorModInfo, INTEGRATOR_PAK_FILE_NAME,
+    integrate_mods, BakedMod, FileMod, IntegratorConfig, IntegratorMod, IntegratorModInfo,
+    INTEGRATOR_PAK_FILE_NAME,
 };
 use unreal_mod_metadata::Metadata;
 use unreal_pak::PakReader;
@@ -92,6 +93,23 @@ fn download_mod(
     Ok((metadata, file_path))
 }
 
+fn read_baked_mod(baked_mod: &BakedMod) -> Result<ModWithDependencies, ModLoaderWarning> {
+    let mut pak = PakReader::new(Cursor::new(baked_mod.data));
+    pak.load_index()?;
+
+    let metadata = pak.read_entry(&String::from("metadata.json"))?;
+    let metadata = unreal_mod_metadata::from_slice(&metadata)
+        .map_err(|_| ModLoaderWarning::invalid_metadata(baked_mod.mod_id.clone()))?;
+    let version = Version::parse(&metadata.mod_version)
+        .map_err(|_| ModLoaderWarning::invalid_version(baked_mod.mod_id.clone()))?;
+
+    Ok(ModWithDependencies::new(
+        baked_mod.mod_id.clone(),
+        Vec::from([version]),
+        metadata.dependencies,
+    ))
+}
+
 fn download_mods(mods_path: &Path, files_to_download: &[GameModVersion]) -> Vec<ModLoaderWarning> {
     let mut warnings = Vec::new();
 
@@ -427,6 +445,19 @@ where
                         ));
                     }
 
+                    // baked mods do not have to be downloaded
+                    let mut baked_mods = HashMap::new();
+                    for baked_mod in config.get_integrator_config().get_baked_mods() {
+                        if let IntegratorMod::Baked(baked_mod) = baked_mod {
+                            match read_baked_mod(&baked_mod) {
+                                Ok(mod_info) => {
+                                    baked_mods.insert(mod_info.mod_id.clone(), Some(mod_info));
+                                }
+                                Err(err) => warnings.push(err),
+                            }
+                        }
+                    }
+
                     let mut graph = DependencyGraph::default();
 
                     let mut download_pool = HashMap::new();
@@ -437,6 +468,12 @@ where
                     loop {
                         next_round.clear();
                         for (mod_id, (version_req, downloads)) in &dependencies {
+                            if let Some(mod_info) = baked_mods.get_mut(mod_id) {
+                                // only has to be added once
+                                next_round.extend(mod_info.take());
+                                continue;
+                            }
+
                             let entry = download_pool
                                 .entry(mod_id.clone())
                                 .or_insert_with(HashMap::new);
diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 87017d2..5929f08 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -85,7 +85,8 @@ impl DependencyGraph {
             for (dependency_mod_id, dependency) in &game_mod.dependencies {
                 let dependency_node = self.get_or_add_mod(GraphMod {
                     mod_id: dependency_mod_id.clone(),
-                    versions: game_mod.versions.clone(),
+                    // the versions of the dependency are only known once it is added itself
+                    versions: Vec::new(),
                     downloads: match dependency.download.as_ref() {
                         Some(e) => Vec::from([e.clone()]),
                         None => Vec::new(),
-- 
2.43.0


From a9213ecf9ab3a5c23d97a306bffce079d9d94cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:15 +0000
Subject: [PATCH 64/85] fix: do not download cyclic dependencies forever

---
 unreal_mod_manager/src/background_work.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index d7ac1ff..da2ac30 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::env;
 use std::fs::{self, File};
 use std::io::{self, Cursor, Error};
@@ -464,6 +464,8 @@ where
                     let mut dependencies = graph.add_mods(&first_round);
 
                     let mut next_round = Vec::new();
+                    // mods may depend on each other
+                    let mut visited = HashSet::new();
 
                     loop {
                         next_round.clear();
@@ -493,7 +495,11 @@ where
                                 .iter()
                                 .find(|(version, _)| version_req.matches(version));
 
-                            if let Some((_, index_version)) = matching_version {
+                            if let Some((version, index_version)) = matching_version {
+                                if !visited.insert((mod_id.clone(), version.clone())) {
+                                    continue;
+                                }
+
                                 let file = download_mod(&mods_path, index_version);
 
                                 if let Ok((metadata, _)) = file {
-- 
2.43.0


From 6b1bea0fab1e81815dee390f1762536e885a0d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 65/85] fix: report index files with invalid versions instead
 of crashing

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index bc049a9..a459a2f 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -41,7 +41,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
     }
     deserializer.deserialize_any(StringDeserializer(PhantomData))
-- 
2.43.0


From 3c0df7138c4d3e4bb3d1b5fbad7a57e0cfbb24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 66/85] fix: report incomplete downloads of index files instead
 of crashing

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index a459a2f..0b49b5c 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -127,11 +127,14 @@ pub(crate) fn download_index_file(
         ));
     }
 
-    let index_file =
-        serde_json::from_str::<IndexFile>(response.text().unwrap().as_str()).map_err(|err| {
-            warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
-            ModLoaderWarning::invalid_index_file(mod_id.clone())
-        })?;
+    let index_file = response.text().map_err(|err| {
+        warn!("Failed to download index file for {:?}, {}", mod_id, err);
+        ModLoaderWarning::index_file_download_failed(mod_id.clone(), err)
+    })?;
+    let index_file = serde_json::from_str::<IndexFile>(index_file.as_str()).map_err(|err| {
+        warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
+        ModLoaderWarning::invalid_index_file(mod_id.clone())
+    })?;
 
     match index_file.mods.get(&mod_id) {
         Some(index_file_mod) => Ok((mod_id, index_file_mod.clone())),
-- 
2.43.0


From 61001dab77f2f89b807d82f945de0ec46e99720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 67/85] fix: do not select a latest version that the index file
 does not have

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index 0b49b5c..96ac8f8 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -226,6 +226,17 @@ pub(crate) fn insert_index_file_data(
             }
         }
 
+        // a version that does not exist can not be selected
+        if !game_mod.versions.contains_key(&index_file.latest_version) {
+            warn!(
+                "Latest version {} of mod {:?} is not in its index file",
+                index_file.latest_version, mod_id
+            );
+            warnings.push(ModLoaderWarning::invalid_index_file(mod_id.to_owned()));
+
+            continue;
+        }
+
         match game_mod.selected_version {
             SelectedVersion::Latest(_) => {
                 game_mod.selected_version =
-- 
2.43.0


From 643398cf59fab4707575523162662be378e4d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:23 +0000
Subject: [PATCH 68/85] fix: check the file names of dependencies from index
 files

They are written to the Mods directory, so names like ../x must not be accepted,
and a file name of another mod or version crashed the background thread.
---
 unreal_mod_manager/src/background_work.rs          | 14 ++++++++++++++
 .../src/mod_processing/index_file.rs               |  2 +-
 unreal_mod_manager/src/mod_processing/mod.rs       |  2 +-
 unreal_mod_manager/src/mod_processing/verify.rs    |  6 ++++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index da2ac30..88f1faf 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -32,6 +32,7 @@ use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
     process_modfiles, read_pak_files,
+    verify::verify_mod_version_file_name,
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -484,6 +485,19 @@ where
                                 match download_index_file(mod_id.clone(), download) {
                                     Ok((_, index_file)) => {
                                         for (version, index_version) in index_file.versions {
+                                            if !verify_mod_version_file_name(
+                                                &index_version.file_name,
+                                                mod_id,
+                                                &version,
+                                            ) {
+                                                warnings.push(
+                                                    ModLoaderWarning::invalid_index_file(
+                                                        mod_id.clone(),
+                                                    ),
+                                                );
+                                                continue;
+                                            }
+
                                             entry.entry(version).or_insert(index_version);
                                         }
                                     }
diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index 96ac8f8..5b582f7 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -198,7 +198,7 @@ pub(crate) fn insert_index_file_data(
         let game_mod = data.game_mods.get_mut(mod_id).unwrap();
 
         for (version, version_info) in index_file.versions.iter() {
-            if !verify::verify_mod_file_name(&version_info.file_name) {
+            if !verify::verify_mod_version_file_name(&version_info.file_name, mod_id, version) {
                 warn!(
                     "Failed to verify filename {:?} from index file for mod {:?}",
                     version_info.file_name, mod_id
diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index 3b5e946..e449c7b 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -14,7 +14,7 @@ pub(crate) use pakfile_reading::read_pak_files;
 mod version_handling;
 use version_handling::{auto_pick_versions, set_mod_data_from_version};
 
-mod verify;
+pub(crate) mod verify;
 
 // TODO this should at somepoint be changed to `-> Result<Vec<ModLoaderWarning>, ModLoaderError>`
 // to properly convey that some things might critically fail.
diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index b1dce1c..3ed8e0b 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -1,5 +1,6 @@
 use lazy_static::lazy_static;
 use regex::Regex;
+use semver::Version;
 
 // migth need at some point
 // pub fn verify_mod_id(mod_id: &str) -> bool {
@@ -31,3 +32,8 @@ pub fn verify_mod_file_name(mod_id: &str) -> bool {
 
     false
 }
+
+/// Checks that a file name is the one of a specific version of a mod
+pub fn verify_mod_version_file_name(file_name: &str, mod_id: &str, version: &Version) -> bool {
+    verify_mod_file_name(file_name) && file_name.ends_with(&format!("-{mod_id}-{version}_P.pak"))
+}
-- 
2.43.0


From 1c73f347cb0e3749adcfd9eb6657769aea1877be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:23 +0000
Subject: [PATCH 69/85] fix: keep installed mods when a download fails

Downloads were written to their final place before it was known whether they
succeed, so error pages and incomplete files were taken for mods and replaced
installed ones.
---
 unreal_mod_manager/src/background_work.rs | 52 +++++++++++++++++------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 88f1faf..aa450fb 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -73,25 +73,51 @@ fn download_mod(
     mod_version: &IndexFileModVersion,
 ) -> Result<(Metadata, PathBuf), ModLoaderWarning> {
     // this is safe because the filename has already been validated
-    let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
-        .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
-
     let file_path = mods_path.join(mod_version.file_name.clone());
-    let mut file = fs::File::create(&file_path)?;
+    // a failed download must neither replace an installed mod nor be taken for one
+    let part_path = mods_path.join(format!("{}.part", mod_version.file_name));
 
-    io::copy(&mut response, &mut file)?;
+    let download = || -> Result<Metadata, ModLoaderWarning> {
+        let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
+            .and_then(|response| response.error_for_status())
+            .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
 
-    drop(file);
-    let file = fs::File::open(&file_path)?;
+        let mut file = fs::File::create(&part_path)?;
 
-    let mut pak = PakReader::new(&file);
-    pak.load_index()?;
+        io::copy(&mut response, &mut file)?;
 
-    let metadata = pak.read_entry(&String::from("metadata.json"))?;
-    let metadata = unreal_mod_metadata::from_slice(&metadata)
-        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
+        drop(file);
+        let file = fs::File::open(&part_path)?;
 
-    Ok((metadata, file_path))
+        let mut pak = PakReader::new(&file);
+        pak.load_index()?;
+
+        let metadata = pak.read_entry(&String::from("metadata.json"))?;
+        let metadata: Metadata = unreal_mod_metadata::from_slice(&metadata)
+            .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
+
+        // check that the file is the mod that was asked for
+        if !mod_version.file_name.ends_with(&format!(
+            "-{}-{}_P.pak",
+            metadata.mod_id, metadata.mod_version
+        )) {
+            return Err(ModLoaderWarning::invalid_metadata(
+                mod_version.file_name.clone(),
+            ));
+        }
+
+        fs::rename(&part_path, &file_path)?;
+
+        Ok(metadata)
+    };
+
+    match download() {
+        Ok(metadata) => Ok((metadata, file_path)),
+        Err(err) => {
+            let _ = fs::remove_file(&part_path);
+            Err(err)
+        }
+    }
 }
 
 fn read_baked_mod(baked_mod: &BakedMod) -> Result<ModWithDependencies, ModLoaderWarning> {
-- 
2.43.0


From 63e5bdfc42db995f12de132ed618ffab4112e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:23 +0000
Subject: [PATCH 70/85] fix: do not download other versions of mods that are
 enabled

Their dependencies were installed instead of those of the selected version.
---
 unreal_mod_manager/src/background_work.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index aa450fb..489411c 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -503,6 +503,11 @@ where
                                 continue;
                             }
 
+                            // enabled mods are already there in the version that is selected
+                            if first_round.iter().any(|e| e.mod_id == *mod_id) {
+                                continue;
+                            }
+
                             let entry = download_pool
                                 .entry(mod_id.clone())
                                 .or_insert_with(HashMap::new);
-- 
2.43.0


From 795600a5e1eabf5898248aac419c870b64a478a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:23 +0000
Subject: [PATCH 71/85] fix: check dependencies against the version of a mod
 that gets installed

---
 unreal_mod_manager/src/background_work.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 489411c..16f926f 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -26,7 +26,7 @@ use unreal_pak::PakReader;
 
 use crate::config;
 use crate::error::{ModLoaderError, ModLoaderWarning};
-use crate::game_mod::{self, GameModVersion};
+use crate::game_mod::GameModVersion;
 use crate::mod_config::{load_config, write_config};
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
@@ -455,19 +455,10 @@ where
                         .iter()
                         .filter(|(_, game_mod)| game_mod.enabled)
                     {
-                        let selected_version = match &enabled_mod.selected_version {
-                            game_mod::SelectedVersion::Latest(version) => version,
-                            game_mod::SelectedVersion::LatestIndirect(_) => {
-                                let mut versions =
-                                    enabled_mod.versions.keys().collect::<Vec<&Version>>();
-                                versions.sort();
-                                *versions.last().unwrap()
-                            }
-                            game_mod::SelectedVersion::Specific(version) => version,
-                        };
+                        // this has to be the version that gets installed
                         first_round.push(ModWithDependencies::new(
                             mod_id.clone(),
-                            Vec::from([selected_version.clone()]),
+                            Vec::from([enabled_mod.selected_version.clone().unwrap()]),
                             enabled_mod.dependencies.clone(),
                         ));
                     }
-- 
2.43.0


From b5d7dab6cd0568372f502027af361041dffd805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:23 +0000
Subject: [PATCH 72/85] fix: do not integrate baked mods twice when another mod
 depends on them

---
 unreal_mod_integrator/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index b9d1780..2ee1a0e 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -378,7 +378,14 @@ pub fn integrate_mods<
         refuse_mismatched_connections
     );
 
-    let baked_mods = integrator_config.get_baked_mods();
+    let mut baked_mods = integrator_config.get_baked_mods();
+    // baked mods that were provided must not be integrated twice
+    baked_mods.retain(|e| {
+        !mods.iter().any(|provided_mod| {
+            matches!(provided_mod, IntegratorMod::Baked(_))
+                && provided_mod.get_mod_id() == e.get_mod_id()
+        })
+    });
     let core_mods = baked_mods.iter().filter(|e| e.is_core());
 
     let enabled_baked_mods = baked_mods.iter().filter(|e| !e.is_core()).filter(|e| {
-- 
2.43.0


From 99704c1bab70c9c65eefbaa719eda0669e60f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 73/85] fix: ask whether mods that were just downloaded are
 trusted

Their metadata was not known yet, so libraries in them went unnoticed.
---
 unreal_mod_manager/src/background_work.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 16f926f..d2cbe89 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -626,16 +626,19 @@ where
                     // copy new files
                     let mods_to_install = mods_to_install
                         .into_iter()
-                        .map(|e| {
-                            (
-                                data_guard
-                                    .game_mods
-                                    .get(&e.mod_id)
-                                    .unwrap()
-                                    .selected_version
-                                    .to_string(),
-                                e,
-                            )
+                        .map(|mut e| {
+                            let game_mod = data_guard.game_mods.get(&e.mod_id).unwrap();
+
+                            // it was not known before the mod was downloaded
+                            if e.metadata.is_none() {
+                                e.metadata = game_mod
+                                    .versions
+                                    .values()
+                                    .find(|version| version.file_name == e.file_name)
+                                    .and_then(|version| version.metadata.clone());
+                            }
+
+                            (game_mod.selected_version.to_string(), e)
                         })
                         .collect::<Vec<_>>();
 
-- 
2.43.0


From e77b62879bda76137529ff2b31aa23cfe2031fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 74/85] fix: report errors of buffered writers when finishing a
 pak file

---
 unreal_pak/src/pakwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/pakwriter.rs b/unreal_pak/src/pakwriter.rs
index 7b3ce9e..fc37db4 100644
--- a/unreal_pak/src/pakwriter.rs
+++ b/unreal_pak/src/pakwriter.rs
@@ -101,6 +101,10 @@ where
             footer,
         };
 
-        Index::write(&mut self.writer, index)
+        Index::write(&mut self.writer, index)?;
+        // the writer is dropped here, errors of a buffered writer would be lost
+        self.writer.flush()?;
+
+        Ok(())
     }
 }
-- 
2.43.0


From c4e63b056da9483d6d2edc4ea796a02cf16c174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 75/85] fix: report errors writing the end of the integrated
 pak file

---
 unreal_mod_integrator/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 2ee1a0e..486175c 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -560,6 +560,8 @@ pub fn integrate_mods<
 
         let mut writer = BufWriter::new(file);
         generated_pak.write(&mut writer)?;
+        // dropping the writer would ignore errors
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 0320a55bce0311c3c4933c4c8e3a7188c2562a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:41 +0000
Subject: [PATCH 76/85] fix: do not read a byte property again in another width
 after a failed read

---
 unreal_asset/unreal_asset_properties/src/int_property.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/int_property.rs b/unreal_asset/unreal_asset_properties/src/int_property.rs
index e3dd96f..1fbb4d2 100644
--- a/unreal_asset/unreal_asset_properties/src/int_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/int_property.rs
@@ -347,8 +347,11 @@ impl ByteProperty {
             false => (None, None),
         };
 
-        let value = ByteProperty::read_value(asset, length)
-            .or_else(|_| ByteProperty::read_value(asset, fallback_length))?;
+        // the fallback is for lengths that are none, not for failed reads
+        let value = match length {
+            0 | 1 | 8 => ByteProperty::read_value(asset, length)?,
+            _ => ByteProperty::read_value(asset, fallback_length)?,
+        };
 
         Ok(ByteProperty {
             name,
-- 
2.43.0


From 695ba55082d1ef8728919e2a9419e124883a3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:11 +0000
Subject: [PATCH 77/85] fix: report failed downloads of release assets

ReleaseAsset::download stored the page of an error status (404, 500, ...) in the file and returned success.
---
 github_helpers/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/github_helpers/src/lib.rs b/github_helpers/src/lib.rs
index cf851f9..8558f93 100644
--- a/github_helpers/src/lib.rs
+++ b/github_helpers/src/lib.rs
@@ -23,7 +23,8 @@ impl ReleaseAsset {
         let mut response = blocking::Client::new()
             .get(&self.browser_download_url)
             .headers(get_headers())
-            .send()?;
+            .send()?
+            .error_for_status()?;
 
         io::copy(&mut response, file)?;
 
-- 
2.43.0


From 09409489622538cb7ce672dd874940595f63e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:11 +0000
Subject: [PATCH 78/85] fix: report libraries without a file name instead of
 panicking

bootstrap panicked when a mod listed a library such as /Game/.. that is in its pak.
---
 unreal_cpp_bootstrapper/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unreal_cpp_bootstrapper/src/lib.rs b/unreal_cpp_bootstrapper/src/lib.rs
index 1125f1a..656e1e9 100644
--- a/unreal_cpp_bootstrapper/src/lib.rs
+++ b/unreal_cpp_bootstrapper/src/lib.rs
@@ -1,6 +1,6 @@
 use std::env;
 use std::fs::{self, File, OpenOptions};
-use std::io::Write;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use error::CppBootstrapperError;
@@ -55,7 +55,14 @@ pub fn bootstrap(
             let dll_path = PathBuf::from(&dll);
             let dll_data = pak.read_entry(&dll)?;
 
-            let path = extract_path.join(dll_path.file_name().unwrap().to_str().unwrap());
+            let file_name = dll_path.file_name().ok_or_else(|| {
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("Invalid library path {dll:?}"),
+                )
+            })?;
+
+            let path = extract_path.join(file_name);
 
             let mut file = OpenOptions::new()
                 .create(true)
-- 
2.43.0


From ec9b00dae88e8c8dc63e2bef135efff082b0866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:11 +0000
Subject: [PATCH 79/85] fix: report mods that cannot be opened or written

integrate_mods left out mod files that cannot be opened and baked mods that cannot be written and returned success.
---
 unreal_mod_integrator/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 486175c..9bfee71 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -408,11 +408,13 @@ pub fn integrate_mods<
         .chain(core_mods)
         .chain(enabled_baked_mods)
         .filter_map(|e| match e {
-            IntegratorMod::File(file_mod) => File::open(&file_mod.path).ok(),
-            IntegratorMod::Baked(baked_mod) => baked_mod.write(paks_path).ok(),
+            IntegratorMod::File(file_mod) => {
+                Some(File::open(&file_mod.path).map_err(|e| e.into()))
+            }
+            IntegratorMod::Baked(baked_mod) => Some(baked_mod.write(paks_path)),
             _ => None,
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>, Error>>()?;
 
     let mut mod_paks = Vec::new();
     let mut read_mods = Vec::new();
-- 
2.43.0


From 2c9bde3f234aa7ffa56c5f47fa5e7da3ec7363bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 80/85] fix: do not read entries with unknown compression of
 old paks as uncompressed

---
 unreal_pak/src/compression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index c6a2e21..f5ae1ca 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -59,8 +59,13 @@ impl Compression {
             }
         } else {
             match compression_method_num {
+                0 => Compression::None,
                 0x01 | 0x10 | 0x20 => Compression::zlib(),
-                _ => Compression::None,
+                _ => {
+                    let mut arr = [0; 0x20];
+                    arr[..4].copy_from_slice(&compression_method_num.to_le_bytes());
+                    Compression::Unknown(arr)
+                }
             }
         }
     }
-- 
2.43.0


From 940841ed5a46f3c22f4b761523679486de26a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 81/85] fix: do not accept compressed blocks that end before
 their checksum

---
 unreal_pak/src/compression.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index f5ae1ca..ba93d93 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -6,7 +6,7 @@
 
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
-use flate2::{read::ZlibDecoder, write::ZlibEncoder};
+use flate2::{write::ZlibEncoder, Decompress, FlushDecompress, Status};
 
 use crate::error::PakError;
 use crate::pakversion::PakVersion;
@@ -113,9 +113,23 @@ impl Compression {
         match self {
             Self::Known(method) => match *method {
                 "Zlib" => {
-                    let mut decoder = ZlibDecoder::new(data);
-                    decoder.read_to_end(buf)?;
-                    Ok(())
+                    // not flate2's reader, which accepts streams that end before their checksum
+                    let mut decoder = Decompress::new(true);
+                    loop {
+                        let progress = (decoder.total_in(), decoder.total_out());
+                        buf.reserve(data.len().max(1024));
+                        match decoder.decompress_vec(
+                            &data[progress.0 as usize..],
+                            buf,
+                            FlushDecompress::None,
+                        )? {
+                            Status::StreamEnd => return Ok(()),
+                            _ if progress == (decoder.total_in(), decoder.total_out()) => {
+                                return Err(io::ErrorKind::UnexpectedEof.into())
+                            }
+                            _ => (),
+                        }
+                    }
                 }
                 _ => panic!("Found Compression::Known with unknown compression."),
             },
-- 
2.43.0


From 49bfa187471c90f42cc0f17f8fc51bdb0b2181c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 82/85] fix: report a pak that cannot be created instead of
 panicking

---
 unreal_pak_cli/src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 78bc945..ee93a73 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -179,14 +179,19 @@ fn main() {
             println!("Creating {pakfile:?}");
 
             // clear file
-            OpenOptions::new()
+            let cleared = OpenOptions::new()
                 .create(true)
                 .write(true)
                 .truncate(true)
-                .open(&pakfile)
-                .unwrap();
+                .open(&pakfile);
 
-            let file = OpenOptions::new().append(true).open(&pakfile).unwrap();
+            let file = match cleared.and_then(|_| OpenOptions::new().append(true).open(&pakfile)) {
+                Ok(file) => file,
+                Err(err) => {
+                    eprintln!("Error creating file {pakfile:?}! Error: {err}");
+                    exit(1);
+                }
+            };
 
             let mut pak = PakWriter::new(
                 BufWriter::new(file),
-- 
2.43.0


From 0f7e697e72bde1d11f82400c612fe98b8a5e6956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 83/85] fix: report directories that cannot be read instead of
 leaving their files out

---
 unreal_pak_cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index ee93a73..a81ba12 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -201,7 +201,13 @@ fn main() {
             // Get all files and write them to the .pak file
             let files = WalkDir::new(&indir)
                 .into_iter()
-                .filter_map(|entry| entry.ok())
+                .map(|entry| match entry {
+                    Ok(entry) => entry,
+                    Err(err) => {
+                        eprintln!("Error reading directory {indir:?}! Error: {err}");
+                        exit(1);
+                    }
+                })
                 .filter(|entry| entry.file_type().is_file())
                 .collect::<Vec<_>>();
             //files.sort_unstable_by_key(|entry| entry.file_name().to_owned());
-- 
2.43.0


From 1249fdaed7ce7d0af8b7b048e76707a68ffc91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:58 +0000
Subject: [PATCH 84/85] fix: give the size of the iterators of indexed maps

---
 .../src/containers/indexed_map/mod.rs         | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index b916bd7..d7e42d1 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -168,6 +168,11 @@ where
             &value.value,
         ))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.index_iter.size_hint()
+    }
 }
 
 impl<'map, K, V> DoubleEndedIterator for IndexedMapIndexIterator<'map, K, V>
@@ -238,6 +243,11 @@ where
             value.as_mut().unwrap()
         }))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.index_iter.size_hint()
+    }
 }
 
 impl<'map, K, V> DoubleEndedIterator for IndexedMapIndexIteratorMut<'map, K, V>
@@ -297,6 +307,11 @@ where
             value.value,
         ))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.index_iter.size_hint()
+    }
 }
 
 impl<K, V> DoubleEndedIterator for IndexedMapIndexIteratorOwned<K, V>
@@ -350,6 +365,11 @@ where
             &value.value,
         ))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.key_map_iter.size_hint()
+    }
 }
 
 impl<K, V> ExactSizeIterator for IndexedMapKeyIterator<'_, K, V>
@@ -406,6 +426,11 @@ where
             value.as_mut().unwrap()
         }))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.key_map_iter.size_hint()
+    }
 }
 
 impl<K, V> ExactSizeIterator for IndexedMapKeyIteratorMut<'_, K, V>
@@ -527,6 +552,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|(_, k, _)| k)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'map, K, V> DoubleEndedIterator for Keys<'map, K, V>
-- 
2.43.0


From 07ec715252750f7b65b6b7de5082602a11f0346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 85/85] fix: keep the numbers of names in imports taken over
 for persistent actors

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index acbd534..fad4d64 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -14,7 +14,7 @@ use unreal_asset::{
         array_property::ArrayProperty, enum_property::EnumProperty, int_property::BoolProperty,
         object_property::ObjectProperty, Property, PropertyDataTrait,
     },
-    types::{PackageIndex, PackageIndexTrait},
+    types::{FName, PackageIndex, PackageIndexTrait},
     Asset, Import,
 };
 use unreal_pak::{PakMemory, PakReader};
@@ -39,19 +39,25 @@ fn find_or_add_import<C: io::Read + io::Seek>(
     import: &Import,
     outer_index: PackageIndex,
 ) -> PackageIndex {
-    match asset.find_import(
-        &import.class_package,
-        &import.class_name,
-        outer_index,
-        &import.object_name,
-    ) {
-        Some(e) => PackageIndex::new(e),
+    // names with different numbers are different names
+    let same = |a: &FName, b: &FName| a.eq_content(b) && a.get_number() == b.get_number();
+    let existing = asset.imports.iter().position(|e| {
+        same(&e.class_package, &import.class_package)
+            && same(&e.class_name, &import.class_name)
+            && e.outer_index == outer_index
+            && same(&e.object_name, &import.object_name)
+    });
+    match existing {
+        Some(e) => PackageIndex::new(-(e as i32) - 1),
         None => {
+            let mut add_fname = |name: &FName| {
+                asset.add_fname_with_number(&name.get_owned_content(), name.get_number())
+            };
             let import = Import {
-                class_package: import.class_package.get_content(|e| asset.add_fname(e)),
-                class_name: import.class_name.get_content(|e| asset.add_fname(e)),
+                class_package: add_fname(&import.class_package),
+                class_name: add_fname(&import.class_name),
                 outer_index,
-                object_name: import.object_name.get_content(|e| asset.add_fname(e)),
+                object_name: add_fname(&import.object_name),
                 optional: import.optional,
             };
             asset.add_import(import)
-- 
2.43.0

