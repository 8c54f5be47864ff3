From d74260b3ff7d89d98fdfaa206e81838c8085dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:58:15 +0000
Subject: [PATCH 01/18] fix: write ASCII strings completely and count their
 bytes

write() may accept only part of the string; use write_all(). The returned
length counted two bytes per character although ASCII text takes one.
---
 src/cursor_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,9 +150,9 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
-- 
2.43.0


From 25414c66c0af8e4596884d32808f66cb5cffe299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:58:15 +0000
Subject: [PATCH 02/18] fix: return the number of bytes written for names and
 gameplay tags

A name property left out its type name, and a gameplay tag container
counted its tags instead of the four bytes of the count.
---
 src/properties/mod.rs             | 2 +-
 src/properties/struct_property.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From 6fce4c5e2ead3cfd657cd117ed4eb8eaae1588a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:58:15 +0000
Subject: [PATCH 03/18] fix: report write errors at the end of a twice
 compressed save

The outer encoder was finished by its destructor, which drops errors, so a
save could report success although its last bytes were never stored.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..77afe50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -555,7 +555,7 @@ impl GvasFile {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.finish()?.finish()?;
                     }
                 }
 
-- 
2.43.0


From de8c274c97c60251e49ea8700f2e910437a059eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:07 +0000
Subject: [PATCH 04/18] fix: store the compressed length the container format
 prescribes

The field held the payload size plus four. It is the size of the payload,
or for a twice compressed save the size of the data compressed once, as in
the sample saves.
---
 src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 77afe50..4d9a735 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -544,25 +544,33 @@ impl GvasFile {
                 cursor.write_enum(compression_type)?;
 
                 // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                let compressed_length = match compression_type {
+                    PalworldCompressionType::None => {
+                        cursor.write_all(&decompressed)?;
+                        decompressed.len() as u64
+                    }
                     PalworldCompressionType::Zlib => {
                         let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.try_finish()?;
+                        encoder.total_out()
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?.finish()?;
+                        // The stored length is that of the data compressed once
+                        let encoder = encoder.finish()?;
+                        let length = encoder.total_in();
+                        encoder.finish()?;
+                        length
                     }
-                }
+                };
 
                 // Update compressed length
                 let end_pos = cursor.stream_position()?;
                 cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
                 cursor.seek(SeekFrom::Start(end_pos))?;
             }
         }
-- 
2.43.0


From 6f8262e0236edfa6712b35856744c68013718d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:13:22 +0000
Subject: [PATCH 05/18] fix: report corrupt property headers as errors instead
 of panicking

A wrong separator byte, a non-zero array index or an unexpected element type
in a damaged file failed an assertion. They are now deserialization errors.
---
 src/properties/array_property.rs   |  6 +++++-
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 22 +++++++++++---------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..7b2a51f 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "Unexpected array element type {property_type}",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..8a24f1b 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_terminator {
+    ($cursor:ident) => {
+        let terminator = $cursor.read_u8()?;
+        if terminator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_terminator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_terminator!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..15640cf 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
-        let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
+        let terminator = cursor.read_u8()?;
+        if terminator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From db41e2f664144c832c53b2ccc168a07e6a4703fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:13:40 +0000
Subject: [PATCH 06/18] fix: do not panic on repeated struct fields in debug
 builds

Debug builds asserted that repeated fields are numbered in order, so a damaged
or sparse struct crashed them while release builds loaded it. Nothing is lost
without the assertion: every value is kept, and names keep their own index.
---
 src/properties/struct_property.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..722ab1d 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -182,20 +182,7 @@ impl StructProperty {
 }
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
-    let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
-    entry.push(property);
+    map.entry(key).or_default().push(property);
 }
 
 impl PropertyTrait for StructProperty {
-- 
2.43.0


From ca457f02b4dbd2c5b8cde0a7fcf19c6e5a0b324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:13:51 +0000
Subject: [PATCH 07/18] fix: report unsupported text kinds as errors instead of
 panicking

Text histories and format arguments the library cannot read reached
unimplemented!(), so one changed byte could crash a load.
---
 src/properties/text_property.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..557fb77 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -493,7 +493,12 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            TextHistoryType::RawText | TextHistoryType::TextGenerator => {
+                Err(DeserializeError::invalid_property(
+                    format!("Text history type {history_type:?} is not supported"),
+                    cursor,
+                ))?
+            }
         })
     }
 
@@ -779,7 +784,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                "Text format argument type Gender is not supported",
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From c8f230e091f40648f5675d67b35e8677921123b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:09 +0000
Subject: [PATCH 08/18] fix: reject array and set elements that do not fit in
 the stored length

A damaged length made the element size computation underflow, and elements of
length zero allowed a few bytes to describe billions of elements.
---
 src/properties/array_property.rs |  5 +++++
 src/properties/int_property.rs   |  2 +-
 src/properties/set_property.rs   | 11 ++++++++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 7b2a51f..476442d 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -347,6 +347,11 @@ impl ArrayProperty {
                 } else {
                     None
                 };
+                validate!(
+                    cursor,
+                    suggested_length != Some(0),
+                    "{property_count} array elements do not fit in {length} bytes",
+                );
                 for _ in 0..property_count {
                     properties.push(Property::new(
                         cursor,
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 8a24f1b..f326fbb 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -212,7 +212,7 @@ impl ByteProperty {
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map_or(1, |e| e.saturating_sub(1));
 
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..9384738 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -64,9 +64,14 @@ impl SetProperty {
         let element_count = cursor.read_u32::<LittleEndian>()?;
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
-        if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
-        {
+        if element_count > 0 {
+            let total_bytes_per_property = length.saturating_sub(8) / element_count;
+            if total_bytes_per_property == 0 {
+                Err(DeserializeError::invalid_property(
+                    format!("{element_count} set elements do not fit in {length} bytes"),
+                    cursor,
+                ))?
+            }
             for _ in 0..element_count {
                 properties.push(Property::new(
                     cursor,
-- 
2.43.0


From 3e9d2eb2e73f7112c18bdfda2bb827304426b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:44 +0000
Subject: [PATCH 09/18] fix: do not allocate what damaged lengths and counts
 claim

Counts and lengths from the file sized buffers before any of their content was
read, so a few damaged bytes could request gigabytes and abort the process.
---
 src/cursor_ext.rs                     | 10 ++++++++++
 src/lib.rs                            | 14 ++++----------
 src/properties/array_property.rs      |  2 +-
 src/properties/delegate_property.rs   |  2 +-
 src/properties/field_path_property.rs |  2 +-
 src/properties/map_property.rs        |  2 +-
 src/properties/set_property.rs        |  2 +-
 src/properties/struct_property.rs     |  2 +-
 src/properties/text_property.rs       |  6 +++---
 src/properties/unknown_property.rs    | 10 +++-------
 10 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..87e361f 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -43,6 +43,16 @@ pub trait WriteExt {
         T: Into<i8> + std::fmt::Debug;
 }
 
+/// Reads exactly `len` bytes without trusting `len` for the size of the buffer.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>, Error> {
+    let mut data = Vec::new();
+    reader.take(len as u64).read_to_end(&mut data)?;
+    if data.len() != len as usize {
+        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?
+    }
+    Ok(data)
+}
+
 impl<R: Read + Seek> ReadExt for R {
     #[inline]
     fn read_string(&mut self) -> Result<String, Error> {
diff --git a/src/lib.rs b/src/lib.rs
index 4d9a735..4ce394a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
 
 use crate::{
-    cursor_ext::{ReadExt, WriteExt},
+    cursor_ext::{ReadExt, WriteExt, read_bytes},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
     error::{DeserializeError, Error},
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
@@ -432,18 +432,12 @@ impl GvasFile {
 
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
-                        Cursor::new(data)
+                        Cursor::new(read_bytes(cursor, decompresed_length)?)
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
                         let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
 
-                        Cursor::new(zlib_data)
+                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 476442d..6aa28d8 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..d7c0e36 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 9384738..b28b183 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0 {
             let total_bytes_per_property = length.saturating_sub(8) / element_count;
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 722ab1d..d2f8d49 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -379,7 +379,7 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 557fb77..211d108 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -332,7 +332,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -349,7 +349,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -363,7 +363,7 @@ impl FTextHistory {
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 15640cf..329ff51 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -3,7 +3,7 @@ use std::io::{Cursor, Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    cursor_ext::WriteExt,
+    cursor_ext::{WriteExt, read_bytes},
     error::{DeserializeError, Error},
 };
 
@@ -30,13 +30,9 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
+        let raw = read_bytes(cursor, length)?;
 
-        Ok(UnknownProperty {
-            property_name,
-            raw: data,
-        })
+        Ok(UnknownProperty { property_name, raw })
     }
 
     #[inline]
-- 
2.43.0


From ae2e8cb6d5afe0ff62a5498051c22b99a263d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:17:35 +0000
Subject: [PATCH 10/18] fix: verify the checksum of a compressed save

The decoder was only asked for the expected number of bytes, so it often
stopped before the checksum at the end of the stream and damaged content was
loaded as if it were intact.
---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ce394a..26c1a57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -437,7 +437,17 @@ impl GvasFile {
                     PalworldCompressionType::Zlib => {
                         let mut decoder = ZlibDecoder::new(cursor);
 
-                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
+                        // The checksum is verified at the end of the stream.
+                        let mut zlib_data = Vec::new();
+                        decoder.read_to_end(&mut zlib_data)?;
+                        if zlib_data.len() != decompresed_length as usize {
+                            Err(DeserializeError::InvalidHeader(
+                                format!("Decompressed length is not {decompresed_length}")
+                                    .into_boxed_str(),
+                            ))?
+                        }
+
+                        Cursor::new(zlib_data)
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
-- 
2.43.0


From bac65d67e361b1dfd65067258082106997592eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:19:04 +0000
Subject: [PATCH 11/18] fix: limit the nesting depth of properties and texts
 that are read

Damaged files can nest structs or texts without end. Reading them exhausted
the stack and aborted the process; now it is an error.
---
 src/properties/mod.rs           |  9 ++++++
 src/properties/text_property.rs | 52 +++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..54bbf73 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -64,6 +64,9 @@ pub mod text_property;
 /// Module for `UnknownProperty`
 pub mod unknown_property;
 
+/// The longest property path that is read, so that damaged files can not exhaust the stack.
+const MAX_PROPERTY_PATH_LENGTH: usize = 100;
+
 /// This macro generates a `read` function for reading GVAS property data from a reader.
 ///
 /// If `include_header` is true, it will read the property header first.
@@ -556,6 +559,12 @@ impl Property {
         options: &mut PropertyOptions,
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
+        if options.properties_stack.len() >= MAX_PROPERTY_PATH_LENGTH {
+            Err(DeserializeError::invalid_property(
+                "Properties are nested too deeply",
+                cursor,
+            ))?
+        }
         let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 211d108..fa53f3d 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -19,6 +19,9 @@ use crate::{
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
 
+/// The deepest nesting of texts that is read, so that damaged files can not exhaust the stack.
+const MAX_TEXT_DEPTH: usize = 64;
+
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -113,8 +116,22 @@ impl FText {
     /// Read [`FText`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
+        if depth >= MAX_TEXT_DEPTH {
+            Err(DeserializeError::invalid_property(
+                "Texts are nested too deeply",
+                cursor,
+            ))?
+        }
         let flags = cursor.read_u32::<LittleEndian>()?;
-        let history = FTextHistory::read(cursor, options)?;
+        let history = FTextHistory::read_nested(cursor, options, depth)?;
 
         Ok(FText { flags, history })
     }
@@ -297,6 +314,14 @@ impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
         let history_type = cursor.read_enum()?;
 
         Ok(match history_type {
@@ -329,14 +354,14 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::NamedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
 
                 let argument_count = cursor.read_i32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     arguments.insert(key, value);
                 }
 
@@ -346,13 +371,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::OrderedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
 
                 let count = cursor.read_i32::<LittleEndian>()?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
-                    arguments.push(FormatArgumentValue::read(cursor, options)?);
+                    arguments.push(FormatArgumentValue::read(cursor, options, depth)?);
                 }
 
                 FTextHistory::OrderedFormat {
@@ -361,13 +386,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::ArgumentFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
                 let count = cursor.read_i32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     arguments.insert(key, value);
                 }
 
@@ -377,7 +402,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsNumber => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -395,7 +420,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsPercent => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -415,7 +440,7 @@ impl FTextHistory {
             TextHistoryType::AsCurrency => {
                 let currency_code = cursor.read_fstring()?;
 
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -479,7 +504,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::Transform => {
-                let source_text = Box::new(FText::read(cursor, options)?);
+                let source_text = Box::new(FText::read_nested(cursor, options, depth + 1)?);
                 let transform_type = cursor.read_enum()?;
 
                 FTextHistory::Transform {
@@ -761,6 +786,7 @@ impl FormatArgumentValue {
     pub(crate) fn read<R: Read + Seek>(
         cursor: &mut R,
         options: &PropertyOptions,
+        depth: usize,
     ) -> Result<Self, Error> {
         let format_argument_type = cursor.read_enum()?;
 
@@ -783,7 +809,9 @@ impl FormatArgumentValue {
             FormatArgumentType::Double => {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
-            FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
+            FormatArgumentType::Text => {
+                FormatArgumentValue::Text(FText::read_nested(cursor, options, depth + 1)?)
+            }
             FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
                 "Text format argument type Gender is not supported",
                 cursor,
-- 
2.43.0


From f4277cac890bb1eed964e4212e7dbed7f3b0134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:26 +0000
Subject: [PATCH 12/18] fix: verify the outer checksum of a twice compressed
 save

Whether a damaged outer checksum was noticed depended on how the stream
delivered its last bytes.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 26c1a57..6e317b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,6 +456,9 @@ impl GvasFile {
                         let mut zlib_data = Vec::new();
                         decoder.read_to_end(&mut zlib_data)?;
 
+                        // The inner stream may end before the checksum of the outer one.
+                        std::io::copy(&mut decoder.into_inner(), &mut std::io::sink())?;
+
                         Cursor::new(zlib_data)
                     }
                 }
-- 
2.43.0


From 8bd0965f310661e348ede3c142e720131d98cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:22 +0000
Subject: [PATCH 13/18] fix: report text values a version cannot hold as errors

Saving a text whose number arguments have the wrong width for the file's
version panicked. A culture invariant text in a version without a place
for it was saved without its string.
---
 src/properties/text_property.rs | 35 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index fa53f3d..aa84dd7 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,11 +14,19 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
 
+macro_rules! validate {
+    ($cond:expr, $msg:literal) => {{
+        if !$cond {
+            Err(SerializeError::invalid_value($msg))?
+        }
+    }};
+}
+
 /// The deepest nesting of texts that is read, so that damaged files can not exhaust the stack.
 const MAX_TEXT_DEPTH: usize = 64;
 
@@ -550,15 +558,16 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
+                validate!(
+                    options.supports_version(
+                        FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
+                    ),
+                    "FTextHistory::None requires CultureInvariantTextSerializationKeyStability"
+                );
+                let mut len = 5;
                 cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
-                    FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
-                ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
-                }
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
@@ -828,7 +837,7 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -839,7 +848,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -850,7 +859,7 @@ impl FormatArgumentValue {
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -861,7 +870,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
-- 
2.43.0


From 97ba756d9be7f0fb3a51d70258d15f0ca1aaacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:39 +0000
Subject: [PATCH 14/18] fix: refuse to write strings that cannot be read back

A string longer than the limit the reader enforces was written without an
error and the resulting file could not be loaded.
---
 src/cursor_ext.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 87e361f..02d5d57 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -3,7 +3,7 @@ use std::io::{Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     types::Guid,
 };
 
@@ -53,6 +53,18 @@ pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>, E
     Ok(data)
 }
 
+/// The largest number of code units, including the terminator, in a GVAS string.
+const MAX_STRING_LENGTH: usize = 131072;
+
+fn check_string_length(len: usize) -> Result<(), Error> {
+    if len > MAX_STRING_LENGTH {
+        Err(SerializeError::invalid_value(format!(
+            "String of length {len}"
+        )))?
+    }
+    Ok(())
+}
+
 impl<R: Read + Seek> ReadExt for R {
     #[inline]
     fn read_string(&mut self) -> Result<String, Error> {
@@ -159,6 +171,7 @@ impl<W: Write> WriteExt for W {
         if v.is_ascii() {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
+            check_string_length(len)?;
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
@@ -167,6 +180,7 @@ impl<W: Write> WriteExt for W {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
             let len = words.len() + 1;
+            check_string_length(len)?;
             self.write_i32::<LittleEndian>(-(len as i32))?;
             for word in words {
                 self.write_u16::<LittleEndian>(word)?;
-- 
2.43.0


From fbfaae0ca27000380c04dc6f6d248659239ff45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:39 +0000
Subject: [PATCH 15/18] fix: write the body of a boolean property instead of
 panicking

---
 src/properties/int_property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index f326fbb..089483f 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -326,8 +326,13 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 5d7522dba92c7e5fa4c8dadd0be7b798b6ea6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:47 +0000
Subject: [PATCH 16/18] fix: refuse to write properties named like the end
 marker

The properties after such a property were lost when the file was loaded.
---
 src/lib.rs                        | 6 +++++-
 src/properties/struct_property.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6e317b4..3647b17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,7 +98,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt, read_bytes},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     game_version::{DeserializedGameVersion, GameVersion, PLZ_MAGIC, PalworldCompressionType},
     object_version::EUnrealEngineObjectUE5Version,
     ord_ext::OrdExt,
@@ -533,6 +533,10 @@ impl GvasFile {
         };
 
         for (name, property) in &self.properties {
+            if name == "None" {
+                // This name marks the end of the properties
+                Err(SerializeError::invalid_value("Property named None"))?
+            }
             writing_cursor.write_string(name)?;
             property.write(&mut writing_cursor, true, &mut options)?;
         }
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index d2f8d49..fc312db 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -345,6 +345,10 @@ impl PropertyTrait for StructPropertyValue {
                 let mut len = 0;
                 for (key, values) in properties {
                     for value in values {
+                        if key == "None" {
+                            // This name marks the end of the struct
+                            Err(SerializeError::invalid_value("Property named None"))?
+                        }
                         len += cursor.write_string(key)?;
                         len += value.write(cursor, true, options)?;
                     }
-- 
2.43.0


From 19c276174f03a052c2cd72b97ca56a10e016b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:32:29 +0000
Subject: [PATCH 17/18] fix: report malformed identifiers instead of panicking

Parsing an identifier with characters outside ASCII at the wrong place
panicked, for example while importing damaged JSON.
---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..b33bcee 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -179,8 +179,8 @@ impl FromStr for Guid {
         }
         let mut guid = Guid(Default::default());
         for i in 0..16 {
-            guid.0[i] =
-                u8::from_str_radix(&cleaned[i * 2..i * 2 + 2], 16).map_err(|_| ParseGuidError)?;
+            let digits = cleaned.get(i * 2..i * 2 + 2).ok_or(ParseGuidError)?;
+            guid.0[i] = u8::from_str_radix(digits, 16).map_err(|_| ParseGuidError)?;
         }
         Ok(guid)
     }
-- 
2.43.0


From 7d99e85e52f0d4b1fc002afbfc8fc5a26b2a7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:18 +0000
Subject: [PATCH 18/18] fix: do not loop forever when a compressed save grows
 while it is read

A stream that ends for one read and then delivers more data left the
decoder waiting without reading or returning. Such an end is now final.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3647b17..c4ab1b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -430,6 +430,9 @@ impl GvasFile {
 
                 deserialized_game_version = DeserializedGameVersion::Palworld(compression_type);
 
+                // The decoder may loop forever when data follows after an end of the stream
+                let cursor = &mut cursor.chain(std::io::empty());
+
                 match compression_type {
                     PalworldCompressionType::None => {
                         Cursor::new(read_bytes(cursor, decompresed_length)?)
-- 
2.43.0

