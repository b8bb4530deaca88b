From 4d65641715a142793b413bc523d9fe0f12c8202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 01/18] fix: map the thrift type byte to i8

There is no protocol implementation for u8, so required and optional fields of
type byte did not compile, and list<byte> was encoded as a binary.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..1eb771c 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -252,7 +252,7 @@ macro_rules! __thrift_field_type {
     (set $element_type:ident) => { Vec< $crate::__thrift_field_type!($element_type) > };
     (binary) => { Vec<u8> };
     (string) => { String };
-    (byte) => { u8 };
+    (byte) => { i8 };
     (double) => { f64 };
     ($field_type:ty) => { $field_type }; // this covers bool | i8 | i16 | i32 | i64
     (Box $element_type:ident) => { std::boxed::Box< $crate::__thrift_field_type!($element_type) > };
-- 
2.43.0


From 06f58ac7a9153c34e929c1d4a7fe523d20d442fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 02/18] fix: write the full field id in long form field headers

The long form contains the field id itself, not the difference to the previous
id, and is also needed when the id is not larger than the previous one.
---
 runtime/src/protocol.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..631aae8 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -260,11 +260,11 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
     let field_delta = field_id.wrapping_sub(*last_field_id);
 
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
+    if field_id > *last_field_id && (1..=15).contains(&field_delta) {
         output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    } else {
+        output.write_byte(field_type)?;
+        output.write_i16(field_id)?
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From 7263a840e1b2f6dc2958b89b841830f7b99cb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 03/18] fix: return an error when the field id overflows

The delta is controlled by the input, the unchecked addition panicked in debug
builds and wrapped around to a different field otherwise.
---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 631aae8..6669124 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From cd38891f126ad4f59cd151ec92a2cc7468e81f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 04/18] fix: do not read out of bounds when skipping overlong
 integers

If none of the first 16 bytes ends the integer, the sse2 version returned the
slice starting at index 17, which is unsound for an input of 16 bytes and the
wrong position for longer ones.
---
 runtime/src/protocol.rs | 12 +++++++-----
 runtime/src/uleb.rs     |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 6669124..71f0685 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -361,12 +361,14 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0);
-            Ok(())
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            if rest.len() < self.0.len() {
+                self.0 = rest;
+                return Ok(())
+            }
         }
+        self.0 = skip_uleb_fallback(self.0);
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..859e01e 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -18,6 +18,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Returns `input` unchanged if the integer does not end inside the first 16 bytes.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -26,6 +28,9 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
     let mask = !_mm_movemask_epi8(chunk);
+    if mask & 0xFFFF == 0 {
+        return input;
+    }
     let len = (mask << 1).trailing_zeros() as usize;
     input.get_unchecked(len..)
 }
-- 
2.43.0


From 4a8abe61151a5d3f76caf97393b21b8bab0c1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 05/18] fix: return an error instead of panicking when a
 skipped integer is truncated

---
 runtime/src/protocol.rs | 2 +-
 runtime/src/uleb.rs     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 71f0685..1610f5d 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -367,7 +367,7 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
                 return Ok(())
             }
         }
-        self.0 = skip_uleb_fallback(self.0);
+        self.0 = skip_uleb_fallback(self.0)?;
         Ok(())
     }
 
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 859e01e..25d1146 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,6 +1,7 @@
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
+use std::io::ErrorKind;
 
 pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<u64, ThriftError> {
     let mut shift = 0_u32;
@@ -36,12 +37,12 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From 63531b4da9d593b82bd9a3bead08d93d907d408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 06/18] fix: do not overflow the shift amount for very long
 integers

Overlong sequences are accepted, after about 600 million bytes the shift
overflowed and panicked in debug builds.
---
 runtime/src/uleb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 25d1146..c7b0deb 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -11,7 +11,7 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 
         // overlong sequences are not treated as an error for performance reasons
         value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
-        shift += 7;
+        shift = shift.wrapping_add(7);
 
         if (byte & 0x80) == 0 {
             return Ok(value);
-- 
2.43.0


From aeb161667efaf2c5de3937f6b110cb486f30d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 07/18] fix: reject boolean fields with a different wire type

Any other type was read as false and its content misinterpreted as the
following fields.
---
 runtime/src/types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..48097fc 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,6 +33,9 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        if field_type != 1 && field_type != 2 {
+            return Err(ThriftError::InvalidType);
+        }
         *self = field_type == 1;
         Ok(())
     }
-- 
2.43.0


From 9f7dbe3b35329d7ec83b012c7fc118f9719bd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 08/18] fix: forward field encoding of Box, Rc and Arc to the
 wrapped type

The value of a boolean field is part of the field header, wrapped booleans were
written with a separate value byte and rejected when read.
---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 48097fc..52f93de 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -291,10 +291,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -305,10 +315,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -319,10 +339,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From 4955dd0ff3b58cbf53adf6261fe9210cd9c170cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 09/18] fix: check the wire type of union members

The field type was ignored, so other types were misinterpreted and boolean
members did not round trip.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 1eb771c..10f0c4d 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From 4128c6dc6e24300d72839d58876dd27d90119495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 10/18] fix: use the name of the union in the error for unknown
 members

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 10f0c4d..8c8bbbc 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From 8cf9f9481a3b198e2be5964f715bdbdc4922a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 11/18] fix: limit the nesting of skipped fields

The recursion depth was controlled by the input and could overflow the stack.
---
 runtime/src/error.rs    |  1 +
 runtime/src/protocol.rs | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/runtime/src/error.rs b/runtime/src/error.rs
index 1d002eb..9c76732 100644
--- a/runtime/src/error.rs
+++ b/runtime/src/error.rs
@@ -19,6 +19,7 @@ pub enum ThriftError {
     DuplicateField,
     InvalidType,
     ReserveError,
+    NestingLimit,
     IO(ErrorKind)
 }
 
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 1610f5d..f8477ba 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Maximum nesting of collections and structs inside skipped fields.
+pub const MAX_SKIP_NESTING: usize = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,8 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, remaining_nesting: usize) -> Result<(), ThriftError> {
+    let remaining_nesting = remaining_nesting.checked_sub(1).ok_or(ThriftError::NestingLimit)?;
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, remaining_nesting)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, remaining_nesting)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_nested_field(input, 12, false, remaining_nesting)?;
             }
         }
         _ => {
@@ -197,16 +200,21 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, remaining_nesting: usize) -> Result<(), ThriftError> {
+    let remaining_nesting = remaining_nesting.checked_sub(1).ok_or(ThriftError::NestingLimit)?;
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_nested_field(input, key_type, true, remaining_nesting)?;
+        skip_nested_field(input, val_type, true, remaining_nesting)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_nested_field(input, field_type, inside_collection, MAX_SKIP_NESTING)
+}
+
+fn skip_nested_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, remaining_nesting: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +240,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, remaining_nesting)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, remaining_nesting)?;
         }
         12 => {
             // struct | union
+            let remaining_nesting = remaining_nesting.checked_sub(1).ok_or(ThriftError::NestingLimit)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_nested_field(input, field_type, false, remaining_nesting)?;
             }
         }
         _ => {
-- 
2.43.0


From 3a69160d9555f5981efa65eb561a364800852e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 12/18] fix: return an error for page index locations outside
 of the chunk

Offsets and lengths come from the file and lead to panics when they were
negative, zero or outside of the chunk. Columns with only one of the indexes
also panicked when that index was not part of the chunk.
---
 parquet/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..ed35198 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -103,31 +103,31 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+fn page_index_bytes(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    let offset = usize::try_from(offset).map_err(|_| ParquetError::InvalidOffset)?;
+    let length = usize::try_from(length).map_err(|_| ParquetError::InvalidOffset)?;
+    if length == 0 {
+        return Err(ParquetError::InvalidOffset);
+    }
+    let start = offset.checked_sub(chunk_offset).ok_or(ParquetError::InvalidOffset)?;
+    let end = start.checked_add(length).ok_or(ParquetError::InvalidOffset)?;
+    chunk.get(start..end).ok_or(ParquetError::InvalidOffset)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
+        let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) else {
             return Ok(None)
         };
+        let offset_index_bytes = page_index_bytes(chunk, chunk_offset, oo, ol)?;
+        let column_index_bytes = page_index_bytes(chunk, chunk_offset, co, cl)?;
 
         let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_bytes))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From f75804c0610a413cf7ad18d4ae88cfc711809abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 13/18] fix: return an error if the page index chunk cannot be
 allocated

The range comes from the file metadata, a capacity overflow or failing
allocation panicked or aborted the process.
---
 parquet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index ed35198..2976418 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -83,13 +83,13 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
     }
 }
 
-#[expect(clippy::uninit_vec)]
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
+        let mut buf = Vec::new();
+        buf.try_reserve_exact(range.len()).map_err(|_| ThriftError::ReserveError)?;
         // Safety: Readers should not look at uninitialized bytes, only write into the slice
         unsafe {
             buf.set_len(range.len());
-- 
2.43.0


From c0e19b6bc9edef9450e1f9c78eec461be99304c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 14/18] fix: compile for 32-bit x86, whose SSE2 intrinsics are
 in std::arch::x86

---
 runtime/src/uleb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index c7b0deb..09f68fb 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -25,6 +25,9 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 #[cfg(target_feature = "sse2")]
 #[inline]
 pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
+    #[cfg(target_arch = "x86")]
+    use std::arch::x86::*;
+    #[cfg(target_arch = "x86_64")]
     use std::arch::x86_64::*;
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
-- 
2.43.0


From f03507a0726e3c493797887e7274eb11bf0fa62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 15/18] fix: do not truncate lengths of 2^32 and more on 32-bit
 platforms

---
 runtime/src/protocol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index f8477ba..cd62788 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -55,7 +55,8 @@ pub trait CompactThriftInput<'i> {
     fn read_byte(&mut self) -> Result<u8, ThriftError>;
     fn read_len(&mut self) -> Result<usize, ThriftError> {
         let len = decode_uleb(self)?;
-        Ok(len as _)
+        // too large for any limit if it does not fit
+        Ok(usize::try_from(len).unwrap_or(usize::MAX))
     }
     fn read_i16(&mut self) -> Result<i16, ThriftError> {
         let i = decode_uleb(self)?;
-- 
2.43.0


From 2ce5f9e0d37829936d375439de532c73216c8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 16/18] fix: do not truncate page index offsets on 32-bit
 platforms

---
 parquet/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 2976418..6249863 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -66,6 +66,10 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
                 if oo < 0 || ol < 0 || co < 0 || cl < 0 {
                     return Err(ParquetError::InvalidOffset);
                 }
+                // pages that end beyond the address space of a 32-bit platform
+                if usize::try_from(oo.saturating_add(ol as i64)).is_err() || usize::try_from(co.saturating_add(cl as i64)).is_err() {
+                    return Err(ParquetError::InvalidOffset);
+                }
 
                 min = min.min(oo as usize);
                 max = max.max(oo as usize + ol as usize);
-- 
2.43.0


From 8308142a53501b77ab445fca47fc3f0d761132be Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:27:15 +0000
Subject: [PATCH 17/18] fix: do not hand uninitialized memory to readers

---
 parquet/src/lib.rs      | 25 +++++++++++--------------
 runtime/src/protocol.rs |  9 ++-------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 6249863..05639c7 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -1,5 +1,5 @@
 use std::hint::unreachable_unchecked;
-use std::io::{Read, Seek, SeekFrom, Error as IOError};
+use std::io::{ErrorKind, Read, Seek, SeekFrom, Error as IOError};
 use std::ops::Range;
 use compact_thrift_runtime::{CompactThriftProtocol, CompactThriftInputSlice, ThriftError};
 use crate::format::{ColumnChunk, ColumnIndex, FileMetaData, OffsetIndex};
@@ -34,7 +34,6 @@ impl From<ThriftError> for ParquetError {
 
 const PARQUET_MAGIC: [u8; 4] = [b'P', b'A', b'R', b'1'];
 
-#[expect(clippy::uninit_vec)]
 pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, ParquetError> {
     let _pos = input.seek(SeekFrom::End(-8))?;
     let mut footer = [0_u8; 8];
@@ -47,15 +46,18 @@ pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, Parq
     input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
 
     let mut buf = Vec::with_capacity(metadata_len);
-    // Safety: Readers should not look at uninitialized bytes, only write into the slice
-    unsafe {
-        buf.set_len(metadata_len);
-    }
-
-    input.read_exact(&mut buf)?;
+    append_exact(input, &mut buf, metadata_len)?;
     Ok(buf)
 }
 
+/// Appends exactly `len` bytes, without exposing uninitialized memory to a reader that might look at it.
+fn append_exact<R: Read>(input: &mut R, buf: &mut Vec<u8>, len: usize) -> Result<(), IOError> {
+    if input.by_ref().take(len as u64).read_to_end(buf)? < len {
+        return Err(IOError::from(ErrorKind::UnexpectedEof));
+    }
+    Ok(())
+}
+
 pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range<usize>>, ParquetError> {
     let mut min = usize::MAX;
     let mut max = 0_usize;
@@ -94,12 +96,7 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
 
         let mut buf = Vec::new();
         buf.try_reserve_exact(range.len()).map_err(|_| ThriftError::ReserveError)?;
-        // Safety: Readers should not look at uninitialized bytes, only write into the slice
-        unsafe {
-            buf.set_len(range.len());
-        }
-
-        input.read_exact(&mut buf)?;
+        append_exact(input, &mut buf, range.len())?;
 
         Ok(Some((buf, range)))
     } else {
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index cd62788..22ee693 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -295,18 +295,13 @@ impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
         Ok(f64::from_le_bytes(buf))
     }
 
-    #[expect(clippy::uninit_vec)]
     fn read_binary(&mut self) -> Result<Cow<'static, [u8]>, ThriftError> {
         let len = self.read_len()?;
         if len > MAX_BINARY_LEN {
             return Err(ThriftError::InvalidBinaryLen(len));
         }
-        let mut buf = Vec::with_capacity(len);
-        // Safety: we trust the Read implementation to only write into buf,
-        // and not to look at uninitialized bytes
-        unsafe {
-            buf.set_len(len);
-        }
+        // initialized because a safe Read implementation might look at the bytes or not write all of them
+        let mut buf = vec![0; len];
         self.read_exact(buf.as_mut_slice())?;
         Ok(buf.into())
     }
-- 
2.43.0


From c605670c134cfe1627061f548db2731cf3395e2e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 18/18] fix: return an error if the metadata chunk cannot be
 allocated

---
 parquet/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 05639c7..aba50a0 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -45,7 +45,8 @@ pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, Parq
     let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
     input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
 
-    let mut buf = Vec::with_capacity(metadata_len);
+    let mut buf = Vec::new();
+    buf.try_reserve_exact(metadata_len).map_err(|_| ThriftError::ReserveError)?;
     append_exact(input, &mut buf, metadata_len)?;
     Ok(buf)
 }
-- 
2.43.0

