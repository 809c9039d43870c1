From e1928b9682979ea240a7e5efef369e59dd7096d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 01/35] fix: range check signed values when writing them with
 both bits and bit_order

The (Endian, BitSize, Order) writer treated signed values as unsigned: every
negative value was rejected, and positive values that need the sign bit were
accepted and read back as negative ones.
---
 src/impls/primitive.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..9a7d182 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -794,6 +794,33 @@ macro_rules! ForwardDekuRead {
     };
 }
 
+/// Give back the value to be written as `$bit_size` bits: a signed value that can be represented in
+/// two's complement by that many bits loses its sign extension, all other values stay as they are.
+#[cfg(feature = "bits")]
+macro_rules! StripSignExtension {
+    ($value:expr, $typ:ty, $bit_size:expr, Unsigned) => {
+        *$value
+    };
+    ($value:expr, $typ:ty, $bit_size:expr, Signed) => {{
+        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
+        if $bit_size == 0 || $bit_size >= MAX_TYPE_BITS {
+            *$value
+        } else {
+            let shift = MAX_TYPE_BITS - $bit_size;
+            if (*$value << shift) >> shift != *$value {
+                return Err(deku_error!(
+                    DekuError::InvalidParam,
+                    "bit size of input is larger than requested size",
+                    "{} does not fit in {} bits",
+                    $value,
+                    $bit_size
+                ));
+            }
+            *$value & !((-1 as $typ) << $bit_size)
+        }
+    }};
+}
+
 macro_rules! ImplDekuWrite {
     ($typ:ty, $signed_type:ident) => {
         #[cfg(feature = "bits")]
@@ -804,13 +831,14 @@ macro_rules! ImplDekuWrite {
                 writer: &mut Writer<W>,
                 (endian, size, order): (Endian, BitSize, Order),
             ) -> Result<(), DekuError> {
+                let bit_size: usize = size.0;
+
+                let value: $typ = StripSignExtension!(self, $typ, bit_size, $signed_type);
                 let input = match endian {
-                    Endian::Little => self.to_le_bytes(),
-                    Endian::Big => self.to_be_bytes(),
+                    Endian::Little => value.to_le_bytes(),
+                    Endian::Big => value.to_be_bytes(),
                 };
 
-                let bit_size: usize = size.0;
-
                 let input_bits = input.view_bits::<Msb0>();
 
                 if bit_size > input_bits.len() {
-- 
2.43.0


From 01d37f223a66a0cacb01974ced58d6e903865fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 02/35] fix: sign extend signed values read with the bytes
 attribute

bits = N already did, bytes = N (and bits = N with N a multiple of 8 and no
endian, which is forwarded to it) gave 0xFF as 255 instead of -1.
---
 src/impls/primitive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 9a7d182..19bd6f3 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -674,7 +674,10 @@ macro_rules! ImplDekuReadSignExtend {
                         return Err(deku_error!(DekuError::Parse, "no bits read from reader"));
                     }
                 };
-                Ok(a)
+                // The bytes above the ones read are copies of the sign bit
+                let shift = (MAX_TYPE_BYTES - size.0) * 8;
+                let a: $typ = a;
+                Ok(a.checked_shl(shift as u32).unwrap_or(0) >> (shift % (MAX_TYPE_BYTES * 8)))
             }
         }
     };
-- 
2.43.0


From d5991bbaa2224c7557905379a1cf2b172cedefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 03/35] fix: write whole bytes at an unaligned position in the
 requested bit order

bit_order = "lsb" was only respected by fields with bits, while the reader also
respects it for whole byte fields.
---
 src/impls/primitive.rs | 29 ++++++++++++++---------------
 src/writer.rs          | 21 ++++++++++++++++++++-
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 19bd6f3..8653f7a 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -991,6 +991,17 @@ macro_rules! ImplDekuWrite {
                 &self,
                 writer: &mut Writer<W>,
                 (endian, size): (Endian, ByteSize),
+            ) -> Result<(), DekuError> {
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
+            }
+        }
+
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
+            #[inline(always)]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -1014,22 +1025,10 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(&input, order)?;
                 Ok(())
             }
         }
-
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
-            #[inline]
-            fn to_writer<W: Write + Seek>(
-                &self,
-                writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
-            ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
-            }
-        }
     };
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..5bc792f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -7,7 +7,6 @@ use no_std_io::io::{Seek, SeekFrom, Write};
 #[cfg(feature = "logging")]
 use log;
 
-#[cfg(feature = "bits")]
 use crate::ctx::Order;
 
 use crate::DekuError;
@@ -398,6 +397,26 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, the counterpart of [Reader::read_bytes](crate::reader::Reader::read_bytes)
+    ///
+    /// # Params
+    /// `order` - The order by which to split up the bytes in case we are not byte aligned
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(&mut self, buf: &[u8], order: Order) -> Result<(), DekuError> {
+        #[cfg(feature = "bits")]
+        if order == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf {
+                self.write_bits_order(BitSlice::from_element(byte), order)?;
+            }
+            return Ok(());
+        }
+
+        #[cfg(not(feature = "bits"))]
+        let _ = order;
+
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From 1886f94c2add5414c5cea7d70024493cec44b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 04/35] fix: write the least significant bytes of big endian
 lsb fields

A field of more than 8 bits, but at least a byte less than its container, was
written starting from the (always zero) most significant bytes.
---
 src/impls/primitive.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8653f7a..e69f9a8 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -907,6 +907,9 @@ macro_rules! ImplDekuWrite {
                             )?;
                         } else {
                             let mut remaining_bits = bit_size;
+                            // skip the unused most significant bytes of the container
+                            let input_bits =
+                                &input_bits[input_bits.len() - bit_size.div_ceil(8) * 8..];
                             for chunk in input_bits.chunks(8) {
                                 if chunk.len() > remaining_bits {
                                     writer.write_bits_order(
-- 
2.43.0


From d7c5d062535580290e0ad09c2744dfd357972565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 05/35] fix: report I/O errors when reading bits

All but the last byte of a bit read ignored errors other than UnexpectedEof and
went on with zeroed bytes.
---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..28e6e28 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -313,6 +313,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -326,6 +327,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From bc19bf4d6b25babe39bb585ef3c83193ca767c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 06/35] fix: do not make up a byte when Reader::end() fails

An I/O error other than UnexpectedEof was taken for a successful read of a zero
byte.
---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 28e6e28..c434f4b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -162,6 +162,8 @@ impl<R: Read + Seek> Reader<R> {
                     log::trace!("end");
                     return true;
                 }
+                // Nothing was read, leave it to the next read to report the error
+                return false;
             }
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From 5de84fbb785ac78166a1ba84b4c41c163c8ad6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 07/35] fix: seek relative to the read position after
 Reader::end()

end() reads one byte ahead, so seeking relative to the current position went one
byte too far. This also affects pad_bytes_before in the elements of read_all.
---
 src/reader.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index c434f4b..7281525 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -48,6 +48,17 @@ impl<R: Read + Seek> Seek for Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
+        // `end()` leaves the inner reader one byte ahead of what has been read
+        let pos = match (&self.leftover, pos) {
+            (Some(Leftover::Byte(_)), SeekFrom::Current(0)) => {
+                return Ok(self.inner.stream_position()? - 1);
+            }
+            (Some(Leftover::Byte(_)), SeekFrom::Current(n)) => {
+                SeekFrom::Current(n.saturating_sub(1))
+            }
+            _ => pos,
+        };
+
         // clear leftover
         self.leftover = None;
 
-- 
2.43.0


From ec2f420c8fd04755ce7a6732e721352028f4bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 08/35] fix: write pending bits before seeking the Writer

They were dropped, losing the bits fields before a seek that end unaligned.
---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5bc792f..45e5b9a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -31,10 +31,10 @@ impl<W: Write + Seek> Seek for Writer<W> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
-        // clear leftover
+        // write out leftover bits, they belong to the byte before the new position
         #[cfg(feature = "bits")]
         {
-            self.leftover.0.clear();
+            self.finalize()?;
             self.leftover.1 = Order::Msb0;
         }
 
-- 
2.43.0


From 114ab8258d7c0ae3796e64741e8336b1543a5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 09/35] fix: read counted Vec<u8> from any stream and at any
 position

Looking for the end of the stream failed for streams that can not be sought and
underflowed for a position after it, the byte that read_all holds back was not
considered, an unaligned Reader took the bits in the wrong order, and a count
over usize::MAX / 8 overflowed.
---
 src/impls/vec.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..e12b44c 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,7 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
-use crate::reader::Reader;
+use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
@@ -21,23 +21,32 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
         // Check remaining bytes via the inner reader before allocating,
         // so a bogus count from untrusted input doesn't cause a huge
         // allocation that will immediately fail on read.
+        let buffered = u64::from(matches!(reader.leftover, Some(Leftover::Byte(_))));
         let inner = reader.as_mut();
         let pos = inner
             .stream_position()
             .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        inner
-            .seek(SeekFrom::Start(pos))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+        if let Ok(end) = inner.seek(SeekFrom::End(0)) {
+            inner
+                .seek(SeekFrom::Start(pos))
+                .map_err(|e| DekuError::Io(e.kind()))?;
+
+            if end.saturating_sub(pos) + buffered < exact.0 as u64 {
+                return Err(DekuError::Incomplete(NeedSize::new(
+                    exact.0.saturating_mul(8),
+                )));
+            }
         }
 
-        let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
+        // Not all streams can be sought, so don't rely on that to limit the allocation
+        const STEP: usize = 64 * 1024;
+        let mut bytes = Vec::with_capacity(core::cmp::min(STEP, exact.0));
+        while bytes.len() < exact.0 {
+            let start = bytes.len();
+            let step = core::cmp::min(STEP, exact.0 - start);
+            bytes.resize(start + step, 0x00);
+            let _ = reader.read_bytes(step, &mut bytes[start..], Order::default())?;
+        }
         Ok(bytes)
     }
 }
-- 
2.43.0


From 3b07990ab5d6d462d24f3387ff71390d68ef06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 10/35] fix: respect bits, bit_order and ctx on Vec<u8> fields
 with count

The special case for Vec<u8> ignored all of them when reading.
---
 deku-derive/src/macros/deku_read.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..01df6f7 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -832,7 +832,15 @@ fn emit_field_read(
                     }
                 }
             }
-            if is_vec_u8 {
+            // `ReadExact` reads plain bytes, it has no way to consider these
+            #[cfg(feature = "bits")]
+            let has_bits = f.bits.is_some();
+            #[cfg(not(feature = "bits"))]
+            let has_bits = false;
+            let is_plain =
+                !has_bits && f.bytes.is_none() && f.ctx.is_none() && field_bit_order.is_none();
+
+            if is_vec_u8 && is_plain {
                 quote! {
                     {
                         use core::borrow::Borrow;
-- 
2.43.0


From 99ce8d6de2a88eaa32e5b9fd293418817c8c3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 11/35] fix: do not trust element counts read from the input

A bogus count made the containers allocate for all of its elements up front: a
capacity overflow panic or an out of memory abort. A bogus byte count overflowed
when converting it to bits.
---
 src/impls/hashmap.rs |  5 +++--
 src/impls/hashset.rs |  5 +++--
 src/impls/mod.rs     | 11 +++++++++++
 src/impls/vec.rs     |  4 ++--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..ee50642 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -28,7 +28,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = super::cautious_capacity::<(K, V)>(capacity.unwrap_or(0));
+    let mut res = HashMap::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -155,7 +156,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..14f22b7 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -27,7 +27,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = super::cautious_capacity::<T>(capacity.unwrap_or(0));
+    let mut res = HashSet::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -140,7 +141,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..5173660 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,14 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// Limit the capacity to allocate for `count` elements of `T` before any of them is read, as
+/// `count` may come from untrusted input
+#[cfg(feature = "alloc")]
+fn cautious_capacity<T>(count: usize) -> usize {
+    const MAX_PREALLOCATED_BYTES: usize = 1024 * 1024;
+    match core::mem::size_of::<T>() {
+        0 => 0,
+        size => core::cmp::min(count, MAX_PREALLOCATED_BYTES / size),
+    }
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index e12b44c..042c04f 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -74,7 +74,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::cautious_capacity::<T>(capacity.unwrap_or(0)));
 
     let start_read = reader.bits_read;
 
@@ -167,7 +167,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From 2689649ab0da74586f63224a7a5f7a77c63bbe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 12/35] fix: handle a dynamic size of zero

bits = 0 from an expression panicked in debug builds (little endian and signed
reads, big endian writes), bytes = 0 did so after read_all looked ahead, and -1
was accepted as a zero bit value.
---
 src/impls/primitive.rs | 21 +++++++++++++++++++++
 src/reader.rs          |  4 ++++
 src/writer.rs          |  5 ++++-
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index e69f9a8..b05c6b7 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -397,6 +397,10 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                // nothing to read, in particular no sign bit
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -429,6 +433,10 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                // nothing to read, in particular no sign bit
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -623,6 +631,10 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                // nothing to read, in particular no sign bit
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
@@ -1144,6 +1156,15 @@ macro_rules! ImplDekuWriteDetails {
                         input_bits.len()
                     ));
                 }
+                if bit_size == 0 && *self != 0 {
+                    return Err(deku_error!(
+                        DekuError::InvalidParam,
+                        "bit size of input is larger than requested size",
+                        "{} does not fit in {} bits",
+                        self,
+                        bit_size
+                    ));
+                }
 
                 if matches!(endian, Endian::Little) {
                     // Check if this is a value that will fit inside the required bits, if
diff --git a/src/reader.rs b/src/reader.rs
index 7281525..9e0627a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -496,6 +496,10 @@ impl<R: Read + Seek> Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("read_bytes: requesting {amt} bytes");
 
+        if amt == 0 {
+            return Ok(ReaderRet::Bytes);
+        }
+
         if self.leftover.is_none() {
             if let Err(e) = self.inner.read_exact(&mut buf[..amt]) {
                 if e.kind() == ErrorKind::UnexpectedEof {
diff --git a/src/writer.rs b/src/writer.rs
index 45e5b9a..363974a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -61,7 +61,7 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
-    /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
+    /// Writes the low `amt` bits (`0..=64`) of `value`, most-significant-bit
     /// first. The integer mirror of `Reader::read_bits_uint_msb0`.
     ///
     /// Only valid when the pending leftover is `Msb0`; the caller checks that.
@@ -72,6 +72,9 @@ impl<W: Write + Seek> Writer<W> {
     #[inline]
     #[cfg(feature = "bits")]
     pub(crate) fn write_bits_uint_msb0(&mut self, value: u64, amt: usize) -> Result<(), DekuError> {
+        if amt == 0 {
+            return Ok(());
+        }
         debug_assert!((1..=64).contains(&amt));
         debug_assert_eq!(self.leftover.1, Order::Msb0);
 
-- 
2.43.0


From af65695bd2502a9fb0adce6b6b4498e303c7189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 13/35] fix: write all fields of an id_pat variant of an enum
 with id

With id, the first field does not store the id, and is read like any other. The
writer still ignored its attributes.
---
 deku-derive/src/macros/deku_write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..68a5a4f 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -327,7 +327,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                // with `id`, the id is not part of the variant
+                id.is_none() && variant.id_pat.is_some(),
                 None,
                 &ident,
             )?;
-- 
2.43.0


From 9ee533d5e044ff4e9d356e617aeaeae5bb963330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 14/35] fix: write the id stored by id_pat with the endian of
 the enum

The id is read using endian unless there is an id_endian, but was written with
the native endian.
---
 deku-derive/src/macros/deku_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 68a5a4f..dd59889 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -617,7 +617,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From b44e8feb636840476df3f20722c22613f255dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 15/35] fix: only count what is written in DekuSize

A temp field with a temp_value, and the magic and padding of any temp field, are
written but were not counted. A field with skip is not written but was counted.
---
 deku-derive/src/macros/deku_size.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..94ba10a 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::spanned::Spanned;
 
-use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData};
+use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData, SkipMode};
 
 pub(crate) fn emit_deku_size(input: &DekuData) -> Result<TokenStream, syn::Error> {
     // NOTE: This is overkill, but keeps the same validating requirements of DekuRead. This ensures
@@ -19,6 +19,11 @@ pub(crate) fn emit_deku_size(input: &DekuData) -> Result<TokenStream, syn::Error
     }
 }
 
+/// Whether only the attributes around a field take up space, but not its value
+fn has_no_value(f: &FieldData) -> bool {
+    (f.temp && f.temp_value.is_none()) || (f.skip == Some(SkipMode::All) && f.cond.is_none())
+}
+
 /// Calculate the size of a collection of fields
 fn calculate_fields_size<'a>(
     fields: impl IntoIterator<Item = &'a FieldData>,
@@ -32,10 +37,6 @@ fn calculate_fields_size<'a>(
             return None;
         }
 
-        if f.temp {
-            return None;
-        }
-
         let mut components = Vec::new();
 
         if let Some(magic) = &f.magic {
@@ -60,7 +61,9 @@ fn calculate_fields_size<'a>(
 
         let field_type = &f.ty;
         #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
+        if has_no_value(f) {
+            // only magic and padding
+        } else if let Some(bits) = &f.bits {
             components.push(quote! { (#bits) });
         } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 });
@@ -69,7 +72,9 @@ fn calculate_fields_size<'a>(
         }
 
         #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
+        if has_no_value(f) {
+            // only magic and padding
+        } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
@@ -159,7 +164,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
+        if !has_no_value(field) {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let needs_bound = field.bits.is_none() && field.bytes.is_none();
-- 
2.43.0


From 4fbff7b375b48097dff2619e7e8980df55c661d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 16/35] fix: count bits and bytes once per array element in
 DekuSize

They apply to every element of an array or a tuple, but were counted once.
---
 deku-derive/src/macros/deku_size.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index 94ba10a..b079169 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -24,6 +24,22 @@ fn has_no_value(f: &FieldData) -> bool {
     (f.temp && f.temp_value.is_none()) || (f.skip == Some(SkipMode::All) && f.cond.is_none())
 }
 
+/// Calculate how often `bits` or `bytes` apply to a field: they are passed on to every element
+fn calculate_element_count(ty: &syn::Type) -> TokenStream {
+    match ty {
+        syn::Type::Array(array) => {
+            let len = &array.len;
+            let elements = calculate_element_count(&array.elem);
+            quote! { (#len) * #elements }
+        }
+        syn::Type::Tuple(tuple) => {
+            let elements = tuple.elems.iter().map(calculate_element_count);
+            quote! { (0 #(+ #elements)*) }
+        }
+        _ => quote! { 1 },
+    }
+}
+
 /// Calculate the size of a collection of fields
 fn calculate_fields_size<'a>(
     fields: impl IntoIterator<Item = &'a FieldData>,
@@ -60,13 +76,14 @@ fn calculate_fields_size<'a>(
         }
 
         let field_type = &f.ty;
+        let elements = calculate_element_count(field_type);
         #[cfg(feature = "bits")]
         if has_no_value(f) {
             // only magic and padding
         } else if let Some(bits) = &f.bits {
-            components.push(quote! { (#bits) });
+            components.push(quote! { (#bits) * #elements });
         } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(quote! { (#bytes) * 8 * #elements });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
@@ -75,7 +92,7 @@ fn calculate_fields_size<'a>(
         if has_no_value(f) {
             // only magic and padding
         } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(quote! { (#bytes) * 8 * #elements });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
-- 
2.43.0


From cd140c0c825d3c8d697709b37700f0bf3fbd530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 17/35] fix: return an error for seek offsets out of range

A seek attribute with an expression that depends on the input panicked if its
value did not fit.
---
 deku-derive/src/macros/deku_read.rs  | 6 +++---
 deku-derive/src/macros/deku_write.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 01df6f7..bee51d2 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -685,7 +685,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -695,7 +695,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -705,7 +705,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index dd59889..034d54c 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -654,7 +654,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -664,7 +664,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -674,7 +674,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From 258cdc55d4c7066eebf4e8d369410df55ae2d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 18/35] fix: accept types that end within a byte in
 TryFrom<&[u8]>

The byte that such a type ends in was reported as too much data, so that it could
never be converted, not even from its own to_bytes().
---
 deku-derive/src/macros/deku_read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index bee51d2..bc112c1 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -1064,7 +1064,7 @@ pub fn emit_try_from(
                 let total_len = input.len();
                 let mut cursor = ::#crate_::no_std_io::Cursor::new(input);
                 let (bits_read, res) = <Self as ::#crate_::DekuContainerRead>::from_reader((&mut cursor, 0))?;
-                let bytes_read = bits_read / 8;
+                let bytes_read = bits_read.div_ceil(8);
                 if bytes_read < total_len {
                     return Err(::#crate_::deku_error!(::#crate_::DekuError::Parse, "Too much data", "Read {} but total length was {}", {bits_read / 8}, total_len));
                 }
-- 
2.43.0


From 15aeb64b7a583ac3b78309b40184c4bb36684b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 19/35] fix: check a bit size that is out of range for the type
 when reading

Without endian a bit size that is a multiple of 8 is read as a byte size, which u8
ignores: a u8 with bits = 16 or bits = 0 was read as 8 bits.
---
 src/impls/primitive.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index b05c6b7..6410814 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -761,8 +761,11 @@ macro_rules! ForwardDekuRead {
             ) -> Result<$typ, DekuError> {
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
-                    <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8)))
+                // a size out of range is left for the checks of the bit size
+                let byte_size = bit_size.0 / 8;
+                if (bit_size.0 % 8) == 0 && (1..=core::mem::size_of::<$typ>()).contains(&byte_size)
+                {
+                    <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(byte_size)))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size))
                 }
@@ -779,8 +782,11 @@ macro_rules! ForwardDekuRead {
             ) -> Result<$typ, DekuError> {
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
-                    <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8), order))
+                // a size out of range is left for the checks of the bit size
+                let byte_size = bit_size.0 / 8;
+                if (bit_size.0 % 8) == 0 && (1..=core::mem::size_of::<$typ>()).contains(&byte_size)
+                {
+                    <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(byte_size), order))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size, order))
                 }
-- 
2.43.0


From 90d2d708654151fbe9e3ecec9c2c8ec7aec53d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 20/35] fix: start a byte in the bit order of its first write

The writer continued in the bit order of the previous write even when no
bits were pending, reversing the bytes of longer writes, and an empty
write changed the order of pending bits.
---
 src/writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 363974a..6952c4a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -348,6 +348,14 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        if bits.is_empty() {
+            return Ok(());
+        }
+        // nothing is pending, so there is no previous order to continue from
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 01914db4500c82dd72abf89060fbd428c8866053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 21/35] fix: count skipped bytes from where the reader started

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 9e0627a..f6087a8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -210,10 +210,14 @@ impl<R: Read + Seek> Reader<R> {
             // first, seek with bytes
             if bytes_amt != 0 {
                 debug_assert_eq!(self.bits_read % 8, 0);
+                // `seek` counts from the start of the stream, which isn't
+                // necessarily where this reader started
+                let bits_read = self.bits_read;
                 self.seek(SeekFrom::Current(
                     i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
                 ))
                 .map_err(|e| DekuError::Io(e.kind()))?;
+                self.bits_read = bits_read.saturating_add(bytes_amt * 8);
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From 8803aa0236220bd306781b4dc3bef9582dee9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 22/35] fix: return an error for seek offsets of types out of
 range

A seek attribute of a type whose expression depends on its ctx panicked if its
value did not fit, like those of fields did.
---
 deku-derive/src/macros/deku_read.rs  | 6 +++---
 deku-derive/src/macros/deku_write.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index bc112c1..54ea502 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +59,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +70,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 034d54c..5e3fce8 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +49,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +60,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
-- 
2.43.0


From 5e4a906d4cd76ceac5eaf6667f47ba64d564e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 23/35] fix: drop the items of a partially read array when
 reading an item panics

---
 src/impls/slice.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/impls/slice.rs b/src/impls/slice.rs
index d63758d..2f115c7 100644
--- a/src/impls/slice.rs
+++ b/src/impls/slice.rs
@@ -6,6 +6,23 @@ use crate::{DekuError, DekuReader, DekuWriter};
 use core::mem::MaybeUninit;
 use no_std_io::io::{Read, Seek, Write};
 
+/// A partially read array, whose initialized items are dropped when reading an item fails or panics
+struct Partial<'i, T> {
+    items: &'i mut [MaybeUninit<T>],
+    len: usize,
+}
+
+impl<T> Drop for Partial<'_, T> {
+    fn drop(&mut self) {
+        for item in &mut self.items[..self.len] {
+            // SAFETY: `item` is certain to be initialized
+            unsafe {
+                item.assume_init_drop();
+            }
+        }
+    }
+}
+
 impl<'a, Ctx: Copy, T, const N: usize> DekuReader<'a, Ctx> for [T; N]
 where
     T: DekuReader<'a, Ctx>,
@@ -18,24 +35,16 @@ where
         Self: Sized,
     {
         let mut array: [MaybeUninit<T>; N] = [const { MaybeUninit::uninit() }; N];
-        for (n, item) in array.iter_mut().enumerate() {
-            match T::from_reader_with_ctx(reader, ctx) {
-                Ok(value) => {
-                    item.write(value);
-                }
-                Err(err) => {
-                    // Drop initialized items
-                    for item in &mut array[0..n] {
-                        // SAFETY: `item` is certain to be initialized
-                        unsafe {
-                            item.assume_init_drop();
-                        }
-                    }
-
-                    return Err(err);
-                }
-            };
+        let mut partial = Partial {
+            items: &mut array,
+            len: 0,
+        };
+        for n in 0..N {
+            let value = T::from_reader_with_ctx(reader, ctx)?;
+            partial.items[n].write(value);
+            partial.len += 1;
         }
+        core::mem::forget(partial);
 
         // SAFETY: `array` is certain to be initialized
         let array = unsafe {
-- 
2.43.0


From ba812e5c2fc9487d9ce6011109ddd39da7f95c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 24/35] fix: convert a padding in bytes to bits without
 overflow

---
 deku-derive/src/macros/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 40ee333..a86da55 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -384,12 +384,30 @@ fn pad_bits(
     bit_order: Option<&LitStr>,
     emit_padding: fn(&TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
 ) -> TokenStream {
+    let crate_ = get_crate_name();
+    // Convert before multiplying, the type of the expression may not hold the number of bits
+    let in_bits = |pad_bits: &TokenStream, pad_bytes: &TokenStream, shown: TokenStream| {
+        quote! {
+            {
+                let __deku_pad_bits = usize::try_from(#pad_bits).ok();
+                let __deku_pad_bytes = usize::try_from(#pad_bytes).ok();
+                __deku_pad_bytes
+                    .and_then(|bytes| bytes.checked_mul(8))
+                    .and_then(|bits| bits.checked_add(__deku_pad_bits?))
+                    .ok_or_else(|| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#shown)))?
+            }
+        }
+    };
     match (bits, bytes) {
         (Some(pad_bits), Some(pad_bytes)) => {
-            emit_padding(&quote! { (#pad_bits) + ((#pad_bytes) * 8) }, bit_order)
+            let shown = quote! { (#pad_bits) + ((#pad_bytes) * 8) };
+            emit_padding(&in_bits(pad_bits, pad_bytes, shown), bit_order)
         }
         (Some(pad_bits), None) => emit_padding(pad_bits, bit_order),
-        (None, Some(pad_bytes)) => emit_padding(&quote! {((#pad_bytes) * 8)}, bit_order),
+        (None, Some(pad_bytes)) => {
+            let shown = quote! { ((#pad_bytes) * 8) };
+            emit_padding(&in_bits(&quote!(0usize), pad_bytes, shown), bit_order)
+        }
         (None, None) => quote!(),
     }
 }
-- 
2.43.0


From 29857dd7ca9958463926c1ff0969144468884352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 25/35] fix: allow skipping from a position that can't be
 counted in bits

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index f6087a8..68aefd4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -209,7 +209,8 @@ impl<R: Read + Seek> Reader<R> {
 
             // first, seek with bytes
             if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
+                // (the position saturates when it can't be counted in bits)
+                debug_assert!(self.bits_read % 8 == 0 || self.bits_read == usize::MAX);
                 // `seek` counts from the start of the stream, which isn't
                 // necessarily where this reader started
                 let bits_read = self.bits_read;
-- 
2.43.0


From 84f32fb41e54629f455c7e907130b2121f825658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 26/35] fix: return an error when seeking an unseekable stream
 without std

---
 src/noseek.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 84e222f..16831f1 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -47,7 +47,10 @@ impl<T> Seek for NoSeek<T> {
             #[cfg(feature = "std")]
             _ => Err(std::io::Error::other("seek on unseekable file")),
             #[cfg(not(feature = "std"))]
-            _ => panic!("seek on unseekable file"),
+            _ => Err(crate::no_std_io::Error::new(
+                crate::no_std_io::ErrorKind::Other,
+                "seek on unseekable file",
+            )),
         }
     }
 
-- 
2.43.0


From 711af6289e5d6dbd2822fda0dcf3072d7779d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 27/35] fix: implement DekuContainerWrite for enums without
 alloc

---
 deku-derive/src/macros/deku_write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 5e3fce8..6fa503e 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -388,7 +388,9 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     }
                 }
             };
+        });
 
+        tokens.extend(quote! {
             #[automatically_derived]
             impl #imp ::#crate_::DekuContainerWrite for #ident #wher {}
         });
-- 
2.43.0


From 9576736ea5a2f0520d2893f9108646de5cd0ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 28/35] fix: update the declared field of tuple structs with
 temporary fields

---
 deku-derive/src/macros/deku_write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 6fa503e..b0ac3b1 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -488,7 +488,13 @@ fn emit_field_updates(
     fields
         .iter()
         .enumerate()
-        .filter_map(|(i, f)| emit_field_update(i, f, &object_prefix))
+        .filter(|(_, f)| !f.temp)
+        .enumerate()
+        .filter_map(|(index, (i, f))| {
+            // temporary fields are not part of `self`, they don't count for its tuple indices
+            let i = if object_prefix.is_some() { index } else { i };
+            emit_field_update(i, f, &object_prefix)
+        })
         .collect()
 }
 
-- 
2.43.0


From 4397554b6b83d5df9ea750cf0a45319e27e7afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 29/35] fix: read elements that seek before the start of their
 container

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index ee50642..50167e4 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -36,7 +36,7 @@ where
 
     while !found_predicate {
         let val = <(K, V)>::from_reader_with_ctx(reader, ctx)?;
-        found_predicate = predicate(reader.bits_read - orig_bits_read, &val);
+        found_predicate = predicate(reader.bits_read.saturating_sub(orig_bits_read), &val);
         res.insert(val.0, val.1);
     }
 
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index 14f22b7..2f7bd6f 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -35,7 +35,7 @@ where
 
     while !found_predicate {
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
-        found_predicate = predicate(reader.bits_read - orig_bits_read, &val);
+        found_predicate = predicate(reader.bits_read.saturating_sub(orig_bits_read), &val);
         res.insert(val);
     }
 
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 042c04f..01ac955 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -84,7 +84,10 @@ where
 
         // This unwrap is safe as we are pushing to the vec immediately before it,
         // so there will always be a last element
-        if predicate(reader.bits_read - start_read, res.last().unwrap()) {
+        if predicate(
+            reader.bits_read.saturating_sub(start_read),
+            res.last().unwrap(),
+        ) {
             break;
         }
     }
-- 
2.43.0


From 0b8c2e7155d7126f121d920cba96de94915ee09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 30/35] fix: derive against the name the crate is imported
 under

---
 deku-derive/src/macros/deku_read.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 54ea502..9cad9f5 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -115,7 +115,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
+            let __deku_reader = &mut ::#crate_::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -129,7 +129,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
             let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
-            let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
+            let mut __deku_reader = &mut ::#crate_::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -142,7 +142,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 (__deku_reader.bits_read - (__deku_reader.bits_read % 8)) / 8
             };
             let Some(rest) = __deku_input.0.get(idx..) else {
-                return Err(deku::DekuError::Incomplete(deku::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
+                return Err(::#crate_::DekuError::Incomplete(::#crate_::error::NeedSize::new(8 * (idx - __deku_input.0.len()))));
             };
             Ok(((rest, __deku_reader.bits_read % 8), __deku_value))
         };
@@ -404,7 +404,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
+            let __deku_reader = &mut ::#crate_::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -418,7 +418,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
             let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
-            let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
+            let mut __deku_reader = &mut ::#crate_::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -431,7 +431,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 (__deku_reader.bits_read - (__deku_reader.bits_read % 8)) / 8
             };
             let Some(rest) = __deku_input.0.get(idx..) else {
-                return Err(deku::DekuError::Incomplete(deku::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
+                return Err(::#crate_::DekuError::Incomplete(::#crate_::error::NeedSize::new(8 * (idx - __deku_input.0.len()))));
             };
             Ok(((rest, __deku_reader.bits_read % 8), __deku_value))
         };
-- 
2.43.0


From 483b2d0d373204d4a4b6653884605f978724fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 31/35] fix: keep generated code apart from the names of the
 deriving code

---
 deku-derive/src/macros/deku_read.rs  | 12 ++++++------
 deku-derive/src/macros/deku_write.rs | 28 ++++++++++++----------------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 9cad9f5..c823988 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -178,7 +178,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         #[automatically_derived]
         impl #imp ::#crate_::DekuReader<#lifetime, #ctx_types> for #ident #wher {
             #[inline]
-            fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
+            fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
                 #read_body
             }
         }
@@ -191,7 +191,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             #[automatically_derived]
             impl #imp ::#crate_::DekuReader<#lifetime> for #ident #wher {
                 #[inline]
-                fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
+                fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
                     #read_body
                 }
             }
@@ -465,7 +465,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         #[automatically_derived]
         impl #imp ::#crate_::DekuReader<#lifetime, #ctx_types> for #ident #wher {
             #[inline]
-            fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
+            fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
                 #read_body
             }
         }
@@ -479,7 +479,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             #[automatically_derived]
             impl #imp ::#crate_::DekuReader<#lifetime> for #ident #wher {
                 #[inline]
-                fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
+                fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
                     #read_body
                 }
             }
@@ -1033,7 +1033,7 @@ pub fn emit_container_read(
         impl #imp ::#crate_::DekuContainerRead<#lifetime> for #ident #wher {
             #[allow(non_snake_case)]
             #[inline]
-            fn from_reader<'a, R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'a mut R, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
+            fn from_reader<'__deku_a, __DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'__deku_a mut __DekuR, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
                 #from_reader_body
             }
 
@@ -1060,7 +1060,7 @@ pub fn emit_try_from(
             type Error = ::#crate_::DekuError;
 
             #[inline]
-            fn try_from(input: &#lifetime [u8]) -> core::result::Result<Self, Self::Error> {
+            fn try_from(input: &#lifetime [u8]) -> core::result::Result<Self, ::#crate_::DekuError> {
                 let total_len = input.len();
                 let mut cursor = ::#crate_::no_std_io::Cursor::new(input);
                 let (bits_read, res) = <Self as ::#crate_::DekuContainerRead>::from_reader((&mut cursor, 0))?;
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index b0ac3b1..4c2de00 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -106,9 +106,8 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 type Error = ::#crate_::DekuError;
 
                 #[inline]
-                fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
-                    use ::#crate_::DekuContainerWrite as _;
-                    input.to_bits()
+                fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
+                    ::#crate_::DekuContainerWrite::to_bits(&input)
                 }
             }
         });
@@ -117,14 +116,13 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         tokens.extend(quote! {
             const _: () = {
                 extern crate alloc;
-                use alloc::vec::Vec;
 
                 #[automatically_derived]
-                impl #imp core::convert::TryFrom<#ident> for Vec<u8> #wher {
+                impl #imp core::convert::TryFrom<#ident> for alloc::vec::Vec<u8> #wher {
                     type Error = ::#crate_::DekuError;
 
                     #[inline]
-                    fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
+                    fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
                         ::#crate_::DekuContainerWrite::to_bytes(&input)
                     }
                 }
@@ -170,7 +168,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         impl #imp ::#crate_::DekuWriter<#ctx_types> for #ident #wher {
             #[allow(unused_variables)]
             #[inline]
-            fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
+            fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
                 #write_body
             }
         }
@@ -184,7 +182,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             impl #imp ::#crate_::DekuWriter for #ident #wher {
                 #[allow(unused_variables)]
                 #[inline]
-                fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
+                fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
                     #write_body
                 }
             }
@@ -365,9 +363,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 type Error = ::#crate_::DekuError;
 
                 #[inline]
-                fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
-                    use ::#crate_::DekuContainerWrite as _;
-                    input.to_bits()
+                fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
+                    ::#crate_::DekuContainerWrite::to_bits(&input)
                 }
             }
         });
@@ -376,14 +373,13 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         tokens.extend(quote! {
             const _: () = {
                 extern crate alloc;
-                use alloc::vec::Vec;
 
                 #[automatically_derived]
-                impl #imp core::convert::TryFrom<#ident> for Vec<u8> #wher {
+                impl #imp core::convert::TryFrom<#ident> for alloc::vec::Vec<u8> #wher {
                     type Error = ::#crate_::DekuError;
 
                     #[inline]
-                    fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
+                    fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
                         ::#crate_::DekuContainerWrite::to_bytes(&input)
                     }
                 }
@@ -430,7 +426,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         impl #imp ::#crate_::DekuWriter<#ctx_types> for #ident #wher {
             #[allow(unused_variables)]
             #[inline]
-            fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
+            fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
                 #write_body
             }
         }
@@ -444,7 +440,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             impl #imp ::#crate_::DekuWriter for #ident #wher {
                 #[allow(unused_variables)]
                 #[inline]
-                fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
+                fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
                     #write_body
                 }
             }
-- 
2.43.0


From 14f07598641b3e46483b050694726eabc61c062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 32/35] fix: ask for the whole request when input ends after a
 byte read ahead

---
 src/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 68aefd4..9142479 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -569,14 +569,14 @@ impl<R: Read + Seek> Reader<R> {
         }
         let buf_len = buf.len();
         if buf_len < remaining {
-            return Err(DekuError::Incomplete(NeedSize::new(remaining * 8)));
+            return Err(DekuError::Incomplete(NeedSize::new(amt * 8)));
         }
         if let Err(e) = self
             .inner
             .read_exact(&mut buf[amt - remaining..][..remaining])
         {
             if e.kind() == ErrorKind::UnexpectedEof {
-                return Err(DekuError::Incomplete(NeedSize::new(remaining * 8)));
+                return Err(DekuError::Incomplete(NeedSize::new(amt * 8)));
             }
             return Err(DekuError::Io(e.kind()));
         }
@@ -710,14 +710,14 @@ impl<R: Read + Seek> Reader<R> {
         }
         let buf_len = buf.len();
         if buf_len < remaining {
-            return Err(DekuError::Incomplete(NeedSize::new(remaining * 8)));
+            return Err(DekuError::Incomplete(NeedSize::new(N * 8)));
         }
         if let Err(e) = self
             .inner
             .read_exact(&mut buf[N - remaining..][..remaining])
         {
             if e.kind() == ErrorKind::UnexpectedEof {
-                return Err(DekuError::Incomplete(NeedSize::new(remaining * 8)));
+                return Err(DekuError::Incomplete(NeedSize::new(N * 8)));
             }
             return Err(DekuError::Io(e.kind()));
         }
-- 
2.43.0


From d2e03bfdeac9fc16636266bf4ad1d36208614986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 33/35] fix: refuse read_all next to another limit without the
 bits feature too

---
 deku-derive/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/deku-derive/src/lib.rs b/deku-derive/src/lib.rs
index a45b315..3978191 100644
--- a/deku-derive/src/lib.rs
+++ b/deku-derive/src/lib.rs
@@ -884,6 +884,16 @@ impl FieldData {
             ));
         }
 
+        #[cfg(not(feature = "bits"))]
+        if data.read_all
+            && (data.until.is_some() || data.count.is_some() || data.bytes_read.is_some())
+        {
+            return Err(cerror(
+                data.read_all.span(),
+                "conflicting: `read_all` cannot be used with `until`, `count`, or `bytes_read`",
+            ));
+        }
+
         // Validate usage of seek_*
         if (data.seek_from_current.is_some() as u8
             + data.seek_from_end.is_some() as u8
-- 
2.43.0


From d7826cde595972d5753ba2938c09b95ccb48ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 34/35] fix: refuse more than one seek attribute at the top
 level

---
 deku-derive/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/deku-derive/src/lib.rs b/deku-derive/src/lib.rs
index 3978191..130625b 100644
--- a/deku-derive/src/lib.rs
+++ b/deku-derive/src/lib.rs
@@ -421,6 +421,19 @@ impl DekuData {
             ));
         }
 
+        // Validate usage of seek_*
+        if (data.seek_from_current.is_some() as u8
+            + data.seek_from_end.is_some() as u8
+            + data.seek_from_start.is_some() as u8
+            + data.seek_rewind as u8)
+            > 1
+        {
+            return Err(cerror(
+                data.ident.span(),
+                "conflicting: only one `seek` attribute can be used at one time",
+            ));
+        }
+
         match data.data {
             ast::Data::Struct(_) => {
                 // Validate id_* attributes are being used on an enum
-- 
2.43.0


From 668aae3fa568c9f64092ca4beb615443b983b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 35/35] fix: refuse a reader on the field that stores the id of
 an id_pat variant

---
 deku-derive/src/macros/deku_read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index c823988..173ea88 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -772,7 +772,7 @@ fn emit_field_read(
         quote! {}
     };
 
-    let field_read_func = if field_reader.is_some() {
+    let field_read_func = if field_reader.is_some() && !pad_id {
         quote! { #field_reader? }
     } else {
         let read_args = gen_field_args(
-- 
2.43.0

