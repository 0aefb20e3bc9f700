From 27ead2dcc497c96168b57c0c5b9dcaf03f3c926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 01/91] vortex_sim hook: observable lock around array
 statistics (off by default)

---
 vortex-array/src/data.rs |   6 +-
 vortex-array/src/lib.rs  |   4 +
 vortex-array/src/sim.rs  | 169 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 178 insertions(+), 1 deletion(-)
 create mode 100644 vortex-array/src/sim.rs

diff --git a/vortex-array/src/data.rs b/vortex-array/src/data.rs
index 9deb597..86e85b9 100644
--- a/vortex-array/src/data.rs
+++ b/vortex-array/src/data.rs
@@ -1,4 +1,6 @@
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(vortex_sim))]
+use std::sync::RwLock;
 
 use vortex_buffer::Buffer;
 use vortex_dtype::DType;
@@ -6,6 +8,8 @@ use vortex_error::{vortex_bail, vortex_panic, VortexResult};
 use vortex_scalar::Scalar;
 
 use crate::encoding::EncodingRef;
+#[cfg(vortex_sim)]
+use crate::sim::RwLock;
 use crate::stats::{Stat, Statistics, StatsSet};
 use crate::{Array, ArrayDType, ArrayMetadata, ToArray};
 
diff --git a/vortex-array/src/lib.rs b/vortex-array/src/lib.rs
index 4827dcb..cc07ebf 100644
--- a/vortex-array/src/lib.rs
+++ b/vortex-array/src/lib.rs
@@ -9,6 +9,8 @@
 //! arrays can be [canonicalized](Canonical) into for ease of access in compute functions.
 //!
 
+#![allow(unexpected_cfgs)]
+
 use std::fmt::{Debug, Display, Formatter};
 use std::future::ready;
 
@@ -47,6 +49,8 @@ pub mod encoding;
 mod implementation;
 pub mod iter;
 mod metadata;
+#[cfg(vortex_sim)]
+pub mod sim;
 pub mod stats;
 pub mod stream;
 mod tree;
diff --git a/vortex-array/src/sim.rs b/vortex-array/src/sim.rs
new file mode 100644
index 0000000..d62227c
--- /dev/null
+++ b/vortex-array/src/sim.rs
@@ -0,0 +1,169 @@
+//! Scheduling points for deterministic simulation. Compiled only with `--cfg vortex_sim`; the
+//! shipped library uses [`std::sync::RwLock`] directly.
+
+use std::ops::{Deref, DerefMut};
+use std::sync::{
+    LockResult, OnceLock, PoisonError, RwLockReadGuard, RwLockWriteGuard, TryLockError,
+    TryLockResult,
+};
+
+/// What is about to happen to, or has just happened to, the lock with the given identity.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum LockEvent {
+    WantRead,
+    WantWrite,
+    TryRead,
+    TryWrite,
+    GotRead,
+    GotWrite,
+    ReleasedRead,
+    ReleasedWrite,
+}
+
+static HOOK: OnceLock<fn(LockEvent, usize)> = OnceLock::new();
+
+/// Installs the simulator's scheduler. Every lock operation calls it.
+pub fn install_lock_hook(hook: fn(LockEvent, usize)) {
+    let _ = HOOK.set(hook);
+}
+
+fn hook(event: LockEvent, lock: usize) {
+    if let Some(h) = HOOK.get() {
+        h(event, lock)
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+#[derive(Debug)]
+pub struct ReadGuard<'a, T>(Option<RwLockReadGuard<'a, T>>, usize);
+
+#[derive(Debug)]
+pub struct WriteGuard<'a, T>(Option<RwLockWriteGuard<'a, T>>, usize);
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> Self {
+        Self(std::sync::RwLock::new(value))
+    }
+
+    fn id(&self) -> usize {
+        std::ptr::addr_of!(self.0) as usize
+    }
+
+    pub fn read(&self) -> LockResult<ReadGuard<'_, T>> {
+        hook(LockEvent::WantRead, self.id());
+        match self.0.read() {
+            Ok(g) => Ok(ReadGuard(Some(g), self.id())),
+            Err(e) => Err(PoisonError::new(ReadGuard(Some(e.into_inner()), self.id()))),
+        }
+    }
+
+    pub fn write(&self) -> LockResult<WriteGuard<'_, T>> {
+        hook(LockEvent::WantWrite, self.id());
+        match self.0.write() {
+            Ok(g) => Ok(WriteGuard(Some(g), self.id())),
+            Err(e) => Err(PoisonError::new(WriteGuard(
+                Some(e.into_inner()),
+                self.id(),
+            ))),
+        }
+    }
+}
+
+impl<T> RwLock<T> {
+    pub fn try_read(&self) -> TryLockResult<ReadGuard<'_, T>> {
+        hook(LockEvent::TryRead, self.id());
+        match self.0.try_read() {
+            Ok(g) => {
+                hook(LockEvent::GotRead, self.id());
+                Ok(ReadGuard(Some(g), self.id()))
+            }
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => {
+                hook(LockEvent::GotRead, self.id());
+                Err(TryLockError::Poisoned(PoisonError::new(ReadGuard(
+                    Some(e.into_inner()),
+                    self.id(),
+                ))))
+            }
+        }
+    }
+
+    pub fn try_write(&self) -> TryLockResult<WriteGuard<'_, T>> {
+        hook(LockEvent::TryWrite, self.id());
+        match self.0.try_write() {
+            Ok(g) => {
+                hook(LockEvent::GotWrite, self.id());
+                Ok(WriteGuard(Some(g), self.id()))
+            }
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => {
+                hook(LockEvent::GotWrite, self.id());
+                Err(TryLockError::Poisoned(PoisonError::new(WriteGuard(
+                    Some(e.into_inner()),
+                    self.id(),
+                ))))
+            }
+        }
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn clear_poison(&self) {
+        self.0.clear_poison()
+    }
+}
+
+impl<T> Deref for ReadGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        match &self.0 {
+            Some(g) => g,
+            None => unreachable!(),
+        }
+    }
+}
+
+impl<T> Deref for WriteGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        match &self.0 {
+            Some(g) => g,
+            None => unreachable!(),
+        }
+    }
+}
+
+impl<T> DerefMut for WriteGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        match &mut self.0 {
+            Some(g) => g,
+            None => unreachable!(),
+        }
+    }
+}
+
+impl<T> Drop for ReadGuard<'_, T> {
+    fn drop(&mut self) {
+        self.0.take();
+        hook(LockEvent::ReleasedRead, self.1);
+    }
+}
+
+impl<T> Drop for WriteGuard<'_, T> {
+    fn drop(&mut self) {
+        self.0.take();
+        hook(LockEvent::ReleasedWrite, self.1);
+    }
+}
-- 
2.43.0


From d543b433d24779f537296b8a75549bf7fd4c5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 02/91] vortex_sim hook: tune the sampling compressor's sample
 size, seed and cost limit (off by default)

---
 vortex-sampling-compressor/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vortex-sampling-compressor/src/lib.rs b/vortex-sampling-compressor/src/lib.rs
index b27c199..e6191b2 100644
--- a/vortex-sampling-compressor/src/lib.rs
+++ b/vortex-sampling-compressor/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use std::collections::HashSet;
 use std::fmt::{Debug, Display, Formatter};
 use std::sync::Arc;
@@ -134,6 +136,25 @@ impl Default for CompressConfig {
     }
 }
 
+/// Only for deterministic simulation: varies the parameters that decide which samples are drawn
+/// and which compressors are candidates.
+#[cfg(vortex_sim)]
+impl CompressConfig {
+    pub fn sim_tune(
+        mut self,
+        sample_size: u16,
+        sample_count: u16,
+        rng_seed: u64,
+        max_cost: u8,
+    ) -> Self {
+        self.sample_size = sample_size;
+        self.sample_count = sample_count;
+        self.rng_seed = rng_seed;
+        self.max_cost = max_cost;
+        self
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct SamplingCompressor<'a> {
     compressors: HashSet<CompressorRef<'a>>,
-- 
2.43.0


From a18f7ee1248b9286ce24cb9b5bf3c0baab26d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 03/91] fix: canonicalize a binary VarBinArray to a binary view
 array

---
 vortex-array/src/array/varbin/flatten.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..afeb6fc 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -10,8 +11,12 @@ use crate::{Array, ArrayDType, Canonical, IntoCanonical};
 impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
-- 
2.43.0


From e77b13ea4a2bc63c8135414281a13decc41717f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 04/91] fix: VarBinViewArray::from_iter_bin makes a
 non-nullable array

---
 vortex-array/src/array/varbinview/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbinview/mod.rs b/vortex-array/src/array/varbinview/mod.rs
index 54889e2..8eba2fa 100644
--- a/vortex-array/src/array/varbinview/mod.rs
+++ b/vortex-array/src/array/varbinview/mod.rs
@@ -423,7 +423,7 @@ impl VarBinViewArray {
         for b in iter {
             builder.append_value(b);
         }
-        let array = Array::from_arrow(&builder.finish(), true);
+        let array = Array::from_arrow(&builder.finish(), false);
         VarBinViewArray::try_from(array).vortex_expect("VarBinViewArray from StringViewBuilder")
     }
 
-- 
2.43.0


From 700346977ba26c4ee50053438aadaf6d3c219f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 05/91] fix: read an f16 scalar whose bits serialize as a u8

---
 vortex-scalar/src/pvalue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..14ec6b6 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -225,6 +225,8 @@ impl TryFrom<PValue> for f16 {
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
         // We serialize f16 as u16.
         match value {
+            // Serializers such as flexbuffers narrow integers to the smallest width that fits.
+            PValue::U8(u) => Some(Self::from_bits(u.into())),
             PValue::U16(u) => Some(Self::from_bits(u)),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
-- 
2.43.0


From c359327c1773d9db78deab7e389396c647bc853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 06/91] fix: serialize buffer scalars as bytes so they can be
 read back

---
 vortex-scalar/src/serde/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..cf94371 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_slice()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
-- 
2.43.0


From 39b8dca29dd084794d72b0f6141f648f55aa9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 07/91] fix: allow an empty slice of a run-end array

---
 encodings/runend/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/runend/src/array.rs b/encodings/runend/src/array.rs
index 25c8922..de766b3 100644
--- a/encodings/runend/src/array.rs
+++ b/encodings/runend/src/array.rs
@@ -59,7 +59,7 @@ impl RunEndArray {
             );
         }
 
-        if offset != 0 && !ends.is_empty() {
+        if offset != 0 && length != 0 && !ends.is_empty() {
             let first_run_end: usize = scalar_at(&ends, 0)?.as_ref().try_into()?;
             if first_run_end <= offset {
                 vortex_bail!("First run end {first_run_end} must be bigger than offset {offset}");
-- 
2.43.0


From 216e6a50949b2967e04f433b1272712d27359799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 08/91] fix: canonicalize constant null, null string and null
 binary arrays

---
 vortex-array/src/array/constant/canonical.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index cc33f17..ef19619 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -7,7 +7,7 @@ use vortex_scalar::{BinaryScalar, BoolScalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, VarBinViewArray, VIEW_SIZE_BYTES};
+use crate::array::{BinaryView, BoolArray, NullArray, VarBinViewArray};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -59,6 +59,10 @@ impl IntoCanonical for ConstantArray {
             });
         }
 
+        if matches!(self.dtype(), DType::Null) {
+            return Ok(Canonical::Null(NullArray::new(self.len())));
+        }
+
         vortex_bail!("Unsupported scalar type {}", self.dtype())
     }
 }
@@ -70,10 +74,15 @@ fn canonical_byte_view(
 ) -> VortexResult<VarBinViewArray> {
     match scalar_bytes {
         None => {
-            let views = ConstantArray::new(0u8, len * VIEW_SIZE_BYTES);
+            // The views must be backed by a buffer that is aligned for u128.
+            let mut views = BufferBuilder::<u128>::new(len);
+            views.append_n(len, 0);
+            let views =
+                PrimitiveArray::new(views.finish().into(), PType::U8, Validity::NonNullable)
+                    .into_array();
 
             VarBinViewArray::try_new(
-                views.into_array(),
+                views,
                 Vec::new(),
                 dtype.clone(),
                 Validity::AllInvalid,
-- 
2.43.0


From 7603cb859188a32bb78fc2532b72f026b47b2ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 09/91] fix: convert an empty unaligned buffer to Arrow without
 panicking

---
 vortex-buffer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 856ee2c..39aaf54 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -109,6 +109,8 @@ impl Buffer {
     pub fn into_arrow(self) -> ArrowBuffer {
         match self {
             Buffer::Arrow(a) => a,
+            // An empty Vec<u8> is not backed by an allocation and so is not aligned for any other type.
+            Buffer::Bytes(b) if b.is_empty() => ArrowBuffer::from_vec(Vec::<i128>::new()),
             Buffer::Bytes(b) => ArrowBuffer::from_vec(Vec::<u8>::from(b)),
         }
     }
-- 
2.43.0


From abbe523ca44f213f3d90a902ed7e860552fbe1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 10/91] fix: slice of a sliced nullable run-end bool array

---
 encodings/runend-bool/src/compute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..05848d3 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -77,9 +77,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
-- 
2.43.0


From 4c3e3375134a627ba33d5159f2deda83cf5f1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 11/91] fix: decompress a sliced nullable delta array

---
 encodings/fastlanes/src/delta/compress.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..3426de4 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -3,7 +3,6 @@ use fastlanes::{Delta, Transpose};
 use num_traits::{WrappingAdd, WrappingSub};
 use vortex::array::PrimitiveArray;
 use vortex::compute::unary::fill_forward;
-use vortex::compute::SliceFn;
 use vortex::validity::Validity;
 use vortex::IntoArrayVariant;
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType, Nullability};
@@ -100,16 +99,15 @@ where
 pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let bases = array.bases().into_primitive()?;
     let deltas = array.deltas().into_primitive()?;
+    // The deltas cover whole chunks, but the validity only covers the rows of the (sliced) array.
+    let rows = array.offset()..array.offset() + array.len();
     let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
-        PrimitiveArray::from_vec(
-            decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
-        )
+        let values =
+            decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice());
+        PrimitiveArray::from_vec(values[rows].to_vec(), array.validity())
     });
 
-    decoded
-        .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+    Ok(decoded)
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
-- 
2.43.0


From a323754fd9a4ea8b5dbd7aeb216ec3260d2b0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 12/91] fix: take no rows from a chunked array

---
 vortex-array/src/array/chunked/compute/take.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..4fba82c 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -11,6 +11,10 @@ use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 
 impl TakeFn for ChunkedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
+        if indices.is_empty() {
+            return slice(self, 0, 0);
+        }
+
         // Fast path for strict sorted indices.
         if indices
             .statistics()
-- 
2.43.0


From 77874827c71da5325275e960adf8d8d2c5725aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 13/91] fix: ALP keeps the sign of negative zero

---
 encodings/alp/src/alp/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..2e02d26 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -48,6 +48,12 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
         (self + Self::SWEET) - Self::SWEET
     }
 
+    /// Whether two values are the same number, telling negative from positive zero.
+    #[inline(always)]
+    fn is_same(self, other: Self) -> bool {
+        self == other && self.is_sign_negative() == other.is_sign_negative()
+    }
+
     /// Equivalent to calling `as` to cast the primitive float to the target integer type.
     fn as_int(self) -> Self::ALPInt;
 
@@ -143,7 +149,7 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     fn encode_single(value: Self, exponents: Exponents) -> Result<Self::ALPInt, Self> {
         let encoded = unsafe { Self::encode_single_unchecked(value, exponents) };
         let decoded = Self::decode_single(encoded, exponents);
-        if decoded == value {
+        if decoded.is_same(value) {
             return Ok(encoded);
         }
         Err(value)
@@ -191,7 +197,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !decoded.is_same(*v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +219,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !decoded.is_same(chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
-- 
2.43.0


From 3fb21d53d246055d672fca5862b8b250854fde84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 14/91] fix: write a table that has no batches

---
 vortex-serde/src/layouts/write/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 9b44245..58374d3 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -172,6 +172,11 @@ impl<W: VortexWrite> LayoutWriter<W> {
     }
 
     pub async fn finalize(mut self) -> VortexResult<W> {
+        // A table without any batch still has all of its columns, each without chunks.
+        if let (true, Some(DType::Struct(st, _))) = (self.column_chunks.is_empty(), &self.dtype) {
+            self.column_chunks = vec![BatchOffsets::new(vec![0], vec![]); st.names().len()];
+        }
+
         let top_level_layout = self.write_metadata_arrays().await?;
         let ps = self
             .write_footer(Footer::new(top_level_layout, self.row_count))
-- 
2.43.0


From 8859a0bb8a2a58ec80b617c963815a70cb0a5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 15/91] fix: run-end encoding keeps the sign of zero apart

---
 encodings/runend/src/compress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..0bd5f37 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -80,7 +80,7 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
-- 
2.43.0


From d41681d348fe1b19efefedf126c10a8d89975f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 16/91] fix: empty slice of a roaring int array

---
 encodings/roaring/src/integer/compute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encodings/roaring/src/integer/compute.rs b/encodings/roaring/src/integer/compute.rs
index 84df832..f138c18 100644
--- a/encodings/roaring/src/integer/compute.rs
+++ b/encodings/roaring/src/integer/compute.rs
@@ -41,6 +41,9 @@ impl ScalarAtFn for RoaringIntArray {
 
 impl SliceFn for RoaringIntArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Self::try_new(Bitmap::new(), self.ptype()).map(IntoArray::into_array);
+        }
         let mut bitmap = self.owned_bitmap();
         let start = bitmap
             .select(start as u32)
-- 
2.43.0


From 1a0ba65162853b3c8168fe74c2b7c612729e0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 17/91] fix: compress a sliced sparse array without losing its
 offset

---
 .../src/compressors/sparse.rs                 | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..fb6f9ed 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -1,6 +1,6 @@
 use std::collections::HashSet;
 
-use vortex::array::{Sparse, SparseArray, SparseEncoding};
+use vortex::array::{PrimitiveArray, Sparse, SparseArray, SparseEncoding};
 use vortex::encoding::EncodingRef;
 use vortex::{Array, ArrayDef, IntoArray};
 use vortex_error::VortexResult;
@@ -31,13 +31,26 @@ impl EncodingCompressor for SparseCompressor {
         ctx: SamplingCompressor<'a>,
     ) -> VortexResult<CompressedArray<'a>> {
         let sparse_array = SparseArray::try_from(array)?;
+        // A sliced sparse array carries an offset that the indices have to be adjusted by.
+        let indices = if sparse_array.indices_offset() == 0 {
+            sparse_array.indices()
+        } else {
+            PrimitiveArray::from(
+                sparse_array
+                    .resolved_indices()
+                    .into_iter()
+                    .map(|i| i as u64)
+                    .collect::<Vec<_>>(),
+            )
+            .into_array()
+        };
         let indices = ctx.auxiliary("indices").compress(
-            &sparse_array.indices(),
+            &indices,
             like.as_ref().and_then(|l| l.child(0)),
         )?;
         let values = ctx.named("values").compress(
             &sparse_array.values(),
-            like.as_ref().and_then(|l| l.child(0)),
+            like.as_ref().and_then(|l| l.child(1)),
         )?;
         Ok(CompressedArray::new(
             SparseArray::try_new(
-- 
2.43.0


From df1a02e0d4e3466412ec8ad298795a0a308dc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 18/91] fix: compare an ALP array with a constant it cannot
 encode

---
 encodings/alp/src/alp/compute.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..5a4e051 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -100,6 +100,9 @@ impl MaybeCompareFn for ALPArray {
                 .get_as::<bool>(Stat::IsConstant)
                 .unwrap_or_default()
         {
+            if self.is_empty() {
+                return None;
+            }
             let rhs = scalar_at(array, 0).vortex_expect("should be scalar");
             let pvalue = rhs
                 .value()
@@ -107,11 +110,12 @@ impl MaybeCompareFn for ALPArray {
                 .vortex_expect("Expected primitive value");
 
             match pvalue {
-                Some(PValue::F32(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(_) | None => Some(Ok(BoolArray::from_vec(
+                Some(PValue::F32(f)) => alp_constant_compare(self, f, operator),
+                Some(PValue::F64(f)) => alp_constant_compare(self, f, operator),
+                Some(_) => None,
+                None => Some(Ok(BoolArray::from_vec(
                     vec![false; self.len()],
-                    Validity::AllValid,
+                    Validity::AllInvalid,
                 )
                 .into_array())),
             }
@@ -121,6 +125,20 @@ impl MaybeCompareFn for ALPArray {
     }
 }
 
+/// Compare the encoded values only if they alone decide the result: patched values are not among
+/// them, and a value that cannot be encoded has no place in their order.
+fn alp_constant_compare<F: ALPFloat + Into<Scalar>>(
+    alp: &ALPArray,
+    value: F,
+    operator: Operator,
+) -> Option<VortexResult<Array>>
+where
+    F::ALPInt: Into<Scalar>,
+{
+    (alp.patches().is_none() && F::encode_single(value, alp.exponents()).is_ok())
+        .then(|| alp_scalar_compare(alp, value, operator))
+}
+
 fn alp_scalar_compare<F: ALPFloat + Into<Scalar>>(
     alp: &ALPArray,
     value: F,
-- 
2.43.0


From 24346f52e3e7c2215ba0db1ed71c67a54c57e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 19/91] fix: compare an empty constant array without panicking

---
 vortex-array/src/array/constant/compute.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..c3def74 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -105,11 +105,13 @@ impl SearchSortedFn for ConstantArray {
 
 impl MaybeCompareFn for ConstantArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
-        (ConstantArray::try_from(other).is_ok()
-            || other
-                .statistics()
-                .get_as::<bool>(Stat::IsConstant)
-                .unwrap_or_default())
+        // An empty array has no value to compare with.
+        (!other.is_empty()
+            && (ConstantArray::try_from(other).is_ok()
+                || other
+                    .statistics()
+                    .get_as::<bool>(Stat::IsConstant)
+                    .unwrap_or_default()))
         .then(|| {
             let lhs = self.owned_scalar();
             let rhs = scalar_at(other, 0).vortex_expect("Expected scalar");
-- 
2.43.0


From e173d7eda48bbf9c7fdb01baa867f1d7247c8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 20/91] fix: and/or of empty constants

---
 vortex-array/src/array/constant/compute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index c3def74..b9a462d 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -150,7 +150,7 @@ fn constant_array_bool_impl(
     fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
 ) -> VortexResult<Array> {
     // If the right side is constant
-    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
-- 
2.43.0


From 4b955fcd2d84ee67f3cea3db4202061e10555525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 21/91] fix: take from a string or binary view array keeps its
 nullability

---
 vortex-array/src/array/varbinview/compute.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..2ab1190 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,8 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
-        Ok(Array::from_arrow(take_arrow, nullable))
+        Ok(Array::from_arrow(take_arrow, self.dtype().is_nullable()))
     }
 }
 
-- 
2.43.0


From f2356ef04e215e4baec9ff948db3456888610cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 22/91] fix: compare string arrays with 64-bit offsets to a
 constant

---
 vortex-array/src/array/varbin/compute/compare.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vortex-array/src/array/varbin/compute/compare.rs b/vortex-array/src/array/varbin/compute/compare.rs
index 5a4ad5a..76968f2 100644
--- a/vortex-array/src/array/varbin/compute/compare.rs
+++ b/vortex-array/src/array/varbin/compute/compare.rs
@@ -3,6 +3,7 @@ use std::sync::Arc;
 use arrow_array::cast::AsArray;
 use arrow_array::types::ByteArrayType;
 use arrow_array::{Array as ArrowArray, Datum, GenericByteArray};
+use arrow_cast::cast;
 use arrow_ord::cmp;
 use arrow_schema::DataType;
 use vortex_error::{vortex_bail, VortexResult};
@@ -32,6 +33,15 @@ fn compare_constant(
     let arrow_lhs = varbin_to_arrow(lhs)?;
     let constant = varbin_datum(rhs.owned_scalar())?;
 
+    // 64-bit offsets make a large array, and Arrow only compares it with a large scalar.
+    let constant = match arrow_lhs.data_type() {
+        large @ (DataType::LargeBinary | DataType::LargeUtf8) => {
+            let (value, _) = constant.get();
+            Arc::new(arrow_array::Scalar::new(cast(value, large)?)) as Arc<dyn Datum>
+        }
+        _ => constant,
+    };
+
     match arrow_lhs.data_type() {
         DataType::Binary => {
             compare_constant_arrow(arrow_lhs.as_binary::<i32>(), constant, operator)
-- 
2.43.0


From 6c13d0b2add356e3b0fdf961100a77d5b946ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 23/91] fix: iterate the set bits of a sliced bool array from
 its first bit

---
 vortex-array/src/array/bool/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/bool/mod.rs b/vortex-array/src/array/bool/mod.rs
index ea3c2c2..1965a43 100644
--- a/vortex-array/src/array/bool/mod.rs
+++ b/vortex-array/src/array/bool/mod.rs
@@ -97,11 +97,19 @@ impl ArrayVariants for BoolArray {
 
 impl BoolArrayTrait for BoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        Box::new(BitIndexIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitIndexIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        Box::new(BitSliceIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitSliceIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 }
 
-- 
2.43.0


From 1eedd507e4bb2084fe41a5b6175e3f6ec03cbbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 24/91] fix: compare a primitive array with a null constant

---
 vortex-array/src/array/primitive/compute/compare.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vortex-array/src/array/primitive/compute/compare.rs b/vortex-array/src/array/primitive/compute/compare.rs
index 694dbe3..e6c947c 100644
--- a/vortex-array/src/array/primitive/compute/compare.rs
+++ b/vortex-array/src/array/primitive/compute/compare.rs
@@ -7,6 +7,7 @@ use vortex_scalar::PrimitiveScalar;
 use crate::array::primitive::PrimitiveArray;
 use crate::array::{BoolArray, ConstantArray};
 use crate::compute::{MaybeCompareFn, Operator};
+use crate::validity::Validity;
 use crate::{Array, ArrayDType, IntoArray};
 
 impl MaybeCompareFn for PrimitiveArray {
@@ -44,6 +45,11 @@ fn primitive_const_compare(
     let primitive_scalar = PrimitiveScalar::try_new(other.dtype(), other.scalar_value())
         .vortex_expect("Expected a primitive scalar");
 
+    if other.scalar_value().is_null() {
+        let unset = BooleanBuffer::new_unset(this.len());
+        return Ok(BoolArray::try_new(unset, Validity::AllInvalid)?.into_array());
+    }
+
     let buffer = match_each_native_ptype!(this.ptype(), |$T| {
         let typed_value = primitive_scalar.typed_value::<$T>()
             .ok_or_else(|| vortex_err!("Type mismatch between array and constant"))?;
-- 
2.43.0


From 2d0707789b0939570980468683f16435eecfebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 25/91] fix: comparing an FSST array with a null constant gives
 booleans

---
 encodings/fsst/src/compute.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index e2793bd..56ee5dd 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -6,7 +6,7 @@ use vortex::compute::{
 };
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
-use vortex_dtype::DType;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -82,7 +82,8 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(right.clone().into_array())
+            let null = Scalar::null(DType::Bool(Nullability::Nullable));
+            Ok(ConstantArray::new(null, left.len()).into_array())
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From 1b41f1bb6d03f4152256f9b90a1bbdf3e3e1806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 26/91] fix: keep filtering after a batch in which no row
 passes

---
 vortex-serde/src/layouts/read/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..b554a9b 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -142,7 +142,8 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
 
                     if let Some(mask) = self.cached_mask.take() {
                         if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                            // No row of this batch passes: filter the next one as well.
+                            self.state = StreamingState::FilterInit;
                             continue;
                         }
 
-- 
2.43.0


From 4a93b2d7951eb9604a9e02607a89e09899c86fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 27/91] fix: a row filter does not take an unknown true count
 for zero

---
 vortex-serde/src/layouts/read/filtering.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..796c7e7 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,7 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
-- 
2.43.0


From 071695280d6f28a2ab4e2d501ff9a8f69784a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 28/91] fix: resolve the field indices of a row filter against
 the whole file

---
 vortex-serde/src/layouts/read/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..9d6fa15 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::VortexResult;
 use vortex_schema::projection::Projection;
 
@@ -81,7 +82,15 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             .row_filter
             .as_ref()
             .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+            .map(|fields| {
+                // A field index counts from the first column of the file, and without any field
+                // the number of rows is still needed.
+                if fields.is_empty() || fields.iter().any(|f| matches!(f, Field::Index(_))) {
+                    Projection::All
+                } else {
+                    Projection::from(fields)
+                }
+            });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0


From f5860fa854ff506843f1cd8ff6c469431e83c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 29/91] fix: flush a finished file before handing back its
 writer

---
 vortex-serde/src/layouts/write/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 58374d3..174451b 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -189,6 +189,7 @@ impl<W: VortexWrite> LayoutWriter<W> {
         eof[0..2].copy_from_slice(&VERSION.to_le_bytes());
         eof[4..8].copy_from_slice(&MAGIC_BYTES);
         w.write_all(eof).await?;
+        w.flush().await?;
         Ok(w)
     }
 }
-- 
2.43.0


From b7bddab618d91deb794b9fc7e5f81aba9be52563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 30/91] fix: a file scan ends after it reports an error

---
 vortex-serde/src/layouts/read/stream.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index b554a9b..9c19aa9 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -89,6 +89,17 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
     type Item = VortexResult<Array>;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        let batch = ready!(self.poll_batch(cx));
+        if matches!(batch, Some(Err(_))) {
+            // Whatever was half done is lost: what follows an error would not be the table.
+            self.state = StreamingState::Error;
+        }
+        Poll::Ready(batch)
+    }
+}
+
+impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
+    fn poll_batch(&mut self, cx: &mut Context<'_>) -> Poll<Option<VortexResult<Array>>> {
         loop {
             match &mut self.state {
                 StreamingState::Init => {
-- 
2.43.0


From 9dece0cbcdf74676681993d0133db02352b4508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 31/91] fix: and/or of a constant with any encoding of booleans

---
 vortex-array/src/array/constant/compute.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index b9a462d..8a7376a 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -1,17 +1,18 @@
 use std::cmp::Ordering;
 
 use vortex_dtype::Nullability;
-use vortex_error::{vortex_bail, vortex_err, VortexExpect, VortexResult};
+use vortex_error::{vortex_err, VortexExpect, VortexResult};
 use vortex_scalar::Scalar;
 
 use crate::array::constant::ConstantArray;
+use crate::array::BoolArray;
 use crate::compute::unary::{scalar_at, ScalarAtFn};
 use crate::compute::{
     scalar_cmp, AndFn, ArrayCompute, FilterFn, MaybeCompareFn, Operator, OrFn, SearchResult,
     SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl ArrayCompute for ConstantArray {
     fn compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
@@ -127,7 +128,7 @@ impl AndFn for ConstantArray {
             self,
             array,
             |(l, r)| l & r,
-            |other, this| other.with_dyn(|other| other.and().map(|other| other.and(this))),
+            AndFn::and,
         )
     }
 }
@@ -138,7 +139,7 @@ impl OrFn for ConstantArray {
             self,
             array,
             |(l, r)| l | r,
-            |other, this| other.with_dyn(|other| other.or().map(|other| other.or(this))),
+            OrFn::or,
         )
     }
 }
@@ -147,7 +148,7 @@ fn constant_array_bool_impl(
     constant_array: &ConstantArray,
     other: &Array,
     bool_op: impl Fn((bool, bool)) -> bool,
-    fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
+    fallback_fn: impl Fn(&BoolArray, &Array) -> VortexResult<Array>,
 ) -> VortexResult<Array> {
     // If the right side is constant
     if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
@@ -161,11 +162,8 @@ fn constant_array_bool_impl(
 
         Ok(ConstantArray::new(scalar, constant_array.len()).into_array())
     } else {
-        // try and use a the rhs specialized implementation if it exists
-        match fallback_fn(other, constant_array.as_ref()) {
-            Some(r) => r,
-            None => vortex_bail!("Operation is not supported"),
-        }
+        // Not every encoding knows the operation, but they all expand into a bool array, which does
+        fallback_fn(&other.clone().into_bool()?, constant_array.as_ref())
     }
 }
 
-- 
2.43.0


From c0d998da881b543137061fd6c2475d65b0597149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 32/91] fix: equality of constants does not depend on their
 nullability

---
 vortex-array/src/compute/compare.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..8d48d2a 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -128,8 +128,9 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
         let b = match operator {
-            Operator::Eq => lhs == rhs,
-            Operator::NotEq => lhs != rhs,
+            // As for arrays, values of the same type are equal whether or not they may be null.
+            Operator::Eq => lhs.value() == rhs.value(),
+            Operator::NotEq => lhs.value() != rhs.value(),
             Operator::Gt => lhs > rhs,
             Operator::Gte => lhs >= rhs,
             Operator::Lt => lhs < rhs,
-- 
2.43.0


From 2fb8d3b4e507273c5e8f9a2b3b9b5d115dab95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 33/91] fix: take from a byte bool array keeps its nullability

---
 encodings/bytebool/src/compute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..b408785 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -65,7 +65,7 @@ impl TakeFn for ByteBoolArray {
                     .collect::<Vec<_>>()
                 });
 
-                Self::from(bools).into_array()
+                Self::try_from_vec(bools, validity)?.into_array()
             }
             Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
 
-- 
2.43.0


From b55adfa4254832f5a96490528bdcb2c97467b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 34/91] fix: take from a run-end bool array keeps its nulls

---
 encodings/runend-bool/src/compute.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index 05848d3..67a0bc4 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -59,11 +59,12 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::from_vec(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
                 .collect::<Vec<_>>(),
+            self.validity().take(indices)?,
         )
         .to_array())
     }
-- 
2.43.0


From 5e9c9127a4c8d3e4d12911370dcff166ed2942d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 35/91] fix: scalars of a run-end bool array have its
 nullability

---
 encodings/runend-bool/src/compute.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index 67a0bc4..418b816 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,7 @@
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +26,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
-- 
2.43.0


From f5fca81b66c096a95a66d29840b56af62807dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 36/91] fix: filter an extension array through its storage

---
 vortex-array/src/array/extension/compute.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/extension/compute.rs b/vortex-array/src/array/extension/compute.rs
index 97c9710..7eee232 100644
--- a/vortex-array/src/array/extension/compute.rs
+++ b/vortex-array/src/array/extension/compute.rs
@@ -5,7 +5,7 @@ use crate::array::extension::ExtensionArray;
 use crate::array::ConstantArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, CastFn, ScalarAtFn};
 use crate::compute::{
-    compare, slice, take, ArrayCompute, MaybeCompareFn, Operator, SliceFn, TakeFn,
+    compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
 use crate::variants::ExtensionArrayTrait;
 use crate::{Array, ArrayDType, IntoArray};
@@ -22,6 +22,10 @@ impl ArrayCompute for ExtensionArray {
         MaybeCompareFn::maybe_compare(self, other, operator)
     }
 
+    fn filter(&self) -> Option<&dyn FilterFn> {
+        Some(self)
+    }
+
     fn scalar_at(&self) -> Option<&dyn ScalarAtFn> {
         Some(self)
     }
@@ -56,6 +60,12 @@ impl MaybeCompareFn for ExtensionArray {
     }
 }
 
+impl FilterFn for ExtensionArray {
+    fn filter(&self, predicate: &Array) -> VortexResult<Array> {
+        Ok(Self::new(self.ext_dtype().clone(), filter(self.storage(), predicate)?).into_array())
+    }
+}
+
 impl ScalarAtFn for ExtensionArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         Ok(Scalar::extension(
-- 
2.43.0


From 54b74a71252d5ddcd741968250bff99b5ad2d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 37/91] fix: filter any encoding of an extension array without
 going through Arrow

---
 vortex-array/src/compute/filter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/compute/filter.rs b/vortex-array/src/compute/filter.rs
index a322fb1..fd11c2e 100644
--- a/vortex-array/src/compute/filter.rs
+++ b/vortex-array/src/compute/filter.rs
@@ -3,7 +3,7 @@ use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, IntoCanonical};
+use crate::{Array, ArrayDType, Canonical, IntoCanonical};
 
 pub trait FilterFn {
     /// Filter an array by the provided predicate.
@@ -42,8 +42,13 @@ pub fn filter(array: impl AsRef<Array>, predicate: impl AsRef<Array>) -> VortexR
         if let Some(filter_fn) = a.filter() {
             filter_fn.filter(predicate)
         } else {
-            // Fallback: implement using Arrow kernels.
-            let array_ref = array.clone().into_canonical()?.into_arrow()?;
+            // Fallback: implement using Arrow kernels, unless the canonical array has its own
+            // implementation. Arrow does not know every extension type.
+            let canonical = array.clone().into_canonical()?;
+            if let Canonical::Extension(extension) = &canonical {
+                return FilterFn::filter(extension, predicate);
+            }
+            let array_ref = canonical.into_arrow()?;
             let predicate_ref = predicate.clone().into_canonical()?.into_arrow()?;
             let filtered =
                 arrow_select::filter::filter(array_ref.as_ref(), predicate_ref.as_boolean())?;
-- 
2.43.0


From bbc4adde34a566ee207a88cc1c3b0b75c2e66300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 38/91] fix: combine validities of any encoding

---
 vortex-array/src/validity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 5389a5d..03bfbde 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -198,8 +198,8 @@ impl Validity {
             | (Validity::AllValid, Validity::AllValid) => Validity::AllValid,
             // Here we actually have to do some work
             (Validity::Array(lhs), Validity::Array(rhs)) => {
-                let lhs = BoolArray::try_from(lhs)?;
-                let rhs = BoolArray::try_from(rhs)?;
+                let lhs = lhs.clone().into_bool()?;
+                let rhs = rhs.clone().into_bool()?;
 
                 let lhs = lhs.boolean_buffer();
                 let rhs = rhs.boolean_buffer();
-- 
2.43.0


From 2ca4acb18cee472175706eb4d9f30dc9e2e328b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 39/91] fix: compare constants that were read back from their
 serialized form

---
 vortex-array/src/compute/compare.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index 8d48d2a..b0c63ad 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -2,9 +2,9 @@ use core::fmt;
 use std::fmt::{Display, Formatter};
 
 use arrow_ord::cmp;
-use vortex_dtype::{DType, Nullability};
+use vortex_dtype::{match_each_native_ptype, DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
-use vortex_scalar::Scalar;
+use vortex_scalar::{Scalar, ScalarValue};
 
 use crate::array::Constant;
 use crate::arrow::FromArrowArray;
@@ -127,10 +127,11 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
     if lhs.is_null() | rhs.is_null() {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
+        // As for arrays, values of the same type are equal whether or not they may be null.
+        let (lhs, rhs) = (comparable_value(lhs), comparable_value(rhs));
         let b = match operator {
-            // As for arrays, values of the same type are equal whether or not they may be null.
-            Operator::Eq => lhs.value() == rhs.value(),
-            Operator::NotEq => lhs.value() != rhs.value(),
+            Operator::Eq => lhs == rhs,
+            Operator::NotEq => lhs != rhs,
             Operator::Gt => lhs > rhs,
             Operator::Gte => lhs >= rhs,
             Operator::Lt => lhs < rhs,
@@ -141,6 +142,24 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
     }
 }
 
+/// The value of a scalar in the representation that goes with its type: a serialized integer may
+/// come back as e.g. any other integer type.
+fn comparable_value(scalar: &Scalar) -> ScalarValue {
+    match (scalar.dtype(), scalar.value()) {
+        (DType::Primitive(ptype, _), ScalarValue::Primitive(_)) => {
+            match_each_native_ptype!(ptype, |$T| {
+                <$T>::try_from(scalar).map(ScalarValue::from)
+            })
+            .unwrap_or_else(|_| scalar.value().clone())
+        }
+        (DType::Extension(..), ScalarValue::Primitive(pvalue)) => pvalue
+            .as_primitive::<i64>()
+            .ok()
+            .map_or_else(|| scalar.value().clone(), ScalarValue::from),
+        (_, value) => value.clone(),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use itertools::Itertools;
-- 
2.43.0


From afb869ac360246b07dbcc4c42c3f635fd4d52c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 40/91] fix: compare any encoding of an extension array with a
 constant

---
 vortex-array/src/compute/compare.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index b0c63ad..3eac27c 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -8,7 +8,7 @@ use vortex_scalar::{Scalar, ScalarValue};
 
 use crate::array::Constant;
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, ArrayDef, IntoCanonical};
+use crate::{Array, ArrayDType, ArrayDef, Canonical, IntoCanonical};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd)]
 pub enum Operator {
@@ -107,8 +107,14 @@ pub fn compare(
         return selection;
     }
 
-    // Fallback to arrow on canonical types
-    let lhs = left.clone().into_canonical()?.into_arrow()?;
+    // Fallback to arrow on canonical types, except that extension arrays compare their storage
+    let lhs = left.clone().into_canonical()?;
+    if let Canonical::Extension(extension) = &lhs {
+        if let Some(selection) = extension.maybe_compare(right, operator) {
+            return selection;
+        }
+    }
+    let lhs = lhs.into_arrow()?;
     let rhs = right.clone().into_canonical()?.into_arrow()?;
 
     let array = match operator {
-- 
2.43.0


From d39d6dd6f9d8f8a0f9537b161d47dcf781b7b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 41/91] fix: compare an f64 ALP array with a constant
 serialized as f32

---
 encodings/alp/src/alp/compute.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index 5a4e051..e57ac89 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -7,7 +7,7 @@ use vortex::stats::{ArrayStatistics, Stat};
 use vortex::validity::Validity;
 use vortex::{Array, ArrayDType, IntoArray};
 use vortex_error::{VortexExpect, VortexResult};
-use vortex_scalar::{PValue, Scalar};
+use vortex_scalar::{PrimitiveScalar, Scalar};
 
 use crate::{match_each_alp_float_ptype, ALPArray, ALPFloat};
 
@@ -104,21 +104,19 @@ impl MaybeCompareFn for ALPArray {
                 return None;
             }
             let rhs = scalar_at(array, 0).vortex_expect("should be scalar");
-            let pvalue = rhs
-                .value()
-                .as_pvalue()
-                .vortex_expect("Expected primitive value");
-
-            match pvalue {
-                Some(PValue::F32(f)) => alp_constant_compare(self, f, operator),
-                Some(PValue::F64(f)) => alp_constant_compare(self, f, operator),
-                Some(_) => None,
-                None => Some(Ok(BoolArray::from_vec(
-                    vec![false; self.len()],
-                    Validity::AllInvalid,
-                )
-                .into_array())),
-            }
+            // The scalar knows its type: its serialized value may have come back as a narrower one.
+            let rhs = PrimitiveScalar::try_from(&rhs).vortex_expect("Expected primitive value");
+
+            match_each_alp_float_ptype!(rhs.ptype(), |$T| {
+                match rhs.typed_value::<$T>() {
+                    Some(f) => alp_constant_compare(self, f, operator),
+                    None => Some(Ok(BoolArray::from_vec(
+                        vec![false; self.len()],
+                        Validity::AllInvalid,
+                    )
+                    .into_array())),
+                }
+            })
         } else {
             None
         }
-- 
2.43.0


From 40b45f2b5e8446c8a3cc3fa6e616ebe1f2b062f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 42/91] fix: take of many patched bit-packed values puts each
 patch in its place

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 104 +++---------------
 1 file changed, 18 insertions(+), 86 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..0894d06 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -1,9 +1,7 @@
-use std::cmp::min;
-
 use fastlanes::BitPacking;
 use itertools::Itertools;
 use vortex::array::{PrimitiveArray, SparseArray};
-use vortex::compute::{slice, take, TakeFn};
+use vortex::compute::{take, TakeFn};
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 use vortex_dtype::{
     match_each_integer_ptype, match_each_unsigned_integer_ptype, NativePType, PType,
@@ -16,7 +14,6 @@ use crate::{unpack_single_primitive, BitPackedArray};
 // all 1024 elements takes ~8.8x as long as unpacking a single element on an M2 Macbook Air.
 // see https://github.com/spiraldb/vortex/pull/190#issue-2223752833
 const UNPACK_CHUNK_THRESHOLD: usize = 8;
-const BULK_PATCH_THRESHOLD: usize = 64;
 
 impl TakeFn for BitPackedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
@@ -71,9 +68,7 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     let mut output = Vec::with_capacity(indices.len());
     let mut unpacked = [T::zero(); 1024];
 
-    let mut batch_count = 0_usize;
     for (chunk, offsets) in chunked_indices {
-        batch_count += 1;
         let chunk_size = 128 * bit_width / size_of::<T>();
         let packed_chunk = &packed[chunk * chunk_size..][..chunk_size];
 
@@ -118,96 +113,33 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     }
 
     if let Some(ref patches) = patches {
-        patch_for_take_primitive::<T, I>(patches, indices, offset, batch_count, &mut output)?;
+        patch_for_take_primitive::<T>(patches, indices, &mut output)?;
     }
 
     Ok(output)
 }
 
-fn patch_for_take_primitive<T: NativePType, I: NativePType>(
+/// Overwrite the values that are patched. The position of a patch in the output follows from the
+/// position of its index, so all the patches are taken at once.
+fn patch_for_take_primitive<T: NativePType>(
     patches: &SparseArray,
     indices: &PrimitiveArray,
-    offset: usize,
-    batch_count: usize,
     output: &mut [T],
 ) -> VortexResult<()> {
-    #[inline]
-    fn inner_patch<T: NativePType>(
-        patches: &SparseArray,
-        indices: &PrimitiveArray,
-        output: &mut [T],
-    ) -> VortexResult<()> {
-        let taken_patches = take(patches.as_ref(), indices.as_ref())?;
-        let taken_patches = SparseArray::try_from(taken_patches)?;
-
-        let base_index = output.len() - indices.len();
-        let output_patches = taken_patches
-            .values()
-            .into_primitive()?
-            .reinterpret_cast(T::PTYPE);
-        taken_patches
-            .resolved_indices()
-            .iter()
-            .map(|idx| base_index + *idx)
-            .zip_eq(output_patches.maybe_null_slice::<T>())
-            .for_each(|(idx, val)| {
-                output[idx] = *val;
-            });
-
-        Ok(())
-    }
-
-    // if we have a small number of relatively large batches, we gain by slicing and then patching inside the loop
-    // if we have a large number of relatively small batches, the overhead isn't worth it, and we're better off with a bulk patch
-    // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
-    let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
-    if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
-    }
-
-    let min_index = patches.min_index().unwrap_or_default();
-    let max_index = patches.max_index().unwrap_or_default();
-
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
-    let chunked_indices = &indices
-        .maybe_null_slice::<I>()
+    let taken_patches = take(patches.as_ref(), indices.as_ref())?;
+    let taken_patches = SparseArray::try_from(taken_patches)?;
+
+    let output_patches = taken_patches
+        .values()
+        .into_primitive()?
+        .reinterpret_cast(T::PTYPE);
+    taken_patches
+        .resolved_indices()
         .iter()
-        .map(|i| {
-            i.to_usize()
-                .vortex_expect("index must be expressible as usize")
-                + offset
-        })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
-
-    for (chunk, offsets) in chunked_indices {
-        // NOTE: we need to subtract the array offset before slicing into the patches.
-        // This is because BitPackedArray is rounded to block boundaries, but patches
-        // is sliced exactly.
-        let patches_start = if chunk == 0 {
-            0
-        } else {
-            (chunk * 1024) - offset
-        };
-        let patches_end = min((chunk + 1) * 1024 - offset, patches.len());
-        let patches_slice = slice(patches.as_ref(), patches_start, patches_end)?;
-        let patches_slice = SparseArray::try_from(patches_slice)?;
-        if patches_slice.is_empty() {
-            continue;
-        }
-
-        let min_index = patches_slice.min_index().unwrap_or_default();
-        let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
-        if offsets.is_empty() {
-            continue;
-        }
-
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
-    }
+        .zip_eq(output_patches.maybe_null_slice::<T>())
+        .for_each(|(idx, val)| {
+            output[*idx] = *val;
+        });
 
     Ok(())
 }
-- 
2.43.0


From b77cc28013e5482ac750637fc1ad02ec12213dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 43/91] fix: compare FSST strings with a constant by value, not
 by rebuilt codes

---
 encodings/fsst/src/compute.rs | 53 ++++++++---------------------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index 56ee5dd..7c9aa3e 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -1,10 +1,9 @@
-use fsst::Symbol;
 use vortex::array::{varbin_scalar, ConstantArray};
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
     compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
-use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
+use vortex::{Array, ArrayDType, IntoArray, IntoCanonical};
 use vortex_buffer::Buffer;
 use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
@@ -54,47 +53,19 @@ fn compare_fsst_constant(
     right: &ConstantArray,
     equal: bool,
 ) -> VortexResult<Array> {
-    let symbols = left.symbols().into_primitive()?;
-    let symbols_u64 = symbols.maybe_null_slice::<u64>();
-
-    let symbol_lens = left.symbol_lengths().into_primitive()?;
-    let symbol_lens_u8 = symbol_lens.maybe_null_slice::<u8>();
-
-    let mut compressor = fsst::CompressorBuilder::new();
-    for (symbol, symbol_len) in symbols_u64.iter().zip(symbol_lens_u8.iter()) {
-        compressor.insert(Symbol::from_slice(&symbol.to_le_bytes()), *symbol_len as _);
+    if right.scalar_value().is_null() {
+        // Eq and NotEq on null values yield nulls, per the Arrow behavior.
+        let null = Scalar::null(DType::Bool(Nullability::Nullable));
+        return Ok(ConstantArray::new(null, left.len()).into_array());
     }
-    let compressor = compressor.build();
-
-    let encoded_scalar = match left.dtype() {
-        DType::Utf8(_) => right
-            .scalar_value()
-            .as_buffer_string()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_bytes()))),
-        DType::Binary(_) => right
-            .scalar_value()
-            .as_buffer()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_slice()))),
-
-        _ => unreachable!("FSSTArray can only have string or binary data type"),
-    };
 
-    match encoded_scalar {
-        None => {
-            // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            let null = Scalar::null(DType::Bool(Nullability::Nullable));
-            Ok(ConstantArray::new(null, left.len()).into_array())
-        }
-        Some(encoded_scalar) => {
-            let rhs = ConstantArray::new(encoded_scalar, left.len());
-
-            compare(
-                left.codes(),
-                rhs,
-                if equal { Operator::Eq } else { Operator::NotEq },
-            )
-        }
-    }
+    // The constant cannot be compared in its compressed form: a compressor rebuilt from the
+    // symbol table numbers the symbols anew, so the same string may have other codes.
+    compare(
+        Array::from(left.clone().into_canonical()?),
+        right,
+        if equal { Operator::Eq } else { Operator::NotEq },
+    )
 }
 
 impl SliceFn for FSSTArray {
-- 
2.43.0


From 389f6d2a79357074eca6fed0deecd579ee977ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 44/91] fix: floats of both zero signs are not constant

---
 vortex-array/src/array/primitive/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index ac7aadf..d5eae99 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -207,7 +207,7 @@ impl<T: PStatsType> StatsAccumulator<T> {
     }
 
     pub fn finish(self) -> StatsSet {
-        let is_constant = (self.min == self.max && self.null_count == 0 && self.nan_count == 0)
+        let is_constant = (self.min.is_eq(self.max) && self.null_count == 0 && self.nan_count == 0)
             || self.null_count == self.len;
 
         StatsSet::from(HashMap::from([
-- 
2.43.0


From 38d8ce7ca64e0dff597e6cd7d158014909afb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 45/91] fix: values of an empty primitive array read from a
 stream

---
 vortex-array/src/array/primitive/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index 298260a..b0ae42a 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -124,6 +124,10 @@ impl PrimitiveArray {
 
         let raw_slice = self.buffer().as_slice();
         let typed_len = raw_slice.len() / size_of::<T>();
+        if typed_len == 0 {
+            // An empty buffer may point anywhere, aligned or not
+            return &[];
+        }
         // SAFETY: alignment of Buffer is checked on construction
         unsafe { std::slice::from_raw_parts(raw_slice.as_ptr().cast(), typed_len) }
     }
-- 
2.43.0


From 808471367388f60c6d4b42585ecb6cb73b3749ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 46/91] fix: values of an empty bit-packed array read from a
 stream

---
 encodings/fastlanes/src/bitpacking/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encodings/fastlanes/src/bitpacking/mod.rs b/encodings/fastlanes/src/bitpacking/mod.rs
index a16b234..1fe1897 100644
--- a/encodings/fastlanes/src/bitpacking/mod.rs
+++ b/encodings/fastlanes/src/bitpacking/mod.rs
@@ -143,6 +143,10 @@ impl BitPackedArray {
         let packed_ptr: *const T = packed_bytes.as_ptr().cast();
         // Return number of elements of type `T` packed in the buffer
         let packed_len = packed_bytes.len() / size_of::<T>();
+        if packed_len == 0 {
+            // An empty buffer may point anywhere, aligned or not
+            return &[];
+        }
 
         // SAFETY: maybe_null_slice points to buffer memory that outlives the lifetime of `self`.
         //  Unfortunately Rust cannot understand this, so we reconstruct the slice from raw parts
-- 
2.43.0


From 7360d350cc353db4baf5d17aa9dfeedd6227b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 47/91] fix: take rows from a stream by indices of any integer
 type and encoding

---
 vortex-array/src/stream/take_rows.rs | 42 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index 2562b53..25d5119 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -3,15 +3,17 @@ use std::task::{Context, Poll};
 
 use futures_util::{ready, Stream};
 use pin_project::pin_project;
-use vortex_dtype::match_each_integer_ptype;
+use vortex_dtype::PType;
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::compute::unary::subtract_scalar;
+use crate::array::PrimitiveArray;
+use crate::compute::unary::{subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
-use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
+use crate::validity::Validity;
+use crate::{Array, ArrayDType, IntoArrayVariant};
 
 #[pin_project]
 pub struct TakeRows<R: ArrayStream> {
@@ -23,7 +25,16 @@ pub struct TakeRows<R: ArrayStream> {
 
 impl<R: ArrayStream> TakeRows<R> {
     pub fn try_new(reader: R, indices: Array) -> VortexResult<Self> {
-        if !indices.is_empty() {
+        if !indices.is_empty() && !indices.dtype().is_int() {
+            vortex_bail!("Indices must be integers")
+        }
+
+        let indices = if indices.is_empty() {
+            indices
+        } else {
+            // Not every encoding knows the statistics and the arithmetic that follow.
+            let indices = indices.into_primitive()?;
+
             if !indices.statistics().compute_is_sorted().unwrap_or(false) {
                 vortex_bail!("Indices must be sorted to take from IPC stream")
             }
@@ -37,10 +48,6 @@ impl<R: ArrayStream> TakeRows<R> {
                 vortex_bail!("Indices must not contain nulls")
             }
 
-            if !indices.dtype().is_int() {
-                vortex_bail!("Indices must be integers")
-            }
-
             if indices.dtype().is_signed_int()
                 && indices
                     .statistics()
@@ -50,7 +57,17 @@ impl<R: ArrayStream> TakeRows<R> {
             {
                 vortex_bail!("Indices must be positive")
             }
-        }
+
+            // Row offsets need not fit into the type of the indices.
+            try_cast(
+                PrimitiveArray::new(
+                    indices.buffer().clone(),
+                    indices.ptype(),
+                    Validity::NonNullable,
+                ),
+                PType::U64.into(),
+            )?
+        };
 
         Ok(Self {
             reader,
@@ -88,10 +105,9 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
 
             // TODO(ngates): this is probably too heavy to run on the event loop. We should spawn
             //  onto a worker pool.
-            let indices_for_batch = slice(this.indices, left, right)?.into_primitive()?;
-            let shifted_arr = match_each_integer_ptype!(indices_for_batch.ptype(), |$T| {
-                subtract_scalar(&indices_for_batch.into_array(), &Scalar::from(curr_offset as $T))?
-            });
+            let indices_for_batch = slice(this.indices, left, right)?;
+            let shifted_arr =
+                subtract_scalar(&indices_for_batch, &Scalar::from(curr_offset as u64))?;
             return Poll::Ready(take(&batch, &shifted_arr).map(Some).transpose());
         }
 
-- 
2.43.0


From 5db63a51bdeaa4cb5a33f0d77a8949a4b51fa4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 48/91] fix: take rows of a chunked reader by no indices, or by
 any integer type and encoding

---
 vortex-serde/src/chunked_reader/take_rows.rs | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index eafc887..8a51c84 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -9,6 +9,7 @@ use vortex::compute::unary::{subtract_scalar, try_cast};
 use vortex::compute::{search_sorted, slice, take, SearchSortedSide};
 use vortex::stats::ArrayStatistics;
 use vortex::stream::{ArrayStream, ArrayStreamExt};
+use vortex::validity::Validity;
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::PType;
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
@@ -20,14 +21,33 @@ use crate::stream_reader::StreamArrayReader;
 
 impl<R: VortexReadAt> ChunkedArrayReader<R> {
     pub async fn take_rows(&mut self, indices: &Array) -> VortexResult<Array> {
+        if indices.is_empty() {
+            return Ok(ChunkedArray::try_new(vec![], (*self.dtype).clone())?.into_array());
+        }
+
+        // Not every encoding knows the statistics and the arithmetic that follow.
+        let indices = indices.clone().into_primitive()?;
+        if indices.statistics().compute_null_count() != Some(0) {
+            vortex_bail!("Indices must not contain nulls")
+        }
+
         // Figure out if the row indices are sorted / unique. If not, we need to sort them.
         if indices
             .statistics()
             .compute_is_strict_sorted()
             .unwrap_or(false)
         {
+            // Row offsets need not fit into the type of the indices.
+            let indices = try_cast(
+                PrimitiveArray::new(
+                    indices.buffer().clone(),
+                    indices.ptype(),
+                    Validity::NonNullable,
+                ),
+                PType::U64.into(),
+            )?;
             // With strict-sorted indices, we can take the rows directly.
-            return self.take_rows_strict_sorted(indices).await;
+            return self.take_rows_strict_sorted(&indices).await;
         }
 
         //         // Figure out which chunks are relevant to the read operation using the row_offsets array.
-- 
2.43.0


From 1b98982e02108eb0a3c265ffa07c73e9f7cafb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 49/91] fix: an empty, cut or failed message stream ends or
 errors instead of panicking

---
 vortex-serde/src/message_reader.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..c10e79d 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -30,13 +30,14 @@ impl<R: VortexRead> MessageReader<R> {
             prev_message: BytesMut::new(),
             finished: false,
         };
-        reader.load_next_message().await?;
+        reader.finished = !reader.load_next_message().await?;
         Ok(reader)
     }
 
     async fn load_next_message(&mut self) -> VortexResult<bool> {
+        // The stream may end here, but not once the length of the message has begun.
         let mut buffer = std::mem::take(&mut self.message);
-        buffer.resize(FLATBUFFER_SIZE_LENGTH, 0);
+        buffer.resize(1, 0);
         let mut buffer = match self.read.read_into(buffer).await {
             Ok(b) => b,
             Err(e) => {
@@ -46,8 +47,13 @@ impl<R: VortexRead> MessageReader<R> {
                 };
             }
         };
+        let mut len = [0u8; FLATBUFFER_SIZE_LENGTH];
+        len[0] = buffer[0];
+        buffer.resize(FLATBUFFER_SIZE_LENGTH - 1, 0);
+        let mut buffer = self.read.read_into(buffer).await?;
+        len[1..].copy_from_slice(&buffer);
 
-        let len = buffer.get_u32_le();
+        let len = u32::from_le_bytes(len);
         if len == u32::MAX {
             // Marker for no more messages.
             return Ok(false);
@@ -80,12 +86,19 @@ impl<R: VortexRead> MessageReader<R> {
             vortex_bail!("Reader is finished, should've peeked!")
         }
         self.prev_message = self.message.split();
-        if !self.load_next_message().await? {
-            self.finished = true;
-        }
+        // A reader that fails has nothing more to say
+        self.finished = true;
+        self.finished = !self.load_next_message().await?;
         Ok(Buffer::from(self.prev_message.clone().freeze()))
     }
 
+    /// Reads what follows a message. If that fails the position in the stream is lost.
+    async fn read_body(&mut self, buffer: BytesMut) -> VortexResult<BytesMut> {
+        let body = self.read.read_into(buffer).await;
+        self.finished = self.finished || body.is_err();
+        Ok(body?)
+    }
+
     pub async fn read_dtype(&mut self) -> VortexResult<DType> {
         if self.peek().and_then(|m| m.header_as_schema()).is_none() {
             vortex_bail!("Expected schema message")
@@ -121,7 +134,7 @@ impl<R: VortexRead> MessageReader<R> {
         // Issue a single read to grab all buffers
         let mut all_buffers = BytesMut::with_capacity(all_buffers_size);
         unsafe { all_buffers.set_len(all_buffers_size) };
-        let all_buffers = self.read.read_into(all_buffers).await?;
+        let all_buffers = self.read_body(all_buffers).await?;
 
         if array_reader.read(all_buffers.freeze())?.is_some() {
             unreachable!("This is an implementation bug")
@@ -197,7 +210,7 @@ impl<R: VortexRead> MessageReader<R> {
 
         let mut buffer = BytesMut::with_capacity(total_len);
         unsafe { buffer.set_len(total_len) }
-        buffer = self.read.read_into(buffer).await?;
+        buffer = self.read_body(buffer).await?;
         buffer.truncate(buffer_len);
         let page_buffer = Ok(Some(Buffer::from(buffer.freeze())));
         let _ = self.next().await?;
-- 
2.43.0


From 2de158ed00f5a960b0a674c00aea2425cecade9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 50/91] fix: a null minimum or maximum is an absent statistic,
 not a panic

---
 vortex-array/src/stats/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vortex-array/src/stats/mod.rs b/vortex-array/src/stats/mod.rs
index 2a02d10..306ea9c 100644
--- a/vortex-array/src/stats/mod.rs
+++ b/vortex-array/src/stats/mod.rs
@@ -108,6 +108,7 @@ impl dyn Statistics + '_ {
         stat: Stat,
     ) -> Option<U> {
         self.compute(stat)
+            .filter(|s| s.is_valid())
             .map(|s| U::try_from(&s))
             .transpose()
             .unwrap_or_else(|err| {
-- 
2.43.0


From 6854504e37a111015db74dba47764e6a70bf0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 51/91] fix: keep the time zone of timestamps on the way to and
 from Arrow

---
 vortex-array/src/arrow/array.rs |  3 ++-
 vortex-array/src/canonical.rs   | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..af26c18 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -85,7 +85,8 @@ where
             return arr.into();
         }
 
-        match T::DATA_TYPE {
+        // T::DATA_TYPE does not know the time zone
+        match value.data_type().clone() {
             DataType::Timestamp(time_unit, tz) => {
                 let tz = tz.clone().map(|s| s.to_string());
                 TemporalArray::new_timestamp(arr.into(), time_unit.into(), tz).into()
diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..c779d25 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -270,13 +270,22 @@ fn temporal_to_arrow(temporal_array: TemporalArray) -> VortexResult<ArrayRef> {
                 temporal_array.ext_dtype().id()
             ),
         },
-        TemporalMetadata::Timestamp(time_unit, _) => {
+        TemporalMetadata::Timestamp(time_unit, time_zone) => {
+            let time_zone = time_zone.as_deref();
             let (scalars, nulls) = extract_temporal_values!(&temporal_array.temporal_values(), i64);
             match time_unit {
-                TimeUnit::Ns => Arc::new(TimestampNanosecondArray::new(scalars, nulls)),
-                TimeUnit::Us => Arc::new(TimestampMicrosecondArray::new(scalars, nulls)),
-                TimeUnit::Ms => Arc::new(TimestampMillisecondArray::new(scalars, nulls)),
-                TimeUnit::S => Arc::new(TimestampSecondArray::new(scalars, nulls)),
+                TimeUnit::Ns => Arc::new(
+                    TimestampNanosecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
+                TimeUnit::Us => Arc::new(
+                    TimestampMicrosecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
+                TimeUnit::Ms => Arc::new(
+                    TimestampMillisecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
+                TimeUnit::S => Arc::new(
+                    TimestampSecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
                 _ => vortex_bail!(
                     "Invalid TimeUnit {time_unit} for {}",
                     temporal_array.ext_dtype().id()
-- 
2.43.0


From 0f198809e19678b7ae232c32e37da6c1da13a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 52/91] fix: decoding a non-nullable ALP-RD array keeps it
 non-nullable

---
 encodings/alp/src/alp_rd/array.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..73d6305 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -5,7 +5,7 @@ use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use vortex::array::{PrimitiveArray, SparseArray};
 use vortex::encoding::ids;
 use vortex::stats::{ArrayStatisticsCompute, StatsSet};
-use vortex::validity::{ArrayValidity, LogicalValidity};
+use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
 use vortex_dtype::{DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexExpect, VortexResult};
@@ -204,6 +204,10 @@ impl IntoCanonical for ALPRDArray {
             exc_u16 = PrimitiveArray::from(Vec::<u16>::new());
         }
 
+        let validity = match self.dtype().nullability() {
+            Nullability::NonNullable => Validity::NonNullable,
+            Nullability::Nullable => self.logical_validity().into_validity(),
+        };
         let decoded_array = if self.is_f32() {
             PrimitiveArray::from_vec(
                 alp_rd_decode::<f32>(
@@ -214,7 +218,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +230,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         };
 
-- 
2.43.0


From 1e651b0fc18c9830d8d6b6da97043f2e1d3e5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 53/91] fix: statistics of a dictionary array count only the
 entries in use

---
 encodings/dict/src/stats.rs | 47 ++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..2991c23 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,29 +1,42 @@
 use std::collections::HashMap;
 
+use vortex::array::BoolArray;
+use vortex::compute::filter;
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::validity::ArrayValidity;
+use vortex::{Array, IntoArray, IntoArrayVariant};
+use vortex_dtype::match_each_integer_ptype;
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
 use crate::DictArray;
 
 impl ArrayStatisticsCompute for DictArray {
-    fn compute_statistics(&self, _stat: Stat) -> VortexResult<StatsSet> {
+    fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         let mut stats: HashMap<Stat, Scalar> = HashMap::new();
 
         if let Some(rc) = self.codes().statistics().compute(Stat::RunCount) {
             stats.insert(Stat::RunCount, rc);
         }
-        if let Some(min) = self.values().statistics().compute(Stat::Min) {
-            stats.insert(Stat::Min, min);
-        }
-        if let Some(max) = self.values().statistics().compute(Stat::Max) {
-            stats.insert(Stat::Max, max);
+        // Slicing, taking and filtering keep the whole dictionary: only the entries still in use count
+        if matches!(stat, Stat::Min | Stat::Max) && !self.is_empty() {
+            let used = self.used_values()?;
+            if let Some(min) = used.statistics().compute(Stat::Min) {
+                stats.insert(Stat::Min, min);
+            }
+            if let Some(max) = used.statistics().compute(Stat::Max) {
+                stats.insert(Stat::Max, max);
+            }
         }
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
             stats.insert(Stat::IsConstant, is_constant);
         }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
+        if stat == Stat::NullCount {
+            let nulls = self.logical_validity().to_null_buffer()?;
+            stats.insert(
+                Stat::NullCount,
+                nulls.map_or(0, |n| n.null_count()).into(),
+            );
         }
 
         // if dictionary is sorted
@@ -47,3 +60,21 @@ impl ArrayStatisticsCompute for DictArray {
         Ok(StatsSet::from(stats))
     }
 }
+
+impl DictArray {
+    /// The dictionary entries that the codes refer to.
+    fn used_values(&self) -> VortexResult<Array> {
+        let values = self.values();
+        let mut used = vec![false; values.len()];
+        let codes = self.codes().into_primitive()?;
+        match_each_integer_ptype!(codes.ptype(), |$P| {
+            for code in codes.maybe_null_slice::<$P>() {
+                used[*code as usize] = true;
+            }
+        });
+        if used.iter().all(|u| *u) {
+            return Ok(values);
+        }
+        filter(values, BoolArray::from(used).into_array())
+    }
+}
-- 
2.43.0


From 68515e557882896a3851d01de1d21c71bffd671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 54/91] fix: bit frequencies of a roaring array are those of
 its own width

---
 encodings/roaring/src/integer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encodings/roaring/src/integer/mod.rs b/encodings/roaring/src/integer/mod.rs
index f504c24..9b02e9b 100644
--- a/encodings/roaring/src/integer/mod.rs
+++ b/encodings/roaring/src/integer/mod.rs
@@ -135,8 +135,8 @@ impl ArrayStatisticsCompute for RoaringIntArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         // possibly faster to write an accumulator over the iterator, though not necessarily
         if stat == Stat::TrailingZeroFreq || stat == Stat::BitWidthFreq || stat == Stat::RunCount {
-            let primitive =
-                PrimitiveArray::from_vec(self.owned_bitmap().to_vec(), Validity::NonNullable);
+            // The frequencies depend on the width of the values
+            let primitive: Array = self.clone().into_canonical()?.into();
             primitive.statistics().compute(stat);
             Ok(primitive.statistics().to_set())
         } else {
-- 
2.43.0


From a0c19e980404dfaae2421035c1f12e416d4eab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 55/91] fix: statistics of a roaring array whose last rows are
 false

---
 encodings/roaring/src/boolean/stats.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encodings/roaring/src/boolean/stats.rs b/encodings/roaring/src/boolean/stats.rs
index 5f62f20..7294fae 100644
--- a/encodings/roaring/src/boolean/stats.rs
+++ b/encodings/roaring/src/boolean/stats.rs
@@ -33,12 +33,14 @@ impl ArrayStatisticsCompute for BitmapStats {
         let bitset_slice = self.0.as_slice();
         let whole_chunks = self.1 / 64;
         let last_chunk_len = self.1 % 64;
-        let fist_bool = bitset_slice[0] & 1 == 1;
+        // The bitset ends with its last true value
+        let word = |i: usize| bitset_slice.get(i).copied().unwrap_or_default();
+        let fist_bool = word(0) & 1 == 1;
         let mut stats = RoaringBoolStatsAccumulator::new(fist_bool);
-        for bits64 in bitset_slice[0..whole_chunks].iter() {
-            stats.next(*bits64);
+        for i in 0..whole_chunks {
+            stats.next(word(i));
         }
-        stats.next_up_to_length(bitset_slice[whole_chunks], last_chunk_len);
+        stats.next_up_to_length(word(whole_chunks), last_chunk_len);
         Ok(stats.finish(self.2))
     }
 }
-- 
2.43.0


From 961be6a90e9354f3f0e3c099360b737b94546f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 56/91] fix: run values of a nullable array do not take over
 its statistics

---
 encodings/runend/src/compress.rs | 34 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index 0bd5f37..5ea573c 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -5,7 +5,7 @@ use num_traits::{AsPrimitive, FromPrimitive};
 use vortex::array::PrimitiveArray;
 use vortex::compute::unary::scalar_at;
 use vortex::stats::{ArrayStatistics, Stat};
-use vortex::validity::Validity;
+use vortex::validity::{ArrayValidity, Validity};
 use vortex::ArrayDType;
 use vortex_dtype::{match_each_integer_ptype, match_each_native_ptype, NativePType, Nullability};
 use vortex_error::{vortex_panic, VortexResult, VortexUnwrap as _};
@@ -29,21 +29,23 @@ pub fn runend_encode(array: &PrimitiveArray) -> (PrimitiveArray, PrimitiveArray)
     compressed_values
         .statistics()
         .set(Stat::IsConstant, (compressed_values.len() == 1).into());
-    if let Some(min) = array.statistics().get(Stat::Min) {
-        compressed_values.statistics().set(Stat::Min, min);
-    }
-    if let Some(max) = array.statistics().get(Stat::Max) {
-        compressed_values.statistics().set(Stat::Max, max);
-    }
-    if let Some(is_sorted) = array.statistics().get(Stat::IsSorted) {
-        compressed_values
-            .statistics()
-            .set(Stat::IsSorted, is_sorted);
-    }
-    if let Some(is_strict_sorted) = array.statistics().get(Stat::IsStrictSorted) {
-        compressed_values
-            .statistics()
-            .set(Stat::IsStrictSorted, is_strict_sorted);
+    // With nulls, whatever stands in their place is among the values as well
+    if array.logical_validity().all_valid() {
+        if let Some(min) = array.statistics().get(Stat::Min) {
+            compressed_values.statistics().set(Stat::Min, min);
+        }
+        if let Some(max) = array.statistics().get(Stat::Max) {
+            compressed_values.statistics().set(Stat::Max, max);
+        }
+        if let Some(is_sorted) = array.statistics().get(Stat::IsSorted) {
+            compressed_values
+                .statistics()
+                .set(Stat::IsSorted, is_sorted.clone());
+            // Neighbouring runs differ
+            compressed_values
+                .statistics()
+                .set(Stat::IsStrictSorted, is_sorted);
+        }
     }
 
     compressed_ends
-- 
2.43.0


From 777ee56ce071f7ea3b032ede0c844f61820c7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 57/91] fix: the minimum of booleans does not count nulls as
 false

---
 vortex-array/src/array/bool/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..851c597 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -119,7 +119,10 @@ impl BoolStatsAccumulator {
 
     pub fn finish(self) -> StatsSet {
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (
+                Stat::Min,
+                (self.true_count + self.null_count == self.len).into(),
+            ),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
-- 
2.43.0


From 5726b9df0f00c1256e72c163052778b4e439c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 58/91] fix: slice a chunked array without chunks

---
 vortex-array/src/array/chunked/compute/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-array/src/array/chunked/compute/slice.rs b/vortex-array/src/array/chunked/compute/slice.rs
index 3faa414..eb6ab36 100644
--- a/vortex-array/src/array/chunked/compute/slice.rs
+++ b/vortex-array/src/array/chunked/compute/slice.rs
@@ -6,6 +6,10 @@ use crate::{Array, ArrayDType, IntoArray};
 
 impl SliceFn for ChunkedArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.nchunks() == 0 {
+            return Ok(self.clone().into_array());
+        }
+
         let (offset_chunk, offset_in_first_chunk) = self.find_chunk_idx(start);
         let (length_chunk, length_in_last_chunk) = self.find_chunk_idx(stop);
 
-- 
2.43.0


From beb5e9cb1e3451dd9d854a2764b0b64fd6228b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 59/91] fix: a constant array of no rows has no extremes

---
 vortex-array/src/array/constant/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/constant/mod.rs b/vortex-array/src/array/constant/mod.rs
index 4adb816..cc346a9 100644
--- a/vortex-array/src/array/constant/mod.rs
+++ b/vortex-array/src/array/constant/mod.rs
@@ -41,13 +41,16 @@ impl ConstantArray {
         let scalar = scalar.into();
         // TODO(aduffy): add stats for bools, ideally there should be a
         //  StatsSet::constant(Scalar) constructor that does this for us, like StatsSet::nulls.
-        let stats = StatsSet::from(HashMap::from([
-            (Stat::Max, scalar.clone()),
-            (Stat::Min, scalar.clone()),
+        let mut stats = StatsSet::from(HashMap::from([
             (Stat::IsConstant, true.into()),
             (Stat::IsSorted, true.into()),
             (Stat::RunCount, 1.into()),
         ]));
+        // An array of no rows has no extremes
+        if length > 0 {
+            stats.set(Stat::Max, scalar.clone());
+            stats.set(Stat::Min, scalar.clone());
+        }
 
         Self::try_from_parts(
             scalar.dtype().clone(),
-- 
2.43.0


From 4cb7e4f9ee47c8970ba989e582106e52c1b35877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 60/91] fix: an empty primitive array takes a buffer of any
 address

---
 vortex-array/src/array/primitive/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index b0ae42a..28b856a 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -45,7 +45,8 @@ impl PrimitiveArray {
         let length = match_each_native_ptype!(ptype, |$P| {
             let (prefix, values, suffix) = unsafe { buffer.align_to::<$P>() };
             assert!(
-                prefix.is_empty() && suffix.is_empty() && (buffer.as_ptr() as usize) % std::mem::size_of::<$P>() == 0,
+                // An empty buffer may point anywhere, aligned or not
+                buffer.is_empty() || (prefix.is_empty() && suffix.is_empty() && (buffer.as_ptr() as usize) % std::mem::size_of::<$P>() == 0),
                 "buffer is not aligned: {:?}",
                 buffer.as_ptr()
             );
-- 
2.43.0


From c5f2131d9963c9fe0e8c913f8c4dd70e7f1ae4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 61/91] fix: taking strings repeatedly can outgrow narrow
 offsets

---
 vortex-array/src/array/varbin/compute/take.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbin/compute/take.rs b/vortex-array/src/array/varbin/compute/take.rs
index 63e9a29..91054c4 100644
--- a/vortex-array/src/array/varbin/compute/take.rs
+++ b/vortex-array/src/array/varbin/compute/take.rs
@@ -1,16 +1,21 @@
 use arrow_buffer::NullBuffer;
-use vortex_dtype::{match_each_integer_ptype, DType, NativePType};
+use vortex_dtype::{match_each_integer_ptype, DType, NativePType, PType};
 use vortex_error::{vortex_err, vortex_panic, VortexResult};
 
 use crate::array::varbin::builder::VarBinBuilder;
 use crate::array::varbin::VarBinArray;
+use crate::compute::unary::try_cast;
 use crate::compute::TakeFn;
 use crate::validity::Validity;
 use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl TakeFn for VarBinArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
-        let offsets = self.offsets().into_primitive()?;
+        let mut offsets = self.offsets().into_primitive()?;
+        if offsets.ptype().byte_width() < PType::U32.byte_width() {
+            // Taking the same value repeatedly can outgrow narrow offsets
+            offsets = try_cast(&offsets, PType::U32.into())?.into_primitive()?;
+        }
         let data = self.bytes().into_primitive()?;
         let indices = indices.clone().into_primitive()?;
         match_each_integer_ptype!(offsets.ptype(), |$O| {
-- 
2.43.0


From 9884de9a2e02d4ff441f96dfa578098de3b5e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 62/91] fix: the offsets of empty strings are not strictly
 sorted

---
 vortex-array/src/arrow/array.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index af26c18..7acd192 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -62,10 +62,8 @@ where
             O::PTYPE,
             Validity::NonNullable,
         );
+        // Not strictly: the offsets of an empty value are equal
         primitive.statistics().set(Stat::IsSorted, true.into());
-        primitive
-            .statistics()
-            .set(Stat::IsStrictSorted, true.into());
         primitive.into_array()
     }
 }
-- 
2.43.0


From b36373513fdfbcfe0e636ee4f66793be7c748fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 63/91] fix: merging statistics of chunks without values or
 with unknown statistics

---
 vortex-array/src/array/chunked/stats.rs |  2 ++
 vortex-array/src/stats/statsset.rs      | 29 +++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/array/chunked/stats.rs b/vortex-array/src/array/chunked/stats.rs
index a93df8e..fc51153 100644
--- a/vortex-array/src/array/chunked/stats.rs
+++ b/vortex-array/src/array/chunked/stats.rs
@@ -7,6 +7,8 @@ impl ArrayStatisticsCompute for ChunkedArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         Ok(self
             .chunks()
+            // Chunks of no rows have nothing to say
+            .filter(|c| !c.is_empty())
             .map(|c| {
                 let s = c.statistics();
                 // HACK(robert): This will compute all stats, but we could just compute one
diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..1d5ea24 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -117,11 +117,12 @@ impl StatsSet {
     /// Merges stats if both are present, if either stat is not present, drops the stat from the
     /// result set. For example, if we know the minimums of two arrays, the minimum of their union
     /// is the minimum-of-minimums, but if we only know the minimum of one of the two arrays, we
-    /// do not know the minimum of their union.
+    /// do not know the minimum of their union. A null stands for an array without values, which
+    /// leaves the extremes of the other array as they are.
     fn merge_ordered<F: Fn(&Scalar, &Scalar) -> bool>(&mut self, stat: Stat, other: &Self, cmp: F) {
         if let Entry::Occupied(mut e) = self.values.entry(stat) {
             if let Some(ov) = other.get(stat) {
-                if cmp(ov, e.get()) {
+                if ov.is_valid() && (!e.get().is_valid() || cmp(ov, e.get())) {
                     e.insert(ov.clone());
                 }
             } else {
@@ -131,13 +132,27 @@ impl StatsSet {
     }
 
     fn merge_is_constant(&mut self, other: &Self) {
-        if let Some(is_constant) = self.get_as(Stat::IsConstant) {
-            if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
-                    return;
+        if let Some(is_constant) = self.get_as::<bool>(Stat::IsConstant) {
+            match other.get_as::<bool>(Stat::IsConstant) {
+                // Both are constant: whether they hold the same value is known only if both values are.
+                Some(true) if is_constant => {
+                    match (self.get(Stat::Min), other.get(Stat::Min)) {
+                        (Some(own), Some(other)) if own.value() == other.value() => {}
+                        (Some(_), Some(_)) => {
+                            self.values.insert(Stat::IsConstant, false.into());
+                        }
+                        _ => {
+                            self.values.remove(&Stat::IsConstant);
+                        }
+                    }
+                }
+                None if is_constant => {
+                    self.values.remove(&Stat::IsConstant);
+                }
+                _ => {
+                    self.values.insert(Stat::IsConstant, false.into());
                 }
             }
-            self.values.insert(Stat::IsConstant, false.into());
         }
     }
 
-- 
2.43.0


From efc18bc948b46a16e30c6ffef11b6ddff5a2ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 64/91] fix: a scalar read back has the number width of its
 type

---
 vortex-scalar/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f535cc1..d09353b 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use scalar_type::ScalarType;
-use vortex_dtype::DType;
+use vortex_dtype::{match_each_native_ptype, DType};
 
 #[cfg(feature = "arbitrary")]
 pub mod arbitrary;
@@ -42,6 +42,16 @@ pub struct Scalar {
 
 impl Scalar {
     pub fn new(dtype: DType, value: ScalarValue) -> Self {
+        // The serialized form of a number does not keep its width: restore that of the type,
+        // numbers of different widths neither compare nor equal.
+        let value = match (&dtype, value) {
+            (DType::Primitive(ptype, _), ScalarValue::Primitive(p)) if p.ptype() != *ptype => {
+                match_each_native_ptype!(ptype, |$P| {
+                    ScalarValue::Primitive(p.as_primitive::<$P>().map_or(p, PValue::from))
+                })
+            }
+            (_, value) => value,
+        };
         Self { dtype, value }
     }
 
-- 
2.43.0


From abc08015b493c1703b460c9fa8f9ab52d3a943f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 65/91] fix: a storage that cannot tell its size reports an
 error instead of panicking

ObjectStoreReadAt and tokio files panicked when asking for the size failed; VortexReadAt::size now
returns an io::Result.
---
 pyvortex/src/dataset.rs                  |  2 +-
 vortex-serde/src/io/object_store.rs      | 17 +++--------------
 vortex-serde/src/io/offset.rs            |  4 ++--
 vortex-serde/src/io/read.rs              | 18 +++++++++---------
 vortex-serde/src/io/tokio.rs             |  9 ++-------
 vortex-serde/src/layouts/read/builder.rs |  7 ++++---
 6 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/pyvortex/src/dataset.rs b/pyvortex/src/dataset.rs
index b1c391e..46063b2 100644
--- a/pyvortex/src/dataset.rs
+++ b/pyvortex/src/dataset.rs
@@ -37,7 +37,7 @@ impl PyDataset {
             ALL_COMPRESSORS_CONTEXT.clone(),
             LayoutContext::default().into(),
         ))
-        .read_footer(&file, file.size().await)
+        .read_footer(&file, file.size().await?)
         .await?
         .dtype()?;
 
diff --git a/vortex-serde/src/io/object_store.rs b/vortex-serde/src/io/object_store.rs
index 13782a8..eb17b53 100644
--- a/vortex-serde/src/io/object_store.rs
+++ b/vortex-serde/src/io/object_store.rs
@@ -11,7 +11,7 @@ use object_store::path::Path;
 use object_store::{ObjectStore, WriteMultipart};
 use vortex_buffer::io_buf::IoBuf;
 use vortex_buffer::Buffer;
-use vortex_error::{vortex_panic, VortexError, VortexResult};
+use vortex_error::VortexResult;
 
 use crate::io::{VortexRead, VortexReadAt, VortexWrite};
 
@@ -78,19 +78,8 @@ impl VortexReadAt for ObjectStoreReadAt {
         Ok(buffer)
     }
 
-    async fn size(&self) -> u64 {
-        self.object_store
-            .head(&self.location)
-            .await
-            .map_err(VortexError::ObjectStore)
-            .unwrap_or_else(|err| {
-                vortex_panic!(
-                    err,
-                    "Failed to get size of object at location {}",
-                    self.location
-                )
-            })
-            .size as u64
+    async fn size(&self) -> io::Result<u64> {
+        Ok(self.object_store.head(&self.location).await?.size as u64)
     }
 }
 
diff --git a/vortex-serde/src/io/offset.rs b/vortex-serde/src/io/offset.rs
index d391c10..fcac721 100644
--- a/vortex-serde/src/io/offset.rs
+++ b/vortex-serde/src/io/offset.rs
@@ -29,7 +29,7 @@ impl<R: VortexReadAt> VortexReadAt for OffsetReadAt<R> {
         self.read.performance_hint()
     }
 
-    async fn size(&self) -> u64 {
-        self.read.size().await - self.offset
+    async fn size(&self) -> std::io::Result<u64> {
+        Ok(self.read.size().await? - self.offset)
     }
 }
diff --git a/vortex-serde/src/io/read.rs b/vortex-serde/src/io/read.rs
index d8abd03..a3d1d4e 100644
--- a/vortex-serde/src/io/read.rs
+++ b/vortex-serde/src/io/read.rs
@@ -26,7 +26,7 @@ pub trait VortexReadAt: Send + Sync {
     }
 
     /// Size of the underlying file in bytes
-    fn size(&self) -> impl Future<Output = u64>;
+    fn size(&self) -> impl Future<Output = io::Result<u64>>;
 }
 
 impl<T: VortexReadAt> VortexReadAt for Arc<T> {
@@ -42,7 +42,7 @@ impl<T: VortexReadAt> VortexReadAt for Arc<T> {
         T::performance_hint(self)
     }
 
-    async fn size(&self) -> u64 {
+    async fn size(&self) -> io::Result<u64> {
         T::size(self).await
     }
 }
@@ -81,7 +81,7 @@ impl<R: ?Sized + VortexReadAt> VortexReadAt for &R {
         R::performance_hint(*self)
     }
 
-    async fn size(&self) -> u64 {
+    async fn size(&self) -> io::Result<u64> {
         R::size(*self).await
     }
 }
@@ -95,8 +95,8 @@ impl VortexReadAt for Vec<u8> {
         VortexReadAt::read_at_into(self.as_slice(), pos, buffer)
     }
 
-    async fn size(&self) -> u64 {
-        self.len() as u64
+    async fn size(&self) -> io::Result<u64> {
+        Ok(self.len() as u64)
     }
 }
 
@@ -114,8 +114,8 @@ impl VortexReadAt for [u8] {
         }
     }
 
-    async fn size(&self) -> u64 {
-        self.len() as u64
+    async fn size(&self) -> io::Result<u64> {
+        Ok(self.len() as u64)
     }
 }
 
@@ -136,7 +136,7 @@ impl VortexReadAt for Buffer {
         }
     }
 
-    async fn size(&self) -> u64 {
-        self.len() as u64
+    async fn size(&self) -> io::Result<u64> {
+        Ok(self.len() as u64)
     }
 }
diff --git a/vortex-serde/src/io/tokio.rs b/vortex-serde/src/io/tokio.rs
index cb971e1..5190a06 100644
--- a/vortex-serde/src/io/tokio.rs
+++ b/vortex-serde/src/io/tokio.rs
@@ -9,7 +9,6 @@ use tokio::fs::File;
 use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
 use tokio::runtime::Runtime;
 use vortex_buffer::io_buf::IoBuf;
-use vortex_error::{VortexError, VortexUnwrap as _};
 
 use crate::io::{VortexRead, VortexReadAt, VortexWrite};
 use crate::layouts::AsyncRuntime;
@@ -52,12 +51,8 @@ impl VortexReadAt for File {
         Ok(buffer)
     }
 
-    async fn size(&self) -> u64 {
-        self.metadata()
-            .await
-            .map_err(|err| VortexError::IOError(err).with_context("Failed to get file metadata"))
-            .vortex_unwrap()
-            .len()
+    async fn size(&self) -> io::Result<u64> {
+        Ok(self.metadata().await?.len())
     }
 }
 
diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index 9d6fa15..c875105 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,3 +1,4 @@
+use std::io;
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
@@ -68,7 +69,7 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
 
     pub async fn build(self) -> VortexResult<LayoutBatchStream<R>> {
         let footer = LayoutDescriptorReader::new(self.layout_serde.clone())
-            .read_footer(&self.reader, self.size().await as u64)
+            .read_footer(&self.reader, self.size().await?)
             .await?;
         let batch_size = self.batch_size.unwrap_or(DEFAULT_BATCH_SIZE);
         // TODO(robert): Propagate projection immediately instead of delegating to layouts, needs more restructuring
@@ -135,9 +136,9 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         ))
     }
 
-    async fn size(&self) -> u64 {
+    async fn size(&self) -> io::Result<u64> {
         match self.size {
-            Some(s) => s,
+            Some(s) => Ok(s),
             None => self.reader.size().await,
         }
     }
-- 
2.43.0


From 3a58ed7e27a0ad7f159ab31d6b4c1eb43cb3bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 66/91] fix: an object store response of the wrong length is an
 error

ObjectStoreReadAt panicked on it, and vortex_read passed the bytes on, so that a stream cut at a
message boundary ended as if complete.
---
 vortex-serde/src/io/object_store.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/io/object_store.rs b/vortex-serde/src/io/object_store.rs
index eb17b53..ec51a95 100644
--- a/vortex-serde/src/io/object_store.rs
+++ b/vortex-serde/src/io/object_store.rs
@@ -36,7 +36,8 @@ impl ObjectStoreExt for Arc<dyn ObjectStore> {
         location: &Path,
         range: Range<usize>,
     ) -> VortexResult<impl VortexRead> {
-        let bytes = self.get_range(location, range).await?;
+        let bytes = self.get_range(location, range.clone()).await?;
+        check_length(&bytes, range.len())?;
         Ok(Cursor::new(Buffer::Bytes(bytes)))
     }
 
@@ -52,6 +53,18 @@ impl ObjectStoreExt for Arc<dyn ObjectStore> {
     }
 }
 
+/// An object store may respond with fewer bytes than requested, for example if the object is shorter
+/// than expected.
+fn check_length(bytes: &[u8], expected: usize) -> io::Result<()> {
+    if bytes.len() != expected {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            format!("requested {expected} bytes, received {}", bytes.len()),
+        ));
+    }
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct ObjectStoreReadAt {
     object_store: Arc<dyn ObjectStore>,
@@ -74,6 +87,7 @@ impl VortexReadAt for ObjectStoreReadAt {
             .object_store
             .get_range(&self.location, start_range..(start_range + buffer.len()))
             .await?;
+        check_length(&bytes, buffer.len())?;
         buffer.as_mut().copy_from_slice(bytes.as_ref());
         Ok(buffer)
     }
-- 
2.43.0


From 8ad2263e0cd06be5473ccc8d2e04b63a153a2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 67/91] fix: an upload with a failed part is not completed
 later

A failing flush consumed the error of the part, and a later shutdown completed the upload without
that part.
---
 vortex-serde/src/io/object_store.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/io/object_store.rs b/vortex-serde/src/io/object_store.rs
index ec51a95..54d5b6e 100644
--- a/vortex-serde/src/io/object_store.rs
+++ b/vortex-serde/src/io/object_store.rs
@@ -119,12 +119,17 @@ impl VortexWrite for ObjectStoreWriter {
     }
 
     async fn flush(&mut self) -> std::io::Result<()> {
-        Ok(self
+        let flushed = self
             .multipart
             .as_mut()
             .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "multipart already finished"))
             .map(|mp| mp.wait_for_capacity(0))?
-            .await?)
+            .await;
+        if flushed.is_err() {
+            // A part is lost, the upload must not be completed without it.
+            self.multipart = None;
+        }
+        Ok(flushed?)
     }
 
     async fn shutdown(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 22c1498793851fe070da59cd41d7b906f0c8b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 68/91] fix: a struct without fields becomes an Arrow struct of
 its length

StructArray::try_new of Arrow takes the length from the first field; without fields it made an empty array, and a scan for row counts alone lost its rows.
---
 vortex-array/src/canonical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index c779d25..75fc24b 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -203,6 +203,14 @@ fn struct_to_arrow(struct_array: StructArray) -> VortexResult<ArrayRef> {
 
     let nulls = struct_array.logical_validity().to_null_buffer()?;
 
+    if field_arrays.is_empty() {
+        // Without fields, the length has to be given.
+        return Ok(Arc::new(ArrowStructArray::new_empty_fields(
+            struct_array.len(),
+            nulls,
+        )));
+    }
+
     Ok(Arc::new(ArrowStructArray::try_new(
         arrow_fields,
         field_arrays,
-- 
2.43.0


From 9bbdf93de8e3915d5fdab21479f94a73771898db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 69/91] fix: reading no columns of a file yields its rows

An empty projection read nothing, so that COUNT(*) over files failed or saw no rows. Read the filter's columns, or the first column, and drop them from the batches.
---
 vortex-serde/src/layouts/read/builder.rs | 10 +++++++++-
 vortex-serde/src/layouts/read/stream.rs  |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index c875105..ff0fd4e 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -98,10 +98,18 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             Projection::Flat(ref projection) => footer.projected_dtype(projection)?,
         };
 
+        let scan_projection = match read_projection {
+            // Without any column the number of rows is still needed: read a column for it.
+            Projection::Flat(ref projection) if projection.is_empty() => filter_projection
+                .clone()
+                .unwrap_or_else(|| Projection::Flat(vec![Field::Index(0)])),
+            projection => projection,
+        };
+
         let scan = Scan {
             filter: self.row_filter.clone(),
             batch_size,
-            projection: read_projection,
+            projection: scan_projection,
             indices: self.indices,
         };
 
diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index 9c19aa9..62d18a3 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -9,7 +9,7 @@ use futures_util::{stream, FutureExt, StreamExt, TryStreamExt};
 use vortex::array::ChunkedArray;
 use vortex::compute::filter;
 use vortex::stats::ArrayStatistics;
-use vortex::Array;
+use vortex::{Array, IntoArray, IntoArrayVariant};
 use vortex_dtype::DType;
 use vortex_error::{vortex_err, vortex_panic, VortexError, VortexExpect, VortexResult};
 use vortex_schema::Schema;
@@ -161,6 +161,10 @@ impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
                         batch = filter(batch, mask)?;
                     }
 
+                    if matches!(&self.dtype, DType::Struct(s, _) if s.names().is_empty()) {
+                        batch = batch.into_struct()?.project(&[])?.into_array();
+                    }
+
                     let goto_state = if self.filter_reader.is_some() {
                         StreamingState::FilterInit
                     } else {
-- 
2.43.0


From e81b629c0337224d4468826ed951e7c2f615fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 70/91] fix: a row whose pushed down condition is null is not
 selected

The bits under null values were taken for the condition's result.
---
 vortex-datafusion/src/plans.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vortex-datafusion/src/plans.rs b/vortex-datafusion/src/plans.rs
index 92097dd..4730b59 100644
--- a/vortex-datafusion/src/plans.rs
+++ b/vortex-datafusion/src/plans.rs
@@ -8,7 +8,7 @@ use std::task::{Context, Poll};
 
 use arrow_array::cast::AsArray;
 use arrow_array::types::UInt64Type;
-use arrow_array::{ArrayRef, RecordBatch, RecordBatchOptions, UInt64Array};
+use arrow_array::{Array as _, ArrayRef, RecordBatch, RecordBatchOptions, UInt64Array};
 use arrow_schema::{DataType, Schema, SchemaRef};
 use datafusion_common::{DataFusionError, Result as DFResult};
 use datafusion_execution::{RecordBatchStream, SendableRecordBatchStream, TaskContext};
@@ -170,10 +170,12 @@ impl Stream for RowIndicesStream {
             .into_arrow()?;
 
         // Convert the `selection` BooleanArray into a UInt64Array of indices.
+        // A row whose condition is null is not selected.
+        let selection = selection.as_boolean();
         let selection_indices = selection
-            .as_boolean()
             .values()
             .set_indices()
+            .filter(|idx| selection.is_valid(*idx))
             .map(|idx| idx as u64);
 
         let indices = Arc::new(UInt64Array::from_iter_values(selection_indices)) as ArrayRef;
-- 
2.43.0


From f83c9198e5d2573e6f2ef6a82c3e37276413df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 71/91] fix: logic over nullable conditions is not pushed down

AND and OR yield null in Vortex when either side is null, unlike SQL. Only the top level conjunction, where it makes no difference, and logic over conditions that cannot be null are pushed down.
---
 vortex-datafusion/src/lib.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index e731766..fe72873 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -158,12 +158,27 @@ impl SessionContextExt for SessionContext {
 
 fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     match expr {
-        Expr::BinaryExpr(expr)
-            if expr.op.is_logic_operator() || SUPPORTED_BINARY_OPS.contains(&expr.op) =>
-        {
+        // A row passes a conjunction if it passes both sides, nulls or not.
+        Expr::BinaryExpr(expr) if expr.op == Operator::And => {
             can_be_pushed_down(expr.left.as_ref(), schema)
                 & can_be_pushed_down(expr.right.as_ref(), schema)
         }
+        _ => can_be_evaluated(expr, schema),
+    }
+}
+
+fn can_be_evaluated(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        // In SQL `true OR null` is true and `false AND null` is false, in Vortex both are null.
+        Expr::BinaryExpr(expr) if expr.op.is_logic_operator() => {
+            [expr.left.as_ref(), expr.right.as_ref()]
+                .into_iter()
+                .all(|e| can_be_evaluated(e, schema) && !can_be_null(e, schema))
+        }
+        Expr::BinaryExpr(expr) if SUPPORTED_BINARY_OPS.contains(&expr.op) => {
+            can_be_evaluated(expr.left.as_ref(), schema)
+                & can_be_evaluated(expr.right.as_ref(), schema)
+        }
         Expr::Column(col) => match schema.column_with_name(col.name()) {
             Some((_, field)) => supported_data_types(field.data_type().clone()),
             _ => false,
@@ -173,6 +188,19 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     }
 }
 
+fn can_be_null(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        Expr::BinaryExpr(expr) => {
+            can_be_null(expr.left.as_ref(), schema) || can_be_null(expr.right.as_ref(), schema)
+        }
+        Expr::Column(col) => schema
+            .column_with_name(col.name())
+            .map_or(true, |(_, field)| field.is_nullable()),
+        Expr::Literal(lit) => lit.is_null(),
+        _ => true,
+    }
+}
+
 /// Physical plan node for scans against an in-memory, possibly chunked Vortex Array.
 #[derive(Clone)]
 struct VortexScanExec {
-- 
2.43.0


From 34d769200ac8e2142c75ac7e8a1e4a5c242ea99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 72/91] fix: a list of values in a pushed down condition is
 converted

DataFusion may rewrite an accepted chain of equalities to an IN list after push down was agreed on; the scan then failed.
---
 vortex-expr/src/datafusion.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/vortex-expr/src/datafusion.rs b/vortex-expr/src/datafusion.rs
index ce10c83..c168386 100644
--- a/vortex-expr/src/datafusion.rs
+++ b/vortex-expr/src/datafusion.rs
@@ -37,6 +37,32 @@ pub fn convert_expr_to_vortex(
         return Ok(Arc::new(Literal::new(value)) as _);
     }
 
+    if let Some(in_list) = physical_expr
+        .as_any()
+        .downcast_ref::<expressions::InListExpr>()
+    {
+        // DataFusion rewrites a chain of (in)equalities of a column into a list.
+        let value = convert_expr_to_vortex(in_list.expr().clone())?;
+        let (compare, combine) = if in_list.negated() {
+            (Operator::NotEq, Operator::And)
+        } else {
+            (Operator::Eq, Operator::Or)
+        };
+
+        let mut converted: Option<Arc<dyn VortexExpr>> = None;
+        for item in in_list.list() {
+            let item = convert_expr_to_vortex(item.clone())?;
+            let compared = Arc::new(BinaryExpr::new(value.clone(), compare, item)) as _;
+            converted = Some(match converted {
+                Some(rest) => Arc::new(BinaryExpr::new(rest, combine, compared)) as _,
+                None => compared,
+            });
+        }
+        if let Some(converted) = converted {
+            return Ok(converted);
+        }
+    }
+
     vortex_bail!("Couldn't convert DataFusion physical expression to a vortex expression")
 }
 
-- 
2.43.0


From 4bbb4f65eedf0aa32836ca110ba13e7f35ada3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 73/91] fix: an empty roaring bool array has no extremes

---
 encodings/roaring/src/boolean/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index b2de436..1e8327e 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -39,12 +39,7 @@ impl RoaringBoolArray {
             vortex_bail!("RoaringBoolArray length is less than bitmap cardinality")
         } else {
             let roaring_stats = bitmap.statistics();
-            let stats = StatsSet::from(HashMap::from([
-                (
-                    Stat::Min,
-                    (roaring_stats.cardinality == length as u64).into(),
-                ),
-                (Stat::Max, (roaring_stats.cardinality > 0).into()),
+            let mut stats = StatsSet::from(HashMap::from([
                 (
                     Stat::IsConstant,
                     (roaring_stats.cardinality == length as u64 || roaring_stats.cardinality == 0)
@@ -52,6 +47,14 @@ impl RoaringBoolArray {
                 ),
                 (Stat::TrueCount, roaring_stats.cardinality.into()),
             ]));
+            // An empty array has no extremes.
+            if length > 0 {
+                stats.set(
+                    Stat::Min,
+                    (roaring_stats.cardinality == length as u64).into(),
+                );
+                stats.set(Stat::Max, (roaring_stats.cardinality > 0).into());
+            }
 
             Ok(Self {
                 typed: TypedArray::try_from_parts(
-- 
2.43.0


From 8abf74d2faaa50b6633e26cda481ec580bbccdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 74/91] fix: writing a received struct array keeps its validity

---
 vortex-array/src/array/struct_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index cf31fbb..3613d27 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -185,7 +185,7 @@ impl AcceptArrayVisitor for StructArray {
                 .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.nfields()))?;
             visitor.visit_child(&format!("\"{}\"", name), &child)?;
         }
-        Ok(())
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From c29e01074b001bf7f4738e84a81eb00cdbd51593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 75/91] fix: writing a received delta array keeps its validity

---
 encodings/fastlanes/src/delta/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..ee4830c 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 5aa3dfd76acafebc3fa6a0ef953fa0de2770b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 76/91] fix: filtering all rows of a chunked array out leaves
 one empty chunk

---
 vortex-array/src/array/chunked/compute/filter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/chunked/compute/filter.rs b/vortex-array/src/array/chunked/compute/filter.rs
index 55058ed..a0a909e 100644
--- a/vortex-array/src/array/chunked/compute/filter.rs
+++ b/vortex-array/src/array/chunked/compute/filter.rs
@@ -2,7 +2,7 @@ use arrow_buffer::BooleanBufferBuilder;
 use vortex_error::{VortexExpect, VortexResult};
 
 use crate::array::{BoolArray, ChunkedArray, PrimitiveArray};
-use crate::compute::{filter, take, FilterFn, SearchSorted, SearchSortedSide};
+use crate::compute::{filter, slice, take, FilterFn, SearchSorted, SearchSortedSide};
 use crate::{Array, ArrayDType, IntoArray, IntoCanonical};
 
 // This is modeled after the constant with the equivalent name in arrow-rs.
@@ -19,8 +19,9 @@ impl FilterFn for ChunkedArray {
                 // Fast path 1: no filtering
                 Ok(self.clone().into_array())
             } else if selected == 0 {
-                // Fast path 2: empty array after filter.
-                Ok(ChunkedArray::try_new(vec![], self.dtype().clone())?.into_array())
+                // Fast path 2: empty array after filter. It keeps a chunk, without which
+                // an extension array cannot be canonicalized.
+                slice(self, 0, 0)
             } else {
                 // General path: perform filtering.
                 //
-- 
2.43.0


From b3c4e04ea695d9f10bcc07f5b1e5b3ddd517f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 77/91] fix: a file whose schema and footer outgrow the first
 read opens, one too short is refused

---
 vortex-serde/src/layouts/read/footer.rs | 32 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 6fc1341..736fdcd 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -142,11 +142,11 @@ impl LayoutDescriptorReader {
         read: &R,
         file_size: u64,
     ) -> VortexResult<LayoutDescriptor> {
-        if file_size < EOF_SIZE as u64 {
+        if file_size < (FOOTER_POSTSCRIPT_SIZE + EOF_SIZE) as u64 {
             vortex_bail!(
                 "Malformed vortex file, size {} must be at least {}",
                 file_size,
-                EOF_SIZE,
+                FOOTER_POSTSCRIPT_SIZE + EOF_SIZE,
             )
         }
 
@@ -154,7 +154,7 @@ impl LayoutDescriptorReader {
         let mut buf = BytesMut::with_capacity(read_size);
         unsafe { buf.set_len(read_size) }
 
-        let read_offset = file_size - read_size as u64;
+        let mut read_offset = file_size - read_size as u64;
         buf = read.read_at_into(read_offset, buf).await?;
 
         let eof_loc = read_size - EOF_SIZE;
@@ -176,10 +176,32 @@ impl LayoutDescriptorReader {
         }
 
         let ps = root::<footer::Postscript>(&buf[eof_loc - FOOTER_POSTSCRIPT_SIZE..eof_loc])?;
+        let (schema_offset, footer_offset) = (ps.schema_offset(), ps.footer_offset());
+
+        let footer_end = file_size - (FOOTER_POSTSCRIPT_SIZE + EOF_SIZE) as u64;
+        let size_length = FLATBUFFER_SIZE_LENGTH as u64;
+        if footer_offset < schema_offset.saturating_add(size_length)
+            || footer_end < footer_offset.saturating_add(size_length)
+        {
+            vortex_bail!(
+                "Malformed file, schema at {schema_offset} and footer at {footer_offset} of {file_size} bytes"
+            )
+        }
+
+        if schema_offset < read_offset {
+            // The schema and the footer are larger than the first read: fetch the rest of them.
+            let missing = (read_offset - schema_offset) as usize;
+            let mut head = BytesMut::with_capacity(missing + read_size);
+            unsafe { head.set_len(missing) }
+            head = read.read_at_into(schema_offset, head).await?;
+            head.extend_from_slice(&buf);
+            buf = head;
+            read_offset = schema_offset;
+        }
 
         Ok(LayoutDescriptor {
-            schema_offset: ps.schema_offset(),
-            footer_offset: ps.footer_offset(),
+            schema_offset,
+            footer_offset,
             initial_read: buf.freeze(),
             initial_read_offset: read_offset,
             layout_serde: self.layout_serde.clone(),
-- 
2.43.0


From 3bd9bb02c62d7130d9e9f00646b884c90d1b9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 78/91] fix: chunks past the 65536th of a column are told apart
 from the first ones

---
 vortex-serde/src/layouts/read/layouts/chunked.rs      | 2 +-
 vortex-serde/src/layouts/read/layouts/column.rs       | 2 +-
 vortex-serde/src/layouts/read/layouts/inline_dtype.rs | 2 +-
 vortex-serde/src/layouts/read/mod.rs                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vortex-serde/src/layouts/read/layouts/chunked.rs b/vortex-serde/src/layouts/read/layouts/chunked.rs
index 47ecc3e..fd5ba26 100644
--- a/vortex-serde/src/layouts/read/layouts/chunked.rs
+++ b/vortex-serde/src/layouts/read/layouts/chunked.rs
@@ -102,7 +102,7 @@ impl LayoutReader for ChunkedLayout {
                         c._tab.loc(),
                         self.scan.clone(),
                         self.message_cache
-                            .relative(i as u16, self.message_cache.dtype().clone()),
+                            .relative(i as u32, self.message_cache.dtype().clone()),
                     )
                 })
                 .collect::<VortexResult<VecDeque<_>>>()?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 2a0f39f..46f9e76 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -95,7 +95,7 @@ impl ColumnLayout {
             layout._tab.loc(),
             child_scan,
             self.message_cache.relative(
-                idx as u16,
+                idx as u32,
                 Arc::new(LazyDeserializedDType::from_dtype(dtype)),
             ),
         )
diff --git a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
index ee969b6..6fd0eaf 100644
--- a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
+++ b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
@@ -128,7 +128,7 @@ impl LayoutReader for InlineDTypeLayout {
                             layout._tab.loc(),
                             self.scan.clone(),
                             self.message_cache
-                                .relative(1u16, Arc::new(LazyDeserializedDType::from_dtype(d))),
+                                .relative(1u32, Arc::new(LazyDeserializedDType::from_dtype(d))),
                         )?,
                     );
                     self.read_next()
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index 9d93505..e715aaf 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -43,7 +43,7 @@ pub struct Scan {
 }
 
 /// Unique identifier for a message within a layout
-pub type LayoutPartId = u16;
+pub type LayoutPartId = u32;
 pub type MessageId = Vec<LayoutPartId>;
 pub type Message = (MessageId, ByteRange);
 
-- 
2.43.0


From 7f869d07b2e0722e56d1fe59ffecadc75d229e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 79/91] hook: the size of the first read of a file can be
 varied under cfg(vortex_sim)

---
 vortex-serde/src/layouts/read/footer.rs |  7 ++++++-
 vortex-serde/src/layouts/read/mod.rs    | 11 +++++++++++
 vortex-serde/src/lib.rs                 |  2 ++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 736fdcd..366aae1 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -150,7 +150,12 @@ impl LayoutDescriptorReader {
             )
         }
 
-        let read_size = INITIAL_READ_SIZE.min(file_size as usize);
+        #[cfg(not(vortex_sim))]
+        let initial_read_size = INITIAL_READ_SIZE;
+        #[cfg(vortex_sim)]
+        let initial_read_size =
+            INITIAL_READ_SIZE.min(crate::layouts::read::sim::INITIAL_READ.get());
+        let read_size = initial_read_size.min(file_size as usize);
         let mut buf = BytesMut::with_capacity(read_size);
         unsafe { buf.set_len(read_size) }
 
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index e715aaf..6555502 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -31,6 +31,17 @@ use crate::stream_writer::ByteRange;
 
 // Recommended read-size according to the AWS performance guide
 pub const INITIAL_READ_SIZE: usize = 8 * 1024 * 1024;
+
+/// Only for deterministic simulation: varies how much of the end of a file the first read asks for.
+#[cfg(vortex_sim)]
+pub mod sim {
+    use std::cell::Cell;
+
+    thread_local! {
+        pub static INITIAL_READ: Cell<usize> = const { Cell::new(super::INITIAL_READ_SIZE) };
+    }
+}
+
 pub const DEFAULT_BATCH_SIZE: usize = 65536;
 
 #[allow(dead_code)]
diff --git a/vortex-serde/src/lib.rs b/vortex-serde/src/lib.rs
index 2849972..d354a40 100644
--- a/vortex-serde/src/lib.rs
+++ b/vortex-serde/src/lib.rs
@@ -1,3 +1,5 @@
+// `--cfg vortex_sim` turns on the hooks of a deterministic simulator; nothing else sets it.
+#![allow(unexpected_cfgs)]
 use message_reader::*;
 use message_writer::*;
 
-- 
2.43.0


From 2d1fadd0002ee66720f1ec38a9d718d10c141c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 80/91] fix: filter by a predicate of any encoding

---
 vortex-array/src/compute/filter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/compute/filter.rs b/vortex-array/src/compute/filter.rs
index fd11c2e..87f6c1b 100644
--- a/vortex-array/src/compute/filter.rs
+++ b/vortex-array/src/compute/filter.rs
@@ -2,8 +2,9 @@ use arrow_array::cast::AsArray;
 use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 
+use crate::array::{Bool, Constant};
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, Canonical, IntoCanonical};
+use crate::{Array, ArrayDType, ArrayDef, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
 
 pub trait FilterFn {
     /// Filter an array by the provided predicate.
@@ -38,15 +39,22 @@ pub fn filter(array: impl AsRef<Array>, predicate: impl AsRef<Array>) -> VortexR
         );
     }
 
+    // Not every encoding can iterate its set bits.
+    let predicate = if predicate.is_encoding(Bool::ID) || predicate.is_encoding(Constant::ID) {
+        predicate.clone()
+    } else {
+        predicate.clone().into_bool()?.into_array()
+    };
+
     array.with_dyn(|a| {
         if let Some(filter_fn) = a.filter() {
-            filter_fn.filter(predicate)
+            filter_fn.filter(&predicate)
         } else {
             // Fallback: implement using Arrow kernels, unless the canonical array has its own
             // implementation. Arrow does not know every extension type.
             let canonical = array.clone().into_canonical()?;
             if let Canonical::Extension(extension) = &canonical {
-                return FilterFn::filter(extension, predicate);
+                return FilterFn::filter(extension, &predicate);
             }
             let array_ref = canonical.into_arrow()?;
             let predicate_ref = predicate.clone().into_canonical()?.into_arrow()?;
-- 
2.43.0


From d303b359175c7bccd09510ab6840b9c512ee23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:45 +0000
Subject: [PATCH 81/91] fix: take from a byte bool array by indices of any
 encoding

---
 encodings/bytebool/src/compute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index b408785..8ba9050 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -2,7 +2,7 @@ use num_traits::AsPrimitive;
 use vortex::compute::unary::{FillForwardFn, ScalarAtFn};
 use vortex::compute::{ArrayCompute, SliceFn, TakeFn};
 use vortex::validity::{ArrayValidity, Validity};
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::{match_each_integer_ptype, Nullability};
 use vortex_error::{vortex_err, VortexResult};
 use vortex_scalar::Scalar;
@@ -50,7 +50,7 @@ impl SliceFn for ByteBoolArray {
 impl TakeFn for ByteBoolArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
         let validity = self.validity();
-        let indices = indices.clone().as_primitive();
+        let indices = indices.clone().into_primitive()?;
         let bools = self.maybe_null_slice();
 
         let arr = match validity {
-- 
2.43.0


From e1ffb2130ff4a0ac22556e620c181884ad533116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 82/91] fix: subtracting a scalar keeps validity and wraps
 around like the decoders expect

---
 .../primitive/compute/subtract_scalar.rs      | 27 +++++--------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/subtract_scalar.rs b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
index 2524089..ba751ac 100644
--- a/vortex-array/src/array/primitive/compute/subtract_scalar.rs
+++ b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
@@ -7,7 +7,6 @@ use vortex_scalar::{PrimitiveScalar, Scalar};
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::unary::SubtractScalarFn;
-use crate::validity::ArrayValidity;
 use crate::{Array, ArrayDType, IntoArray};
 
 impl SubtractScalarFn for PrimitiveArray {
@@ -38,7 +37,7 @@ impl SubtractScalarFn for PrimitiveArray {
                 let sub_vec : Vec<$T> = self.maybe_null_slice::<$T>()
                 .iter()
                 .map(|&v| v - to_subtract).collect_vec();
-                PrimitiveArray::from(sub_vec)
+                PrimitiveArray::from_vec(sub_vec, self.validity())
             })
         };
         Ok(result.into_array())
@@ -54,24 +53,12 @@ fn subtract_scalar_integer<T: NativePType + WrappingSub>(
         return Ok(subtract_from.clone());
     }
 
-    let contains_nulls = !subtract_from.logical_validity().all_valid();
-    let subtraction_result = if contains_nulls {
-        let sub_vec = subtract_from
-            .maybe_null_slice()
-            .iter()
-            .map(|&v: &T| v.wrapping_sub(&to_subtract))
-            .collect_vec();
-        PrimitiveArray::from_vec(sub_vec, subtract_from.validity())
-    } else {
-        PrimitiveArray::from(
-            subtract_from
-                .maybe_null_slice::<T>()
-                .iter()
-                .map(|&v| v - to_subtract)
-                .collect_vec(),
-        )
-    };
-    Ok(subtraction_result)
+    let sub_vec = subtract_from
+        .maybe_null_slice()
+        .iter()
+        .map(|&v: &T| v.wrapping_sub(&to_subtract))
+        .collect_vec();
+    Ok(PrimitiveArray::from_vec(sub_vec, subtract_from.validity()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 00b50e17c9725a3807e580c7facd413d22459036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 83/91] fix: cast an array of any encoding

---
 vortex-array/src/compute/unary/cast.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/unary/cast.rs b/vortex-array/src/compute/unary/cast.rs
index cb52db5..35450eb 100644
--- a/vortex-array/src/compute/unary/cast.rs
+++ b/vortex-array/src/compute/unary/cast.rs
@@ -1,7 +1,7 @@
 use vortex_dtype::DType;
 use vortex_error::{vortex_err, VortexResult};
 
-use crate::{Array, ArrayDType};
+use crate::{Array, ArrayDType, IntoCanonical as _};
 
 pub trait CastFn {
     fn cast(&self, dtype: &DType) -> VortexResult<Array>;
@@ -17,7 +17,12 @@ pub fn try_cast(array: impl AsRef<Array>, dtype: &DType) -> VortexResult<Array>
     }
 
     // TODO(ngates): check for null_count if dtype is non-nullable
-    array.with_dyn(|a| {
+    if let Some(cast) = array.with_dyn(|a| a.cast().map(|f| f.cast(dtype))) {
+        return cast;
+    }
+
+    // Otherwise, decode the array and try again.
+    Array::from(array.clone().into_canonical()?).with_dyn(|a| {
         a.cast()
             .map(|f| f.cast(dtype))
             .unwrap_or_else(|| Err(vortex_err!(NotImplemented: "cast", array.encoding().id())))
-- 
2.43.0


From 7cfabf91ba2355a1cfa1d0a580ef484254488909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 84/91] fix: take from chunks that end beyond the type of the
 indices

---
 vortex-array/src/array/chunked/compute/take.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index 4fba82c..2036c88 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -73,7 +73,12 @@ fn take_strict_sorted(chunked: &ChunkedArray, indices: &Array) -> VortexResult<A
         // Find the end of this chunk, and locate that position in the indices array.
         let chunk_begin = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx)?)?;
         let chunk_end = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx + 1)?)?;
-        let chunk_end_pos = search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index();
+        // Note. chunk_end might not fit the dtype of the indices, then all of them are before it.
+        let chunk_end_pos = if chunk_end as u64 > PType::try_from(indices.dtype())?.max_value() {
+            indices.len()
+        } else {
+            search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index()
+        };
 
         // Now we can say the slice of indices belonging to this chunk is [pos, chunk_end_pos)
         let chunk_indices = slice(indices, pos, chunk_end_pos)?;
-- 
2.43.0


From 33024d31c5264c4867f545c4eb7dc05e1311134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 85/91] fix: search sorted a constant that was read from a
 message

---
 vortex-array/src/array/constant/compute.rs | 9 ++++-----
 vortex-array/src/compute/compare.rs        | 2 +-
 vortex-array/src/compute/mod.rs            | 1 +
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 8a7376a..13f53e7 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -8,8 +8,8 @@ use crate::array::constant::ConstantArray;
 use crate::array::BoolArray;
 use crate::compute::unary::{scalar_at, ScalarAtFn};
 use crate::compute::{
-    scalar_cmp, AndFn, ArrayCompute, FilterFn, MaybeCompareFn, Operator, OrFn, SearchResult,
-    SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
+    comparable_value, scalar_cmp, AndFn, ArrayCompute, FilterFn, MaybeCompareFn, Operator, OrFn,
+    SearchResult, SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
 use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
@@ -89,9 +89,8 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
-        match self
-            .scalar_value()
-            .partial_cmp(value.value())
+        match comparable_value(&self.owned_scalar())
+            .partial_cmp(&comparable_value(value))
             .unwrap_or(Ordering::Less)
         {
             Ordering::Greater => Ok(SearchResult::NotFound(0)),
diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index 3eac27c..bef7aae 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -150,7 +150,7 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
 
 /// The value of a scalar in the representation that goes with its type: a serialized integer may
 /// come back as e.g. any other integer type.
-fn comparable_value(scalar: &Scalar) -> ScalarValue {
+pub(crate) fn comparable_value(scalar: &Scalar) -> ScalarValue {
     match (scalar.dtype(), scalar.value()) {
         (DType::Primitive(ptype, _), ScalarValue::Primitive(_)) => {
             match_each_native_ptype!(ptype, |$T| {
diff --git a/vortex-array/src/compute/mod.rs b/vortex-array/src/compute/mod.rs
index aa9b804..a60a34b 100644
--- a/vortex-array/src/compute/mod.rs
+++ b/vortex-array/src/compute/mod.rs
@@ -8,6 +8,7 @@
 //! from Arrow.
 
 pub use boolean::{and, or, AndFn, OrFn};
+pub(crate) use compare::comparable_value;
 pub use compare::{compare, scalar_cmp, CompareFn, MaybeCompareFn, Operator};
 pub use filter::{filter, FilterFn};
 pub use search_sorted::*;
-- 
2.43.0


From 92b4948e30c5cff1571af186618fe8ef9368758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 86/91] fix: read a null constant through its accessor

---
 vortex-array/src/array/constant/variants.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 81e3a59..7a6ad96 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -90,7 +90,7 @@ impl BoolArrayTrait for ConstantArray {
 
 impl<T> Accessor<T> for ConstantArray
 where
-    T: Clone,
+    T: Clone + Default,
     T: TryFrom<ScalarValue, Error = VortexError>,
 {
     fn array_len(&self) -> usize {
@@ -102,6 +102,10 @@ where
     }
 
     fn value_unchecked(&self, _index: usize) -> T {
+        if self.scalar_value().is_null() {
+            // Like the other arrays, hold an arbitrary value where there is none.
+            return T::default();
+        }
         T::try_from(self.scalar_value().clone()).vortex_expect("Failed to convert scalar to value")
     }
 
-- 
2.43.0


From 4721e3078063527e27e6408d549be2a5e53377cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 87/91] fix: count and iterate the set bits of any encoding of
 booleans

---
 encodings/bytebool/src/array.rs            | 10 +---------
 encodings/roaring/src/boolean/mod.rs       | 10 +---------
 encodings/runend-bool/src/array.rs         | 10 +---------
 vortex-array/src/array/chunked/variants.rs | 10 +---------
 vortex-array/src/array/sparse/variants.rs  | 10 +---------
 vortex-array/src/variants.rs               | 22 +++++++++++++++++++---
 6 files changed, 24 insertions(+), 48 deletions(-)

diff --git a/encodings/bytebool/src/array.rs b/encodings/bytebool/src/array.rs
index bd7fa87..846a304 100644
--- a/encodings/bytebool/src/array.rs
+++ b/encodings/bytebool/src/array.rs
@@ -89,15 +89,7 @@ impl ArrayVariants for ByteBoolArray {
     }
 }
 
-impl BoolArrayTrait for ByteBoolArray {
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for ByteBoolArray {}
 
 impl From<Vec<bool>> for ByteBoolArray {
     fn from(value: Vec<bool>) -> Self {
diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index 1e8327e..584f9ec 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -97,15 +97,7 @@ impl ArrayVariants for RoaringBoolArray {
     }
 }
 
-impl BoolArrayTrait for RoaringBoolArray {
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for RoaringBoolArray {}
 
 impl AcceptArrayVisitor for RoaringBoolArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
diff --git a/encodings/runend-bool/src/array.rs b/encodings/runend-bool/src/array.rs
index 03c9b23..ee1aee7 100644
--- a/encodings/runend-bool/src/array.rs
+++ b/encodings/runend-bool/src/array.rs
@@ -114,15 +114,7 @@ impl RunEndBoolArray {
     }
 }
 
-impl BoolArrayTrait for RunEndBoolArray {
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for RunEndBoolArray {}
 
 impl ArrayVariants for RunEndBoolArray {
     fn as_bool_array(&self) -> Option<&dyn BoolArrayTrait> {
diff --git a/vortex-array/src/array/chunked/variants.rs b/vortex-array/src/array/chunked/variants.rs
index d5a3eb1..7cbd02c 100644
--- a/vortex-array/src/array/chunked/variants.rs
+++ b/vortex-array/src/array/chunked/variants.rs
@@ -46,15 +46,7 @@ impl ArrayVariants for ChunkedArray {
 
 impl NullArrayTrait for ChunkedArray {}
 
-impl BoolArrayTrait for ChunkedArray {
-    fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for ChunkedArray {}
 
 impl PrimitiveArrayTrait for ChunkedArray {}
 
diff --git a/vortex-array/src/array/sparse/variants.rs b/vortex-array/src/array/sparse/variants.rs
index 68db18e..f6a93e2 100644
--- a/vortex-array/src/array/sparse/variants.rs
+++ b/vortex-array/src/array/sparse/variants.rs
@@ -47,15 +47,7 @@ impl ArrayVariants for SparseArray {
 
 impl NullArrayTrait for SparseArray {}
 
-impl BoolArrayTrait for SparseArray {
-    fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        Box::new(self.resolved_indices().into_iter())
-    }
-
-    fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for SparseArray {}
 
 impl PrimitiveArrayTrait for SparseArray {}
 
diff --git a/vortex-array/src/variants.rs b/vortex-array/src/variants.rs
index 8730dbd..377c4dc 100644
--- a/vortex-array/src/variants.rs
+++ b/vortex-array/src/variants.rs
@@ -11,6 +11,7 @@ use vortex_error::{vortex_panic, VortexExpect as _, VortexResult};
 
 use crate::array::BoolArray;
 use crate::iter::{AccessorRef, VectorizedArrayIter};
+use crate::stats::ArrayStatistics;
 use crate::{Array, ArrayTrait, IntoArray, IntoArrayVariant};
 
 pub trait ArrayVariants {
@@ -83,6 +84,13 @@ pub trait ArrayVariants {
 
 pub trait NullArrayTrait: ArrayTrait {}
 
+/// Decode a boolean array of an encoding that has no cheaper way of looking at its bits.
+fn decoded_bools<A: BoolArrayTrait + ?Sized>(array: &A) -> BoolArray {
+    Array::from(array.to_array_data())
+        .into_bool()
+        .vortex_expect("Failed to decode boolean array")
+}
+
 pub trait BoolArrayTrait: ArrayTrait {
     /// Return a new inverted version of this array.
     ///
@@ -102,16 +110,24 @@ pub trait BoolArrayTrait: ArrayTrait {
     fn true_count(&self) -> usize {
         self.statistics()
             .compute_true_count()
-            .unwrap_or_else(|| self.maybe_null_indices_iter().count())
+            .or_else(|| decoded_bools(self).statistics().compute_true_count())
+            // Only an empty array has no true count.
+            .unwrap_or_default()
     }
 
     /// An iterator over the sorted indices of set values in the underlying boolean array
     /// good to array with low number of set values.
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a>;
+    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
+        let indices: Vec<_> = decoded_bools(self).boolean_buffer().set_indices().collect();
+        Box::new(indices.into_iter())
+    }
 
     /// An iterator over the sorted disjoint contiguous range set values in the underlying boolean
     /// array good for arrays with only long runs of set values.
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a>;
+    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
+        let slices: Vec<_> = decoded_bools(self).boolean_buffer().set_slices().collect();
+        Box::new(slices.into_iter())
+    }
 
     // Other possible iterators include:
     //  - True(usize) | False(usize) | Mixed(BooleanBuffer) where True/False are long runs of either
-- 
2.43.0


From d4f32507abde83f0baaf6f3c21f1c0ba0f7ad7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 88/91] fix: search sorted many values of a patched bit-packed
 array

---
 .../src/bitpacking/compute/search_sorted.rs   | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..ae1c126 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -52,7 +52,7 @@ impl SearchSortedFn for BitPackedArray {
                     // Unwrap to native value
                     let unwrapped_value: $P = value.cast(self.dtype())?.try_into()?;
 
-                    Ok(searcher.search_sorted(&unwrapped_value, side))
+                    search_sorted_patched(self, &searcher, unwrapped_value, side)
                 })
                 .try_collect()
         })
@@ -71,9 +71,13 @@ impl SearchSortedFn for BitPackedArray {
                 .copied()
                 .zip(sides.iter().copied())
                 .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
+                    if let Some(cast_value) = num_traits::cast::<u64, $P>(value) {
+                        search_sorted_patched(self, &searcher, cast_value, side)
+                    } else {
+                        // provided u64 is too large to fit in the provided PType, value must be
+                        // off the right end of the array.
+                        Ok(SearchResult::NotFound(self.len()))
+                    }
                 })
                 .try_collect()
         })
@@ -102,6 +106,19 @@ fn search_sorted_native<T>(
     value: T,
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult>
+where
+    T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
+{
+    search_sorted_patched(array, &BitPackedSearch::<'_, T>::new(array), value, side)
+}
+
+/// Search the packed values, or the patches for what does not fit the packed values.
+fn search_sorted_patched<T>(
+    array: &BitPackedArray,
+    searcher: &BitPackedSearch<'_, T>,
+    value: T,
+    side: SearchSortedSide,
+) -> VortexResult<SearchResult>
 where
     T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
 {
@@ -110,13 +127,10 @@ where
         // max packed value just search the patches
         let usize_value: usize = value.as_();
         if usize_value > array.max_packed_value() {
-            search_sorted_u64(&patches_array, value.as_(), side)
-        } else {
-            Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
+            return search_sorted_u64(&patches_array, value.as_(), side);
         }
-    } else {
-        Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
     }
+    Ok(searcher.search_sorted(&value, side))
 }
 
 /// This wrapper exists, so that you can't invoke SearchSorted::search_sorted directly on BitPackedArray as it omits searching patches
-- 
2.43.0


From d2e15274eb4352535afa524ca39ab912f825b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 89/91] fix: read an ALP array in batches with its exceptions,
 whatever encodes its children

---
 encodings/alp/src/alp/array.rs | 36 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/encodings/alp/src/alp/array.rs b/encodings/alp/src/alp/array.rs
index 45d77d7..decc558 100644
--- a/encodings/alp/src/alp/array.rs
+++ b/encodings/alp/src/alp/array.rs
@@ -9,7 +9,10 @@ use vortex::iter::{Accessor, AccessorRef};
 use vortex::stats::ArrayStatisticsCompute;
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, PrimitiveArrayTrait};
-use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoCanonical};
+use vortex::{
+    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical,
+};
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 
@@ -205,17 +208,26 @@ impl<F: ALPFloat> Accessor<F> for ALPAccessor<F> {
     }
 }
 
+/// Decode a child whose encoding has no accessor of its own.
+fn decoded(child: Array) -> PrimitiveArray {
+    child
+        .into_primitive()
+        .vortex_expect("Failed to decode child of ALPArray")
+}
+
 impl PrimitiveArrayTrait for ALPArray {
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         match self.dtype() {
             DType::Primitive(PType::F32, _) => {
-                let patches = self
-                    .patches()
-                    .and_then(|p| p.with_dyn(|a| a.as_primitive_array_unchecked().f32_accessor()));
+                let patches = self.patches().and_then(|p| {
+                    p.with_dyn(|a| a.as_primitive_array_unchecked().f32_accessor())
+                        .or_else(|| decoded(p).f32_accessor())
+                });
 
-                let encoded = self
-                    .encoded()
+                let encoded = self.encoded();
+                let encoded = encoded
                     .with_dyn(|a| a.as_primitive_array_unchecked().i32_accessor())
+                    .or_else(|| decoded(encoded).i32_accessor())
                     .vortex_expect(
                         "Failed to get underlying encoded i32 array for ALP-encoded f32 array",
                     );
@@ -234,13 +246,15 @@ impl PrimitiveArrayTrait for ALPArray {
     fn f64_accessor(&self) -> Option<AccessorRef<f64>> {
         match self.dtype() {
             DType::Primitive(PType::F64, _) => {
-                let patches = self
-                    .patches()
-                    .and_then(|p| p.with_dyn(|a| a.as_primitive_array_unchecked().f64_accessor()));
+                let patches = self.patches().and_then(|p| {
+                    p.with_dyn(|a| a.as_primitive_array_unchecked().f64_accessor())
+                        .or_else(|| decoded(p).f64_accessor())
+                });
 
-                let encoded = self
-                    .encoded()
+                let encoded = self.encoded();
+                let encoded = encoded
                     .with_dyn(|a| a.as_primitive_array_unchecked().i64_accessor())
+                    .or_else(|| decoded(encoded).i64_accessor())
                     .vortex_expect(
                         "Failed to get underlying encoded i64 array for ALP-encoded f64 array",
                     );
-- 
2.43.0


From de40f4f0deb3d48fd39d6a8d107109342811f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 90/91] fix: display a long string scalar without cutting a
 character in two

---
 vortex-scalar/src/value.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index 89cbcfb..bc358f8 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -53,11 +53,15 @@ impl Display for ScalarValue {
             }
             ScalarValue::BufferString(bufstr) => {
                 if bufstr.len() > 10 {
+                    // Do not cut a character in two.
+                    let s = bufstr.as_str();
+                    let head = (0..=5).rev().find(|i| s.is_char_boundary(*i));
+                    let tail = (s.len() - 5..s.len()).find(|i| s.is_char_boundary(*i));
                     write!(
                         f,
                         "{}..{}",
-                        &bufstr.as_str()[0..5],
-                        &bufstr.as_str()[bufstr.len() - 5..bufstr.len()],
+                        &s[..head.unwrap_or_default()],
+                        &s[tail.unwrap_or(s.len())..],
                     )
                 } else {
                     write!(f, "{}", bufstr.as_str())
-- 
2.43.0


From 6899aab3b541357dbafaba6f3f5fea6c86e230d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 91/91] fix: scalars of ALP and ALP-RD arrays have the type of
 the array

---
 encodings/alp/src/alp/compute.rs              | 3 ++-
 encodings/alp/src/alp_rd/compute/scalar_at.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index e57ac89..bb72985 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -42,7 +42,8 @@ impl ScalarAtFn for ALPArray {
         if let Some(patches) = self.patches() {
             if patches.with_dyn(|a| a.is_valid(index)) {
                 // We need to make sure the value is actually in the patches array
-                return scalar_at_unchecked(&patches, index);
+                let patch = scalar_at_unchecked(&patches, index);
+                return Scalar::new(self.dtype().clone(), patch.into_value());
             }
         }
 
diff --git a/encodings/alp/src/alp_rd/compute/scalar_at.rs b/encodings/alp/src/alp_rd/compute/scalar_at.rs
index a6c42b6..a8717ec 100644
--- a/encodings/alp/src/alp_rd/compute/scalar_at.rs
+++ b/encodings/alp/src/alp_rd/compute/scalar_at.rs
@@ -1,4 +1,5 @@
 use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::ArrayDType;
 use vortex_error::{VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -22,11 +23,11 @@ impl ScalarAtFn for ALPRDArray {
         if self.is_f32() {
             let right: u32 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f32::from_bits((left as u32) << self.right_bit_width() | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         } else {
             let right: u64 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f64::from_bits(((left as u64) << self.right_bit_width()) | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         }
     }
 
-- 
2.43.0

