From 1de3710d33eeffa2be251d3aed0adc6ae37cda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 01/34] fix: try_put_f64 stored saturated values at the upper
 bound of 64-bit types and refused negative numbers for signed NonZero types

---
 facet-reflect/src/wip/put_f64.rs | 57 +++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..9f58c88 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -72,7 +72,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
+            if (0.0..u64::MAX as f64).contains(&number) {
                 self.put(number as u64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -81,7 +81,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
+            if (0.0..usize::MAX as f64 + 1.0).contains(&number) {
                 self.put(number as usize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -117,7 +117,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
+            if (i64::MIN as f64..i64::MAX as f64).contains(&number) {
                 self.put(number as i64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -126,7 +126,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
+            if (isize::MIN as f64..isize::MAX as f64 + 1.0).contains(&number) {
                 self.put(number as isize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -176,7 +176,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
+            if (1.0..u64::MAX as f64).contains(&number) {
                 let value = NonZeroU64::new(number as u64).unwrap();
                 self.put(value)
             } else {
@@ -186,7 +186,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
+            if (1.0..usize::MAX as f64 + 1.0).contains(&number) {
                 let value = NonZeroUsize::new(number as usize).unwrap();
                 self.put(value)
             } else {
@@ -196,8 +196,13 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
-                let value = NonZeroI8::new(number as i8).unwrap();
+            // the range test comes first: `as` saturates
+            let value = if (i8::MIN as f64..=i8::MAX as f64).contains(&number) {
+                NonZeroI8::new(number as i8)
+            } else {
+                None
+            };
+            if let Some(value) = value {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -206,8 +211,13 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
-                let value = NonZeroI16::new(number as i16).unwrap();
+            // the range test comes first: `as` saturates
+            let value = if (i16::MIN as f64..=i16::MAX as f64).contains(&number) {
+                NonZeroI16::new(number as i16)
+            } else {
+                None
+            };
+            if let Some(value) = value {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -216,8 +226,13 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
-                let value = NonZeroI32::new(number as i32).unwrap();
+            // the range test comes first: `as` saturates
+            let value = if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {
+                NonZeroI32::new(number as i32)
+            } else {
+                None
+            };
+            if let Some(value) = value {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -226,8 +241,13 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
-                let value = NonZeroI64::new(number as i64).unwrap();
+            // the range test comes first: `as` saturates
+            let value = if (i64::MIN as f64..i64::MAX as f64).contains(&number) {
+                NonZeroI64::new(number as i64)
+            } else {
+                None
+            };
+            if let Some(value) = value {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -236,8 +256,13 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
-                let value = NonZeroIsize::new(number as isize).unwrap();
+            // the range test comes first: `as` saturates
+            let value = if (isize::MIN as f64..isize::MAX as f64 + 1.0).contains(&number) {
+                NonZeroIsize::new(number as isize)
+            } else {
+                None
+            };
+            if let Some(value) = value {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
-- 
2.43.0


From 2ad4f02a0027699e1b7291547fb31612da522674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 02/34] fix: ISet::are_all_set(64) overflowed the shift, so
 structs with 64 fields panicked (debug) or counted as complete (release)

---
 facet-reflect/src/wip/iset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..e4ef47c 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,11 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From bc06d843d8e6cca592dddf5c4d49afda1d3dbdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 03/34] fix: item access through the array vtable ignored the
 index

---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From f00bd8eb31e128c3dcd1202d0e5f0242f76241e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 04/34] fix: clone_into of Vec, &[T], BTreeMap and HashMap
 wrote a reference instead of a clone; HashMap's vtable assumed the default
 hasher

---
 facet-core/src/impls_alloc/btreemap.rs | 30 ++++++++++++--
 facet-core/src/impls_alloc/vec.rs      | 19 ++++++++-
 facet-core/src/impls_core/slice.rs     |  2 +-
 facet-core/src/impls_std/hashmap.rs    | 55 ++++++++++++++++++--------
 4 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..9249725 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, write};
+use core::{alloc::Layout, mem::MaybeUninit, write};
 
 use alloc::{
     boxed::Box,
@@ -7,7 +7,7 @@ use alloc::{
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    Shape, ValueVTable,
+    PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -80,8 +80,30 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+
+                    if K::SHAPE.vtable.clone_into.is_some()
+                        && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut map = Self::default();
+                            for (key, val) in src.get::<Self>() {
+                                let mut k = MaybeUninit::<K>::uninit();
+                                let mut v = MaybeUninit::<V>::uninit();
+                                (k_clone)(
+                                    PtrConst::new(key as *const _),
+                                    PtrUninit::new(k.as_mut_ptr()),
+                                );
+                                (v_clone)(
+                                    PtrConst::new(val as *const _),
+                                    PtrUninit::new(v.as_mut_ptr()),
+                                );
+                                map.insert(k.assume_init(), v.assume_init());
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..ac35ce0 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -30,8 +30,23 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let t_clone = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let src = src.get::<Vec<T>>();
+                            let mut vec = Vec::<T>::with_capacity(src.len());
+                            for (i, item) in src.iter().enumerate() {
+                                (t_clone)(
+                                    PtrConst::new(item),
+                                    PtrUninit::new(vec.as_mut_ptr().add(i)),
+                                );
+                                vec.set_len(i + 1);
+                            }
+                            dst.put(vec)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..c818f05 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,9 +1,9 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash};
+use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
 use std::collections::HashMap;
 use std::hash::RandomState;
 
-use crate::ptr::{PtrConst, PtrMut};
+use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
@@ -19,12 +19,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + core::hash::BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -62,11 +62,11 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V, S>>() });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -85,13 +85,34 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some()
+                        && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut map = Self::default();
+                            for (key, val) in src.get::<Self>() {
+                                let mut k = MaybeUninit::<K>::uninit();
+                                let mut v = MaybeUninit::<V>::uninit();
+                                (k_clone)(
+                                    PtrConst::new(key as *const _),
+                                    PtrUninit::new(k.as_mut_ptr()),
+                                );
+                                (v_clone)(
+                                    PtrConst::new(val as *const _),
+                                    PtrUninit::new(v.as_mut_ptr()),
+                                );
+                                map.insert(k.assume_init(), v.assume_init());
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -108,7 +129,7 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
@@ -138,25 +159,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -165,7 +186,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
-- 
2.43.0


From f7d4ed9a6604599679061929e3f1ddfa41c650db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 05/34] fix: NonZero, ConstTypeId, RandomState, PathBuf, Path
 and the camino paths used the vtable of another type (default of NonZero was
 0, paths compared equal, were never dropped)

---
 facet-core/src/impls_camino.rs      | 10 ++++++++--
 facet-core/src/impls_core/scalar.rs |  7 +++++--
 facet-core/src/impls_std/hashmap.rs |  5 ++++-
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..1ff07d6 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,10 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(
+                f,
+                "Utf8Path"
+            )))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..1c1d28b 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(
+                f,
+                "ConstTypeId"
+            )))
             .build()
     };
 }
@@ -160,7 +163,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index c818f05..3080ea6 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -225,7 +225,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 6c41d18aca230771eda4ab2a7277664ed030ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 06/34] fix: Weak<T> used the vtable of Arc<T>, so dropping one
 through reflection released a strong count

---
 facet-core/src/impls_alloc/smartptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
-- 
2.43.0


From f236c241f845a05e911dcc6cc6d8c8258318ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 07/34] fix: tuples had no drop_in_place, so values dropped
 through reflection leaked

---
 facet-core/src/impls_core/tuple.rs | 41 ++++++++++++++++++++++++++++++
 facet-dev/src/tuples.rs            |  8 ++++++
 2 files changed, 49 insertions(+)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..b8403f7 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,6 +62,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
                     if Characteristic::Eq.all(&[T0::SHAPE]) {
@@ -122,6 +123,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -206,6 +208,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1, T2)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -325,6 +328,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1, T2, T3)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -465,6 +469,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -642,6 +649,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -842,6 +852,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1065,6 +1078,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1311,6 +1327,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1582,6 +1601,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1888,6 +1910,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -2234,6 +2259,22 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(
+                T0,
+                T1,
+                T2,
+                T3,
+                T4,
+                T5,
+                T6,
+                T7,
+                T8,
+                T9,
+                T10,
+                T11,
+            )>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..fa2f455 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -142,6 +142,14 @@ pub fn generate() -> String {
             "                        .type_name(type_name::<{}>)\n",
             type_params
         );
+        w!(
+            "                        .drop_in_place(|data| unsafe {{ data.drop_in_place::<{}>() }})\n",
+            if n == 1 {
+                "(T0,)".to_string()
+            } else {
+                format!("({})", type_params)
+            }
+        );
         w!("                        .marker_traits(");
         if n == 1 {
             w!("T0::SHAPE.vtable.marker_traits);\n\n")
-- 
2.43.0


From 7083e988456c8d985c775ffcf42f0c5f1966b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 08/34] fix: tuple debug and eq were advertised by the Eq
 marker alone and called absent element operations

---
 facet-core/src/impls_core/tuple.rs | 125 ++++++++++++++++++++++++++---
 facet-dev/src/tuples.rs            |  19 ++++-
 2 files changed, 128 insertions(+), 16 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index b8403f7..e2b5219 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -65,7 +65,7 @@ where
                         .drop_in_place(|data| unsafe { data.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -75,7 +75,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -131,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -146,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -217,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -237,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -338,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -363,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -482,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -518,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -663,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -705,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -867,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -915,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1094,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1148,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1344,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1405,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1619,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1686,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1929,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -2003,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2292,7 +2378,7 @@ where
                                 .intersection(T11::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -2372,7 +2458,22 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                        T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe {
                                 a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index fa2f455..72ede56 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -164,8 +164,8 @@ pub fn generate() -> String {
             w!("                    }});\n\n");
         }
 
-        // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
+        // Conditional debug implementation
+        w!("                    if Characteristic::Debug.all(&[");
         if n <= 5 {
             w!("{}", shape_list);
         } else {
@@ -207,9 +207,20 @@ pub fn generate() -> String {
         }
 
         w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        w!("                        }});\n");
+        w!("                    }}\n\n");
+
+        // Conditional eq implementation
+        w!("                    if Characteristic::PartialEq.all(&[");
+        if n <= 5 {
+            w!("{}", shape_list);
+        } else {
+            w!("\n");
+            w!("                        {},\n", shape_list);
+            w!("                    ");
+        }
+        w!("]) {{\n");
 
-        // eq implementation
         w!("                        builder = builder.eq(|a, b| {{\n");
         if n == 1 {
             w!("                            let a = unsafe {{ a.get::<(T0,)>() }};\n");
-- 
2.43.0


From bbcbbf96862a4ecde4ac81cbe85c3602eb43cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 09/34] fix: JSON integers beyond 2^53 went through f64 and
 lost digits (u64::MAX only worked by saturation)

---
 facet-json/src/deserialize.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..45bcfc6 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,4 +1,6 @@
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_core::{
+    Characteristic, Def, Facet, FieldAttribute, NumberBits, ScalarAffinity, ShapeAttribute,
+};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
@@ -376,12 +378,25 @@ pub fn from_slice_wip<'input, 'a>(
                             }
                         }
                         let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
+                        let text = core::str::from_utf8(number).unwrap();
+                        let number = text.parse::<f64>().unwrap();
                         trace!("Parsed {:?}", number.yellow());
 
+                        // Beyond 2^53 an f64 cannot hold every integer: read the digits instead
+                        let wants_integer = matches!(
+                            wip.shape().def,
+                            Def::Scalar(sd) if matches!(
+                                sd.affinity,
+                                ScalarAffinity::Number(n) if matches!(n.bits, NumberBits::Integer { .. })
+                            )
+                        );
+                        if wants_integer
+                            && number.abs() >= 9007199254740992.0
+                            && !text.contains('.')
+                        {
+                            wip = wip.parse(text).unwrap();
                         // Prefer try_put_f64 only if actually supported (can_put_f64)
-                        if wip.can_put_f64() {
+                        } else if wip.can_put_f64() {
                             wip = wip.try_put_f64(number).unwrap();
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
-- 
2.43.0


From aa917d5c097b736a7c70f2f7e4d753b7a7aa69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 10/34] fix: clone_into of scalars and derived types wrote a
 reference to the source instead of a clone

---
 facet-core/src/spez/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..45297b6 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,10 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        // note: the wrapped value is borrowed from the source: clone the value, not the reference
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From 8269ecc860bd291807b7485d4452558bcb9ecc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 11/34] fix: hash of arrays and slices left out the length
 prefix, so it differed from the type's own hash and was not prefix free

---
 facet-core/src/impls_core/array.rs | 4 +++-
 facet-core/src/impls_core/slice.rs | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 6413e1d..633326b 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use core::alloc::Layout;
-use core::{cmp::Ordering, iter::zip};
+use core::{cmp::Ordering, hash::Hash as _, iter::zip};
 
 unsafe impl<T, const L: usize> Facet for [T; L]
 where
@@ -145,6 +145,8 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<[T; L]>() };
+                            // like `[T]: Hash`, the elements are prefixed by their number
+                            L.hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..51981b7 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::alloc::Layout;
+use core::{alloc::Layout, hash::Hash as _};
 
 unsafe impl<T> Facet for &[T]
 where
@@ -143,6 +143,10 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<&[T]>() };
+                            // like `[T]: Hash`, the elements are prefixed by their number
+                            value
+                                .len()
+                                .hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
-- 
2.43.0


From 609448b5936bd77828ae7ff2d39ef07dad7f3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 12/34] fix: a field declared with a raw identifier (r#type)
 was named "r#type" in the shape

---
 facet-derive-emit/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 27418d6..633ef12 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -207,10 +207,13 @@ pub(crate) fn gen_struct_field(
         .map(|offset| format!(" + {offset}"))
         .unwrap_or_default();
 
+    // A raw identifier (`r#type`) names the field `type`
+    let display_name = field_name.strip_prefix("r#").unwrap_or(field_name);
+
     // Generate each field definition
     format!(
         "::facet::Field::builder()
-    .name(\"{field_name}\")
+    .name(\"{display_name}\")
     .shape(|| ::facet::{shape_of}(&|s: &{struct_name}<{generics}>| &s.{field_name}))
     .offset(::core::mem::offset_of!({struct_name}<{generics}>, {field_name}){maybe_base_field_offset})
     .flags({flags})
-- 
2.43.0


From 3555b901f955f444b21b3c48f669097e82d7a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 13/34] fix: the builder leaked on failed builds and partially
 built enums, dropped nested values twice, and kept the state of values moved
 into containers

---
 facet-reflect/src/wip/mod.rs | 336 ++++++++++-------------------------
 1 file changed, 98 insertions(+), 238 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..c8c9431 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -6,11 +6,11 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -135,29 +135,21 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
-                trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
-                    self.shape.green(),
-                    self.data.as_byte_ptr()
-                );
-                drop_in_place(self.data.assume_init());
-            }
-        } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
+    /// Returns the fields this frame can hold: those of the struct, or of the selected variant
+    fn fields(&self) -> &'static [Field] {
+        match self.shape.def {
+            Def::Struct(sd) => sd.fields,
+            Def::Enum(_) => self.istate.variant.map_or(&[], |v| v.data.fields),
+            _ => &[],
         }
-        self.dealloc_if_needed();
+    }
+
+    /// Returns the ID under which the given field of this frame is tracked
+    fn field_id(&self, field: &Field) -> ValueId {
+        ValueId::new(
+            field.shape(),
+            unsafe { self.data.field_uninit_at(field.offset) }.as_byte_ptr(),
+        )
     }
 
     /// Marks the frame as fully initialized
@@ -179,6 +171,7 @@ impl Frame {
 }
 
 /// Initialization state
+#[derive(Clone)]
 struct IState {
     /// Variant chosen — for everything except enums, this stays None
     variant: Option<Variant>,
@@ -326,12 +319,62 @@ impl<'a> Wip<'a> {
         // the stack, we still need to track them _somewhere_
         //
         // the root also relies on being tracked in the drop impl
+        if frame.istate.mode == FrameMode::OptionNone {
+            // there is no value in there: the frame aliases the option it was pushed on
+            return;
+        }
         if !frame.istate.flags.contains(FrameFlags::MOVED) {
             self.istates.insert(frame.id(), frame.istate);
         }
     }
 
+    /// Drops whatever the given frame holds (all of it, or the parts that were initialized)
+    /// and forgets the state of its fields. The memory of the frame itself isn't freed.
+    ///
+    /// # Safety
+    ///
+    /// None of the fields of the frame can be on the stack.
+    unsafe fn deinit(istates: &mut FlatMap<ValueId, IState>, frame: &mut Frame) {
+        if frame.is_fully_initialized() {
+            Self::evict_fields(istates, frame);
+            if let Some(drop_in_place) = frame.shape.vtable.drop_in_place {
+                unsafe { drop_in_place(frame.data.assume_init()) };
+            }
+        } else {
+            for (i, field) in frame.fields().iter().enumerate() {
+                let field_id = frame.field_id(field);
+                let field_istate = istates.remove(&field_id);
+                if frame.istate.fields.has(i) {
+                    if let Some(istate) = field_istate {
+                        Self::evict_fields(istates, &Frame::recompose(field_id, istate));
+                    }
+                    if let Some(drop_in_place) = field.shape().vtable.drop_in_place {
+                        unsafe { drop_in_place(frame.data.field_init_at(field.offset)) };
+                    }
+                } else if let Some(istate) = field_istate {
+                    let mut field_frame = Frame::recompose(field_id, istate);
+                    unsafe { Self::deinit(istates, &mut field_frame) };
+                }
+            }
+        }
+        ISet::clear(&mut frame.istate.fields);
+        frame.istate.variant = None;
+    }
+
+    /// Forgets the state of all the fields of a frame, recursively
+    fn evict_fields(istates: &mut FlatMap<ValueId, IState>, frame: &Frame) {
+        for field in frame.fields() {
+            let field_id = frame.field_id(field);
+            if let Some(istate) = istates.remove(&field_id) {
+                Self::evict_fields(istates, &Frame::recompose(field_id, istate));
+            }
+        }
+    }
+
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        // the fields went along: if their state stayed around, they would be dropped again,
+        // or taken for initialized when the memory is reused.
+        Self::evict_fields(&mut self.istates, frame);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -382,22 +425,14 @@ impl<'a> Wip<'a> {
         // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
         let root_istate = self
             .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
+            .get(&root_id)
+            .cloned()
+            .expect("Root ID found but not present in istates, this is a bug");
 
         let root_frame = Frame::recompose(root_id, root_istate);
         let root_shape = root_frame.shape;
         let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
 
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
         // 3. Initialize `to_check`
         let mut to_check = alloc::vec![root_frame];
 
@@ -447,7 +482,7 @@ impl<'a> Wip<'a> {
                         let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                         let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
+                        if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                             debug!(
                                 "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
                                 _i.to_string().bright_cyan(),
@@ -490,7 +525,7 @@ impl<'a> Wip<'a> {
                             let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                             let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
+                            if let Some(field_istate) = self.istates.get(&field_id).cloned() {
                                 debug!(
                                     "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
                                     _i.to_string().bright_cyan(),
@@ -577,7 +612,16 @@ impl<'a> Wip<'a> {
             );
         }
 
-        FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
+        // 6. Transfer ownership of the root data to the HeapValue: from here on, the root (and
+        // its fields) is not ours to clean up anymore. Anything else that's still tracked (an
+        // incomplete list element for example) is cleaned up when `self` is dropped.
+        if let Some(istate) = self.istates.remove(&root_id) {
+            Self::evict_fields(&mut self.istates, &Frame::recompose(root_id, istate));
+        }
+        let guard = Guard {
+            ptr: root_data_ptr.as_mut_byte_ptr(),
+            layout: root_shape.layout,
+        };
 
         Ok(HeapValue {
             guard: Some(guard),
@@ -1685,67 +1729,7 @@ impl<'a> Wip<'a> {
     /// (because we're about to use `drop_in_place` on it — not
     /// yet though, we need to know the variant for enums, etc.)
     pub fn evict_tree(&mut self, frame: Frame) -> Frame {
-        match frame.shape.def {
-            Def::Struct(sd) => {
-                for f in sd.fields {
-                    let id = ValueId {
-                        shape: f.shape(),
-                        ptr: unsafe { frame.data.field_uninit_at(f.offset) }.as_byte_ptr(),
-                    };
-                    if let Some(istate) = self.istates.remove(&id) {
-                        let frame = Frame::recompose(id, istate);
-                        self.evict_tree(frame);
-                    } else {
-                        trace!("No istate found for field {}", f.name);
-                    }
-                }
-            }
-            Def::Enum(_ed) => {
-                // Check if a variant is selected in the istate
-                if let Some(variant) = &frame.istate.variant {
-                    trace!(
-                        "Evicting enum {} variant '{}' fields",
-                        frame.shape.blue(),
-                        variant.name.yellow()
-                    );
-                    // Iterate over the fields of the selected variant
-                    for field in variant.data.fields {
-                        // Calculate the pointer to the field within the enum's data payload
-                        let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
-                        let field_shape = field.shape();
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                        // Try to remove the field's state from istates
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            trace!(
-                                "Evicting field '{}' (shape {}) of enum variant '{}'",
-                                field.name.bright_blue(),
-                                field_shape.green(),
-                                variant.name.yellow()
-                            );
-                            // Recompose the frame for the field
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            // Recursively evict the field's subtree
-                            self.evict_tree(field_frame);
-                        } else {
-                            trace!(
-                                "Field '{}' (shape {}) of enum variant '{}' not found in istates, skipping eviction",
-                                field.name.red(),
-                                field_shape.red(),
-                                variant.name.yellow()
-                            );
-                        }
-                    }
-                } else {
-                    // No variant selected, nothing to evict within the enum
-                    trace!(
-                        "Enum {} has no variant selected, no fields to evict.",
-                        frame.shape.blue()
-                    );
-                }
-            }
-            _ => {}
-        }
+        Self::evict_fields(&mut self.istates, &frame);
         frame
     }
 
@@ -1862,19 +1846,20 @@ impl Drop for Wip<'_> {
             self.track(frame);
         }
 
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
-            trace!("No root found, we probably built already");
-            return;
-        };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
+        // Everything we own is either an allocation of ours (the root, list elements, map keys
+        // and values, contents of options), or a field somewhere inside of one.
+        let allocated = self
+            .istates
+            .iter()
+            .filter(|(_k, istate)| istate.flags.contains(FrameFlags::ALLOCATED))
+            .map(|(id, _)| *id)
+            .collect::<Vec<_>>();
 
-        while let Some(mut frame) = to_clean.pop() {
+        for id in allocated {
+            let Some(istate) = self.istates.remove(&id) else {
+                continue;
+            };
+            let mut frame = Frame::recompose(id, istate);
             trace!(
                 "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
                 frame.shape.blue(),
@@ -1887,133 +1872,8 @@ impl Drop for Wip<'_> {
                     "❌"
                 }
             );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
-            }
+            unsafe { Self::deinit(&mut self.istates, &mut frame) };
+            frame.dealloc_if_needed();
         }
     }
 }
-- 
2.43.0


From 50bb9170f7b92746de9d74d556e76641e0eaa44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 14/34] fix: putting a value leaked it when refused, and leaked
 or overwrote what the place already held

---
 facet-reflect/src/wip/mod.rs | 111 ++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 53 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index c8c9431..6377e45 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -798,7 +798,9 @@ impl<'a> Wip<'a> {
         let shape = T::SHAPE;
         let ptr_const = PtrConst::new(&t as *const T as *const u8);
         let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        if res.is_ok() {
+            core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        }
         res
     }
 
@@ -809,7 +811,46 @@ impl<'a> Wip<'a> {
             .is_some_and(|frame| frame.shape == T::SHAPE)
     }
 
+    /// Makes sure that the current frame can receive a value, and drops whatever part
+    /// of it was already initialized.
+    ///
+    /// If this succeeds, the frame holds nothing, and `mark_field_as_initialized` will succeed.
+    fn prepare_put(&mut self) -> Result<(), ReflectError> {
+        let Some((frame, parents)) = self.frames.split_last_mut() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to put a value but there was no frame to put into",
+            });
+        };
+
+        if let Some(index) = frame.field_index_in_parent {
+            if parents
+                .last()
+                .is_some_and(|parent| parent.istate.fields.has(index))
+            {
+                return Err(ReflectError::OperationFailed {
+                    shape: frame.shape,
+                    operation: "tried to put a value, but the parent frame already had it marked as initialized",
+                });
+            }
+        }
+
+        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
+            debug!("De-initializing {}", frame.shape);
+        }
+        // even if none of the fields is set, some of them may be partially initialized
+        if frame.istate.variant.is_some()
+            || !frame.fields().is_empty()
+            || frame.istate.fields.is_any_set()
+        {
+            unsafe { Self::deinit(&mut self.istates, frame) };
+        }
+        Ok(())
+    }
+
     /// Puts a value from a `PtrConst` with the given shape into the current frame.
+    ///
+    /// If this succeeds, the value was moved out of `src`. Otherwise, `src` was left alone.
     pub fn put_shape<'val>(
         mut self,
         src: PtrConst<'val>,
@@ -833,14 +874,10 @@ impl<'a> Wip<'a> {
                 // Check if inner type matches
                 if od.t() == src_shape {
                     debug!("Putting into an Option<T>!");
-                    if frame.istate.fields.is_any_set() {
-                        let data = unsafe { frame.data.assume_init() };
-                        unsafe { (od.vtable.replace_with_fn)(data, Some(src)) };
-                    } else {
-                        let data = frame.data;
-                        unsafe { (od.vtable.init_some_fn)(data, src) };
-                    }
+                    self.prepare_put()?;
+                    let frame = self.frames.last_mut().unwrap();
                     unsafe {
+                        (od.vtable.init_some_fn)(frame.data, src);
                         frame.mark_fully_initialized();
                     }
 
@@ -863,49 +900,8 @@ impl<'a> Wip<'a> {
         }
 
         // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
-            }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
 
         unsafe {
             // Copy the contents from src to destination
@@ -942,10 +938,12 @@ impl<'a> Wip<'a> {
                 operation: "type does not implement Parse",
             });
         };
-        match unsafe { (parse_fn)(s, frame.data) } {
+        let data = frame.data;
+        self.prepare_put()?;
+        match unsafe { (parse_fn)(s, data) } {
             Ok(_res) => {
                 unsafe {
-                    frame.mark_fully_initialized();
+                    self.frames.last_mut().unwrap().mark_fully_initialized();
                 }
 
                 // mark the field as initialized
@@ -962,6 +960,7 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
+        self.prepare_put()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1102,6 +1101,9 @@ impl<'a> Wip<'a> {
             });
         };
 
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1142,6 +1144,9 @@ impl<'a> Wip<'a> {
             });
         };
 
+        self.prepare_put()?;
+        let frame = self.frames.last_mut().unwrap();
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
-- 
2.43.0


From d8bf2af5228bb522965cda074e72a2d7453bb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 15/34] fix: selecting another variant leaked the fields of the
 previous one and left the enum marked complete; an enum put as a whole could
 not be built

---
 facet-reflect/src/wip/enum_.rs | 10 +++++++---
 facet-reflect/src/wip/mod.rs   | 26 ++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..4187a23 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -35,8 +35,12 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop the fields of the variant that was selected before, if any: they're not part of
+        // the value anymore, which means that the frames above aren't complete anymore either.
+        unsafe { Self::deinit(&mut self.istates, frame) };
+        self.unmark_current_frame();
+
+        let frame = self.frames.last_mut().unwrap();
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6377e45..efdb717 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -159,8 +159,14 @@ impl Frame {
                 self.istate.fields = ISet::all(sd.fields);
             }
             Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
+                // a whole value was put in there: it knows which variant it is
+                let peek = unsafe {
+                    crate::Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                };
+                if let Ok(peek) = peek.into_enum() {
+                    let variant = peek.active_variant();
                     self.istate.fields = ISet::all(variant.data.fields);
+                    self.istate.variant = Some(*variant);
                 }
             }
             _ => {
@@ -1047,6 +1053,19 @@ impl<'a> Wip<'a> {
         Ok(())
     }
 
+    /// Marks the current frame as not initialized in its parent — and the parent in its own parent, etc.
+    fn unmark_current_frame(&mut self) {
+        for child_index in (1..self.frames.len()).rev() {
+            let child = &self.frames[child_index];
+            let (FrameMode::Field, Some(index)) =
+                (child.istate.mode, child.field_index_in_parent)
+            else {
+                return;
+            };
+            self.frames[child_index - 1].istate.fields.unset(index);
+        }
+    }
+
     /// Returns the shape of the element type for a list/array
     pub fn element_shape(&self) -> Result<&'static Shape, ReflectError> {
         let frame = self.frames.last().unwrap();
@@ -1404,9 +1423,8 @@ impl<'a> Wip<'a> {
             field_index_in_parent: Some(0),
             istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
+        // There's no value in there, but there is nothing left to initialize either
+        frame.istate.fields.set(0);
 
         self.frames.push(frame);
 
-- 
2.43.0


From 765a9ce8769e8abced15e6b39cc1e075c5995d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 16/34] fix: setting an option again leaked what it held, and
 its None frame could be built into or dropped as a value

---
 facet-reflect/src/wip/enum_.rs |  1 +
 facet-reflect/src/wip/mod.rs   | 43 +++++++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index 4187a23..dbd7ee2 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -17,6 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         let frame = self.frames.last_mut().unwrap();
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index efdb717..73827cc 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -390,6 +390,20 @@ impl<'a> Wip<'a> {
         self.istates.remove(&frame.id());
     }
 
+    /// Fails if the current frame is the `None` of an option: there's no value in there, so
+    /// nothing of it can be built
+    pub(crate) fn refuse_none(&self) -> Result<(), ReflectError> {
+        match self.frames.last() {
+            Some(frame) if frame.istate.mode == FrameMode::OptionNone => {
+                Err(ReflectError::OperationFailed {
+                    shape: frame.shape,
+                    operation: "the current frame is the None of an option, it cannot hold a value",
+                })
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Returns the shape of the current frame
     pub fn shape(&self) -> &'static Shape {
         self.frames.last().unwrap().shape
@@ -648,6 +662,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         let frame = self.frames.last_mut().unwrap();
         let shape = frame.shape;
 
@@ -1182,6 +1197,7 @@ impl<'a> Wip<'a> {
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
     pub fn begin_pushback(mut self) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1218,6 +1234,7 @@ impl<'a> Wip<'a> {
 
     /// Begins insertion mode for a map, allowing key-value pairs to be added one by one
     pub fn begin_map_insert(mut self) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1257,6 +1274,7 @@ impl<'a> Wip<'a> {
     /// This creates a new frame for the element. When this frame is popped,
     /// the element will be added to the list.
     pub fn push(mut self) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         // Make sure we're initializing a list
         let frame = self.frames.last().unwrap();
         let list_shape = frame.shape;
@@ -1304,6 +1322,7 @@ impl<'a> Wip<'a> {
 
     /// Prepare to push the `Some(T)` variant of an `Option<T>`.
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         // Make sure we're initializing an option
         let frame = self.frames.last().unwrap();
         let option_shape = frame.shape;
@@ -1380,6 +1399,8 @@ impl<'a> Wip<'a> {
             });
         }
 
+        // 2. Drop whatever was put in there already, free the memory
+        unsafe { Self::deinit(&mut self.istates, frame) };
         frame.dealloc_if_needed();
 
         // 3. Pop the frame (this discards, doesn't propagate up)
@@ -1396,7 +1417,12 @@ impl<'a> Wip<'a> {
 
         // Safety: option frames are correctly sized, and data is valid
         unsafe {
-            if let Some(default_fn) = parent_frame.shape.vtable.default_in_place {
+            if let (true, Def::Option(od)) =
+                (parent_frame.is_fully_initialized(), parent_frame.shape.def)
+            {
+                // drop whatever the option holds already
+                (od.vtable.replace_with_fn)(parent_frame.data.assume_init(), None);
+            } else if let Some(default_fn) = parent_frame.shape.vtable.default_in_place {
                 default_fn(parent_frame.data);
             } else {
                 return Err(ReflectError::OperationFailed {
@@ -1436,6 +1462,7 @@ impl<'a> Wip<'a> {
     /// This creates a new frame for the key. After setting the key value,
     /// call `push_map_value` to create a frame for the corresponding value.
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
         // Make sure we're initializing a map
         let frame = self.frames.last().unwrap();
         let map_shape = frame.shape;
@@ -1711,11 +1738,15 @@ impl<'a> Wip<'a> {
                                 parent_shape.blue()
                             );
                             unsafe {
-                                // Call the option's init_some function
-                                (option_def.vtable.init_some_fn)(
-                                    parent_frame.data,
-                                    PtrConst::new(frame.data.as_byte_ptr()),
-                                );
+                                let value = PtrConst::new(frame.data.as_byte_ptr());
+                                if parent_frame.is_fully_initialized() {
+                                    // drop whatever the option holds already
+                                    let option = parent_frame.data.assume_init();
+                                    (option_def.vtable.replace_with_fn)(option, Some(value));
+                                } else {
+                                    // Call the option's init_some function
+                                    (option_def.vtable.init_some_fn)(parent_frame.data, value);
+                                }
                                 trace!("Marking parent frame as fully initialized");
                                 parent_frame.mark_fully_initialized();
 
-- 
2.43.0


From bfcc9ca4ec390680beeb590b9924c5b6644da2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 17/34] fix: the fields of a struct put as a whole were
 considered uninitialized when selected

---
 facet-reflect/src/wip/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 73827cc..89cd575 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -704,6 +704,7 @@ impl<'a> Wip<'a> {
         };
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
+        let already_initialized = frame.istate.fields.has(index);
 
         let mut frame = Frame {
             data: field_data,
@@ -741,6 +742,16 @@ impl<'a> Wip<'a> {
                 shape.blue(),
             );
         }
+        if already_initialized && !frame.is_fully_initialized() {
+            // The parent was put as a whole
+            unsafe { frame.mark_fully_initialized() };
+        } else if !already_initialized
+            && frame.istate.fields.is_any_set()
+            && frame.is_fully_initialized()
+        {
+            // That's the state of another, zero-sized, field at the same address
+            frame.istate = IState::new(self.frames.len(), FrameMode::Field, FrameFlags::EMPTY);
+        }
         self.frames.push(frame);
         Ok(self)
     }
@@ -1072,8 +1083,7 @@ impl<'a> Wip<'a> {
     fn unmark_current_frame(&mut self) {
         for child_index in (1..self.frames.len()).rev() {
             let child = &self.frames[child_index];
-            let (FrameMode::Field, Some(index)) =
-                (child.istate.mode, child.field_index_in_parent)
+            let (FrameMode::Field, Some(index)) = (child.istate.mode, child.field_index_in_parent)
             else {
                 return;
             };
-- 
2.43.0


From b054cf3197c113fb7f78d8104d5ab642ec674244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 18/34] fix: put_peek took ownership of a borrowed value, so
 filling the missing fields of a JSON object from a default struct dropped
 them twice

---
 facet-json/src/deserialize.rs | 23 +----------
 facet-reflect/src/wip/mod.rs  | 78 ++++++++++++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 24 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 45bcfc6..848f5d4 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -593,28 +593,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 "Default struct has missing fields, the `default` impl but it does not implement Default"
                             )
                         }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                        wip = wip.put_unset_fields_from_default().unwrap();
                     }
 
                     if frame_count == 1 {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 89cd575..dbe0b28 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -286,12 +286,86 @@ pub struct Wip<'a> {
 }
 
 impl<'a> Wip<'a> {
-    /// Puts the value from a Peek into the current frame.
+    /// Puts a clone of the value from a Peek into the current frame.
     pub fn put_peek<'mem>(self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let shape = peek.shape;
+        let Some(clone_into) = shape.vtable.clone_into else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Clone",
+            });
+        };
+
+        // The value still belongs to whatever we're peeking into: put a clone
+        let tmp = Guard {
+            ptr: shape.allocate().as_mut_byte_ptr(),
+            layout: shape.layout,
+        };
+        unsafe { clone_into(peek.data, PtrUninit::new(tmp.ptr)) };
+        let res = self.put_shape(PtrConst::new(tmp.ptr), shape);
+        if res.is_err() {
+            if let Some(drop_in_place) = shape.vtable.drop_in_place {
+                unsafe { drop_in_place(PtrMut::new(tmp.ptr)) };
+            }
+        }
+        res
+    }
+
+    /// Fills the fields of the current struct that aren't set yet with the fields of its
+    /// default value.
+    pub fn put_unset_fields_from_default(mut self) -> Result<Self, ReflectError> {
+        self.refuse_none()?;
+        let Some(frame) = self.frames.last_mut() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to put default fields but there was no frame",
+            });
+        };
+        let shape = frame.shape;
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+        let Some(default_in_place) = shape.vtable.default_in_place else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Default",
+            });
+        };
+
+        // Build the default value on the side, then take it apart
+        let tmp = Guard {
+            ptr: shape.allocate().as_mut_byte_ptr(),
+            layout: shape.layout,
+        };
+        unsafe { default_in_place(PtrUninit::new(tmp.ptr)) };
+        for (i, field) in sd.fields.iter().enumerate() {
+            let src = unsafe { PtrUninit::new(tmp.ptr).field_uninit_at(field.offset) };
+            if frame.istate.fields.has(i) {
+                if let Some(drop_in_place) = field.shape().vtable.drop_in_place {
+                    unsafe { drop_in_place(src.assume_init()) };
+                }
+            } else {
+                // Parts of that field may have been initialized
+                let field_id = frame.field_id(field);
+                if let Some(istate) = self.istates.remove(&field_id) {
+                    let mut field_frame = Frame::recompose(field_id, istate);
+                    unsafe { Self::deinit(&mut self.istates, &mut field_frame) };
+                }
+                unsafe {
+                    let dst = frame.data.field_uninit_at(field.offset);
+                    dst.copy_from(PtrConst::new(src.as_byte_ptr()), field.shape());
+                }
+                frame.istate.fields.set(i);
+            }
+        }
+
+        Ok(self)
     }
 
     /// Returns the number of frames on the stack
-- 
2.43.0


From 7598c51a2b07bbf03d507f6054194c4ae27b5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 19/34] fix: a Peek of a finished value could outlive it

---
 facet-reflect/src/wip/heap_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/heap_value.rs b/facet-reflect/src/wip/heap_value.rs
index 31f67b5..3df6446 100644
--- a/facet-reflect/src/wip/heap_value.rs
+++ b/facet-reflect/src/wip/heap_value.rs
@@ -26,7 +26,7 @@ impl Drop for HeapValue<'_> {
 
 impl<'a> HeapValue<'a> {
     /// Returns a peek that allows exploring the heap value.
-    pub fn peek(&self) -> Peek<'a> {
+    pub fn peek(&self) -> Peek<'_> {
         unsafe { Peek::unchecked_new(PtrConst::new(self.guard.as_ref().unwrap().ptr), self.shape) }
     }
 
-- 
2.43.0


From 54140db1aed174d8fe29f9db59385c89d1fd3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 20/34] fix: negative integers, i16 and i8 could be written to
 MessagePack but not read back

---
 facet-msgpack/src/from_msgpack.rs | 58 ++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..4ad63da 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -165,6 +165,40 @@ impl<'input> Decoder<'input> {
         }
     }
 
+    /// Decodes a MessagePack-encoded integer that fits in a signed 64-bit integer.
+    /// Handles the formats of [`Self::decode_u64`], and:
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
+    /// - int8 (0xd0): 8-bit signed integer
+    /// - int16 (0xd1): 16-bit signed integer (big-endian)
+    /// - int32 (0xd2): 32-bit signed integer (big-endian)
+    /// - int64 (0xd3): 64-bit signed integer (big-endian)
+    ///
+    /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
+    fn decode_i64(&mut self) -> Result<i64, DecodeError> {
+        let start = self.offset;
+        match self.decode_u8()? {
+            MSGPACK_INT8 => Ok(self.decode_u8()? as i8 as i64),
+            MSGPACK_INT16 => Ok(self.decode_u16()? as i16 as i64),
+            MSGPACK_INT32 => Ok(self.decode_u32()? as i32 as i64),
+            MSGPACK_INT64 => {
+                let high = self.decode_u32()? as u64;
+                let low = self.decode_u32()? as u64;
+                Ok((high << 32 | low) as i64)
+            }
+            prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN && (prefix as i8) < 0 => {
+                Ok(prefix as i8 as i64)
+            }
+            _ => {
+                self.offset = start;
+                let n = self.decode_u64()?;
+                if n > i64::MAX as u64 {
+                    return Err(DecodeError::IntegerOverflow);
+                }
+                Ok(n as i64)
+            }
+        }
+    }
+
     /// Decodes a MessagePack-encoded string.
     /// Handles the following MessagePack types:
     /// - fixstr (0xa0 - 0xbf): string up to 31 bytes
@@ -431,18 +465,26 @@ impl<'input> Decoder<'input> {
                     }
                     wip.put(n as u8).unwrap()
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n = self.decode_i64()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
+                    let n = self.decode_i64()?;
+                    if n < i32::MIN as i64 || n > i32::MAX as i64 {
                         return Err(DecodeError::IntegerOverflow);
                     }
                     wip.put(n as i32).unwrap()
+                } else if shape.is_type::<i16>() {
+                    let n = self.decode_i64()?;
+                    if n < i16::MIN as i64 || n > i16::MAX as i64 {
+                        return Err(DecodeError::IntegerOverflow);
+                    }
+                    wip.put(n as i16).unwrap()
+                } else if shape.is_type::<i8>() {
+                    let n = self.decode_i64()?;
+                    if n < i8::MIN as i64 || n > i8::MAX as i64 {
+                        return Err(DecodeError::IntegerOverflow);
+                    }
+                    wip.put(n as i8).unwrap()
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
                     wip.put(b).unwrap()
-- 
2.43.0


From ddab419d4443ab399e2aee3ec2589e27fe509113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 21/34] fix: unknown MessagePack fields were skipped past the
 end of truncated input, by recursion, and not at all for small integers,
 floats, binary and extension values

---
 facet-msgpack/src/from_msgpack.rs | 124 ++++++++++++++++++------------
 1 file changed, 73 insertions(+), 51 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 4ad63da..11b0f01 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -185,9 +185,8 @@ impl<'input> Decoder<'input> {
                 let low = self.decode_u32()? as u64;
                 Ok((high << 32 | low) as i64)
             }
-            prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN && (prefix as i8) < 0 => {
-                Ok(prefix as i8 as i64)
-            }
+            // negative fixint
+            prefix @ 0xe0..=0xff => Ok(prefix as i8 as i64),
             _ => {
                 self.offset = start;
                 let n = self.decode_u64()?;
@@ -305,6 +304,30 @@ impl<'input> Decoder<'input> {
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
+        // Values left to skip: the items of a container are added to it, so nesting takes no stack
+        let mut pending: u64 = 1;
+        while pending > 0 {
+            // Every value takes at least one byte
+            if pending > (self.input.len() - self.offset) as u64 {
+                return Err(DecodeError::InsufficientData);
+            }
+            pending -= 1;
+            self.skip_header(&mut pending)?;
+        }
+        Ok(())
+    }
+
+    /// Skips a number of bytes.
+    fn skip_bytes(&mut self, len: usize) -> Result<(), DecodeError> {
+        if len > self.input.len() - self.offset {
+            return Err(DecodeError::InsufficientData);
+        }
+        self.offset += len;
+        Ok(())
+    }
+
+    /// Skips a scalar value or the header of a container, whose number of items is added to `pending`.
+    fn skip_header(&mut self, pending: &mut u64) -> Result<(), DecodeError> {
         let prefix = self.decode_u8()?;
 
         match prefix {
@@ -343,39 +366,53 @@ impl<'input> Decoder<'input> {
             }
 
             // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
+            MSGPACK_UINT8 => self.skip_bytes(1),
+            MSGPACK_UINT16 => self.skip_bytes(2),
+            MSGPACK_UINT32 => self.skip_bytes(4),
+            MSGPACK_UINT64 => self.skip_bytes(8),
+            MSGPACK_INT8 => self.skip_bytes(1),
+            MSGPACK_INT16 => self.skip_bytes(2),
+            MSGPACK_INT32 => self.skip_bytes(4),
+            MSGPACK_INT64 => self.skip_bytes(8),
+            MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(()),
+            0xe0..=0xff => Ok(()), // negative fixint
+
+            // Float formats
+            MSGPACK_FLOAT32 => self.skip_bytes(4),
+            MSGPACK_FLOAT64 => self.skip_bytes(8),
+
+            // Binary formats
+            MSGPACK_BIN8 => {
+                let len = self.decode_u8()? as usize;
+                self.skip_bytes(len)
             }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
+            MSGPACK_BIN16 => {
+                let len = self.decode_u16()? as usize;
+                self.skip_bytes(len)
             }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
+            MSGPACK_BIN32 => {
+                let len = self.decode_u32()? as usize;
+                self.skip_bytes(len)
             }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
+
+            // Extension formats (one byte of type, then the data)
+            MSGPACK_FIXEXT1 => self.skip_bytes(1 + 1),
+            MSGPACK_FIXEXT2 => self.skip_bytes(1 + 2),
+            MSGPACK_FIXEXT4 => self.skip_bytes(1 + 4),
+            MSGPACK_FIXEXT8 => self.skip_bytes(1 + 8),
+            MSGPACK_FIXEXT16 => self.skip_bytes(1 + 16),
+            MSGPACK_EXT8 => {
+                let len = self.decode_u8()? as usize;
+                self.skip_bytes(1 + len)
             }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
+            MSGPACK_EXT16 => {
+                let len = self.decode_u16()? as usize;
+                self.skip_bytes(1 + len)
             }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
+            MSGPACK_EXT32 => {
+                let len = self.decode_u32()? as usize;
+                self.skip_bytes(1 + len)
             }
-            // Fixed integers are already handled by decode_u8
 
             // Boolean and nil
             MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
@@ -383,49 +420,34 @@ impl<'input> Decoder<'input> {
             // Map format
             prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
                 let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
+                *pending += 2 * len as u64; // Skip keys and values
                 Ok(())
             }
             MSGPACK_MAP16 => {
                 let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
+                *pending += 2 * len as u64; // Skip keys and values
                 Ok(())
             }
             MSGPACK_MAP32 => {
                 let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
+                *pending += 2 * len as u64; // Skip keys and values
                 Ok(())
             }
 
             // Array format
             prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
                 let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
+                *pending += len as u64;
                 Ok(())
             }
             MSGPACK_ARRAY16 => {
                 let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
+                *pending += len as u64;
                 Ok(())
             }
             MSGPACK_ARRAY32 => {
                 let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
+                *pending += len as u64;
                 Ok(())
             }
 
-- 
2.43.0


From 70d428a4cc00abd767759ef6961fb1198f8908a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 22/34] fix: bool could be read from MessagePack but not
 written

---
 facet-msgpack/src/to_msgpack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..89f9fd5 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -47,6 +47,10 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
                     .get::<i8>()
                     .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
                 write_i8(writer, *value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                // true (0xc3) or false (0xc2)
+                writer.write_all(&[if *value { 0xc3 } else { 0xc2 }])
             } else {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From 8efba8549a8a91bfae1de6eff32a1a27fbc5507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 23/34] fix: a MessagePack map naming the same field twice
 panicked

---
 facet-msgpack/src/from_msgpack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 11b0f01..d55e4d8 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -514,15 +514,21 @@ impl<'input> Decoder<'input> {
                     return Err(DecodeError::UnsupportedType(format!("{}", shape)));
                 }
             }
-            Def::Struct(_) => {
+            Def::Struct(def) => {
                 trace!("Deserializing struct");
                 let map_len = self.decode_map_len()?;
 
+                let mut seen = vec![false; def.fields.len()];
                 let mut wip = wip;
                 for _ in 0..map_len {
                     let key = self.decode_string()?;
                     match wip.field_index(&key) {
                         Some(index) => {
+                            if seen[index] {
+                                // The same field twice
+                                return Err(DecodeError::InvalidData);
+                            }
+                            seen[index] = true;
                             wip = self
                                 .deserialize_value(wip.field(index).unwrap())?
                                 .pop()
-- 
2.43.0


From f3879cb3ebbd460d3abfbc9815c3d7da134ca474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 24/34] fix: comparing or looking up through a view never reads
 a value as another type

---
 facet-reflect/src/peek/map.rs   | 15 +++++++++++----
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..30ea2a2 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -69,16 +69,23 @@ impl<'mem> PeekMap<'mem> {
         self.len() == 0
     }
 
-    /// Check if the map contains a key
-    pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+    /// Check if the map contains a key (a key of another type than the map's is never in it)
+    pub fn contains_key<K: facet_core::Facet>(&self, key: &K) -> bool {
+        if self.def.k != K::SHAPE {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
         }
     }
 
-    /// Get a value from the map for the given key
-    pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+    /// Get a value from the map for the given key (a key of another type than the map's is never
+    /// in it)
+    pub fn get<K: facet_core::Facet>(&self, key: &K) -> Option<Peek<'mem>> {
+        if self.def.k != K::SHAPE {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..a97115c 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if equality comparison is not supported for this scalar type, or if the two values
+    /// have different shapes
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if comparison is not supported for this scalar type, or if the two values have
+    /// different shapes
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From 1c7255b8245273355a40232002f10d9060be63b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 25/34] fix: JSON object keys other than String were written
 unescaped, and non-finite floats as no JSON at all

---
 facet-json/src/serialize.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..fc11c07 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -128,10 +128,20 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // JSON has no notation for these
+            write!(writer, "null")
+        }
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // JSON has no notation for these
+            write!(writer, "null")
+        }
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
@@ -228,7 +238,7 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    write_json_string(writer, &key.to_string())?;
                 }
             }
             _ => {
-- 
2.43.0


From 49bcc775e3efd8af2a0dd71514eb39cc7a16f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 26/34] fix: skipping an unknown JSON member accepted an
 unterminated string, a lone minus and object keys that are no strings

---
 facet-json/src/deserialize.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 848f5d4..fcf6476 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -639,6 +639,11 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
             loop {
                 // Skip key
+                if *pos >= bytes.len() || bytes[*pos] != b'"' {
+                    return Err(JsonErrorKind::UnexpectedEof(
+                        "while skipping over value: object key is not a string",
+                    ));
+                }
                 skip_over_value(pos, input)?;
                 skip_whitespace(pos);
                 // Expect colon between key and value
@@ -700,6 +705,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
         b'"' => {
             // Skip a string, with escape processing
             *pos += 1;
+            let mut closed = false;
             while *pos < bytes.len() {
                 match bytes[*pos] {
                     b'\\' => {
@@ -713,6 +719,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                     }
                     b'"' => {
                         *pos += 1;
+                        closed = true;
                         break;
                     }
                     _ => {
@@ -720,7 +727,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                     }
                 }
             }
-            if *pos > bytes.len() {
+            if !closed {
                 return Err(JsonErrorKind::UnexpectedEof(
                     "while skipping over value: string ended unexpectedly",
                 ));
@@ -752,10 +759,10 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
         }
         b'-' | b'0'..=b'9' => {
             // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
             if bytes[*pos] == b'-' {
                 *pos += 1;
             }
+            let start = *pos;
             if *pos < bytes.len() && bytes[*pos] == b'0' {
                 *pos += 1;
             } else {
@@ -763,6 +770,9 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                     *pos += 1;
                 }
             }
+            if *pos == start {
+                return Err(JsonErrorKind::UnexpectedCharacter('-'));
+            }
             if *pos < bytes.len() && bytes[*pos] == b'.' {
                 *pos += 1;
                 let mut has_digit = false;
@@ -788,9 +798,6 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                     return Err(JsonErrorKind::UnexpectedCharacter('e'));
                 }
             }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
-            }
         }
         _ => {
             return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
-- 
2.43.0


From bcf7ee75a28f0105fd9b1e49b2a35db45c55b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 27/34] fix: white space inside an empty JSON object or array
 was refused

---
 facet-json/src/deserialize.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index fcf6476..28fc453 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -160,6 +160,7 @@ pub fn from_slice_wip<'input, 'a>(
                     b'{' => {
                         trace!("Object starting");
                         pos += 1;
+                        skip_spaces(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
                         };
@@ -181,6 +182,7 @@ pub fn from_slice_wip<'input, 'a>(
                     }
                     b'[' => {
                         pos += 1;
+                        skip_spaces(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
@@ -607,6 +609,13 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+/// Skips over white space
+fn skip_spaces(pos: &mut usize, input: &[u8]) {
+    while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos) {
+        *pos += 1;
+    }
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From bd938e842225b14d418eb6037aee55af9a642787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 28/34] fix: escapes in JSON strings were not decoded (\n was
 read as n, \u0041 as u0041)

---
 facet-json/src/deserialize.rs | 49 ++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 28fc453..4915a21 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -223,7 +223,29 @@ pub fn from_slice_wip<'input, 'a>(
                                         if bytes.is_empty() {
                                             bytes.extend(&input[start..pos]);
                                         }
-                                        bytes.push(next);
+                                        match next {
+                                            b'"' | b'\\' | b'/' => bytes.push(next),
+                                            b'b' => bytes.push(0x08),
+                                            b'f' => bytes.push(0x0C),
+                                            b'n' => bytes.push(b'\n'),
+                                            b'r' => bytes.push(b'\r'),
+                                            b't' => bytes.push(b'\t'),
+                                            b'u' => match unicode_escape(&input[pos..]) {
+                                                Some((c, len)) => {
+                                                    let mut buf = [0; 4];
+                                                    bytes.extend(c.encode_utf8(&mut buf).bytes());
+                                                    pos += len - 2;
+                                                }
+                                                None => {
+                                                    bail!(JsonErrorKind::UnexpectedCharacter('u'))
+                                                }
+                                            },
+                                            c => {
+                                                bail!(JsonErrorKind::UnexpectedCharacter(
+                                                    c as char
+                                                ))
+                                            }
+                                        }
                                         pos += 2;
                                     } else {
                                         bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
@@ -616,6 +638,31 @@ fn skip_spaces(pos: &mut usize, input: &[u8]) {
     }
 }
 
+/// Decodes the `\uXXXX` escape (or the surrogate pair of them) at the start of `rest`: the character
+/// and how many bytes the escape takes
+fn unicode_escape(rest: &[u8]) -> Option<(char, usize)> {
+    let unit = |at: usize| -> Option<u32> {
+        let mut n = 0;
+        if rest.get(at..at + 2)? != b"\\u" {
+            return None;
+        }
+        for d in rest.get(at + 2..at + 6)? {
+            n = n * 16 + (*d as char).to_digit(16)?;
+        }
+        Some(n)
+    };
+    let high = unit(0)?;
+    if (0xD800..0xDC00).contains(&high) {
+        let low = unit(6)?;
+        if !(0xDC00..0xE000).contains(&low) {
+            return None;
+        }
+        let c = 0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00);
+        return Some((char::from_u32(c)?, 12));
+    }
+    Some((char::from_u32(high)?, 6))
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From 2847ec0ff50b426f5223e393f7bbe666b5ff17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 29/34] fix: JSON numbers with an exponent were refused,
 malformed ones panicked

---
 facet-json/src/deserialize.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 4915a21..1de8992 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -395,7 +395,7 @@ pub fn from_slice_wip<'input, 'a>(
                         let start = pos - 1;
                         while let Some(c) = input.get(pos) {
                             match c {
-                                b'0'..=b'9' | b'.' => {
+                                b'0'..=b'9' | b'.' | b'e' | b'E' | b'+' | b'-' => {
                                     pos += 1;
                                 }
                                 _ => break,
@@ -403,7 +403,9 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                         let number = &input[start..pos];
                         let text = core::str::from_utf8(number).unwrap();
-                        let number = text.parse::<f64>().unwrap();
+                        let Ok(number) = text.parse::<f64>() else {
+                            bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                        };
                         trace!("Parsed {:?}", number.yellow());
 
                         // Beyond 2^53 an f64 cannot hold every integer: read the digits instead
@@ -416,7 +418,7 @@ pub fn from_slice_wip<'input, 'a>(
                         );
                         if wants_integer
                             && number.abs() >= 9007199254740992.0
-                            && !text.contains('.')
+                            && !text.contains(['.', 'e', 'E'])
                         {
                             wip = wip.parse(text).unwrap();
                         // Prefer try_put_f64 only if actually supported (can_put_f64)
-- 
2.43.0


From a8e44c913ee0bcc250c0c179e9fae4f4d043268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 30/34] fix: a JSON document that is an optional value was
 refused

---
 facet-json/src/deserialize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 1de8992..ef38349 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -138,8 +138,11 @@ pub fn from_slice_wip<'input, 'a>(
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+        let c = match input.get(pos).copied() {
+            Some(c) => c,
+            // leaving an option takes no input
+            None if expect == Expect::PopOption => b'\0',
+            None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
         };
 
         let mut finished_value: Option<WhyValue> = None;
-- 
2.43.0


From 6b6a5bbbcbe095d798bee8a4bc57d5d9cbe6196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 31/34] fix: JSON documents not fitting the type panicked

A member given twice, an object or array for a type that is none, null
for what is no option, text or numbers the type refuses.
---
 facet-json/src/deserialize.rs | 57 ++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index ef38349..f53d2fd 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -154,6 +154,9 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
+                if why == WhyValue::ObjectKey && c != b'"' {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
                 if let Def::Option(_) = wip.shape().def {
                     wip = wip.push_some().unwrap();
                     stack.push(Expect::PopOption);
@@ -162,6 +165,9 @@ pub fn from_slice_wip<'input, 'a>(
                 match c {
                     b'{' => {
                         trace!("Object starting");
+                        if !matches!(wip.shape().def, Def::Struct(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('{'));
+                        }
                         pos += 1;
                         skip_spaces(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
@@ -190,6 +196,9 @@ pub fn from_slice_wip<'input, 'a>(
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
+                        if !matches!(wip.shape().def, Def::List(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('['));
+                        }
                         wip = wip.begin_pushback().unwrap();
                         match c {
                             b']' => {
@@ -297,7 +306,18 @@ pub fn from_slice_wip<'input, 'a>(
                                 if wip.current_is_type::<String>() {
                                     wip = wip.put::<String>(value.into_owned()).unwrap();
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    let path = wip.path();
+                                    wip = match wip.parse(&value) {
+                                        Ok(wip) => wip,
+                                        Err(_) => {
+                                            return Err(JsonParseErrorWithContext::new(
+                                                JsonErrorKind::UnexpectedCharacter('"'),
+                                                input,
+                                                start - 1,
+                                                path,
+                                            ));
+                                        }
+                                    };
                                 }
                                 finished_value = Some(why);
                             }
@@ -324,6 +344,11 @@ pub fn from_slice_wip<'input, 'a>(
 
                                     if let Some(field) = field {
                                         trace!("found field {:?}", field.blue());
+                                        // a member that was given before
+                                        let index = wip.field_index(field.name);
+                                        if index.is_some_and(|i| matches!(wip.is_field_set(i), Ok(true))) {
+                                            bail!(JsonErrorKind::UnexpectedCharacter('"'));
+                                        }
                                         wip = wip.field_named(field.name).unwrap();
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
@@ -423,17 +448,39 @@ pub fn from_slice_wip<'input, 'a>(
                             && number.abs() >= 9007199254740992.0
                             && !text.contains(['.', 'e', 'E'])
                         {
-                            wip = wip.parse(text).unwrap();
+                            let path = wip.path();
+                            wip = match wip.parse(text) {
+                                Ok(wip) => wip,
+                                Err(_) => {
+                                    return Err(JsonParseErrorWithContext::new(
+                                        JsonErrorKind::NumberOutOfRange(number),
+                                        input,
+                                        pos,
+                                        path,
+                                    ));
+                                }
+                            };
                         // Prefer try_put_f64 only if actually supported (can_put_f64)
                         } else if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
+                            let path = wip.path();
+                            wip = match wip.try_put_f64(number) {
+                                Ok(wip) => wip,
+                                Err(_) => {
+                                    return Err(JsonParseErrorWithContext::new(
+                                        JsonErrorKind::NumberOutOfRange(number),
+                                        input,
+                                        pos,
+                                        path,
+                                    ));
+                                }
+                            };
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
                             let shape = wip.shape();
                             if let Def::Scalar(sd) = shape.def {
                                 if let ScalarAffinity::String(_) = sd.affinity {
                                     if shape.is_type::<String>() {
-                                        let value = number.to_string();
+                                        let value = text.to_string();
                                         bail!(JsonErrorKind::StringAsNumber(value));
                                     }
                                 }
@@ -486,7 +533,7 @@ pub fn from_slice_wip<'input, 'a>(
                     b'n' => {
                         // wow it's a null — probably
                         let slice_rest = &input[pos..];
-                        if slice_rest.starts_with(b"null") {
+                        if slice_rest.starts_with(b"null") && wip.in_option() {
                             pos += 4;
 
                             // ok but we already pushed some! luckily wip has the method for us
-- 
2.43.0


From 5d1438efe1b3567fd4b48585a706cbf6a0e3c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 32/34] fix: displaying a JSON error at a multi-byte character
 panicked

---
 facet-json/src/deserialize/error.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..9f24609 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -102,6 +102,15 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
                 (self.pos, span_end)
             }
         };
+        // the span covers whole characters
+        let mut span_start = span_start.min(input_str.len());
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        let mut span_end = span_end.clamp(span_start, input_str.len());
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
 
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
-- 
2.43.0


From c6ceba5c835edc8e228796a44bc6d498ccfa6818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 33/34] fix: JSON null for an optional struct was refused

---
 facet-json/src/deserialize.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index f53d2fd..8071d89 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -536,9 +536,10 @@ pub fn from_slice_wip<'input, 'a>(
                         if slice_rest.starts_with(b"null") && wip.in_option() {
                             pos += 4;
 
-                            // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
-                            finished_value = Some(why);
+                            // ok but we already pushed some! luckily wip has the method for us.
+                            // The frame that takes its place is no value to be completed.
+                            wip = wip.pop_some_push_none().unwrap().pop().unwrap();
+                            continue;
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
                         }
-- 
2.43.0


From e5ca5c5c7764bb0cab4d4c36a9e34a094524936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 34/34] fix: escapes in #[facet(rename = "...")] were taken as
 they are spelled

---
 facet-derive-emit/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 633ef12..23dc68c 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -169,9 +169,16 @@ pub(crate) fn gen_struct_field(
                     if let Some(equal_pos) = attr_str.find('=') {
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim().trim_matches('"');
-                            attribute_list
-                                .push(format!(r#"::facet::FieldAttribute::Rename({:?})"#, value));
+                            let value = attr_str[equal_pos + 1..].trim();
+                            if value.starts_with('"') {
+                                // a string literal, with its escapes
+                                attribute_list
+                                    .push(format!("::facet::FieldAttribute::Rename({value})"));
+                            } else {
+                                attribute_list.push(format!(
+                                    "::facet::FieldAttribute::Rename({value:?})"
+                                ));
+                            }
                         } else {
                             attribute_list.push(format!(
                                 r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-- 
2.43.0

