From ad7e505d301d34c4dca3e317bc532dfa1c4860ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 1/8] Verification hooks: initial versions (cfg gecs_verif) and
 a small capacity limit (cfg gecs_verif_small)

---
 src/index.rs   |  4 ++++
 src/lib.rs     |  1 +
 src/version.rs | 28 ++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index 9191f2b..24a7df2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -1,6 +1,10 @@
 use crate::entity::ARCHETYPE_ID_BITS;
 use crate::util::debug_checked_assume;
 
+// Verification hook: a limit small enough to be reached by a harness.
+#[cfg(gecs_verif_small)]
+pub(crate) const MAX_DATA_CAPACITY: u32 = 5;
+#[cfg(not(gecs_verif_small))]
 pub(crate) const MAX_DATA_CAPACITY: u32 = 1 << (u32::BITS - ARCHETYPE_ID_BITS);
 pub(crate) const MAX_DATA_INDEX: u32 = MAX_DATA_CAPACITY - 1;
 
diff --git a/src/lib.rs b/src/lib.rs
index e9a2920..460fc6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::type_complexity)] // lol
 #![allow(clippy::too_many_arguments)] // lmao
 #![allow(clippy::needless_doctest_main)] // this has false positives with gecs's macros
+#![allow(unexpected_cfgs)] // cfg(gecs_verif) and cfg(gecs_verif_small) guard verification hooks
 #![allow(clippy::bool_comparison)] // using "== false" is easier to read in some cases
 #![allow(clippy::len_zero)] // using "len() > 0" is easier to read in some cases
 
diff --git a/src/version.rs b/src/version.rs
index 1149a9b..fdae0d4 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -3,6 +3,24 @@ use std::num::NonZeroU32;
 // Starting version number. Must convert to a NonZeroU32.
 const VERSION_START: NonZeroU32 = NonZeroU32::MIN;
 
+// Verification hook: lets a harness choose the version that new slots and archetypes start with,
+// standing for any number of earlier create/destroy cycles. Zero keeps the usual start.
+#[cfg(gecs_verif)]
+mod verif {
+    extern "Rust" {
+        fn gecs_verif_slot_version_start() -> u32;
+        fn gecs_verif_archetype_version_start() -> u32;
+    }
+
+    pub(super) fn slot() -> Option<std::num::NonZeroU32> {
+        std::num::NonZeroU32::new(unsafe { gecs_verif_slot_version_start() })
+    }
+
+    pub(super) fn archetype() -> Option<std::num::NonZeroU32> {
+        std::num::NonZeroU32::new(unsafe { gecs_verif_archetype_version_start() })
+    }
+}
+
 #[repr(transparent)]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub struct SlotVersion {
@@ -25,6 +43,11 @@ impl SlotVersion {
 
     #[inline(always)]
     pub(crate) fn start() -> Self {
+        #[cfg(gecs_verif)]
+        if let Some(version) = verif::slot() {
+            return Self { version };
+        }
+
         Self {
             version: VERSION_START,
         }
@@ -49,6 +72,11 @@ impl SlotVersion {
 impl ArchetypeVersion {
     #[inline(always)]
     pub(crate) fn start() -> Self {
+        #[cfg(gecs_verif)]
+        if let Some(version) = verif::archetype() {
+            return Self { version };
+        }
+
         Self {
             version: VERSION_START,
         }
-- 
2.43.0


From b1db8cca4155c8e6e189c42d4cce89ce3b7800f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 2/8] fix: a destroy that panics on version overflow no longer
 leaves the archetype inconsistent

The slot and archetype versions were advanced after the entity's components had
already been moved out, so an overflow panic dropped them and left the storage
still pointing at them.
---
 src/archetype/slot.rs    |  8 ++++----
 src/archetype/storage.rs | 13 +++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..fa0ba89 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -150,13 +150,13 @@ impl Slot {
         // NOTE: We increment the version on release, not assignment.
     }
 
-    /// Releases a slot and increments its version, invalidating all handles.
-    /// Returns an `EcsError::VersionOverflow` if the version increment overflows.
+    /// Releases a slot and sets it to its next version, invalidating all handles.
+    /// The caller computes the next version, since incrementing it panics on overflow.
     #[inline(always)]
-    pub(crate) fn release(&mut self, index_next_free: SlotIndex) {
+    pub(crate) fn release(&mut self, index_next_free: SlotIndex, next_version: SlotVersion) {
         debug_assert!(self.is_free() == false);
         self.index = index_next_free;
-        self.version = self.version.next();
+        self.version = next_version;
     }
 }
 
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..44e9c3e 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -559,6 +559,15 @@ macro_rules! declare_storage_n {
                             entities[dense_index_usize].version(),
                             self.slots.slice(self.capacity())[slot_index_usize].version());
 
+                        // Advance the versions first, since this can panic on overflow. We must not
+                        // unwind after we've begun moving data out, so nothing may change before this.
+                        let next_version = self.version.next();
+                        let next_slot_version = self.slots
+                            .slice(self.capacity()) // SAFETY: We know the slots are valid to here.
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+
                         #[cfg(feature = "events")]
                         {
                             self.destroyed.push(*entities.get_unchecked(dense_index_usize));
@@ -589,10 +598,10 @@ macro_rules! declare_storage_n {
                         // Return the target slot to the free list
                         slots
                             .get_unchecked_mut(slot_index_usize) // SAFETY: See declaration.
-                            .release(self.free_head);
+                            .release(self.free_head, next_slot_version);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From 9f86acb3441ce26677fe17ed786b90b8d677cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 3/8] fix: to_direct no longer returns a stale direct handle as
 if it were valid

Converting a direct key returned it unconditionally, so to_direct accepted direct
handles that had been invalidated by a removal or came from another world.
---
 src/archetype/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 44e9c3e..b5e016b 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -671,7 +671,9 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    // We're already an EntityDirect, but we may be stale, so make sure we resolve
+                    self.resolve_direct(entity)?;
+                    Some(entity)
                 }
 
                 #[inline]
-- 
2.43.0


From 514a760eef73939f07688ebc9f6c2cef9204cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 4/8] fix: a handle converted unchecked from another archetype
 no longer resolves by accident

A typed handle carrying another archetype's id was looked up by position and
version alone, so in release builds it could match an unrelated entity.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index b5e016b..b1dfd00 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion could have given us another archetype's entity.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion could have given us another archetype's entity.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From 7dbb80f952e793cfe5ad3bddfc9ecc43f95086b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 5/8] fix: ecs_iter_destroy! hands out valid direct handles
 after destroying an entity

The archetype version was read once before the loop, so every EntityDirect passed
to the closure after the first destroyed entity was already stale.
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..1a89bef 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // Destroying an entity changes the version, so fetch it each time
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From e15aa5c279f6ec48cf7d8f82e408a1238f2aebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:56 +0000
Subject: [PATCH 6/8] fix: a component's Clone that panics no longer leaks the
 components cloned before it

---
 src/archetype/storage.rs | 46 ++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index b1dfd00..073afa2 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -738,9 +738,22 @@ macro_rules! declare_storage_n {
                 fn clone(&self) -> Self {
                     #(let ref_d~I = self.d~I.borrow();)*
 
-                    let mut new_slots = DataPtr::with_capacity(self.capacity);
-                    let mut new_entities = DataPtr::with_capacity(self.capacity);
-                    #(let mut new_d~I = DataPtr::with_capacity(self.capacity);)*
+                    // This is empty for now, and only grows as components are cloned. If one of
+                    // those clones panics, dropping this also drops what was cloned until then.
+                    let mut new = Self {
+                        len: 0,
+                        version: self.version,
+                        capacity: self.capacity,
+                        free_head: self.free_head,
+                        slots: DataPtr::with_capacity(self.capacity),
+                        entities: DataPtr::with_capacity(self.capacity),
+                        #(d~I: RefCell::new(DataPtr::with_capacity(self.capacity)),)*
+
+                        #[cfg(feature = "events")]
+                        created: self.created.clone(),
+                        #[cfg(feature = "events")]
+                        destroyed: self.destroyed.clone(),
+                    };
 
                     unsafe {
 
@@ -752,31 +765,22 @@ macro_rules! declare_storage_n {
                         for idx in 0..self.capacity {
                             // SAFETY: We know that the slot storage is valid up to our capacity,
                             // and the new storage has no data that needs to be dropped first.
-                            new_slots.write(idx, old_slots.get_unchecked(idx).clone());
+                            new.slots.write(idx, old_slots.get_unchecked(idx).clone());
                         }
 
                         for idx in 0..self.len {
+                            // These are the only clones that can panic, so do all of them first.
+                            #(let val_~I = old_~I.get_unchecked(idx).clone();)*
+
                             // SAFETY: We know that the slot storage is valid up to our len,
                             // and the new storage has no data that needs to be dropped first.
-                            new_entities.write(idx, old_entities.get_unchecked(idx).clone());
-                            #(new_d~I.write(idx, old_~I.get_unchecked(idx).clone());)*
-                        }
-
-                        Self {
-                            len: self.len,
-                            version: self.version,
-                            capacity: self.capacity,
-                            free_head: self.free_head,
-                            slots: new_slots,
-                            entities: new_entities,
-                            #(d~I: RefCell::new(new_d~I),)*
-
-                            #[cfg(feature = "events")]
-                            created: self.created.clone(),
-                            #[cfg(feature = "events")]
-                            destroyed: self.destroyed.clone(),
+                            new.entities.write(idx, old_entities.get_unchecked(idx).clone());
+                            #(new.d~I.get_mut().write(idx, val_~I);)*
+                            new.len = idx + 1;
                         }
                     }
+
+                    new
                 }
             }
 
-- 
2.43.0


From a4635e9fe4a20993c8ee093881dc8ec4300b414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 7/8] fix: a component's Drop that panics no longer leaks the
 rest of the storage being dropped

---
 src/archetype/storage.rs | 44 ++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 073afa2..c44e0b9 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -702,13 +702,15 @@ macro_rules! declare_storage_n {
                 fn drop(&mut self) {
                     // SAFETY: We guarantee that the storage is valid up to self.len.
                     unsafe {
-                        #(self.d~I.get_mut().drop_to(self.len);)*
                         // We don't need to drop the other stuff since it's all trivial.
 
                         // For dynamic storage we need to deallocate when dropping.
                         self.slots.dealloc(self.capacity);
                         self.entities.dealloc(self.capacity);
-                        #(self.d~I.get_mut().dealloc(self.capacity);)*
+
+                        // Should dropping a component panic, then unwinding from here
+                        // still drops all the others and deallocates all the arrays.
+                        let _data = (#(DropData(self.d~I.get_mut(), self.len, self.capacity),)*);
                     };
                 }
             }
@@ -1081,16 +1083,42 @@ impl<T> DataPtr<T> {
     #[inline(always)]
     unsafe fn drop_to(&mut self, len: usize) {
         unsafe {
-            for i in 0..len {
-                let i_ptr = self.0.as_ptr().add(i);
-                // SAFETY: The caller guarantees this element is valid.
-                ptr::drop_in_place(i_ptr as *mut T);
-                ptr::write(i_ptr, MaybeUninit::uninit()); // Hint for Miri
-            }
+            // SAFETY: The caller guarantees these elements are valid. If dropping
+            // one of them panics, this still goes on to drop those that follow.
+            ptr::drop_in_place(self.slice_mut(len));
+            self.raw_data(len).fill_with(MaybeUninit::uninit); // Hint for Miri
         };
     }
 }
 
+/// Drops the elements in `0..len` of a data array of the given capacity and then deallocates
+/// it, even if dropping one of those elements panics.
+///
+/// # Safety
+///
+/// This is fully determined by the given `(data, len, capacity)` on drop, and so has
+/// the requirements of both `DataPtr::drop_to(len)` and `DataPtr::dealloc(capacity)`.
+struct DropData<'a, T>(&'a mut DataPtr<T>, usize, usize);
+
+impl<'a, T> Drop for DropData<'a, T> {
+    #[inline(always)]
+    fn drop(&mut self) {
+        struct Dealloc<'a, T>(&'a mut DataPtr<T>, usize);
+
+        impl<'a, T> Drop for Dealloc<'a, T> {
+            #[inline(always)]
+            fn drop(&mut self) {
+                // SAFETY: By construction, this array has this capacity.
+                unsafe { self.0.dealloc(self.1) };
+            }
+        }
+
+        let dealloc = Dealloc(&mut *self.0, self.2);
+        // SAFETY: By construction, the elements in `0..len` are valid.
+        unsafe { dealloc.0.drop_to(self.1) };
+    }
+}
+
 #[inline(always)]
 fn new_layout<T>(capacity: usize) -> Layout {
     let layout = Layout::array::<T>(capacity).unwrap();
-- 
2.43.0


From 742f019d434d5f6fa0bc1246d9d2502816c26d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 8/8] fix: a cfg attribute on a OneOf query parameter is
 evaluated instead of rejected

---
 macros/src/generate/query.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 1a89bef..d794ba7 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -670,11 +670,13 @@ fn bind_query_params(
                     }
                 }
                 ParseQueryParamType::OneOf(args) => {
-                    if param.cfgs.len() > 0 {
-                        return Err(syn::Error::new(
-                            param.name.span(),
-                            "cfg attributes not currently supported on OneOf",
-                        ));
+                    if param.is_cfg_enabled == false {
+                        // This will be removed by its cfg, so any bound type will do
+                        bound.push(ParseQueryParam {
+                            param_type: ParseQueryParamType::EntityAny,
+                            ..param.clone()
+                        });
+                        continue;
                     }
 
                     if let Some(found) = bind_one_of(archetype, args)? {
-- 
2.43.0

