From 1f4764880c292d9f0b0cd2bce011330935252a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 1/5] fix: compute next versions before mutating storage in
 force_destroy

A slot or archetype version overflow panicked halfway through the removal,
after the components were moved out but before len and the free list were
updated, which left a moved-out component reachable (double drop).
---
 src/archetype/slot.rs    |  8 ++++----
 src/archetype/storage.rs | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..ccddc19 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -150,13 +150,13 @@ impl Slot {
         // NOTE: We increment the version on release, not assignment.
     }
 
-    /// Releases a slot and increments its version, invalidating all handles.
-    /// Returns an `EcsError::VersionOverflow` if the version increment overflows.
+    /// Releases a slot and advances it to the given next version, invalidating all handles.
+    /// The next version must be computed by the caller, since doing so may panic on overflow.
     #[inline(always)]
-    pub(crate) fn release(&mut self, index_next_free: SlotIndex) {
+    pub(crate) fn release(&mut self, index_next_free: SlotIndex, next_version: SlotVersion) {
         debug_assert!(self.is_free() == false);
         self.index = index_next_free;
-        self.version = self.version.next();
+        self.version = next_version;
     }
 }
 
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..9cc71ba 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -559,6 +559,17 @@ macro_rules! declare_storage_n {
                             entities[dense_index_usize].version(),
                             self.slots.slice(self.capacity())[slot_index_usize].version());
 
+                        // Compute the next versions before touching any state. This may panic on
+                        // version overflow, and if it does, we need to leave the entity intact.
+                        // SAFETY: We know that the slot storage is valid up to our capacity.
+                        let next_slot_version = self
+                            .slots
+                            .slice(self.capacity())
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+                        let next_version = self.version.next();
+
                         #[cfg(feature = "events")]
                         {
                             self.destroyed.push(*entities.get_unchecked(dense_index_usize));
@@ -589,10 +600,10 @@ macro_rules! declare_storage_n {
                         // Return the target slot to the free list
                         slots
                             .get_unchecked_mut(slot_index_usize) // SAFETY: See declaration.
-                            .release(self.free_head);
+                            .release(self.free_head, next_slot_version);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From 87dc519a5947c9342f5c3fab5e17ddc4cec8f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 2/5] fix: reject stale direct handles in to_direct

StorageCanResolve<EntityDirect<A>>::resolve_direct returned any direct handle
unchecked, so to_direct accepted direct handles of removed entities.
---
 src/archetype/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9cc71ba..5ee82b7 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -673,7 +673,9 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    // We're already an EntityDirect, but need to reject it if it's stale
+                    let (_, dense_index) = self.resolve_direct(entity)?;
+                    Some(EntityDirect::new(dense_index, self.version()))
                 }
 
                 #[inline]
-- 
2.43.0


From b0d885b568a440da8a350a2835e8d1302ec5e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 3/5] fix: mint direct handles with the current version in
 ecs_iter_destroy

The archetype version was read once before the loop, so after the loop
destroyed an entity every further EntityDirect handed to the closure was
already stale (or, with wrapping versions, could designate another entity).
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..2269f2a 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // The version changes whenever this loop destroys an entity.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From 683ee6d369e195857a8d4e0e382559a209ba0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 4/5] fix: reject handles of other archetypes when resolving

A handle converted with from_any_unchecked (or overwritten through the mutable
EntityAny reference conversion) was looked up by slot and generation alone, so
it could match an unrelated entity of this archetype.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 5ee82b7..0d50ed9 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion can leave us with a handle to another archetype
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion can leave us with a handle to another archetype
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From 1592acc4a3009ba5d7176153d321b7209b24d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 5/5] fix: support cfg attributes on OneOf query parameters

A OneOf parameter with any #[cfg], even one evaluating to true, was rejected.
Treat a disabled one like any other disabled parameter, and bind enabled ones.
---
 macros/src/generate/query.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 2269f2a..4ab142a 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -670,14 +670,13 @@ fn bind_query_params(
                     }
                 }
                 ParseQueryParamType::OneOf(args) => {
-                    if param.cfgs.len() > 0 {
-                        return Err(syn::Error::new(
-                            param.name.span(),
-                            "cfg attributes not currently supported on OneOf",
-                        ));
-                    }
-
-                    if let Some(found) = bind_one_of(archetype, args)? {
+                    if param.is_cfg_enabled == false {
+                        // This gets cfg'd out of the closure, so just keep its position
+                        bound.push(ParseQueryParam {
+                            param_type: ParseQueryParamType::EntityAny,
+                            ..param.clone()
+                        });
+                    } else if let Some(found) = bind_one_of(archetype, args)? {
                         // Convert this to a new Component type
                         bound.push(ParseQueryParam {
                             cfgs: param.cfgs.clone(),
-- 
2.43.0

