From 989bf6138a2c1adee99e5461814a7d567cc6acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 01/25] fix: take a page's entity capacity from its layout

The capacity of the id vector may exceed what the layout has room for (a page
reused by an archetype with bigger components keeps its old vector), so rows
were written past the end of the page.
---
 src/archetype_data_page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..203ef4d 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entities_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,14 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entities_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
+        self.entities_capacity = capacity;
     }
 
     #[inline(always)]
@@ -36,7 +39,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entities_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From 5aeae7cb26b714f43e60bc613375415077da7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 02/25] fix: find a reused archetype in the unsorted free list

free_archetypes is in the order the archetypes became empty, so the binary
search missed entries and a live archetype's slot was handed out again.
---
 src/archetypes_container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..14fe769 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,9 +207,9 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
+                match self.free_archetypes.iter().position(|&free| free == i) {
+                    Some(i) => { self.free_archetypes.remove(i); },
+                    None => {}
                 };
 
                 return i;
-- 
2.43.0


From be72d4d81ec3f694cb91a69aa752f334633821c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 03/25] fix: align data pages for the components they hold

Pages were allocated as bytes, with an alignment of 1, so references to
components could be misaligned.
---
 src/archetype_data_page.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 203ef4d..8f281a0 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -1,4 +1,6 @@
-use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::ArchetypeLayout};
+use std::alloc::Layout;
+
+use crate::{archetype::ArchetypesUnion, Archetype, archetype_layout::ArchetypeLayout};
 
 /// Reusable page of the components data with a fixed size (4096 Bytes), related to the concrete archetype.
 /// It contains data for all components of the some entities subset
@@ -16,8 +18,16 @@ pub(crate) struct SwapRemoveInfo {
 impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
 
+    // No component that fits in the page can need more than the page's own alignment
+    const DATA_LAYOUT: Layout = unsafe {
+        Layout::from_size_align_unchecked(Self::PAGE_SIZE_BYTES, Self::PAGE_SIZE_BYTES)
+    };
+
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { std::alloc::alloc(Self::DATA_LAYOUT) };
+        if components_data_ptr.is_null() {
+            std::alloc::handle_alloc_error(Self::DATA_LAYOUT);
+        }
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -160,6 +170,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { std::alloc::dealloc(self.components_data_ptr, Self::DATA_LAYOUT) };
     }
 }
-- 
2.43.0


From dd06a752e39690ea099c2ec3ec06347f139bd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 04/25] fix: never request, copy from or release empty
 allocations

An empty ResourceStore, or one of a zero-sized type, asked the allocator for
zero bytes, which is undefined, and ResourceStore::new() released and copied
from a null pointer on its first growth.
---
 src/mem_utils.rs      | 19 ++++++++++++++++---
 src/resource_store.rs |  5 +----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..d2bc4eb 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,10 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() != 0 {
+        std::alloc::dealloc(ptr as *mut u8, layout)
+    }
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..78abe33 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -9,10 +9,7 @@ pub struct ResourceStore<T> {
 
 impl<T> ResourceStore<T> {
     pub fn new() -> ResourceStore<T> {
-        ResourceStore {
-            elements: std::ptr::null_mut(),
-            entities_container: EntitiesContainer::new(0),
-        }
+        Self::with_capacity(0)
     }
 
     pub fn with_capacity(capacity: usize) -> ResourceStore<T> {
-- 
2.43.0


From d42d1290b3ec165e69a9f350855f465d86cb1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 05/25] fix: report a failed allocation instead of writing
 through null

---
 src/mem_utils.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index d2bc4eb..34debeb 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -16,7 +16,12 @@ pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
         return std::ptr::NonNull::dangling().as_ptr();
     }
 
-    std::alloc::alloc(layout) as *mut T
+    let ptr = std::alloc::alloc(layout) as *mut T;
+    if ptr.is_null() {
+        std::alloc::handle_alloc_error(layout);
+    }
+
+    ptr
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
@@ -25,7 +30,12 @@ pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
         return std::ptr::NonNull::dangling().as_ptr();
     }
 
-    std::alloc::alloc_zeroed(layout) as *mut T
+    let ptr = std::alloc::alloc_zeroed(layout) as *mut T;
+    if ptr.is_null() {
+        std::alloc::handle_alloc_error(layout);
+    }
+
+    ptr
 }
 
 pub unsafe fn realloc<T>(
-- 
2.43.0


From 901ea064597562890bfaa2e2dfb3777758349537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 06/25] fix: refuse capacities whose size in bytes overflows

The size wrapped around, so that a much smaller block than the one described
by the capacity was allocated.
---
 src/mem_utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index 34debeb..b7b8897 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -75,10 +75,7 @@ pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
-    Layout::from_size_align_unchecked(
-        std::mem::size_of::<T>() * capacity,
-        std::mem::align_of::<T>(),
-    )
+    Layout::array::<T>(capacity).expect("Capacity overflow")
 }
 
 impl<T> PtrMutReallocExt<T> for *mut T {
-- 
2.43.0


From 03dced6928cafeedf3aa9d26007cb13aa73d2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 07/25] fix: release the elements block of a dropped
 ResourceStore

---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 78abe33..a7f02c0 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -85,5 +85,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 296d4f29317eaf3245a3653c4e58b316be7f622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 08/25] fix: skip group members without components in ordered
 queries

Such members were looked up by a row they do not have (or no longer have).
---
 src/query/ordered_component.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..59741e4 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -88,6 +88,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -121,6 +126,10 @@ impl Store {
 
             let mut next_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
             while next_entity != Entity::NULL_ID {
+                if unsafe { !self.has_archetype_unchecked(next_entity) } {
+                    break;
+                }
+
                 let (next_page_index, next_index_in_page) = unsafe {
                     (
                         self.get_page_index_unchecked(next_entity),
-- 
2.43.0


From bb4b919428a36ab49689f979e341c206e7d1eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 09/25] fix: pair ordered query items with the entity of their
 own range

Inside a range of more than one row the handle was taken from the range before.
---
 src/query/ordered_component.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 59741e4..7867e8c 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -21,6 +21,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     entity_ranges: &'a [Range<u32>],
     range_pages: &'a [ComponentPageIterView<T>],
 
+    current_range_index: u32,
     next_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
@@ -170,6 +171,7 @@ impl Store {
 
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
+            current_range_index: 0,
             next_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
@@ -186,7 +188,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             return None;
         }
 
-        let curr_range_index = self.next_range_index as usize;
+        self.current_range_index = self.next_range_index;
+        let curr_range_index = self.current_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
@@ -221,7 +224,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From 668f2f40d95960d8c2609a9cd1c36641caa7fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 10/25] fix: skip listed entities without components in entity
 queries

An entity without components still carries the page index of whoever used its
id before, and was yielded as a row of that page.
---
 src/query/entity_component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..66a65c4 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,9 +92,13 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if range_page_index != page_index {
                     break;
                 }
 
-- 
2.43.0


From 9cf84e4b2e0b01f0e8ce239fcb41f454043b25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 11/25] fix: reject the destruction of a dead entity before
 changing anything

The row of the entity that reused the id was removed before the handle was
found to be dead.
---
 src/entities_container.rs | 8 ++++++--
 src/store.rs              | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/entities_container.rs b/src/entities_container.rs
index 071aae1..42700fb 100644
--- a/src/entities_container.rs
+++ b/src/entities_container.rs
@@ -102,10 +102,9 @@ impl EntitiesContainer {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
-        self.validate_entity_version_with_panic(entity);
+        self.validate_alive_with_panic(entity);
 
         let id = entity.id;
-        debug_assert!(self.is_alive(entity), "Entity is already dead");
         unsafe {
             bitvec_utils::toggle_bit(self.entity_to_is_alive_bitvec, id as usize);
         }
@@ -157,6 +156,11 @@ impl EntitiesContainer {
         );
     }
 
+    pub fn validate_alive_with_panic(&self, entity: Entity) {
+        self.validate_entity_version_with_panic(entity);
+        debug_assert!(self.is_alive(entity), "Entity is already dead");
+    }
+
     pub fn debug_validate_id_with_panic(&self, id: u32) {
         debug_assert!(
             self.validate_id(id),
diff --git a/src/store.rs b/src/store.rs
index f48a636..f408a77 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -83,6 +83,8 @@ impl Store {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
+        self.entities_container.validate_alive_with_panic(entity);
+
         let entity_id = entity.id;
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
-- 
2.43.0


From 20f7aabc947673f144d46c2c87414e39a8b00f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 12/25] fix: filter by a tag that was never used

No entity has such a tag, so the filtered query is empty; it panicked instead.
---
 src/query/component.rs | 6 ++++--
 src/tag_container.rs   | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..d9c5c34 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -34,7 +34,7 @@ pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
 
 pub struct FilterTagIter<'a, T: ComponentQueryAccess> {
     source_iter: WithEntitiesIter<'a, T>,
-    entity_to_has_tag: *const u32,
+    entity_to_has_tag: Option<*const u32>,
 }
 
 pub fn readonly<R: ComponentTuple>() -> ComponentQuery<ReadonlyAccess<R>> {
@@ -188,8 +188,10 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
+        let entity_to_has_tag = self.entity_to_has_tag?;
+
         self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
+            if bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize) {
                 Some((e, o))
             } else {
                 self.next()
diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..5404acb 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -17,15 +17,15 @@ impl TagContainer {
         }
     }
 
-    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> *const u32 {
+    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> Option<*const u32> {
         let type_id = TypeId::of::<T>();
         let tag_index = match self.tag_ids.binary_search(&type_id) {
             Ok(i) => i,
-            Err(_) => panic!("Failed to find tag with id: {type_id:?}")
+            Err(_) => return None,
         };
 
         unsafe {
-            *self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index)
+            Some(*self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index))
         }
     }
 
-- 
2.43.0


From 178871712c9887501dcced34c5ad88c407059946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 13/25] fix: skip untagged entities without recursion

One stack frame per skipped entity overflowed the stack on large populations.
---
 src/query/component.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index d9c5c34..af5bd77 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -190,12 +190,8 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     fn next(&mut self) -> Option<Self::Item> {
         let entity_to_has_tag = self.entity_to_has_tag?;
 
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
-            }
+        self.source_iter.find(|(e, _)| unsafe {
+            bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize)
         })
     }
 }
-- 
2.43.0


From ef1f54e3120219803137457d684634b67ab2c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 14/25] fix: removing the last component leaves an entity
 without components

It panicked, because an archetype cannot be empty.
---
 src/archetype_builder.rs |  5 +++++
 src/store.rs             | 14 ++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..a7a095a 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -54,6 +54,11 @@ impl ArchetypeBuilder {
         self
     }
 
+    #[inline]
+    pub(crate) fn is_empty(&self) -> bool {
+        self.component_types.is_empty()
+    }
+
     pub fn build(&mut self) -> Archetype {
         self.component_types.sort_by_key(|a| a.id());
 
diff --git a/src/store.rs b/src/store.rs
index f408a77..646eddc 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -178,12 +178,18 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
-        let new_arch = ArchetypeBuilder::new()
+        let mut builder = ArchetypeBuilder::new();
+        builder
             .include_archetype(&prev_arch)
-            .exclude_components::<T>()
-            .build();
+            .exclude_components::<T>();
 
-        self.move_entity_to_other_archetype(entity, &new_arch);
+        if builder.is_empty() {
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
+        self.move_entity_to_other_archetype(entity, &builder.build());
     }
 
     fn move_entity_to_other_archetype(
-- 
2.43.0


From cdc70007c8f1bc15621f9636ad32715ba2cd6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 15/25] fix: give every component set that fits in a data page
 a layout

The page was divided evenly between the components, so sets of differently
sized components were refused although a whole row (or many) fits, or got a
capacity of 0 and were written past the end of the page. Zero-sized components
were a division by zero.
---
 src/archetype_layout.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..504b4fa 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -16,6 +16,10 @@ impl ArchetypeLayout {
         let entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
+        assert!(
+            entities_capacity > 0,
+            "Components of one entity don't fit in a data page"
+        );
         let offsets = unsafe {
             Self::calculate_offsets(sizes, aligns, component_count, entities_capacity)
         };
@@ -32,21 +36,24 @@ impl ArchetypeLayout {
         aligns: *const usize,
         component_count: usize,
     ) -> usize {
-        let ptr_size = std::mem::size_of::<usize>();
-
         let aligns = std::slice::from_raw_parts(aligns, component_count);
-        let max_align = aligns.into_iter().max().unwrap();
-        let max_align = max_align % ptr_size;
+        let sizes = std::slice::from_raw_parts(sizes, component_count);
 
-        let bytes_per_components_row_approx =
-            ArchetypeDataPage::PAGE_SIZE_BYTES / component_count - max_align;
+        let bytes_per_entity: usize = sizes.iter().sum();
+        let mut entities_capacity = ArchetypeDataPage::PAGE_SIZE_BYTES / bytes_per_entity.max(1);
 
-        let sizes = std::slice::from_raw_parts(sizes, component_count);
-        let entities_capacity = sizes
-            .iter()
-            .map(|s| bytes_per_components_row_approx / *s)
-            .min()
-            .unwrap();
+        // The rows without the gaps between the components' arrays are an upper bound
+        while entities_capacity > 0 {
+            let page_end = sizes.iter().zip(aligns).fold(0usize, |end, (size, align)| {
+                end.next_multiple_of(*align) + size * entities_capacity
+            });
+
+            if page_end <= ArchetypeDataPage::PAGE_SIZE_BYTES {
+                break;
+            }
+
+            entities_capacity -= 1;
+        }
 
         entities_capacity
     }
-- 
2.43.0


From bed41fa23d293475d5da8f7cea269adce2ccd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 16/25] fix: check every id for exclusion, in any order

The search range only ever moved forward, so an included id that followed a
greater one was missed.
---
 src/archetype.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..1be92d8 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,10 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            let result = self_ids.binary_search(id);
+            if result.is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 6d9ace7227f77b3f4815f63fb66a3ad9f8a293ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 17/25] fix: exact-size query iterators report what is left

len() kept reporting the initial count, and size_hint(), which has to agree
with it, was not implemented.
---
 src/query/component.rs           | 6 ++++++
 src/query/component_page_iter.rs | 6 +++++-
 src/query/ordered_component.rs   | 6 ++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index af5bd77..592f2f9 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -124,6 +124,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.queried_entities_count -= 1;
             return Some(val);
         }
 
@@ -134,12 +135,17 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
 
+            self.queried_entities_count -= 1;
             return self.current_page_iter.next();
         }
 
         self.current_page_iter = ComponentPageIter::empty();
         return None;
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentsQueryIter<'a, T> {
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index cc31c9f..0c2121d 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -48,10 +48,14 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
         
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {
     fn len(&self) -> usize {
-        self.view.entity_count
+        self.view.entity_count - self.next_entity_index
     }
 }
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 7867e8c..2f84c8a 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -200,11 +200,17 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             self.next_offset_from_range += 1;
         }
 
+        self.len -= 1;
+
         let page_view = unsafe { self.range_pages.get_unchecked(curr_range_index) };
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
 
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> OrderedComponentQueryIter<'a, T> {
-- 
2.43.0


From da082838584e5348cb5f7d5210717f3594f426c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 18/25] fix: refuse an archetype before registering the entity

The entity stayed alive, with the has-archetype bit and row of the previous
user of its id, when the archetype didn't fit in a page.
---
 src/archetypes_container.rs | 4 ++--
 src/store.rs                | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index 14fe769..1438840 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -204,7 +204,7 @@ impl ArchetypesContainer {
         self.free_pages.push(page_index);
     }
 
-    fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
+    pub fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
                 match self.free_archetypes.iter().position(|&free| free == i) {
@@ -235,7 +235,7 @@ impl ArchetypesContainer {
         }
     }
 
-    fn reserve_page(
+    pub fn reserve_page(
         &mut self,
         entity_id: u32,
         archetype_index: usize,
diff --git a/src/store.rs b/src/store.rs
index 646eddc..6abc126 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -61,8 +61,12 @@ impl Store {
     }
 
     pub fn create_entity_with_archetype(&mut self, archetype: &Archetype) -> Entity {
+        // May refuse the archetype, so no entity is registered before
+        let archetype_index = self.archetypes_container.reserve_archetype(archetype);
         let entity = self.register_new_entity();
-        let entity_in_arch = self.archetypes_container.add_entity(entity.id, archetype);
+        let entity_in_arch = self
+            .archetypes_container
+            .reserve_page(entity.id, archetype_index);
 
         unsafe {
             self.set_page_index_unchecked(entity.id, entity_in_arch.page_index);
-- 
2.43.0


From 80a3268c154291fa55823b5eb3db47cc0f73c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 19/25] fix: a dead handle doesn't reach the tags of its id's
 next entity

Tags added through a handle of a destroyed entity showed up on the entity that
reuses its id.
---
 src/tag_container.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tag_container.rs b/src/tag_container.rs
index 5404acb..07a1492 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -96,17 +96,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From bfb9c4f04eb7243d85e3842e497c6f95ca905507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 20/25] fix: reject order insertions that repeat or miss a
 member

A sole member has no links, so adding it again (also next or previous to
itself) passed the check and made a cycle; inserting relative to an entity
outside of the group linked entities that the group doesn't reach.
---
 src/order_group_container.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..6ce631f 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -51,6 +51,7 @@ impl OrderGroupContainer {
                 let fwd_id = *forward_links.add(entity_id as usize);
                 let bwd_id = &mut *backward_links.add(entity_id as usize);
 
+                Self::assert_entity_is_not_head(entity_id, *head);
                 Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id);
 
                 *forward_links.add(*tail as usize) = entity_id;
@@ -68,15 +69,17 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
+            Self::assert_entity_is_not_head(entity_id, *head);
             Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_order(next_to_id, *head, *backward_links.add(next_to_id as usize));
 
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
@@ -112,7 +115,9 @@ impl OrderGroupContainer {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
+            Self::assert_entity_is_not_head(entity_id, *head);
             Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_order(previous_to_id, *head, *backward_links.add(previous_to_id as usize));
 
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
@@ -129,6 +134,20 @@ impl OrderGroupContainer {
         }
     }
 
+    fn assert_entity_is_not_head(entity_id: u32, head_id: u32) {
+        debug_assert!(
+            entity_id != head_id,
+            "Entity {entity_id} is already the first in the order. Added entity must have no orders"
+        );
+    }
+
+    fn assert_entity_has_order(entity_id: u32, head_id: u32, bwd_id: u32) {
+        debug_assert!(
+            entity_id == head_id || bwd_id != Entity::NULL_ID,
+            "Entity {entity_id} has no order, so no entity can be ordered next or previous to it"
+        );
+    }
+
     fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32) {
         debug_assert!(
             fwd_id == Entity::NULL_ID,
-- 
2.43.0


From 65c604d879649e865ed5af03ea7347c3c6ec3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 21/25] fix: a dead handle doesn't reach the orders of its id's
 next entity

Ordering through a handle of a destroyed entity ordered the entity that reuses
its id, or put an id nobody uses into the group.
---
 src/order_group_container.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 6ce631f..c0d0838 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -360,7 +360,9 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
-        self.order_group_container.add_id_ordered_by::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.order_group_container.add_id_ordered_by::<T>(entity.id);
+        }
     }
 
     pub fn add_entity_next_to_order_by<T: Tag>(
@@ -368,8 +370,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
-        self.order_group_container
-            .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
+        if self.is_alive(entity) && self.is_alive(next_to_entity) {
+            self.order_group_container
+                .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
+        }
     }
 
     pub fn add_entity_previous_to_order_by<T: Tag>(
@@ -377,16 +381,24 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
-        self.order_group_container
-            .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
+        if self.is_alive(entity) && self.is_alive(previous_to_entity) {
+            self.order_group_container
+                .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
+        }
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
-        self.order_group_container
-            .remove_id_ordered_by::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.order_group_container
+                .remove_id_ordered_by::<T>(entity.id);
+        }
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -396,6 +408,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
-- 
2.43.0


From ffe2411d1c5dac7695add2b4035125f89081ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 22/25] fix: a builder's memory follows its component types

include_archetype reserved its whole capacity again, so every call doubled it.
---
 src/archetype_builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index a7a095a..8588efd 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -42,8 +42,7 @@ impl ArchetypeBuilder {
     }
 
     pub fn include_archetype(&mut self, archetype: &Archetype) -> &mut Self {
-        self.component_types
-            .reserve(self.component_types.capacity() + archetype.component_count());
+        self.component_types.reserve(archetype.component_count());
 
         for comp in archetype.components_iter() {
             if !self.component_types.contains(&comp) {
-- 
2.43.0


From a9aaa18b2f9e7505ce21c8fd87d0213485f967c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 23/25] fix: judge lists of component types as sets when one is
 repeated

---
 src/archetype.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 1be92d8..3ae7d2b 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -127,10 +127,6 @@ impl Archetype {
     pub fn is_include_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        if self_ids.len() < ids_to_check.len() {
-            return false;
-        }
-
         for id in ids_to_check {
             let result = self_ids.binary_search(id);
             if result.is_err() {
@@ -144,18 +140,13 @@ impl Archetype {
     pub fn is_include_only_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        if self_ids.len() != ids_to_check.len() {
-            return false;
-        }
-
-        for id in ids_to_check {
-            let result = self_ids.binary_search(id);
-            if result.is_err() {
+        for id in self_ids {
+            if !ids_to_check.contains(id) {
                 return false;
             }
         }
 
-        return true;
+        return self.is_include_ids(ids_to_check);
     }
 
     #[inline(always)]
-- 
2.43.0


From 7f9bb99e6937f38e81aeecc9823f60355fce5190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 24/25] fix: build the archetype of a tuple without repeating a
 component type

---
 src/component_tuple.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/component_tuple.rs b/src/component_tuple.rs
index 430d6d0..b3901ed 100644
--- a/src/component_tuple.rs
+++ b/src/component_tuple.rs
@@ -250,9 +250,10 @@ macro_rules! components_tuple_impl {
 
             fn into_archetype() -> $crate::Archetype
             {
-                let components = &mut $crate::component_types!( $($T),* );
-                components.sort_by_key(|a| a.id());
-                $crate::Archetype::new(components)
+                // The builder drops a component type that is named twice
+                Self::add_components_to_archetype_builder(
+                    &mut $crate::ArchetypeBuilder::new()
+                ).build()
             }
 
             #[inline(always)]
-- 
2.43.0


From fb033abe985038aa751d8fc2df629f0787b358cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 25/25] fix: an id whose versions are used up was reused with
 its old handles

---
 src/entities_container.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities_container.rs b/src/entities_container.rs
index 42700fb..1c29d23 100644
--- a/src/entities_container.rs
+++ b/src/entities_container.rs
@@ -109,7 +109,9 @@ impl EntitiesContainer {
             bitvec_utils::toggle_bit(self.entity_to_is_alive_bitvec, id as usize);
         }
 
-        if id == self.next_free_id - 1 {
+        if entity.version == u32::MAX {
+            // The id has no versions left, so reusing it would repeat its handles
+        } else if id == self.next_free_id - 1 {
             self.next_free_id = id;
         } else {
             self.gap_ids.push(id);
-- 
2.43.0

