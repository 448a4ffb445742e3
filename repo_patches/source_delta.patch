From e8e9affb0f25af7c6047400565dfbcfd95b8b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 01/42] fix: map reserved memory in place with MAP_FIXED

gc_platform_acquire_memory_from_reservation passed the reservation's
address only as a hint; the range being already mapped PROT_NONE, the
kernel placed the mapping elsewhere, with no guarantee of alignment,
and the reservation leaked.
---
 src/gc-platform-gnu-linux.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gc-platform-gnu-linux.c b/src/gc-platform-gnu-linux.c
index 3ace189..3a19e86 100644
--- a/src/gc-platform-gnu-linux.c
+++ b/src/gc-platform-gnu-linux.c
@@ -162,8 +162,11 @@ gc_platform_acquire_memory_from_reservation(struct gc_reservation reservation,
   GC_ASSERT(size <= reservation.size);
   GC_ASSERT(offset <= reservation.size - size);
 
+  // The range is already mapped PROT_NONE by the reservation, so without
+  // MAP_FIXED the kernel would place the mapping somewhere else.
   void *mem = mmap((void*)(reservation.base + offset), size,
-                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+                   PROT_READ|PROT_WRITE,
+                   MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0);
   if (mem == MAP_FAILED) {
     perror("mmap failed");
     return NULL;
-- 
2.43.0


From b77db99617daff6b91f8f680269af24034dea721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 02/42] fix: count evacuation targets taken when shrinking the
 nofl space

The loop stealing blocks from the evacuation reserve never updated its
count of the blocks available, so it could drain the list and then
dereference a null block.
---
 src/nofl-space.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 2668232..a26aed0 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1820,6 +1820,7 @@ nofl_space_shrink(struct nofl_space *space, size_t bytes) {
       struct nofl_block_ref block =
         nofl_block_list_pop(&space->evacuation_targets);
       GC_ASSERT(!nofl_block_is_null(block));
+      avail--;
       nofl_push_unavailable_block(space, block, &lock);
       pending = atomic_fetch_sub(&space->pending_unavailable_bytes,
                                  NOFL_BLOCK_SIZE);
-- 
2.43.0


From 185729ca63bdbb282bd6ed8c29d13b1111c2b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 03/42] fix: trace pinned objects in configurations without
 conservative tracing

The pinned bit was taken for part of the trace kind, so tracing any
pinned object crashed.
---
 src/nofl-space.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index a26aed0..6e1542e 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1745,6 +1745,13 @@ nofl_metadata_byte_trace_kind(uint8_t byte)
     return GC_TRACE_CONSERVATIVELY;
   case NOFL_METADATA_BYTE_TRACE_EPHEMERON:
     return GC_TRACE_EPHEMERON;
+#else
+  // Without conservative tracing, the bit that would distinguish these
+  // trace kinds indicates a pinned object instead.
+  case NOFL_METADATA_BYTE_TRACE_PRECISELY | NOFL_METADATA_BYTE_PINNED:
+    return GC_TRACE_PRECISELY;
+  case NOFL_METADATA_BYTE_TRACE_NONE | NOFL_METADATA_BYTE_PINNED:
+    return GC_TRACE_NONE;
 #endif
     default:
       GC_CRASH();
-- 
2.43.0


From 153b0f8cafa409d148b48a4c79961c710e94ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 04/42] fix: expected metadata for tagged objects in
 heap-conservative mmc

With conservative tracing, tagged objects are traced conservatively; the
sanity assertion in gc_init required the opposite, so debug builds of
these configurations could not start.
---
 src/mmc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index d2bc4df..c3732e1 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1160,7 +1160,10 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                offsetof(struct nofl_allocator, sweep));
   GC_ASSERT_EQ(gc_allocator_alloc_table_alignment(), NOFL_SLAB_SIZE);
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
-               NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_PRECISELY);
+               NOFL_METADATA_BYTE_YOUNG |
+               (GC_CONSERVATIVE_TRACE
+                ? NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY
+                : NOFL_METADATA_BYTE_TRACE_PRECISELY));
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED_POINTERLESS),
                NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE);
   if (GC_CONSERVATIVE_TRACE) {
-- 
2.43.0


From 1653638309ef81c0f04dd2862b7179ccd204626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 05/42] fix: mmc: report the kind of the collection a mutator
 waited for

pause_mutator_for_collection read heap->gc_kind before waiting, at which
point it still holds the kind of the previous collection.  A mutator that
asked for, say, a compacting collection could then return without one if
it was stopped for a weaker collection and the previous one was compacting.
---
 src/mmc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index c3732e1..32e3d2e 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -451,7 +451,6 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   MUTATOR_EVENT(mut, mutator_stopping);
   MUTATOR_EVENT(mut, mutator_stopped);
   heap->paused_mutator_count++;
-  enum gc_collection_kind collection_kind = heap->gc_kind;
   if (all_mutators_stopped(heap))
     pthread_cond_signal(&heap->collector_cond);
 
@@ -459,6 +458,9 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
     pthread_cond_wait(&heap->mutator_cond, &heap->lock);
   while (mutators_are_stopping(heap));
   heap->paused_mutator_count--;
+  // The kind of a collection is only determined once all mutators have stopped,
+  // so look at it after the collection rather than before.
+  enum gc_collection_kind collection_kind = heap->gc_kind;
 
   MUTATOR_EVENT(mut, mutator_restarted);
   return collection_kind;
-- 
2.43.0


From ec0e0c45f2644e18787cb0fc6553636d9f5d5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 06/42] fix: mmc: treat requests for minor collections as major
 if not generational

---
 src/mmc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 32e3d2e..f1c99eb 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -556,6 +556,10 @@ determine_collection_kind(struct gc_heap *heap,
   } else if (requested != GC_COLLECTION_ANY) {
     DEBUG("user specifically requested collection kind %d\n", (int)requested);
     gc_kind = requested;
+    // Without a remembered set, a minor collection would lose objects that are
+    // only reachable from the old generation.
+    if (!GC_GENERATIONAL && gc_kind == GC_COLLECTION_MINOR)
+      gc_kind = GC_COLLECTION_MAJOR;
   } else if (pending > 0) {
     DEBUG("evacuating due to need to reclaim %zd bytes\n", pending);
     // During the last cycle, a large allocation could not find enough
-- 
2.43.0


From 8eaa6d64242bf96f1c484182b612d4d96657f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 07/42] fix: adaptive heap sizer initializes its own lock

It re-initialized the background thread's lock instead, which that thread
may be holding or waiting on, and left its own lock uninitialized.
---
 src/adaptive-heap-sizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptive-heap-sizer.h b/src/adaptive-heap-sizer.h
index 225b44b..dc036ea 100644
--- a/src/adaptive-heap-sizer.h
+++ b/src/adaptive-heap-sizer.h
@@ -157,7 +157,7 @@ gc_make_adaptive_heap_sizer(struct gc_heap *heap, double expansiveness,
   sizer->last_bytes_allocated = get_allocation_counter(heap);
   sizer->last_heartbeat = gc_platform_monotonic_nanoseconds();
 #if GC_PARALLEL
-  pthread_mutex_init(&thread->lock, NULL);
+  pthread_mutex_init(&sizer->lock, NULL);
   sizer->background_task_id =
     gc_background_thread_add_task(thread, GC_BACKGROUND_TASK_MIDDLE,
                                   gc_adaptive_heap_sizer_background_task,
-- 
2.43.0


From 22f7a39e2f0dc90c8e43f91288e9914e349cd5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 08/42] fix: grow the heap for large allocations it cannot
 otherwise fit

With a growable or adaptive heap, a large allocation that did not fit in
the heap's current size collected again and again, forever: the heap sizer
grows the heap according to live data, which does not include the pending
request, and out-of-memory detection only applies to fixed heaps.
---
 src/mmc.c | 15 +++++++++++++--
 src/pcc.c | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index f1c99eb..7bdea74 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -909,8 +909,19 @@ allocate_large(struct gc_mutator *mut, size_t size,
   nofl_space_request_release_memory(nofl_space,
                                     npages << lospace->page_size_log2);
 
-  while (!nofl_space_shrink(nofl_space, 0))
-    trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
+  int collected = 0;
+  while (!nofl_space_shrink(nofl_space, 0)) {
+    if (collected && heap->sizer.policy != GC_HEAP_SIZE_FIXED) {
+      // The heap is just too small for this object, which collecting again will
+      // not change; the sizer only considers live objects.
+      heap_lock(heap);
+      resize_heap(heap, heap->size + (npages << lospace->page_size_log2));
+      heap_unlock(heap);
+    } else {
+      trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
+      collected = 1;
+    }
+  }
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(lospace, npages, kind);
diff --git a/src/pcc.c b/src/pcc.c
index 0b137f5..6412bbc 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -960,8 +960,19 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 
   copy_space_request_release_memory(heap_resizable_space(heap),
                                     npages << space->page_size_log2);
-  while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap)))
-    trigger_collection(mut, GC_COLLECTION_COMPACTING);
+  int collected = 0;
+  while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap))) {
+    if (collected && heap->sizer.policy != GC_HEAP_SIZE_FIXED) {
+      // The heap is just too small for this object, which collecting again will
+      // not change; the sizer only considers live objects.
+      heap_lock(heap);
+      resize_heap(heap, heap->size + (npages << space->page_size_log2));
+      heap_unlock(heap);
+    } else {
+      trigger_collection(mut, GC_COLLECTION_COMPACTING);
+      collected = 1;
+    }
+  }
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(space, npages, GC_TRACE_PRECISELY);
-- 
2.43.0


From 04b8337ad6c923b735aef53982eb7cd8d2b6134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 09/42] fix: mmc: do not declare out of memory before trying a
 stronger collection

A large allocation requests a compacting collection.  If another thread
had just finished a weaker collection, nothing has been allocated since,
and the process would abort even if most of the heap was free.
---
 src/mmc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 7bdea74..7a65b76 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -514,7 +514,8 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
 }
 
 static void
-detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
+detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
+                     enum gc_collection_kind requested) {
   if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
     return;
 
@@ -524,6 +525,11 @@ detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
   if (heap->gc_kind == GC_COLLECTION_MINOR)
     return;
 
+  // If the last collection was weaker than the one we are about to do, perhaps
+  // because another thread caused it, this one may still find some space.
+  if (heap->gc_kind < requested && !gc_has_conservative_intraheap_edges())
+    return;
+
   // No allocation since last gc: out of memory.
   fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
   GC_CRASH();
@@ -780,7 +786,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
   if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter);
+    detect_out_of_memory(heap, allocation_counter, requested_kind);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
-- 
2.43.0


From 2b26861758d9cf8ddc9170061a4e7865e30f0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 10/42] fix: generational pcc: do not self-deadlock when
 tracing large objects

During collection the collector holds the large object space's lock.
Remembering an edge from a large object to a nursery survivor while tracing
tried to take that lock again, deadlocking the collection.  Locking order
is preserved: remembered_edges_lock remains a leaf.
---
 src/large-object-space.h | 21 ++++++++++++++++-----
 src/pcc.c                |  4 ++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index cdd7983..3525599 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -254,12 +254,13 @@ large_object_space_is_survivor(struct large_object_space *space,
   return old;
 }
 
+// Call during collection, when the collector already holds the space lock.
 static int
-large_object_space_remember_edge(struct large_object_space *space,
-                                 struct gc_ref obj,
-                                 struct gc_edge edge) {
-  GC_ASSERT(large_object_space_contains(space, obj));
-  if (!large_object_space_is_survivor(space, obj))
+large_object_space_remember_edge_during_gc(struct large_object_space *space,
+                                           struct gc_ref obj,
+                                           struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains_with_lock(space, obj));
+  if (!large_object_space_is_marked(space, obj))
     return 0;
 
   uintptr_t edge_addr = gc_edge_address(edge);
@@ -273,6 +274,16 @@ large_object_space_remember_edge(struct large_object_space *space,
   return remembered;
 }
 
+static int
+large_object_space_remember_edge(struct large_object_space *space,
+                                 struct gc_ref obj,
+                                 struct gc_edge edge) {
+  pthread_mutex_lock(&space->lock);
+  int ret = large_object_space_remember_edge_during_gc(space, obj, edge);
+  pthread_mutex_unlock(&space->lock);
+  return ret;
+}
+
 static void
 large_object_space_forget_edge(struct large_object_space *space,
                                struct gc_edge edge) {
diff --git a/src/pcc.c b/src/pcc.c
index 6412bbc..1b7f94f 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -282,8 +282,8 @@ static int remember_edge_to_survivor_object(struct gc_heap *heap,
     large_object_space_object_containing_edge(heap_large_object_space(heap),
                                               edge);
   if (!gc_ref_is_null(large_object))
-    return large_object_space_remember_edge(heap_large_object_space(heap),
-                                            large_object, edge);
+    return large_object_space_remember_edge_during_gc
+      (heap_large_object_space(heap), large_object, edge);
   return 0;
 }
 
-- 
2.43.0


From 0e8d00addbda28c9d7ecf44450cc9c966f56ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 11/42] fix: pcc: borrow a paged-out block rather than running
 out of memory in a collection

---
 src/copy-space.h | 14 ++++++++++++++
 src/pcc.c        |  9 ++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 7f262c2..a897c68 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -325,6 +325,20 @@ copy_space_reacquire_memory(struct copy_space *space, size_t bytes) {
   GC_ASSERT(pending + COPY_SPACE_BLOCK_SIZE > 0);
 }
 
+// Make a paged-out block available for allocation regardless of the space's
+// memory budget.  The debt is repaid the next time the space pages out blocks.
+static int
+copy_space_borrow_block(struct copy_space *space) {
+  struct gc_lock lock = copy_space_lock(space);
+  struct copy_space_block *block = copy_space_page_in_block(space, &lock);
+  if (block) {
+    copy_space_push_empty_block(space, block, &lock);
+    atomic_fetch_add(&space->bytes_to_page_out, COPY_SPACE_BLOCK_SIZE);
+  }
+  gc_lock_release(&lock);
+  return block != NULL;
+}
+
 static inline int
 copy_space_contains_address(struct copy_space *space, uintptr_t addr) {
   return extents_contain_addr(space->extents, addr);
diff --git a/src/pcc.c b/src/pcc.c
index 1b7f94f..562821c 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -310,9 +310,12 @@ static inline int forward(struct copy_space *src_space,
     // If space is really tight and reordering of objects during evacuation
     // resulted in more end-of-block fragmentation and thus block use than
     // before collection started, we can actually run out of memory while
-    // collecting.  We should probably attempt to expand the heap here, at
-    // least by a single block; it's better than the alternatives.  For now,
-    // abort.
+    // collecting.  Likewise if each of a number of trace workers needs a block
+    // to itself.  Borrow a block from those that have been paged out, if any.
+    // FIXME: Attempt to expand the heap too; it's better than the alternatives.
+    // For now, abort.
+    if (copy_space_borrow_block(dst_space))
+      return forward(src_space, dst_space, edge, ref, dst_alloc);
     fprintf(stderr, "Out of memory\n");
     GC_CRASH();
     break;
-- 
2.43.0


From 91a1f7f92fbcc76ae92dcc40eff4ba87925aaec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 12/42] fix: parallel tracer: do not strand objects found by a
 roots-only trace

---
 src/parallel-tracer.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parallel-tracer.h b/src/parallel-tracer.h
index db8afae..8800215 100644
--- a/src/parallel-tracer.h
+++ b/src/parallel-tracer.h
@@ -184,6 +184,16 @@ tracer_share(struct gc_trace_worker *worker) {
   tracer_maybe_unpark_workers(worker->tracer);
 }
 
+static inline void
+tracer_share_all(struct gc_trace_worker *worker) {
+  while (!local_worklist_empty(&worker->local)) {
+    struct gc_ref *objv;
+    size_t count = local_worklist_pop_many(&worker->local, &objv,
+                                           LOCAL_WORKLIST_SIZE);
+    shared_worklist_push_many(&worker->shared, objv, count);
+  }
+}
+
 static inline void
 gc_trace_worker_enqueue(struct gc_trace_worker *worker, struct gc_ref ref) {
   ASSERT(gc_ref_is_heap_object(ref));
@@ -331,7 +341,9 @@ trace_with_data(struct gc_tracer *tracer,
     // roots-only trace consumes work monotonically; any object enqueued as a
     // result of marking roots isn't ours to deal with.  However we do need to
     // synchronize with remote workers to ensure they have completed their
-    // work items.
+    // work items.  Also, this worker may not get to run before the full trace
+    // finishes, so make sure that other workers can take what it enqueued.
+    tracer_share_all(worker);
     if (worker->id == 0) {
       for (size_t i = 1; i < tracer->worker_count; i++)
         pthread_mutex_lock(&tracer->workers[i].lock);
-- 
2.43.0


From ed15fb5f324a1fe4dc34d1ac67f4a67dc25329f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 13/42] fix: allow a mutator to deactivate while others exist
 in debug builds

---
 src/mmc.c | 1 -
 src/pcc.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 7a65b76..48c082f 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1260,7 +1260,6 @@ gc_finish_for_thread(struct gc_mutator *mut) {
 
 static void
 deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(&mut->logger);
diff --git a/src/pcc.c b/src/pcc.c
index 562821c..22e5ca3 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1323,7 +1323,6 @@ void gc_finish_for_thread(struct gc_mutator *mut) {
 }
 
 static void deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(mutator_field_logger(mut));
-- 
2.43.0


From cebd02ec452a7864b122f035cdf8256f2df772b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 14/42] fix: pcc: do not reserve a slab for each small
 expansion of the heap

---
 src/copy-space.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index a897c68..6c89c11 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -878,9 +878,11 @@ static void
 copy_space_expand(struct copy_space *space, size_t bytes) {
   GC_ASSERT(!copy_space_fixed_size(space));
   ssize_t to_acquire = -copy_space_maybe_reacquire_memory(space, bytes);
-  if (to_acquire <= 0) return;
-  size_t reserved = align_up(to_acquire, COPY_SPACE_SLAB_SIZE);
-  size_t nslabs = reserved / COPY_SPACE_SLAB_SIZE;
+  if (to_acquire < (ssize_t)COPY_SPACE_BLOCK_SIZE) return;
+  size_t payload_blocks =
+    COPY_SPACE_NONHEADER_BLOCKS_PER_SLAB - copy_space_first_payload_block(space);
+  size_t payload_size = payload_blocks * COPY_SPACE_BLOCK_SIZE;
+  size_t nslabs = (to_acquire + payload_size - 1) / payload_size;
   struct copy_space_slab *slabs =
     copy_space_allocate_slabs(nslabs, space->flags);
   copy_space_add_slabs(space, slabs, nslabs);
@@ -894,7 +896,6 @@ copy_space_expand(struct copy_space *space, size_t bytes) {
       block->all_zeroes[0] = block->all_zeroes[1] = 1;
       block->in_core = 0;
       copy_space_page_out_block(space, block, &lock);
-      reserved -= COPY_SPACE_BLOCK_SIZE;
     }
   }
   gc_lock_release(&lock);
-- 
2.43.0


From f223a2c43630755822204d8f092d627e9f82d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 15/42] fix: do not dereference NULL when failing to map memory
 to expand the heap

---
 src/copy-space.h | 2 ++
 src/nofl-space.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/copy-space.h b/src/copy-space.h
index 6c89c11..2043756 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -885,6 +885,8 @@ copy_space_expand(struct copy_space *space, size_t bytes) {
   size_t nslabs = (to_acquire + payload_size - 1) / payload_size;
   struct copy_space_slab *slabs =
     copy_space_allocate_slabs(nslabs, space->flags);
+  // If we failed to reserve memory, carry on with what we have.
+  if (!slabs) return;
   copy_space_add_slabs(space, slabs, nslabs);
 
   struct gc_lock lock = copy_space_lock(space);
diff --git a/src/nofl-space.h b/src/nofl-space.h
index 6e1542e..9d5fd56 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1851,6 +1851,8 @@ nofl_space_expand(struct nofl_space *space, size_t bytes) {
   size_t reserved = align_up(to_acquire, NOFL_SLAB_SIZE);
   size_t nslabs = reserved / NOFL_SLAB_SIZE;
   struct nofl_slab *slabs = nofl_allocate_slabs(nslabs);
+  // If we failed to reserve memory, carry on with what we have.
+  if (!slabs) return;
   nofl_space_add_slabs(space, slabs, nslabs);
 
   struct gc_lock lock = nofl_space_lock(space);
-- 
2.43.0


From 6ab4c79cc1de71ccf10dfed67733baba8d525196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 16/42] fix: run background tasks on the monotonic clock

---
 src/background-thread.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/background-thread.h b/src/background-thread.h
index 7a141ce..b93676b 100644
--- a/src/background-thread.h
+++ b/src/background-thread.h
@@ -44,12 +44,12 @@ gc_background_thread(void *data) {
   pthread_mutex_lock(&thread->lock);
   while (thread->state == GC_BACKGROUND_THREAD_STARTING)
     pthread_cond_wait(&thread->cond, &thread->lock);
-  struct timespec ts;
-  if (clock_gettime(CLOCK_REALTIME, &ts)) {
-    perror("background thread: failed to get time!");
-    return NULL;
-  }
   while (thread->state == GC_BACKGROUND_THREAD_RUNNING) {
+    struct timespec ts;
+    if (clock_gettime(CLOCK_MONOTONIC, &ts)) {
+      perror("background thread: failed to get time!");
+      break;
+    }
     ts.tv_sec += 1;
     pthread_cond_timedwait(&thread->cond, &thread->lock, &ts);
     if (thread->state == GC_BACKGROUND_THREAD_RUNNING)
@@ -72,7 +72,12 @@ gc_make_background_thread(void) {
   thread->capacity = 0;
   thread->state = GC_BACKGROUND_THREAD_STARTING;
   pthread_mutex_init(&thread->lock, NULL);
-  pthread_cond_init(&thread->cond, NULL);
+  // Tasks run every second, regardless of any change to the wall-clock time.
+  pthread_condattr_t attr;
+  pthread_condattr_init(&attr);
+  pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+  pthread_cond_init(&thread->cond, &attr);
+  pthread_condattr_destroy(&attr);
   if (pthread_create(&thread->thread, NULL, gc_background_thread, thread)) {
     perror("spawning background thread failed");
     GC_CRASH();
-- 
2.43.0


From 16546fe5cdc78311515ee500e0e110619d3a7298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 17/42] fix: pcc: allocate slabs as needed when large objects
 are freed

---
 src/pcc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pcc.c b/src/pcc.c
index 22e5ca3..560c380 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -641,7 +641,10 @@ static void heap_reset_large_object_pages(struct gc_heap *heap, size_t npages) {
   GC_ASSERT(npages <= previous);
   size_t bytes = (previous - npages) <<
     heap_large_object_space(heap)->page_size_log2;
-  copy_space_reacquire_memory(heap_resizable_space(heap), bytes);
+  // If the heap can grow, growth can consume copy-space blocks that were paged
+  // out to allow for lospace allocations, which means that here we may need to
+  // allocate additional slabs.
+  copy_space_expand(heap_resizable_space(heap), bytes);
 }
 
 static void wait_for_mutators_to_stop(struct gc_heap *heap) {
-- 
2.43.0


From 5f0358deac812e00ef22fa12496540583edf5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 18/42] fix: generational pcc: remember links from old
 finalizers to survivors

---
 src/gc-finalizer-internal.h | 10 ++++++++++
 src/gc-finalizer.c          | 18 ++++++++++++++++++
 src/pcc.c                   | 23 +++++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/src/gc-finalizer-internal.h b/src/gc-finalizer-internal.h
index 529a087..6964b76 100644
--- a/src/gc-finalizer-internal.h
+++ b/src/gc-finalizer-internal.h
@@ -49,6 +49,16 @@ size_t gc_visit_finalizer_roots(struct gc_finalizer_state *state,
                                 struct gc_heap *heap,
                                 void *visit_data);
 
+// Visit the edges that link the outstanding finalizers together.  Resolving
+// finalizers rewrites these links without a write barrier.
+GC_INTERNAL
+void gc_visit_finalizer_links(struct gc_finalizer_state *state,
+                              void (*visit)(struct gc_edge edge,
+                                            struct gc_heap *heap,
+                                            void *visit_data),
+                              struct gc_heap *heap,
+                              void *visit_data);
+
 GC_INTERNAL
 size_t gc_resolve_finalizers(struct gc_finalizer_state *state,
                              size_t priority,
diff --git a/src/gc-finalizer.c b/src/gc-finalizer.c
index d3a4fa9..caff08d 100644
--- a/src/gc-finalizer.c
+++ b/src/gc-finalizer.c
@@ -236,6 +236,24 @@ size_t gc_visit_finalizer_roots(struct gc_finalizer_state *state,
   return count;
 }
 
+// internal
+void gc_visit_finalizer_links(struct gc_finalizer_state *state,
+                              void (*visit)(struct gc_edge,
+                                            struct gc_heap*,
+                                            void *),
+                              struct gc_heap *heap,
+                              void *visit_data) {
+  for (size_t tidx = 0; tidx < state->table_count; tidx++) {
+    struct gc_finalizer_table *table = &state->tables[tidx];
+    if (table->finalizer_count)
+      for (size_t bidx = 0; bidx < BUCKET_COUNT; bidx++)
+        for (struct gc_finalizer *f = table->buckets[bidx]; f; f = f->next)
+          visit(gc_edge(&f->next), heap, visit_data);
+  }
+  for (struct gc_finalizer *f = state->fired; f; f = f->next)
+    visit(gc_edge(&f->next), heap, visit_data);
+}
+
 // public
 void gc_trace_finalizer(struct gc_finalizer *f,
                         void (*visit)(struct gc_edge edge,
diff --git a/src/pcc.c b/src/pcc.c
index 560c380..adac0b5 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -795,6 +795,27 @@ static void trace_resolved_ephemerons(struct gc_heap *heap) {
   }
 }
 
+static void remember_finalizer_link(struct gc_edge edge, struct gc_heap *heap,
+                                    void *data) {
+  struct gc_field_set_writer *logger = data;
+  struct gc_ref ref = gc_edge_ref(edge);
+  if (!gc_ref_is_null(ref)
+      && new_space_contains(heap, ref)
+      && !edge_is_from_survivor(heap, edge)
+      && remember_edge_to_survivor_object(heap, edge))
+    gc_field_set_writer_add_edge(logger, edge);
+}
+
+// Resolving finalizers rebuilds the lists that link them together, which may
+// leave a finalizer in the old generation pointing to a survivor.
+static void remember_finalizer_links(struct gc_heap *heap) {
+  struct gc_field_set_writer logger;
+  gc_field_set_writer_init(&logger, heap_remembered_set(heap));
+  gc_visit_finalizer_links(heap->finalizer_state, remember_finalizer_link,
+                           heap, &logger);
+  gc_field_set_writer_release_buffer(&logger);
+}
+
 static void resolve_finalizers(struct gc_heap *heap) {
   for (size_t priority = 0;
        priority < gc_finalizer_priority_count();
@@ -805,6 +826,8 @@ static void resolve_finalizers(struct gc_heap *heap) {
       trace_resolved_ephemerons(heap);
     }
   }
+  if (GC_GENERATIONAL && is_minor_collection(heap))
+    remember_finalizer_links(heap);
   gc_notify_finalizers(heap->finalizer_state, heap);
 }
 
-- 
2.43.0


From 3a6b2ca144982b016342b824ffc2440da6d0889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 19/42] fix: mmc: mark an evacuated object before publishing
 its new address

---
 src/nofl-space.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 9d5fd56..4fd35f8 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1556,17 +1556,19 @@ nofl_space_evacuate(struct nofl_space *space, uint8_t *metadata, uint8_t byte,
       // commit.
       memcpy(gc_ref_heap_object(new_ref), gc_ref_heap_object(old_ref),
              object_granules * NOFL_GRANULE_SIZE);
-      gc_atomic_forward_commit(&fwd, new_ref);
-      // Now update extent metadata, and indicate to the caller that
-      // the object's fields need to be traced.
+      // Update extent metadata and mark the new copy before committing: as soon
+      // as the forwarding address is visible, another worker can come across
+      // an edge to the new copy, and it needs to see that it is marked.
       uint8_t *new_metadata = nofl_metadata_byte_for_object(new_ref);
       memcpy(new_metadata + 1, metadata + 1, object_granules - 1);
       if (GC_GENERATIONAL)
         byte = clear_logged_bits_in_evacuated_object(byte, new_metadata,
                                                      object_granules);
+      nofl_space_set_nonempty_mark(space, new_metadata, byte, new_ref);
+      gc_atomic_forward_commit(&fwd, new_ref);
+      // Indicate to the caller that the object's fields need to be traced.
       gc_edge_update(edge, new_ref);
-      return nofl_space_set_nonempty_mark(space, new_metadata, byte,
-                                          new_ref);
+      return 1;
     } else {
       // Well shucks; allocation failed.  Mark in place and then release the
       // object.
-- 
2.43.0


From f45fba9ae3fd82bd18cb2c7e3841b9e60b62cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 20/42] fix: check for allocation failure in
 gc_allocate_options

---
 src/bdw.c  | 1 +
 src/mmc.c  | 1 +
 src/pcc.c  | 1 +
 src/semi.c | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/bdw.c b/src/bdw.c
index 83a157d..a94707d 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -444,6 +444,7 @@ int gc_option_from_string(const char *str) {
 }
 struct gc_options* gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret) GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
diff --git a/src/mmc.c b/src/mmc.c
index 48c082f..4dbb31f 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1076,6 +1076,7 @@ gc_option_from_string(const char *str) {
 struct gc_options*
 gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret) GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
diff --git a/src/pcc.c b/src/pcc.c
index adac0b5..e697f4f 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1170,6 +1170,7 @@ int gc_option_from_string(const char *str) {
 }
 struct gc_options* gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret) GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
diff --git a/src/semi.c b/src/semi.c
index a4ee85f..a199076 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -651,6 +651,7 @@ int gc_option_from_string(const char *str) {
 }
 struct gc_options* gc_allocate_options(void) {
   struct gc_options *ret = malloc(sizeof(struct gc_options));
+  if (!ret) GC_CRASH();
   gc_init_common_options(&ret->common);
   return ret;
 }
-- 
2.43.0


From 29c2b5132ca7a06d6a87ee03fd0c321657c9a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 21/42] fix: generational pcc: report the kind of the
 collection a mutator waited for

---
 src/pcc.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index e697f4f..db233f7 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -666,16 +666,15 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   if (all_mutators_stopped(heap))
     pthread_cond_signal(&heap->collector_cond);
 
-  enum gc_collection_kind collection_kind = GC_COLLECTION_MINOR;
-  do {
+  do
     pthread_cond_wait(&heap->mutator_cond, &heap->lock);
-    // is_minor_collection is reset before requesting mutators to stop, so this
-    // will pick up either whether the last collection was minor, or whether the
-    // next one will be minor.
-    if (!GC_GENERATIONAL || !is_minor_collection(heap))
-      collection_kind = GC_COLLECTION_COMPACTING;
-  } while (mutators_are_stopping(heap));
+  while (mutators_are_stopping(heap));
   heap->paused_mutator_count--;
+  // The kind of a collection is only determined once all mutators have stopped,
+  // so look at it after the collection rather than when waking up.
+  enum gc_collection_kind collection_kind = GC_COLLECTION_COMPACTING;
+  if (GC_GENERATIONAL && is_minor_collection(heap))
+    collection_kind = GC_COLLECTION_MINOR;
 
   MUTATOR_EVENT(mut, mutator_restarted);
   return collection_kind;
-- 
2.43.0


From b38e17fdf8dc9c71400d8ce258d02bc44a3f3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 22/42] fix: mmc: age every block of the page-out queue, so
 that released memory goes back to the OS

---
 src/nofl-space.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 4fd35f8..21c821d 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1882,11 +1882,13 @@ nofl_space_advance_page_out_queue(void *data) {
   struct nofl_space *space = data;
   struct gc_lock lock = nofl_space_lock(space);
   for (int age = NOFL_PAGE_OUT_QUEUE_SIZE - 3; age >= 0; age--) {
-    struct nofl_block_ref block =
-      nofl_block_stack_pop(&space->paged_out[age], &lock);
-    if (nofl_block_is_null(block))
-      break;
-    nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    while (1) {
+      struct nofl_block_ref block =
+        nofl_block_stack_pop(&space->paged_out[age], &lock);
+      if (nofl_block_is_null(block))
+        break;
+      nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    }
   }
   gc_lock_release(&lock);
 }
-- 
2.43.0


From 7fdbaf87e5aa23c68732a23dc0c632e60a15987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 23/42] fix: generational: put large objects fresh from the OS
 in the nursery, so that minor collections can free them

---
 src/large-object-space.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index 3525599..f4d8ec8 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -493,6 +493,8 @@ large_object_space_alloc(struct large_object_space *space, size_t npages,
         large_object_tree_insert(&space->object_tree, k, v);
       uintptr_t node_bits = (uintptr_t)node;
       address_map_add(&space->object_map, addr, node_bits);
+      if (GC_GENERATIONAL)
+        address_map_add(&space->nursery, addr, node_bits);
       space->total_pages += npages;
       pthread_mutex_unlock(&space->object_tree_lock);
     }
-- 
2.43.0


From 76da49ba81288a7ec71dd42a0136f2df1c5d7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 24/42] fix: mmc: trace newly visited external objects through
 the embedder

trace_plan assumed that any object outside the nofl space is a large
object, so an external object that gc_extern_space_visit asks to have
traced made it dereference a null pointer.
---
 src/mmc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index 4dbb31f..09f7027 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -336,9 +336,13 @@ static inline struct gc_trace_plan
 trace_plan(struct gc_heap *heap, struct gc_ref ref) {
   if (GC_LIKELY(nofl_space_contains(heap_nofl_space(heap), ref))) {
     return nofl_space_object_trace_plan(heap_nofl_space(heap), ref);
-  } else {
+  } else if (large_object_space_contains_with_lock(heap_large_object_space(heap),
+                                                   ref)) {
     return large_object_space_object_trace_plan(heap_large_object_space(heap),
                                                 ref);
+  } else {
+    // External object, newly visited.  Only the embedder knows its layout.
+    return (struct gc_trace_plan){ GC_TRACE_PRECISELY, };
   }
 }
 
-- 
2.43.0


From 8f6419b005af18295df1a5840acf668e1a8baa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 25/42] fix: mmc: count large objects when estimating live data
 before a major collection

---
 src/mmc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 09f7027..3ae640a 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -795,14 +795,15 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
+  // Starting a major collection resets the count of live large objects.
+  double yield = heap_last_gc_yield(heap);
+  double fragmentation = heap_fragmentation(heap);
+  size_t live_bytes = heap->size * (1.0 - yield);
   nofl_space_prepare_gc(nofl_space, gc_kind);
   large_object_space_start_gc(lospace, is_minor);
   gc_extern_space_start_gc(exspace, is_minor);
   resolve_ephemerons_lazily(heap);
   gc_tracer_prepare(&heap->tracer);
-  double yield = heap_last_gc_yield(heap);
-  double fragmentation = heap_fragmentation(heap);
-  size_t live_bytes = heap->size * (1.0 - yield);
   HEAP_EVENT(heap, live_data_size, live_bytes);
   DEBUG("last gc yield: %f; fragmentation: %f\n", yield, fragmentation);
   // Eagerly trace pinned roots if we are going to relocate objects.
-- 
2.43.0


From e15364100b4ebb147f08406f0b8adc0ddd120752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 26/42] fix: semi: do not shrink the heap below what its
 survivors need

---
 src/semi.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/semi.c b/src/semi.c
index a199076..6ad4db5 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -313,8 +313,16 @@ static void truncate_region(struct region *region, size_t new_size) {
   }
 }
 
+// The size of a heap in which what survived the last collection fits.
+static size_t surviving_heap_size(struct semi_space *semi) {
+  size_t copied = semi->hp - semi->to_space.base;
+  return copied * 2 + align_up(semi->stolen_pages, 2) * semi->page_size;
+}
+
 static void resize_heap(struct gc_heap *heap, size_t new_heap_size) {
   struct semi_space *semi = heap_semi_space(heap);
+  // The sizer doesn't know that we need space for two copies of small objects.
+  new_heap_size = max_size(new_heap_size, surviving_heap_size(semi));
   new_heap_size = align_up(new_heap_size, semi->page_size * 2);
   size_t new_region_size = new_heap_size / 2;
 
-- 
2.43.0


From 666cc2badb284beafe3d2ef60f3c458c0116e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 27/42] fix: semi: grow the heap when it has no space for an
 allocation, whatever the sizer's target

---
 src/semi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/semi.c b/src/semi.c
index 6ad4db5..a45abc3 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -444,6 +444,13 @@ static void collect(struct gc_mutator *mut, size_t for_alloc) {
         heap->size);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
                       resize_heap);
+  if (for_alloc && heap->sizer.policy != GC_HEAP_SIZE_FIXED) {
+    // The sizer's target may not have space for this allocation, notably with
+    // a multiplier less than two.  Leave some headroom for the next ones.
+    size_t needed = surviving_heap_size(semi) + (for_alloc + semi->page_size) * 2;
+    if (heap->size < needed)
+      resize_heap(heap, needed + needed / 8);
+  }
   reset_heap_limits(heap);  
   clear_memory(semi->hp, semi->limit - semi->hp);
 
-- 
2.43.0


From 7bbfd11887839b335c14d524ba6791f5320c8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 28/42] fix: generational pcc: count objects promoted by minor
 collections as live

---
 src/pcc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index db233f7..ce823c4 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -873,8 +873,8 @@ static void
 copy_spaces_finish_gc(struct gc_heap *heap, int is_minor_gc) {
   if (GC_GENERATIONAL) {
     copy_space_finish_gc(heap_new_space(heap), is_minor_gc);
-    if (!is_minor_gc)
-      copy_space_finish_gc(heap_old_space(heap), 0);
+    // Minor collections promote objects to the old space.
+    copy_space_finish_gc(heap_old_space(heap), 0);
   } else {
     GC_ASSERT(!is_minor_gc);
     copy_space_finish_gc(heap_mono_space(heap), 0);
-- 
2.43.0


From 5b9fa1745584c3275b79000d9b17453214dbb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 29/42] fix: mmc: estimate live data relative to the heap size
 at the last collection

---
 src/mmc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index 3ae640a..e8091b6 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -798,7 +798,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   // Starting a major collection resets the count of live large objects.
   double yield = heap_last_gc_yield(heap);
   double fragmentation = heap_fragmentation(heap);
-  size_t live_bytes = heap->size * (1.0 - yield);
+  size_t live_bytes = heap->size_at_last_gc * (1.0 - yield);
   nofl_space_prepare_gc(nofl_space, gc_kind);
   large_object_space_start_gc(lospace, is_minor);
   gc_extern_space_start_gc(exspace, is_minor);
-- 
2.43.0


From 814ec9f512dc693b0bf304ba7d0b737bbcf28979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 30/42] fix: don't take memory the OS would not discard for
 zeroed memory

When madvise fails, for example because the memory is locked, a block that was
paged out keeps its old contents.
---
 src/copy-space.h | 13 ++++++++-----
 src/nofl-space.h |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 2043756..f06b7e9 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -928,11 +928,14 @@ copy_space_page_out_blocks(void *data) {
     struct copy_space_block *block =
       copy_space_block_stack_pop(&space->paged_out[age], &lock);
     if (!block) break;
-    block->in_core = 0;
-    block->all_zeroes[0] = block->all_zeroes[1] = 1;
-    gc_platform_discard_memory(copy_space_block_payload(block),
-                               COPY_SPACE_BLOCK_SIZE);
-    copy_space_clear_field_logged_bits_for_block(space, block);
+    // If the OS won't discard the memory, for example because it is locked, the
+    // block is still resident and not zero.
+    if (gc_platform_discard_memory(copy_space_block_payload(block),
+                                   COPY_SPACE_BLOCK_SIZE)) {
+      block->in_core = 0;
+      block->all_zeroes[0] = block->all_zeroes[1] = 1;
+      copy_space_clear_field_logged_bits_for_block(space, block);
+    }
     copy_space_block_stack_push(&space->paged_out[age + 1], block, &lock);
   }
   gc_lock_release(&lock);
diff --git a/src/nofl-space.h b/src/nofl-space.h
index 21c821d..d16dc3e 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1905,8 +1905,10 @@ nofl_space_page_out_blocks(void *data) {
       nofl_block_stack_pop(&space->paged_out[age], &lock);
     if (nofl_block_is_null(block))
       break;
-    nofl_block_set_flag(block, NOFL_BLOCK_ZERO | NOFL_BLOCK_PAGED_OUT);
-    gc_platform_discard_memory((void*)block.addr, NOFL_BLOCK_SIZE);
+    // If the OS won't discard the memory, for example because it is locked, the
+    // block is still resident and not zero.
+    if (gc_platform_discard_memory((void*)block.addr, NOFL_BLOCK_SIZE))
+      nofl_block_set_flag(block, NOFL_BLOCK_ZERO | NOFL_BLOCK_PAGED_OUT);
     nofl_block_stack_push(&space->paged_out[age + 1], block, &lock);
   }
   gc_lock_release(&lock);
-- 
2.43.0


From 34acac51850b08a37ee79ef4b05f6832df9045c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 31/42] fix: event listener chain: forward mutator events to
 the right callbacks

The header did not compile: it used fields of another struct, and passed
restarting_mutators on for mutator_cause_gc.
---
 api/gc-event-listener-chain.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/api/gc-event-listener-chain.h b/api/gc-event-listener-chain.h
index 27b56d5..1d115d8 100644
--- a/api/gc-event-listener-chain.h
+++ b/api/gc-event-listener-chain.h
@@ -3,6 +3,8 @@
 
 #include "gc-event-listener.h"
 
+#include <stdlib.h>
+
 struct gc_event_listener_chain {
   struct gc_event_listener head; void *head_data;
   struct gc_event_listener tail; void *tail_data;
@@ -70,7 +72,7 @@ static inline void gc_event_listener_chain_restarting_mutators(void *data) {
 
 static inline void* gc_event_listener_chain_mutator_added(void *data) {
   struct gc_event_listener_chain *chain = data;
-  struct gc_event_listener_chain_mutator *mutator = malloc(sizeof(*mutator));;
+  struct gc_event_listener_chain_mutator *mutator = malloc(sizeof(*mutator));
   if (!mutator) abort();
   mutator->chain = chain;
   mutator->head_mutator_data = chain->head.mutator_added(chain->head_data);
@@ -80,28 +82,28 @@ static inline void* gc_event_listener_chain_mutator_added(void *data) {
 
 static inline void gc_event_listener_chain_mutator_cause_gc(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.restarting_mutators(mutator->head_data);
-  mutator->chain->tail.restarting_mutators(mutator->tail_data);
+  mutator->chain->head.mutator_cause_gc(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_cause_gc(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopping(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopping(mutator->head_data);
-  mutator->chain->tail.mutator_stopping(mutator->tail_data);
+  mutator->chain->head.mutator_stopping(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopping(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopped(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopped(mutator->head_data);
-  mutator->chain->tail.mutator_stopped(mutator->tail_data);
+  mutator->chain->head.mutator_stopped(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopped(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_restarted(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_restarted(mutator->head_data);
-  mutator->chain->tail.mutator_restarted(mutator->tail_data);
+  mutator->chain->head.mutator_restarted(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_restarted(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_removed(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_removed(mutator->head_data);
-  mutator->chain->tail.mutator_removed(mutator->tail_data);
+  mutator->chain->head.mutator_removed(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_removed(mutator->tail_mutator_data);
   free(mutator);
 }
 
@@ -140,6 +142,6 @@ static inline void gc_event_listener_chain_live_data_size(void *data, size_t siz
   })
 
 #define GC_EVENT_LISTENER_CHAIN_DATA(head, head_data, tail, tail_data)  \
-  ((struct gc_event_listener_chain_data){head, head_data, tail, tail_data})
+  ((struct gc_event_listener_chain){head, head_data, tail, tail_data})
 
 #endif // GC_EVENT_LISTENER_CHAIN_H
-- 
2.43.0


From b134c12fd72411694fa99863a77a511eaaff2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 32/42] fix: basic stats: measure pauses with the monotonic
 clock

If the wall clock was set back during a pause, the pause and total times
underflowed.
---
 api/gc-basic-stats.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/api/gc-basic-stats.h b/api/gc-basic-stats.h
index 0f8c68a..5fcdd5b 100644
--- a/api/gc-basic-stats.h
+++ b/api/gc-basic-stats.h
@@ -8,7 +8,6 @@
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
-#include <sys/time.h>
 #include <time.h>
 
 GC_DEFINE_HISTOGRAM(gc_latency, 25, 4);
@@ -30,11 +29,12 @@ struct gc_basic_stats {
 };
 
 static inline uint64_t gc_basic_stats_now(void) {
-  struct timeval tv;
-  if (gettimeofday(&tv, NULL) != 0) GC_CRASH();
-  uint64_t ret = tv.tv_sec;
+  // Durations need a clock that nobody sets.
+  struct timespec ts;
+  if (clock_gettime(CLOCK_MONOTONIC, &ts) != 0) GC_CRASH();
+  uint64_t ret = ts.tv_sec;
   ret *= 1000 * 1000;
-  ret += tv.tv_usec;
+  ret += ts.tv_nsec / 1000;
   return ret;
 }
 
-- 
2.43.0


From 50440ac3ada674a82693e5e0aca51ea833e5b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 33/42] fix: histogram: round the rank of a percentile up

The median of a single pause was reported as the smallest bucket, whatever the
pause.
---
 api/gc-histogram.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/gc-histogram.h b/api/gc-histogram.h
index 0761a63..6d350ec 100644
--- a/api/gc-histogram.h
+++ b/api/gc-histogram.h
@@ -67,7 +67,9 @@ static inline uint64_t gc_histogram_bucket_min_val(uint64_t precision,
     return sum;                                                         \
   }                                                                     \
   static inline uint64_t name##_percentile(struct name *h, double p) {  \
-    uint64_t n = name##_count(h) * p;                                   \
+    double rank = name##_count(h) * p;                                  \
+    uint64_t n = rank;                                                  \
+    if (n < rank) n++;                                                  \
     uint64_t sum = 0;                                                   \
     for (size_t bucket = 0; bucket + 1 < name##_size(); bucket++) {     \
       sum += h->buckets[bucket];                                        \
-- 
2.43.0


From 5ab4bd63df02ad47d1feab1d2084e37777bcb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 34/42] fix: options: reject integers and sizes that don't fit

An int option of 4294967297 was taken for 1, and a size could overflow.
---
 src/gc-options.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 31de027..3a96539 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -91,24 +91,26 @@ static int parse_size(const char *arg, size_t *val) {
   if (i < 0 || i == LONG_MAX) return 0;
   if (end == arg) return 0;
   char delim = *end;
+  size_t unit = 1;
   if (delim == 'k' || delim == 'K')
-    ++end, i *= 1024L;
+    ++end, unit = 1024L;
   else if (delim == 'm' || delim == 'M')
-    ++end, i *= 1024L * 1024L;
+    ++end, unit = 1024L * 1024L;
   else if (delim == 'g' || delim == 'G')
-    ++end, i *= 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L;
   else if (delim == 't' || delim == 'T')
-    ++end, i *= 1024L * 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L * 1024L;
 
   if (*end != '\0') return 0;
-  *val = i;
+  if (i > (size_t)-1 / unit) return 0;
+  *val = i * unit;
   return 1;
 }
 
 static int parse_int(const char *arg, int *val) {
   char *end;
   long i = strtol(arg, &end, 0);
-  if (i == LONG_MIN || i == LONG_MAX || end == arg || *end)
+  if (i < INT_MIN || i > INT_MAX || end == arg || *end)
     return 0;
   *val = i;
   return 1;
-- 
2.43.0


From 5ef276cbba0245fa16d195046dbd980aa7d1e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 35/42] fix: options: fail when there is no memory to parse a
 string

---
 src/gc-options.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gc-options.c b/src/gc-options.c
index 3a96539..ccea68b 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -176,6 +176,7 @@ int gc_options_parse_and_set_many(struct gc_options *options,
                                   const char *str) {
   if (!*str) return 1;
   char *copy = strdup(str);
+  if (!copy) return 0;
   char *cur = copy;
   int ret = 0;
   while (1) {
-- 
2.43.0


From f1e0b705c5c86c41f177b94738d70b8714c5a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 36/42] fix: mmc: don't repeat collections that allow no
 allocation

If an allocation doesn't fit after a minor collection but the yield is good, for
example because of fragmentation, a generational heap would do minor collections
forever, and a growable heap that is too small for any block would collect
forever instead of growing.  Collect more thoroughly; if that doesn't help, give
up or grow.  A collection that the user requested says nothing about that,
though.
---
 src/mmc.c        | 78 ++++++++++++++++++++++++++++++++++--------------
 src/nofl-space.h | 18 +++++++++++
 2 files changed, 74 insertions(+), 22 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index e8091b6..9a291cc 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -54,6 +54,11 @@ struct gc_heap {
   struct gc_heap_roots *roots;
   struct gc_mutator *mutators;
   long count;
+  // Since anybody last allocated anything, the most blocks that were free after
+  // a collection, and how many successive collections of the same kind then
+  // freed no more than that.
+  size_t most_free_blocks;
+  size_t unproductive_collections;
   struct gc_tracer tracer;
   double fragmentation_low_threshold;
   double fragmentation_high_threshold;
@@ -85,6 +90,9 @@ struct gc_mutator {
   struct gc_stack stack;
   struct gc_mutator_roots *roots;
   void *event_listener_data;
+  // Nonzero if there was a collection since this mutator started on the
+  // allocation that it is busy with.
+  int collected_for_allocation;
   struct gc_mutator *next;
   struct gc_mutator *prev;
 };
@@ -517,26 +525,10 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
   return bytes;
 }
 
-static void
-detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
-                     enum gc_collection_kind requested) {
-  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
-    return;
-
-  if (allocation_since_last_gc > nofl_space_fragmentation(heap_nofl_space(heap)))
-    return;
-
-  if (heap->gc_kind == GC_COLLECTION_MINOR)
-    return;
-
-  // If the last collection was weaker than the one we are about to do, perhaps
-  // because another thread caused it, this one may still find some space.
-  if (heap->gc_kind < requested && !gc_has_conservative_intraheap_edges())
-    return;
-
-  // No allocation since last gc: out of memory.
-  fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
-  GC_CRASH();
+static enum gc_collection_kind
+strongest_collection_kind(void) {
+  return gc_has_conservative_intraheap_edges()
+    ? GC_COLLECTION_MAJOR : GC_COLLECTION_COMPACTING;
 }
 
 static double
@@ -789,8 +781,32 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   nofl_space_add_to_allocation_counter(nofl_space, &allocation_counter);
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
-  if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter, requested_kind);
+  int no_allocation =
+    allocation_counter <= nofl_space_young_fragmentation(nofl_space);
+  if (!no_allocation) {
+    heap->unproductive_collections = 0;
+    heap->most_free_blocks = 0;
+  }
+  enum gc_collection_kind previous_kind = heap->gc_kind;
+  int stuck = 0;
+  if (!requested_by_user && mut->collected_for_allocation && no_allocation) {
+    // Once collections free no more blocks, only a more thorough one may find
+    // some space.  Compact twice, as the first time there is hardly an
+    // evacuation reserve.
+    enum gc_collection_kind kind = previous_kind;
+    if (heap->unproductive_collections) {
+      if (kind < strongest_collection_kind())
+        kind++;
+      else if (heap->unproductive_collections > 1)
+        stuck = 1;
+    }
+    if (requested_kind < kind)
+      requested_kind = kind;
+  }
+  if (stuck && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
+    fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
+    GC_CRASH();
+  }
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
@@ -825,6 +841,15 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   gc_tracer_release(&heap->tracer);
   clear_remembered_set(heap);
   nofl_space_finish_gc(nofl_space, gc_kind);
+  size_t free_blocks = nofl_free_block_count(nofl_space);
+  if (free_blocks > heap->most_free_blocks) {
+    heap->most_free_blocks = free_blocks;
+    heap->unproductive_collections = 0;
+  } else if (gc_kind != previous_kind) {
+    heap->unproductive_collections = 1;
+  } else {
+    heap->unproductive_collections++;
+  }
   large_object_space_finish_gc(lospace, is_minor);
   gc_extern_space_finish_gc(exspace, is_minor);
   heap->count++;
@@ -835,6 +860,12 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   DEBUG("--- total live bytes estimate: %zu\n", live_bytes_estimate);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_bytes_estimate, pause_ns,
                       resize_heap);
+  if (stuck && heap->sizer.policy != GC_HEAP_SIZE_FIXED
+      && heap->size <= heap->size_at_last_gc)
+    // The heap is just too small, which the sizer can't tell, as it only
+    // considers live objects.
+    resize_heap(heap, (heap->size_at_last_gc
+                       + heap->mutator_count * NOFL_BLOCK_SIZE));
   heap->size_at_last_gc = heap->size;
   HEAP_EVENT(heap, restarting_mutators);
   allow_mutators_to_continue(heap);
@@ -856,6 +887,7 @@ trigger_collection(struct gc_mutator *mut,
   if (prev_kind < (int)requested_kind)
     collect(mut, requested_kind, requested_by_user);
   heap_unlock(heap);
+  mut->collected_for_allocation = !requested_by_user;
 }
 
 void
@@ -955,6 +987,8 @@ gc_allocate_slow(struct gc_mutator *mut, size_t size,
                  enum gc_allocation_kind kind) {
   GC_ASSERT(size > 0); // allocating 0 bytes would be silly
 
+  mut->collected_for_allocation = 0;
+
   if (size > gc_allocator_large_threshold())
     return allocate_large(mut, size, compute_trace_kind(kind));
 
diff --git a/src/nofl-space.h b/src/nofl-space.h
index d16dc3e..f4f6ccb 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -549,6 +549,19 @@ nofl_active_block_count(struct nofl_space *space) {
   return total - unavailable;
 }
 
+// The number of blocks without any object, be they available for allocation,
+// reserved for evacuation, or returned to the OS.
+static size_t
+nofl_free_block_count(struct nofl_space *space) {
+  struct gc_lock lock = nofl_space_lock(space);
+  size_t count = nofl_block_count(&space->empty.list)
+    + nofl_block_count(&space->evacuation_targets);
+  for (int age = 0; age < NOFL_PAGE_OUT_QUEUE_SIZE; age++)
+    count += nofl_block_count(&space->paged_out[age].list);
+  gc_lock_release(&lock);
+  return count;
+}
+
 static int
 nofl_maybe_push_evacuation_target(struct nofl_space *space,
                                   struct nofl_block_ref block,
@@ -1082,6 +1095,11 @@ nofl_space_evacuation_reserve_bytes(struct nofl_space *space) {
   return nofl_block_count(&space->evacuation_targets) * NOFL_BLOCK_SIZE;
 }
 
+static size_t
+nofl_space_young_fragmentation(struct nofl_space *space) {
+  return space->fragmentation_granules_since_last_collection * NOFL_GRANULE_SIZE;
+}
+
 static size_t
 nofl_space_fragmentation(struct nofl_space *space) {
   size_t young = space->fragmentation_granules_since_last_collection;
-- 
2.43.0


From 86018d09a869bbbb48f5229fdd31051592be2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 37/42] fix: pcc: don't repeat collections that allow no
 allocation

A heap without space for a block collected forever instead of growing, or giving
up if its size is fixed.
---
 src/pcc.c | 55 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index ce823c4..eafdb00 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -93,6 +93,9 @@ struct gc_mutator {
   struct gc_heap *heap;
   struct gc_mutator_roots *roots;
   void *event_listener_data;
+  // Nonzero if there was a collection since this mutator started on the
+  // allocation that it is busy with.
+  int collected_for_allocation;
   struct gc_mutator *next;
   struct gc_mutator *prev;
 };
@@ -891,10 +894,11 @@ copy_spaces_allocated_bytes(struct gc_heap *heap)
 }
 
 static enum gc_collection_kind
-collect(struct gc_mutator *mut,
-        enum gc_collection_kind requested_kind) GC_NEVER_INLINE;
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        int requested_by_user) GC_NEVER_INLINE;
 static enum gc_collection_kind
-collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        int requested_by_user) {
   struct gc_heap *heap = mutator_heap(mut);
   struct large_object_space *lospace = heap_large_object_space(heap);
   struct gc_extern_space *exspace = heap_extern_space(heap);
@@ -906,6 +910,21 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
   HEAP_EVENT(heap, waiting_for_stop);
   wait_for_mutators_to_stop(heap);
   HEAP_EVENT(heap, mutators_stopped);
+  uint64_t *counter_loc = &heap->total_allocated_bytes_at_last_gc;
+  uint64_t previous_counter = *counter_loc;
+  copy_space_add_to_allocation_counter(heap_allocation_space(heap),
+                                       counter_loc);
+  large_object_space_add_to_allocation_counter(lospace, counter_loc);
+  int stuck = 0;
+  // If nobody could allocate anything since the last collection, another one
+  // like it won't help.
+  if (!requested_by_user && mut->collected_for_allocation
+      && *counter_loc == previous_counter) {
+    if (GC_GENERATIONAL && is_minor_collection(heap))
+      requested_kind = GC_COLLECTION_COMPACTING;
+    else
+      stuck = 1;
+  }
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor_gc =
@@ -914,10 +933,6 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
 #endif
     GC_GENERATIONAL ? gc_kind == GC_COLLECTION_MINOR : 0;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
-  uint64_t *counter_loc = &heap->total_allocated_bytes_at_last_gc;
-  copy_space_add_to_allocation_counter(heap_allocation_space(heap),
-                                       counter_loc);
-  large_object_space_add_to_allocation_counter(lospace, counter_loc);
   copy_spaces_start_gc(heap, is_minor_gc);
   large_object_space_start_gc(lospace, is_minor_gc);
   gc_extern_space_start_gc(exspace, is_minor_gc);
@@ -946,11 +961,19 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
                       large_object_space_size_at_last_collection(lospace));
   uint64_t pause_ns = gc_platform_monotonic_nanoseconds() - start_ns;
   HEAP_EVENT(heap, live_data_size, live_size);
+  size_t previous_size = heap->size;
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
                       resize_heap);
+  if (stuck && heap->sizer.policy != GC_HEAP_SIZE_FIXED
+      && heap->size <= previous_size)
+    // The heap is just too small, which the sizer can't tell, as it only
+    // considers live objects.
+    resize_heap(heap, (previous_size
+                       + heap->mutator_count * COPY_SPACE_BLOCK_SIZE));
   {
     struct copy_space *space = heap_resizable_space(heap);
-    if (!copy_space_page_out_blocks_until_memory_released(space)
+    int released = copy_space_page_out_blocks_until_memory_released(space);
+    if ((stuck || (!released && !is_minor_gc))
         && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
       fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
       GC_CRASH();
@@ -962,7 +985,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
 }
 
 static void trigger_collection(struct gc_mutator *mut,
-                               enum gc_collection_kind requested_kind) {
+                               enum gc_collection_kind requested_kind,
+                               int requested_by_user) {
   struct gc_heap *heap = mutator_heap(mut);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
@@ -972,12 +996,13 @@ static void trigger_collection(struct gc_mutator *mut,
   while (mutators_are_stopping(heap))
     prev_kind = pause_mutator_for_collection(heap, mut);
   if (prev_kind < (int)requested_kind)
-    collect(mut, requested_kind);
+    collect(mut, requested_kind, requested_by_user);
   heap_unlock(heap);
+  mut->collected_for_allocation = !requested_by_user;
 }
 
 void gc_collect(struct gc_mutator *mut, enum gc_collection_kind kind) {
-  trigger_collection(mut, kind);
+  trigger_collection(mut, kind, 1);
 }
 
 static void* allocate_large(struct gc_mutator *mut, size_t size) {
@@ -997,7 +1022,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
       resize_heap(heap, heap->size + (npages << space->page_size_log2));
       heap_unlock(heap);
     } else {
-      trigger_collection(mut, GC_COLLECTION_COMPACTING);
+      trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
       collected = 1;
     }
   }
@@ -1014,7 +1039,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 }
 
 static void get_more_empty_blocks_for_mutator(void *mut) {
-  trigger_collection(mut, GC_COLLECTION_MINOR);
+  trigger_collection(mut, GC_COLLECTION_MINOR, 0);
 }
 
 void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
@@ -1027,6 +1052,8 @@ void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
   }
   GC_ASSERT(size > 0); // allocating 0 bytes would be silly
 
+  mut->collected_for_allocation = 0;
+
   if (size > gc_allocator_large_threshold())
     return allocate_large(mut, size);
 
@@ -1036,7 +1063,7 @@ void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
                               heap_allocation_space(mutator_heap(mut)),
                               size);
     if (gc_ref_is_null(ret))
-      trigger_collection(mut, GC_COLLECTION_MINOR);
+      trigger_collection(mut, GC_COLLECTION_MINOR, 0);
     else
       break;
   }
-- 
2.43.0


From 3fbb25b638f967ee9fddfd6d357778c474b96c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 38/42] fix: don't modify the set of heap extents under
 concurrent readers

A mutator that allocates a large object, or the adaptive heap sizer, can expand
the heap while other mutators run.  A write barrier or a request to pin an object
could then look up an address in a set of extents that was being shifted, or that
had been freed.  Instead publish a new set, and release the old one at the next
collection.
---
 src/copy-space.h |  8 ++---
 src/extents.h    | 85 ++++++++++++++++++++++++++++++++----------------
 src/nofl-space.h |  8 ++---
 3 files changed, 65 insertions(+), 36 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index f06b7e9..7d50789 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -144,7 +144,7 @@ struct copy_space {
   uint32_t flags;
   size_t allocated_bytes_at_last_gc;
   size_t fragmentation_at_last_gc;
-  struct extents *extents;
+  struct extents *extents; // atomically
   struct copy_space_slab **slabs;
   size_t nslabs;
 };
@@ -341,7 +341,7 @@ copy_space_borrow_block(struct copy_space *space) {
 
 static inline int
 copy_space_contains_address(struct copy_space *space, uintptr_t addr) {
-  return extents_contain_addr(space->extents, addr);
+  return extents_contain_addr(&space->extents, addr);
 }
 
 static inline int
@@ -567,6 +567,7 @@ copy_space_allocator_finish(struct copy_space_allocator *alloc,
 static void
 copy_space_finish_gc(struct copy_space *space, int is_minor_gc) {
   // Mutators stopped, can access nonatomically.
+  extents_release_replaced(space->extents);
   if (is_minor_gc) {
     // Avoid mixing survivors and new objects on the same blocks.
     struct copy_space_allocator alloc;
@@ -851,8 +852,7 @@ copy_space_add_slabs(struct copy_space *space, struct copy_space_slab *slabs,
                      size_t nslabs) {
   size_t old_size = space->nslabs * sizeof(struct copy_space_slab*);
   size_t additional_size = nslabs * sizeof(struct copy_space_slab*);
-  space->extents = extents_adjoin(space->extents, slabs,
-                                  nslabs * sizeof(struct copy_space_slab));
+  extents_adjoin(&space->extents, slabs, nslabs * sizeof(struct copy_space_slab));
   space->slabs = realloc(space->slabs, old_size + additional_size);
   if (!space->slabs)
     GC_CRASH();
diff --git a/src/extents.h b/src/extents.h
index 62dba92..102afcd 100644
--- a/src/extents.h
+++ b/src/extents.h
@@ -1,8 +1,10 @@
 #ifndef EXTENTS_H
 #define EXTENTS_H
 
+#include <stdatomic.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "gc-assert.h"
 
@@ -12,13 +14,16 @@ struct extent_range {
 };
 
 struct extents {
+  // The set that this one replaced, which concurrent readers may still be using.
+  struct extents *previous;
   size_t size;
   size_t capacity;
   struct extent_range ranges[];
 };
 
 static inline int
-extents_contain_addr(struct extents *extents, uintptr_t addr) {
+extents_contain_addr(struct extents **loc, uintptr_t addr) {
+  struct extents *extents = atomic_load_explicit(loc, memory_order_acquire);
   size_t lo = 0;
   size_t hi = extents->size;
   while (lo != hi) {
@@ -48,41 +53,65 @@ extents_allocate(size_t capacity) {
 
 static struct extents*
 extents_insert(struct extents *old, size_t idx, struct extent_range range) {
-  if (old->size < old->capacity) {
-    size_t bytes_to_move = sizeof(struct extent_range) * (old->size - idx);
-    memmove(&old->ranges[idx + 1], &old->ranges[idx], bytes_to_move);
-    old->ranges[idx] = range;
-    old->size++;
-    return old;
-  } else {
-    struct extents *new_ = extents_allocate(old->capacity * 2 + 1);
-    memcpy(&new_->ranges[0], &old->ranges[0],
-           sizeof(struct extent_range) * idx);
-    memcpy(&new_->ranges[idx + 1], &old->ranges[idx],
-           sizeof(struct extent_range) * (old->size - idx));
-    new_->ranges[idx] = range;
-    new_->size = old->size + 1;
-    free(old);
-    return new_;
-  }
+  struct extents *new_ = extents_allocate(old->size + 1);
+  memcpy(&new_->ranges[0], &old->ranges[0],
+         sizeof(struct extent_range) * idx);
+  memcpy(&new_->ranges[idx + 1], &old->ranges[idx],
+         sizeof(struct extent_range) * (old->size - idx));
+  new_->ranges[idx] = range;
+  new_->size = old->size + 1;
+  return new_;
+}
+
+static struct extents*
+extents_replace(struct extents *old, size_t idx, struct extent_range range) {
+  struct extents *new_ = extents_allocate(old->size);
+  memcpy(&new_->ranges[0], &old->ranges[0],
+         sizeof(struct extent_range) * old->size);
+  new_->ranges[idx] = range;
+  new_->size = old->size;
+  return new_;
 }
 
 static struct extents*
-extents_adjoin(struct extents *extents, void *lo_addr, size_t size) {
+extents_adjoin_to_copy(struct extents *extents, struct extent_range range) {
   size_t i;
-  struct extent_range range = { (uintptr_t)lo_addr, (uintptr_t)lo_addr + size };
   for (i = 0; i < extents->size; i++) {
-    if (range.hi_addr < extents->ranges[i].lo_addr) {
+    struct extent_range old = extents->ranges[i];
+    if (range.hi_addr < old.lo_addr) {
       break;
-    } else if (range.hi_addr == extents->ranges[i].lo_addr) {
-      extents->ranges[i].lo_addr = range.lo_addr;
-      return extents;
-    } else if (range.lo_addr == extents->ranges[i].hi_addr) {
-      extents->ranges[i].hi_addr = range.hi_addr;
-      return extents;
+    } else if (range.hi_addr == old.lo_addr) {
+      range.hi_addr = old.hi_addr;
+      return extents_replace(extents, i, range);
+    } else if (range.lo_addr == old.hi_addr) {
+      range.lo_addr = old.lo_addr;
+      return extents_replace(extents, i, range);
     }
   }
   return extents_insert(extents, i, range);
 }
-  
+
+// Mutators may be looking for addresses in the set while another thread expands
+// the heap, so don't modify the set, but replace it.  The caller serializes
+// calls to this function, and releases the replaced sets once no mutator can be
+// using them.
+static void
+extents_adjoin(struct extents **loc, void *lo_addr, size_t size) {
+  struct extent_range range = { (uintptr_t)lo_addr, (uintptr_t)lo_addr + size };
+  struct extents *extents = extents_adjoin_to_copy(*loc, range);
+  extents->previous = *loc;
+  atomic_store_explicit(loc, extents, memory_order_release);
+}
+
+static void
+extents_release_replaced(struct extents *extents) {
+  struct extents *previous = extents->previous;
+  extents->previous = NULL;
+  while (previous) {
+    struct extents *next = previous->previous;
+    free(previous);
+    previous = next;
+  }
+}
+
 #endif // EXTENTS_H
diff --git a/src/nofl-space.h b/src/nofl-space.h
index f4f6ccb..0906ab8 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -153,7 +153,7 @@ struct nofl_space {
   uint8_t current_mark;
   uint8_t survivor_mark;
   uint8_t evacuating;
-  struct extents *extents;
+  struct extents *extents; // atomically
   size_t heap_size;
   uint8_t last_collection_was_minor;
   struct nofl_block_stack empty;
@@ -964,7 +964,7 @@ struct gc_trace_worker;
 
 static inline int
 nofl_space_contains_address(struct nofl_space *space, uintptr_t addr) {
-  return extents_contain_addr(space->extents, addr);
+  return extents_contain_addr(&space->extents, addr);
 }
 
 static inline int
@@ -1383,6 +1383,7 @@ static void
 nofl_space_finish_gc(struct nofl_space *space,
                      enum gc_collection_kind gc_kind) {
   space->last_collection_was_minor = (gc_kind == GC_COLLECTION_MINOR);
+  extents_release_replaced(space->extents);
   struct gc_lock lock = nofl_space_lock(space);
   if (space->evacuating)
     nofl_space_finish_evacuation(space, &lock);
@@ -1809,8 +1810,7 @@ nofl_space_add_slabs(struct nofl_space *space, struct nofl_slab *slabs,
                      size_t nslabs) {
   size_t old_size = space->nslabs * sizeof(struct nofl_slab*);
   size_t additional_size = nslabs * sizeof(struct nofl_slab*);
-  space->extents = extents_adjoin(space->extents, slabs,
-                                  nslabs * sizeof(struct nofl_slab));
+  extents_adjoin(&space->extents, slabs, nslabs * sizeof(struct nofl_slab));
   space->slabs = realloc(space->slabs, old_size + additional_size);
   if (!space->slabs)
     GC_CRASH();
-- 
2.43.0


From e0b1c17d30e246eb8299bf5b12b08128824ad6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 39/42] fix: mmc: account for evacuated objects as survivors

Blocks that were filled by evacuation looked as if the mutator had allocated all
of their contents since the collection.  That made it look like there was progress when
there wasn't, so that a heap without space would be collected again and again, and
made the next compaction take these full blocks for empty ones, and evacuate them again.
---
 src/nofl-space.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 0906ab8..ee32161 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -650,8 +650,10 @@ nofl_allocator_release_full_evacuation_target(struct nofl_allocator *alloc,
   GC_ASSERT_EQ(block.summary->hole_granules, NOFL_GRANULES_PER_BLOCK);
   atomic_fetch_add(&space->old_generation_granules,
                    NOFL_GRANULES_PER_BLOCK);
+  // What was evacuated to this block is live; if we compact again, this block is
+  // as good as full.
+  block.summary->hole_granules = hole_size / NOFL_GRANULE_SIZE;
   if (hole_size) {
-    hole_size >>= NOFL_GRANULE_SIZE_LOG_2;
     block.summary->holes_with_fragmentation = 1;
     block.summary->fragmentation_granules = hole_size / NOFL_GRANULE_SIZE;
   } else {
@@ -1234,6 +1236,12 @@ nofl_space_finish_evacuation(struct nofl_space *space,
   // repopulate the reserve.
   GC_ASSERT(space->evacuating);
   space->evacuating = 0;
+  // Partly full blocks were filled by evacuation.  The mutator didn't allocate
+  // what they hold; it can only allocate into the hole.
+  for (struct nofl_block_ref b = nofl_block_head(&space->partly_full.list);
+       !nofl_block_is_null(b);
+       b = nofl_block_next(b))
+    b.summary->hole_granules = b.summary->fragmentation_granules;
   size_t active = nofl_active_block_count(space);
   size_t reserve = space->evacuation_minimum_reserve * active;
   GC_ASSERT(nofl_block_count(&space->evacuation_targets) == 0);
-- 
2.43.0


From 92df7990bc665a9fe8fa34c8fa158127f5b5f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:10 +0000
Subject: [PATCH 40/42] fix: pcc: a collection that freed what others dropped
 wasn't in vain

---
 src/pcc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pcc.c b/src/pcc.c
index eafdb00..16f3298 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -915,9 +915,12 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   copy_space_add_to_allocation_counter(heap_allocation_space(heap),
                                        counter_loc);
   large_object_space_add_to_allocation_counter(lospace, counter_loc);
+  size_t previous_live_size =
+    (copy_spaces_allocated_bytes(heap) +
+     large_object_space_size_at_last_collection(lospace));
   int stuck = 0;
   // If nobody could allocate anything since the last collection, another one
-  // like it won't help.
+  // like it won't help, unless it frees what mutators dropped in the meantime.
   if (!requested_by_user && mut->collected_for_allocation
       && *counter_loc == previous_counter) {
     if (GC_GENERATIONAL && is_minor_collection(heap))
@@ -961,6 +964,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
                       large_object_space_size_at_last_collection(lospace));
   uint64_t pause_ns = gc_platform_monotonic_nanoseconds() - start_ns;
   HEAP_EVENT(heap, live_data_size, live_size);
+  if (live_size < previous_live_size)
+    stuck = 0;
   size_t previous_size = heap->size;
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
                       resize_heap);
-- 
2.43.0


From 5bd2332646a9240880ef6aa424301c249d7a026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:10 +0000
Subject: [PATCH 41/42] fix: mmc: a collection that freed what others dropped
 wasn't in vain

---
 src/mmc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 9a291cc..2d2e59f 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -803,10 +803,6 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
     if (requested_kind < kind)
       requested_kind = kind;
   }
-  if (stuck && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
-    fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
-    GC_CRASH();
-  }
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
@@ -814,6 +810,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   // Starting a major collection resets the count of live large objects.
   double yield = heap_last_gc_yield(heap);
   double fragmentation = heap_fragmentation(heap);
+  size_t previous_large_size =
+    large_object_space_size_at_last_collection(lospace);
   size_t live_bytes = heap->size_at_last_gc * (1.0 - yield);
   nofl_space_prepare_gc(nofl_space, gc_kind);
   large_object_space_start_gc(lospace, is_minor);
@@ -845,6 +843,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   if (free_blocks > heap->most_free_blocks) {
     heap->most_free_blocks = free_blocks;
     heap->unproductive_collections = 0;
+    stuck = 0;
   } else if (gc_kind != previous_kind) {
     heap->unproductive_collections = 1;
   } else {
@@ -860,6 +859,13 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   DEBUG("--- total live bytes estimate: %zu\n", live_bytes_estimate);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_bytes_estimate, pause_ns,
                       resize_heap);
+  // Perhaps mutators dropped some objects since the last collection.
+  if (large_object_space_size_at_last_collection(lospace) < previous_large_size)
+    stuck = 0;
+  if (stuck && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
+    fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
+    GC_CRASH();
+  }
   if (stuck && heap->sizer.policy != GC_HEAP_SIZE_FIXED
       && heap->size <= heap->size_at_last_gc)
     // The heap is just too small, which the sizer can't tell, as it only
-- 
2.43.0


From 3b06fc78724f9a6a2c3c4f222decf84cb3a6f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:10 +0000
Subject: [PATCH 42/42] fix: semi: a large object may use all of a heap that is
 otherwise empty

---
 src/semi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semi.c b/src/semi.c
index a45abc3..6fb3b50 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -351,7 +351,7 @@ static void reset_heap_limits(struct gc_heap *heap) {
   struct semi_space *semi = heap_semi_space(heap);
   size_t new_region_size = align_up(heap->size, semi->page_size * 2) / 2;
   size_t stolen = align_up(semi->stolen_pages, 2) * semi->page_size;
-  GC_ASSERT(new_region_size > stolen/2);
+  GC_ASSERT(new_region_size >= stolen/2);
   size_t new_active_region_size = new_region_size - stolen/2;
 
   region_set_active_size(&semi->from_space, new_active_region_size);
-- 
2.43.0

