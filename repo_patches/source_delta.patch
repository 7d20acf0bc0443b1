From f1ba4a0e08dcde04cab54a385cdee61743d40c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 01/37] fix: map memory acquired from a reservation at its
 reserved address

Without MAP_FIXED the kernel is free to place the mapping elsewhere, so
aligned reservations (slabs, large objects) could end up unaligned, and
the PROT_NONE reservation itself leaked.
---
 src/gc-platform-gnu-linux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc-platform-gnu-linux.c b/src/gc-platform-gnu-linux.c
index 3ace189..6c4047a 100644
--- a/src/gc-platform-gnu-linux.c
+++ b/src/gc-platform-gnu-linux.c
@@ -163,7 +163,7 @@ gc_platform_acquire_memory_from_reservation(struct gc_reservation reservation,
   GC_ASSERT(offset <= reservation.size - size);
 
   void *mem = mmap((void*)(reservation.base + offset), size,
-                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0);
   if (mem == MAP_FAILED) {
     perror("mmap failed");
     return NULL;
-- 
2.43.0


From bb491413f57f019514006f1d70e950c6114fef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 02/37] fix: do not strand root-tracing results on a parked
 worker's local worklist

When tracing roots only, a helper worker kept what it had greyed on its
local worklist.  If that worker was not woken up in time for the
subsequent full trace, the main worker could terminate without those
objects being traced.  Publish them to the shared worklist instead, from
which they can be stolen.
---
 src/parallel-tracer.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parallel-tracer.h b/src/parallel-tracer.h
index db8afae..c880bec 100644
--- a/src/parallel-tracer.h
+++ b/src/parallel-tracer.h
@@ -332,6 +332,17 @@ trace_with_data(struct gc_tracer *tracer,
     // result of marking roots isn't ours to deal with.  However we do need to
     // synchronize with remote workers to ensure they have completed their
     // work items.
+    //
+    // A worker may be parked for the whole of the subsequent full trace, if the
+    // main worker terminates before the worker wakes up.  Therefore it cannot
+    // keep any object on its local worklist, where nobody else could see it:
+    // move everything to the shared worklist, from which it can be stolen.
+    while (!local_worklist_empty(&worker->local)) {
+      struct gc_ref *objv;
+      size_t count = local_worklist_pop_many(&worker->local, &objv,
+                                             LOCAL_WORKLIST_SIZE);
+      shared_worklist_push_many(&worker->shared, objv, count);
+    }
     if (worker->id == 0) {
       for (size_t i = 1; i < tracer->worker_count; i++)
         pthread_mutex_lock(&tracer->workers[i].lock);
-- 
2.43.0


From 5c4fe80e01a28392300db248db587bb4fe53448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 03/37] fix: recompute available evacuation reserve while
 shrinking

The loop compared a stale count to the target, so it could pop more
blocks than the reserve has, and then dereference the null block.
---
 src/nofl-space.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 2668232..4351fff 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1815,8 +1815,7 @@ nofl_space_shrink(struct nofl_space *space, size_t bytes) {
   if (pending > 0) {
     size_t active = nofl_active_block_count(space);
     size_t target = space->evacuation_minimum_reserve * active;
-    ssize_t avail = nofl_block_count(&space->evacuation_targets);
-    while (avail > target && pending > 0) {
+    while (nofl_block_count(&space->evacuation_targets) > target && pending > 0) {
       struct nofl_block_ref block =
         nofl_block_list_pop(&space->evacuation_targets);
       GC_ASSERT(!nofl_block_is_null(block));
-- 
2.43.0


From 172185c91c3a612dc67918e6c3997c2845b414c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 04/37] fix: make the event listener chain usable, and forward
 mutator_cause_gc

The per-mutator forwarders referred to nonexistent fields, the data
initializer to a nonexistent struct, and mutator_cause_gc called
restarting_mutators on the wrong data.
---
 api/gc-event-listener-chain.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/api/gc-event-listener-chain.h b/api/gc-event-listener-chain.h
index 27b56d5..1599b96 100644
--- a/api/gc-event-listener-chain.h
+++ b/api/gc-event-listener-chain.h
@@ -1,6 +1,8 @@
 #ifndef GC_EVENT_LISTENER_CHAIN_H
 #define GC_EVENT_LISTENER_CHAIN_H
 
+#include <stdlib.h>
+
 #include "gc-event-listener.h"
 
 struct gc_event_listener_chain {
@@ -80,28 +82,28 @@ static inline void* gc_event_listener_chain_mutator_added(void *data) {
 
 static inline void gc_event_listener_chain_mutator_cause_gc(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.restarting_mutators(mutator->head_data);
-  mutator->chain->tail.restarting_mutators(mutator->tail_data);
+  mutator->chain->head.mutator_cause_gc(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_cause_gc(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopping(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopping(mutator->head_data);
-  mutator->chain->tail.mutator_stopping(mutator->tail_data);
+  mutator->chain->head.mutator_stopping(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopping(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopped(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopped(mutator->head_data);
-  mutator->chain->tail.mutator_stopped(mutator->tail_data);
+  mutator->chain->head.mutator_stopped(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopped(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_restarted(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_restarted(mutator->head_data);
-  mutator->chain->tail.mutator_restarted(mutator->tail_data);
+  mutator->chain->head.mutator_restarted(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_restarted(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_removed(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_removed(mutator->head_data);
-  mutator->chain->tail.mutator_removed(mutator->tail_data);
+  mutator->chain->head.mutator_removed(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_removed(mutator->tail_mutator_data);
   free(mutator);
 }
 
@@ -140,6 +142,6 @@ static inline void gc_event_listener_chain_live_data_size(void *data, size_t siz
   })
 
 #define GC_EVENT_LISTENER_CHAIN_DATA(head, head_data, tail, tail_data)  \
-  ((struct gc_event_listener_chain_data){head, head_data, tail, tail_data})
+  ((struct gc_event_listener_chain){head, head_data, tail, tail_data})
 
 #endif // GC_EVENT_LISTENER_CHAIN_H
-- 
2.43.0


From 07c81869089e55289d7c682d920e71192f5fa92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 05/37] fix: return a value from the null event listener's
 mutator_added

---
 api/gc-null-event-listener.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/gc-null-event-listener.h b/api/gc-null-event-listener.h
index 9c032ff..435ba31 100644
--- a/api/gc-null-event-listener.h
+++ b/api/gc-null-event-listener.h
@@ -15,7 +15,9 @@ static inline void gc_null_event_listener_ephemerons_traced(void *data) {}
 static inline void gc_null_event_listener_finalizers_traced(void *data) {}
 static inline void gc_null_event_listener_restarting_mutators(void *data) {}
 
-static inline void* gc_null_event_listener_mutator_added(void *data) {}
+static inline void* gc_null_event_listener_mutator_added(void *data) {
+  return NULL;
+}
 static inline void gc_null_event_listener_mutator_cause_gc(void *mutator_data) {}
 static inline void gc_null_event_listener_mutator_stopping(void *mutator_data) {}
 static inline void gc_null_event_listener_mutator_stopped(void *mutator_data) {}
-- 
2.43.0


From dba4e63141c3174b7dd0456f886342eec3fcdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 06/37] fix: initialize the adaptive heap sizer's own lock

It re-initialized the background thread's lock, possibly while held.
---
 src/adaptive-heap-sizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptive-heap-sizer.h b/src/adaptive-heap-sizer.h
index 225b44b..dc036ea 100644
--- a/src/adaptive-heap-sizer.h
+++ b/src/adaptive-heap-sizer.h
@@ -157,7 +157,7 @@ gc_make_adaptive_heap_sizer(struct gc_heap *heap, double expansiveness,
   sizer->last_bytes_allocated = get_allocation_counter(heap);
   sizer->last_heartbeat = gc_platform_monotonic_nanoseconds();
 #if GC_PARALLEL
-  pthread_mutex_init(&thread->lock, NULL);
+  pthread_mutex_init(&sizer->lock, NULL);
   sizer->background_task_id =
     gc_background_thread_add_task(thread, GC_BACKGROUND_TASK_MIDDLE,
                                   gc_adaptive_heap_sizer_background_task,
-- 
2.43.0


From 19d8f53f44edcb6a437c956fe1440b32a6daaef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 07/37] fix: expect conservative tracing of tagged objects in
 heap-conservative mmc

The gc_init assertion did not match gc_allocator_alloc_table_begin_pattern,
so debug builds of heap-conservative collectors aborted on startup.
---
 src/mmc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index d2bc4df..91c159a 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1159,16 +1159,18 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
   GC_ASSERT_EQ(gc_allocator_allocation_limit_offset(),
                offsetof(struct nofl_allocator, sweep));
   GC_ASSERT_EQ(gc_allocator_alloc_table_alignment(), NOFL_SLAB_SIZE);
-  GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
-               NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_PRECISELY);
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED_POINTERLESS),
                NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE);
   if (GC_CONSERVATIVE_TRACE) {
+    GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
+                 NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY);
     GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_UNTAGGED_CONSERVATIVE),
                  NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY);
     GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_UNTAGGED_POINTERLESS),
                  NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE);
   } else {
+    GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
+                 NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_PRECISELY);
     GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_UNTAGGED_POINTERLESS),
                  NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE |
                  NOFL_METADATA_BYTE_PINNED);
-- 
2.43.0


From 689377e894c3e4f1b58b42191bdf1886dbfb92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 08/37] fix: use default options if gc_init is passed none, in
 mmc and pcc

This is what semi does and what the manual's example relies on.
---
 src/mmc.c | 2 ++
 src/pcc.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 91c159a..e2bda0d 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1184,6 +1184,8 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                  NOFL_METADATA_BYTE_LOGGED_0);
   }
 
+  if (!options) options = gc_allocate_options();
+
   *heap = calloc(1, sizeof(struct gc_heap));
   if (!*heap) GC_CRASH();
 
diff --git a/src/pcc.c b/src/pcc.c
index 0b137f5..7b69df6 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1236,6 +1236,8 @@ int gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                  offsetof(struct copy_space_slab, blocks));
   }
 
+  if (!options) options = gc_allocate_options();
+
   *heap = calloc(1, sizeof(struct gc_heap));
   if (!*heap) GC_CRASH();
 
-- 
2.43.0


From 633a5900ca4fe65a11a5c0e3efe6c44a7b063c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 09/37] fix: allow any mutator to gc_call_without_gc

A mutator is always on the heap's list of mutators, so its next pointer
is only null if it is the oldest one.
---
 src/mmc.c | 1 -
 src/pcc.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index e2bda0d..1b82d63 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1238,7 +1238,6 @@ gc_finish_for_thread(struct gc_mutator *mut) {
 
 static void
 deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(&mut->logger);
diff --git a/src/pcc.c b/src/pcc.c
index 7b69df6..ffd995e 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1311,7 +1311,6 @@ void gc_finish_for_thread(struct gc_mutator *mut) {
 }
 
 static void deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(mutator_field_logger(mut));
-- 
2.43.0


From bedeb5b8e0b71ac1e2571baf3470e8820d2bec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 10/37] fix: gc_object_is_old_generation is false for
 non-generational collectors

There was no case for GC_OLD_GENERATION_CHECK_NONE, so it crashed.
---
 api/gc-api.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/gc-api.h b/api/gc-api.h
index 603b380..a076667 100644
--- a/api/gc-api.h
+++ b/api/gc-api.h
@@ -193,6 +193,8 @@ static inline int gc_object_is_old_generation(struct gc_mutator *mut,
                                               struct gc_ref obj,
                                               size_t obj_size) {
   switch (gc_old_generation_check_kind(obj_size)) {
+  case GC_OLD_GENERATION_CHECK_NONE:
+    return 0;
   case GC_OLD_GENERATION_CHECK_ALLOC_TABLE: {
     size_t alignment = gc_allocator_alloc_table_alignment();
     GC_ASSERT(alignment);
-- 
2.43.0


From 94ef8c356e1a8a6d6705a056c23642f2ac1d3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 11/37] fix: read the kind of a collection after it has been
 determined

When a mutator pauses, heap->gc_kind still has the value from the previous
collection, so a requested collection could be skipped even though the
one that just ran was of a lesser kind.
---
 src/mmc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 1b82d63..e94831e 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -451,7 +451,6 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   MUTATOR_EVENT(mut, mutator_stopping);
   MUTATOR_EVENT(mut, mutator_stopped);
   heap->paused_mutator_count++;
-  enum gc_collection_kind collection_kind = heap->gc_kind;
   if (all_mutators_stopped(heap))
     pthread_cond_signal(&heap->collector_cond);
 
@@ -461,7 +460,7 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   heap->paused_mutator_count--;
 
   MUTATOR_EVENT(mut, mutator_restarted);
-  return collection_kind;
+  return heap->gc_kind;
 }
 
 static void
-- 
2.43.0


From da95c35516fc4ed0450648aa6303653a7108c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 12/37] fix: reject sizes that overflow when parsing options

---
 src/gc-options.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 31de027..8cf26b9 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -91,17 +91,19 @@ static int parse_size(const char *arg, size_t *val) {
   if (i < 0 || i == LONG_MAX) return 0;
   if (end == arg) return 0;
   char delim = *end;
+  long unit = 1;
   if (delim == 'k' || delim == 'K')
-    ++end, i *= 1024L;
+    ++end, unit = 1024L;
   else if (delim == 'm' || delim == 'M')
-    ++end, i *= 1024L * 1024L;
+    ++end, unit = 1024L * 1024L;
   else if (delim == 'g' || delim == 'G')
-    ++end, i *= 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L;
   else if (delim == 't' || delim == 'T')
-    ++end, i *= 1024L * 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L * 1024L;
 
   if (*end != '\0') return 0;
-  *val = i;
+  if (i > LONG_MAX / unit) return 0;
+  *val = i * unit;
   return 1;
 }
 
-- 
2.43.0


From 7b50ecc1a7048c4e8dd9de677634eb1e5adf8d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 13/37] fix: reject out-of-range ints when parsing options

They were silently truncated, so that e.g. parallelism=4294967297 meant 1.
---
 src/gc-options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 8cf26b9..54e39b8 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -110,7 +110,7 @@ static int parse_size(const char *arg, size_t *val) {
 static int parse_int(const char *arg, int *val) {
   char *end;
   long i = strtol(arg, &end, 0);
-  if (i == LONG_MIN || i == LONG_MAX || end == arg || *end)
+  if (i < INT_MIN || i > INT_MAX || end == arg || *end)
     return 0;
   *val = i;
   return 1;
-- 
2.43.0


From 2376b69f7bcab47ce9c2936571393600a3d615a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 14/37] fix: allow uppercase in option values in
 gc_options_parse_and_set_many

The value parsers take e.g. 4M, but it was rejected in a list of options.
---
 src/gc-options.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 54e39b8..927281d 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -156,11 +156,13 @@ int gc_common_options_parse_and_set(struct gc_common_options *options,
 }
 
 static int is_lower(char c) { return 'a' <= c && c <= 'z'; }
+static int is_upper(char c) { return 'A' <= c && c <= 'Z'; }
 static int is_digit(char c) { return '0' <= c && c <= '9'; }
 static int is_option(char c) { return is_lower(c) || c == '-'; }
 static int is_option_end(char c) { return c == '='; }
 static int is_value(char c) {
-  return is_lower(c) || is_digit(c) || c == '-' || c == '+' || c == '.';
+  return is_lower(c) || is_upper(c) || is_digit(c)
+    || c == '-' || c == '+' || c == '.';
 }
 static int is_value_end(char c) { return c == '\0' || c == ','; }
 static char* read_token(char *p, int (*is_tok)(char c), int (*is_end)(char c),
-- 
2.43.0


From a66b92d00241cce0d652ac07dc5016e4893253aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 15/37] fix: allow pinned objects to be traced in precise mmc

---
 src/nofl-space.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 4351fff..cc1ef05 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1735,7 +1735,12 @@ nofl_space_object_size(struct nofl_space *space, struct gc_ref ref) {
 static inline enum gc_trace_kind
 nofl_metadata_byte_trace_kind(uint8_t byte)
 {
-  switch (byte & NOFL_METADATA_BYTE_TRACE_KIND_MASK) {
+  uint8_t mask = NOFL_METADATA_BYTE_TRACE_KIND_MASK;
+  // Unless intraheap edges can be traced conservatively, the bit for
+  // conservative tracing instead indicates that an object is pinned.
+  if (!gc_has_conservative_intraheap_edges())
+    mask &= ~NOFL_METADATA_BYTE_PINNED;
+  switch (byte & mask) {
   case NOFL_METADATA_BYTE_TRACE_PRECISELY:
     return GC_TRACE_PRECISELY;
   case NOFL_METADATA_BYTE_TRACE_NONE:
-- 
2.43.0


From 3a1a1bdce562314527ac8cf6213fcf8dd4a0a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 16/37] fix: do not measure untagged objects when verifying the
 nofl space

---
 src/nofl-space.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index cc1ef05..288f521 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1247,6 +1247,17 @@ nofl_size_to_granules(size_t size) {
   return (size + NOFL_GRANULE_SIZE - 1) >> NOFL_GRANULE_SIZE_LOG_2;
 }
 
+static size_t
+nofl_space_verify_measure_granules(struct gc_ref obj, uint8_t *meta) {
+  uint8_t untagged = NOFL_METADATA_BYTE_TRACE_NONE | NOFL_METADATA_BYTE_PINNED;
+  if ((meta[0] & untagged) == untagged)
+    // Possibly an untagged object, whose size we can't measure.
+    return nofl_space_live_object_granules(meta);
+  size_t obj_bytes;
+  gc_trace_object(obj, NULL, NULL, NULL, &obj_bytes);
+  return nofl_size_to_granules(obj_bytes);
+}
+
 static void
 nofl_space_verify_sweepable_blocks(struct nofl_space *space,
                                    struct nofl_block_list *list)
@@ -1266,9 +1277,7 @@ nofl_space_verify_sweepable_blocks(struct nofl_space *space,
     while (addr < limit) {
       if (nofl_metadata_byte_has_mark(meta[0], space->current_mark)) {
         struct gc_ref obj = gc_ref(addr);
-        size_t obj_bytes;
-        gc_trace_object(obj, NULL, NULL, NULL, &obj_bytes);
-        size_t granules = nofl_size_to_granules(obj_bytes);
+        size_t granules = nofl_space_verify_measure_granules(obj, meta);
         GC_ASSERT(granules);
         for (size_t granule = 0; granule < granules - 1; granule++)
           GC_ASSERT(!(meta[granule] & NOFL_METADATA_BYTE_END));
@@ -1303,9 +1312,7 @@ nofl_space_verify_swept_blocks(struct nofl_space *space,
       if (meta[0]) {
         GC_ASSERT(nofl_metadata_byte_has_mark(meta[0], space->current_mark));
         struct gc_ref obj = gc_ref(addr);
-        size_t obj_bytes;
-        gc_trace_object(obj, NULL, NULL, NULL, &obj_bytes);
-        size_t granules = nofl_size_to_granules(obj_bytes);
+        size_t granules = nofl_space_verify_measure_granules(obj, meta);
         GC_ASSERT(granules);
         for (size_t granule = 0; granule < granules - 1; granule++)
           GC_ASSERT(!(meta[granule] & NOFL_METADATA_BYTE_END));
-- 
2.43.0


From aa2e3dbfce5b9ee8e0dae35e61b5b8b3ad498880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 17/37] fix: do not retake the lospace lock to remember an edge
 during minor GC

---
 src/large-object-space.h | 31 ++++++++++++++++++++++++-------
 src/pcc.c                |  4 ++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index cdd7983..a9b121a 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -255,13 +255,8 @@ large_object_space_is_survivor(struct large_object_space *space,
 }
 
 static int
-large_object_space_remember_edge(struct large_object_space *space,
-                                 struct gc_ref obj,
-                                 struct gc_edge edge) {
-  GC_ASSERT(large_object_space_contains(space, obj));
-  if (!large_object_space_is_survivor(space, obj))
-    return 0;
-
+large_object_space_add_remembered_edge(struct large_object_space *space,
+                                       struct gc_edge edge) {
   uintptr_t edge_addr = gc_edge_address(edge);
   int remembered = 0;
   pthread_mutex_lock(&space->remembered_edges_lock);
@@ -273,6 +268,28 @@ large_object_space_remember_edge(struct large_object_space *space,
   return remembered;
 }
 
+static int
+large_object_space_remember_edge(struct large_object_space *space,
+                                 struct gc_ref obj,
+                                 struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains(space, obj));
+  if (!large_object_space_is_survivor(space, obj))
+    return 0;
+  return large_object_space_add_remembered_edge(space, edge);
+}
+
+// Like large_object_space_remember_edge, but for use during collection, when
+// the collector holds the space lock.
+static int
+large_object_space_remember_edge_with_lock(struct large_object_space *space,
+                                           struct gc_ref obj,
+                                           struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains_with_lock(space, obj));
+  if (!large_object_space_is_marked(space, obj))
+    return 0;
+  return large_object_space_add_remembered_edge(space, edge);
+}
+
 static void
 large_object_space_forget_edge(struct large_object_space *space,
                                struct gc_edge edge) {
diff --git a/src/pcc.c b/src/pcc.c
index ffd995e..a5000f7 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -282,8 +282,8 @@ static int remember_edge_to_survivor_object(struct gc_heap *heap,
     large_object_space_object_containing_edge(heap_large_object_space(heap),
                                               edge);
   if (!gc_ref_is_null(large_object))
-    return large_object_space_remember_edge(heap_large_object_space(heap),
-                                            large_object, edge);
+    return large_object_space_remember_edge_with_lock
+      (heap_large_object_space(heap), large_object, edge);
   return 0;
 }
 
-- 
2.43.0


From 9df4d0b1b06b938bc37323feaf7c102b5e4fc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 18/37] fix: remember old-to-new edges from finalizers after
 minor GC in pcc

Resolving finalizers relinks the finalizer tables and the fired list, and
makes fired finalizers hold their objects strongly, without a write barrier.
If the finalizer was promoted but the next finalizer or the object stayed in
newspace, the next minor GC would not see the edge.
---
 src/gc-finalizer-internal.h |  9 +++++++++
 src/gc-finalizer.c          | 18 ++++++++++++++++++
 src/pcc.c                   | 30 ++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/src/gc-finalizer-internal.h b/src/gc-finalizer-internal.h
index 529a087..40fc843 100644
--- a/src/gc-finalizer-internal.h
+++ b/src/gc-finalizer-internal.h
@@ -49,6 +49,15 @@ size_t gc_visit_finalizer_roots(struct gc_finalizer_state *state,
                                 struct gc_heap *heap,
                                 void *visit_data);
 
+// Visit each strong edge from each attached or fired finalizer.
+GC_INTERNAL
+void gc_visit_finalizer_edges(struct gc_finalizer_state *state,
+                              void (*visit)(struct gc_edge edge,
+                                            struct gc_heap *heap,
+                                            void *visit_data),
+                              struct gc_heap *heap,
+                              void *visit_data);
+
 GC_INTERNAL
 size_t gc_resolve_finalizers(struct gc_finalizer_state *state,
                              size_t priority,
diff --git a/src/gc-finalizer.c b/src/gc-finalizer.c
index d3a4fa9..4a27529 100644
--- a/src/gc-finalizer.c
+++ b/src/gc-finalizer.c
@@ -249,6 +249,24 @@ void gc_trace_finalizer(struct gc_finalizer *f,
   visit(gc_edge(&f->next), heap, trace_data);
 }
 
+// internal
+void gc_visit_finalizer_edges(struct gc_finalizer_state *state,
+                              void (*visit)(struct gc_edge edge,
+                                            struct gc_heap *heap,
+                                            void *visit_data),
+                              struct gc_heap *heap,
+                              void *visit_data) {
+  for (size_t tidx = 0; tidx < state->table_count; tidx++) {
+    struct gc_finalizer_table *table = &state->tables[tidx];
+    if (table->finalizer_count)
+      for (size_t bidx = 0; bidx < BUCKET_COUNT; bidx++)
+        for (struct gc_finalizer *f = table->buckets[bidx]; f; f = f->next)
+          gc_trace_finalizer(f, visit, heap, visit_data);
+  }
+  for (struct gc_finalizer *f = state->fired; f; f = f->next)
+    gc_trace_finalizer(f, visit, heap, visit_data);
+}
+
 // Sweeping is currently serial.  It could run in parallel but we want to
 // resolve all finalizers before shading any additional node.  Perhaps we should
 // relax this restriction though; if the user attaches two finalizers to the
diff --git a/src/pcc.c b/src/pcc.c
index a5000f7..e0ec9ec 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -789,6 +789,32 @@ static void trace_resolved_ephemerons(struct gc_heap *heap) {
   }
 }
 
+#if GC_GENERATIONAL
+static void remember_finalizer_edge(struct gc_edge edge, struct gc_heap *heap,
+                                    void *data) {
+  struct gc_field_set_writer *writer = data;
+  struct gc_ref ref = gc_edge_ref(edge);
+  if (gc_ref_is_null(ref) || gc_ref_is_immediate(ref))
+    return;
+  if (new_space_contains(heap, ref)
+      && copy_space_contains_edge(heap_old_space(heap), edge)
+      && copy_space_remember_edge(heap_old_space(heap), edge))
+    gc_field_set_writer_add_edge(writer, edge);
+}
+
+// Resolving finalizers re-links them, and fires some of them, without going
+// through the write barrier.  After a minor GC, some finalizers may be in the
+// oldgen while others, or the objects that they now refer to strongly, remain
+// in newspace as survivors.
+static void remember_finalizer_edges(struct gc_heap *heap) {
+  struct gc_field_set_writer writer;
+  gc_field_set_writer_init(&writer, heap_remembered_set(heap));
+  gc_visit_finalizer_edges(heap->finalizer_state, remember_finalizer_edge,
+                           heap, &writer);
+  gc_field_set_writer_release_buffer(&writer);
+}
+#endif
+
 static void resolve_finalizers(struct gc_heap *heap) {
   for (size_t priority = 0;
        priority < gc_finalizer_priority_count();
@@ -799,6 +825,10 @@ static void resolve_finalizers(struct gc_heap *heap) {
       trace_resolved_ephemerons(heap);
     }
   }
+#if GC_GENERATIONAL
+  if (is_minor_collection(heap))
+    remember_finalizer_edges(heap);
+#endif
   gc_notify_finalizers(heap->finalizer_state, heap);
 }
 
-- 
2.43.0


From 2bca08f6835a9fb6d33293e85957b669d09c3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 19/37] fix: trace objects in the extern space precisely, in
 mmc

trace_plan assumed that any object outside the nofl space was a large object,
and so would crash when tracing an extern object.
---
 src/mmc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index e94831e..cdc3f14 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -336,9 +336,13 @@ static inline struct gc_trace_plan
 trace_plan(struct gc_heap *heap, struct gc_ref ref) {
   if (GC_LIKELY(nofl_space_contains(heap_nofl_space(heap), ref))) {
     return nofl_space_object_trace_plan(heap_nofl_space(heap), ref);
-  } else {
+  } else if (large_object_space_contains_with_lock
+               (heap_large_object_space(heap), ref)) {
     return large_object_space_object_trace_plan(heap_large_object_space(heap),
                                                 ref);
+  } else {
+    // Objects in the extern space are always traced precisely.
+    return (struct gc_trace_plan){ GC_TRACE_PRECISELY, };
   }
 }
 
-- 
2.43.0


From 23f0edbf767bd2aa3bc70625bf4aafb0abe6008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 20/37] fix: borrow a paged-out block rather than abort when
 evacuation runs out, in pcc

Large object allocation pages out any empty block of the copy space to stay
within the heap size.  In generational configurations this includes the space
needed to promote the nursery, so a major GC would fail with "Out of memory"
even if most of the heap is garbage.
---
 src/copy-space.h | 14 ++++++++++++++
 src/pcc.c        | 38 +++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 7f262c2..a3b0e50 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -325,6 +325,20 @@ copy_space_reacquire_memory(struct copy_space *space, size_t bytes) {
   GC_ASSERT(pending + COPY_SPACE_BLOCK_SIZE > 0);
 }
 
+// Reacquire a block during evacuation, temporarily exceeding the size of the
+// space.  The debt is paid off by paging out blocks after collection.
+static int
+copy_space_borrow_block(struct copy_space *space) {
+  struct gc_lock lock = copy_space_lock(space);
+  struct copy_space_block *block = copy_space_page_in_block(space, &lock);
+  if (block) {
+    copy_space_push_empty_block(space, block, &lock);
+    atomic_fetch_add(&space->bytes_to_page_out, COPY_SPACE_BLOCK_SIZE);
+  }
+  gc_lock_release(&lock);
+  return block != NULL;
+}
+
 static inline int
 copy_space_contains_address(struct copy_space *space, uintptr_t addr) {
   return extents_contain_addr(space->extents, addr);
diff --git a/src/pcc.c b/src/pcc.c
index e0ec9ec..44f6331 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -301,23 +301,27 @@ static inline int forward(struct copy_space *src_space,
                           struct gc_edge edge,
                           struct gc_ref ref,
                           struct copy_space_allocator *dst_alloc) {
-  switch (copy_space_forward(src_space, dst_space, edge, ref, dst_alloc)) {
-  case COPY_SPACE_FORWARD_UPDATED:
-    return 0;
-  case COPY_SPACE_FORWARD_EVACUATED:
-    return 1;
-  case COPY_SPACE_FORWARD_FAILED:
-    // If space is really tight and reordering of objects during evacuation
-    // resulted in more end-of-block fragmentation and thus block use than
-    // before collection started, we can actually run out of memory while
-    // collecting.  We should probably attempt to expand the heap here, at
-    // least by a single block; it's better than the alternatives.  For now,
-    // abort.
-    fprintf(stderr, "Out of memory\n");
-    GC_CRASH();
-    break;
-  default:
-    GC_CRASH();
+  while (1) {
+    switch (copy_space_forward(src_space, dst_space, edge, ref, dst_alloc)) {
+    case COPY_SPACE_FORWARD_UPDATED:
+      return 0;
+    case COPY_SPACE_FORWARD_EVACUATED:
+      return 1;
+    case COPY_SPACE_FORWARD_FAILED:
+      // If space is really tight and reordering of objects during evacuation
+      // resulted in more end-of-block fragmentation and thus block use than
+      // before collection started, we can actually run out of memory while
+      // collecting.  The same goes if we are promoting a nursery to an oldgen
+      // whose empty blocks have been paged out to make room for large objects.
+      // Temporarily expand the heap by a block, if we can.
+      if (copy_space_borrow_block(dst_space))
+        break;
+      fprintf(stderr, "Out of memory\n");
+      GC_CRASH();
+      break;
+    default:
+      GC_CRASH();
+    }
   }
 }
 
-- 
2.43.0


From adcd8bcf5b2b375cd95461dc870cb3a48b101d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 21/37] fix: do not declare out-of-memory before trying to
 compact, in mmc

With multiple mutators, a large allocation that waits for another mutator's
in-place collection will then cause a compacting collection.  As there was no
allocation between the two, with a fixed heap size this aborted the process
with "ran out of space", even if the heap was almost empty.
---
 src/mmc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index cdc3f14..5e233f2 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -515,7 +515,8 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
 }
 
 static void
-detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
+detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
+                     enum gc_collection_kind requested) {
   if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
     return;
 
@@ -525,6 +526,12 @@ detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
   if (heap->gc_kind == GC_COLLECTION_MINOR)
     return;
 
+  // If we need to compact to make space for a large object, but the last
+  // collection was in-place, perhaps on behalf of some other mutator, then we
+  // should compact before giving up.
+  if (heap->gc_kind < requested)
+    return;
+
   // No allocation since last gc: out of memory.
   fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
   GC_CRASH();
@@ -777,7 +784,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
   if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter);
+    detect_out_of_memory(heap, allocation_counter, requested_kind);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
@@ -832,6 +839,10 @@ trigger_collection(struct gc_mutator *mut,
                    int requested_by_user) {
   struct gc_heap *heap = mutator_heap(mut);
   int prev_kind = -1;
+  if (gc_has_conservative_intraheap_edges() &&
+      requested_kind == GC_COLLECTION_COMPACTING)
+    // Can't compact; a major collection is the best we can do.
+    requested_kind = GC_COLLECTION_MAJOR;
   gc_stack_capture_hot(&mut->stack);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
-- 
2.43.0


From 625afb59268a0e8c16867857c93e008353167f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 22/37] fix: grow the destination of address_set_union as items
 are added

---
 src/address-set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/address-set.h b/src/address-set.h
index b1c27fa..bc25711 100644
--- a/src/address-set.h
+++ b/src/address-set.h
@@ -173,9 +173,9 @@ static int address_set_contains(struct address_set *set, uintptr_t addr) {
   return hash_set_contains(&set->hash_set, hash_address(addr));
 }
 static void address_set_union(struct address_set *set, struct address_set *other) {
-  while (set->hash_set.size < other->hash_set.size)
-    hash_set_grow(&set->hash_set);
-  hash_set_populate(&set->hash_set, &other->hash_set);
+  for (size_t i = 0; i < other->hash_set.size; i++)
+    if (!hash_set_slot_is_empty(&other->hash_set, i))
+      hash_set_insert(&set->hash_set, hash_set_slot_ref(&other->hash_set, i));
 }
 
 struct address_set_for_each_data {
-- 
2.43.0


From 9223d0211fe41438533e5746073cea2af519936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 23/37] fix: age every block of the page-out queue, past empty
 ages

Each background period moved at most one block per age, and stopped at the
first empty age, so that blocks withdrawn from use were paged out one per
second at best, or never.
---
 src/nofl-space.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 288f521..65c35e1 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1881,11 +1881,13 @@ nofl_space_advance_page_out_queue(void *data) {
   struct nofl_space *space = data;
   struct gc_lock lock = nofl_space_lock(space);
   for (int age = NOFL_PAGE_OUT_QUEUE_SIZE - 3; age >= 0; age--) {
-    struct nofl_block_ref block =
-      nofl_block_stack_pop(&space->paged_out[age], &lock);
-    if (nofl_block_is_null(block))
-      break;
-    nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    while (1) {
+      struct nofl_block_ref block =
+        nofl_block_stack_pop(&space->paged_out[age], &lock);
+      if (nofl_block_is_null(block))
+        break;
+      nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    }
   }
   gc_lock_release(&lock);
 }
-- 
2.43.0


From 9836106ed512da937aec037c72c55890823aaebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 24/37] fix: add large objects with fresh pages to the nursery

A minor collection sweeps only the nursery.  Large objects that were allocated
from fresh pages and died young were counted as free pages, but were not
released before the next major collection.
---
 src/large-object-space.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index a9b121a..8e23c3c 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -501,6 +501,10 @@ large_object_space_alloc(struct large_object_space *space, size_t npages,
       address_map_add(&space->object_map, addr, node_bits);
       space->total_pages += npages;
       pthread_mutex_unlock(&space->object_tree_lock);
+
+      // Add the object to the nursery.
+      if (GC_GENERATIONAL)
+        address_map_add(&space->nursery, addr, node_bits);
     }
   }
 
-- 
2.43.0


From e0083d4c388b7f8656cab350eb3c0fdbc3f8c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 25/37] fix: count tasks down when removing one from the
 background thread

The last task was run twice per period, or freed data was run.
---
 src/background-thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/background-thread.h b/src/background-thread.h
index 7a141ce..e925976 100644
--- a/src/background-thread.h
+++ b/src/background-thread.h
@@ -137,6 +137,7 @@ gc_background_thread_remove_task(struct gc_background_thread *thread,
   size_t bytes_to_move =
     (thread->count - (remove + 1)) * sizeof(struct gc_background_task);
   memmove(&thread->tasks[remove], &thread->tasks[remove + 1], bytes_to_move);
+  thread->count--;
   pthread_mutex_unlock(&thread->lock);
 }
 
-- 
2.43.0


From aaa635033cb495103627ead9cb77d3559f5e68b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 26/37] fix: round the rank of a histogram percentile up

Truncating it made percentiles of few values answer for a lower rank, and
those below 1/count report the first bucket whatever its contents.
---
 api/gc-histogram.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/gc-histogram.h b/api/gc-histogram.h
index 0761a63..6d350ec 100644
--- a/api/gc-histogram.h
+++ b/api/gc-histogram.h
@@ -67,7 +67,9 @@ static inline uint64_t gc_histogram_bucket_min_val(uint64_t precision,
     return sum;                                                         \
   }                                                                     \
   static inline uint64_t name##_percentile(struct name *h, double p) {  \
-    uint64_t n = name##_count(h) * p;                                   \
+    double rank = name##_count(h) * p;                                  \
+    uint64_t n = rank;                                                  \
+    if (n < rank) n++;                                                  \
     uint64_t sum = 0;                                                   \
     for (size_t bucket = 0; bucket + 1 < name##_size(); bucket++) {     \
       sum += h->buckets[bucket];                                        \
-- 
2.43.0


From 7c9d7d11d711334e76d00f5bb2f25198a685bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 27/37] fix: order marking an ephemeron key before reading the
 pending table

In gc_resolve_pending_ephemerons the mark of the key may still sit in the
store buffer of one thread when it reads the pending table, while another
thread publishes the ephemeron and then doesn't see the mark.  In that case
neither resolves the ephemeron, and it is swept although its key is live.
---
 src/gc-ephemeron.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gc-ephemeron.c b/src/gc-ephemeron.c
index 7ef5b53..e41b5dc 100644
--- a/src/gc-ephemeron.c
+++ b/src/gc-ephemeron.c
@@ -422,6 +422,10 @@ static void maybe_resolve_ephemeron(struct gc_pending_ephemerons *state,
 void gc_resolve_pending_ephemerons(struct gc_ref obj, struct gc_heap *heap) {
   struct gc_pending_ephemerons *state = gc_heap_pending_ephemerons(heap);
   struct gc_ephemeron **bucket = pending_ephemeron_bucket(state, obj);
+  // Order the caller's marking of OBJ before our reads of the pending table.
+  // Pairs with the fence in gc_trace_ephemeron: either we see the pending
+  // ephemeron, or the thread that publishes it sees that OBJ is marked.
+  atomic_thread_fence(memory_order_seq_cst);
   for (struct gc_ephemeron *link = follow_pending(bucket);
        link;
        link = follow_pending(&link->pending)) {
@@ -498,6 +502,7 @@ void gc_trace_ephemeron(struct gc_ephemeron *e,
   // here.  Meanwhile another thread could go to mark K and not see E in
   // the global table yet.  Therefore after publishing E, we have to
   // check the mark on K again.
+  atomic_thread_fence(memory_order_seq_cst);
   if (gc_visit_ephemeron_key(gc_ephemeron_key_edge(e), heap))
     // K visited by another thread while we published E; PENDING ->
     // RESOLVED, if still PENDING.
-- 
2.43.0


From 2fad76e9ac5c88c79a3f9a30bf1a2e4c0b60635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 28/37] fix: mmc: grow the heap if collection can't make space
 for an allocation

The sizer goes by the live size only, so a growable heap could collect
forever, without progress, on behalf of a large object that didn't fit
or with no block left to allocate into.
---
 src/mmc.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 5e233f2..f1a9743 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -514,25 +514,25 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
   return bytes;
 }
 
-static void
+static int
 detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
                      enum gc_collection_kind requested) {
-  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
-    return;
-
   if (allocation_since_last_gc > nofl_space_fragmentation(heap_nofl_space(heap)))
-    return;
+    return 0;
 
   if (heap->gc_kind == GC_COLLECTION_MINOR)
-    return;
+    return 0;
 
   // If we need to compact to make space for a large object, but the last
   // collection was in-place, perhaps on behalf of some other mutator, then we
   // should compact before giving up.
   if (heap->gc_kind < requested)
-    return;
+    return 0;
+
+  // No allocation since last gc: out of memory, unless the heap can grow.
+  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
+    return 1;
 
-  // No allocation since last gc: out of memory.
   fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
   GC_CRASH();
 }
@@ -783,8 +783,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   nofl_space_add_to_allocation_counter(nofl_space, &allocation_counter);
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
-  if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter, requested_kind);
+  int needs_to_grow = !requested_by_user
+    && detect_out_of_memory(heap, allocation_counter, requested_kind);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
@@ -828,6 +828,17 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   DEBUG("--- total live bytes estimate: %zu\n", live_bytes_estimate);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_bytes_estimate, pause_ns,
                       resize_heap);
+  if (needs_to_grow && !nofl_space_shrink(nofl_space, 0)) {
+    // Collection couldn't make enough space for a pending large allocation,
+    // which is not something that the heap sizer knows about.
+    resize_heap(heap, heap->size
+                + atomic_load_explicit(&nofl_space->pending_unavailable_bytes,
+                                       memory_order_acquire));
+  } else if (needs_to_grow && heap->size == heap->size_at_last_gc) {
+    // The heap sizer thinks there is enough space, but there isn't any block
+    // that the allocator could use.
+    resize_heap(heap, heap->size + NOFL_BLOCK_SIZE);
+  }
   heap->size_at_last_gc = heap->size;
   HEAP_EVENT(heap, restarting_mutators);
   allow_mutators_to_continue(heap);
-- 
2.43.0


From cf08c236916f62105493fa7e06c0578f0cccaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 29/37] fix: pcc: grow the heap if collection can't make space
 for a large object

---
 src/pcc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index 44f6331..8b9bfc6 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -956,10 +956,16 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
                       resize_heap);
   {
     struct copy_space *space = heap_resizable_space(heap);
-    if (!copy_space_page_out_blocks_until_memory_released(space)
-        && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
-      fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
-      GC_CRASH();
+    if (!copy_space_page_out_blocks_until_memory_released(space)) {
+      if (heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
+        fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
+        GC_CRASH();
+      }
+      // Perhaps collection failed to make room for a large object, which is not
+      // something that the heap sizer knows about.
+      ssize_t pending = atomic_load(&space->bytes_to_page_out);
+      if (pending > 0)
+        resize_heap(heap, heap->size + pending);
     }
   }
   HEAP_EVENT(heap, restarting_mutators);
-- 
2.43.0


From ecad61dbbeb4e27f625d2bb66aff681789281e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 30/37] fix: mmc: run out of memory only if collecting doesn't
 help the allocation

That there was no allocation since the last collection doesn't mean that
there is no garbage, nor that the heap can't be compacted.  Give up, or
grow the heap, only if the same allocation already had a collection, and
a compacting one, and still doesn't succeed.  Also, don't do minor
collections forever if they don't help.
---
 src/mmc.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index f1a9743..e138704 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -762,10 +762,10 @@ sweep_ephemerons(struct gc_heap *heap) {
 
 static void collect(struct gc_mutator *mut,
                     enum gc_collection_kind requested_kind,
-                    int requested_by_user) GC_NEVER_INLINE;
+                    int allocation_is_stuck) GC_NEVER_INLINE;
 static void
 collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
-        int requested_by_user) {
+        int allocation_is_stuck) {
   struct gc_heap *heap = mutator_heap(mut);
   struct nofl_space *nofl_space = heap_nofl_space(heap);
   struct large_object_space *lospace = heap_large_object_space(heap);
@@ -783,7 +783,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   nofl_space_add_to_allocation_counter(nofl_space, &allocation_counter);
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
-  int needs_to_grow = !requested_by_user
+  int needs_to_grow = allocation_is_stuck
     && detect_out_of_memory(heap, allocation_counter, requested_kind);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
@@ -847,7 +847,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
 static void
 trigger_collection(struct gc_mutator *mut,
                    enum gc_collection_kind requested_kind,
-                   int requested_by_user) {
+                   int allocation_is_stuck) {
   struct gc_heap *heap = mutator_heap(mut);
   int prev_kind = -1;
   if (gc_has_conservative_intraheap_edges() &&
@@ -862,13 +862,13 @@ trigger_collection(struct gc_mutator *mut,
   while (mutators_are_stopping(heap))
     prev_kind = pause_mutator_for_collection(heap, mut);
   if (prev_kind < (int)requested_kind)
-    collect(mut, requested_kind, requested_by_user);
+    collect(mut, requested_kind, allocation_is_stuck);
   heap_unlock(heap);
 }
 
 void
 gc_collect(struct gc_mutator *mut, enum gc_collection_kind kind) {
-  trigger_collection(mut, kind, 1);
+  trigger_collection(mut, kind, 0);
 }
 
 int*
@@ -928,8 +928,13 @@ allocate_large(struct gc_mutator *mut, size_t size,
   nofl_space_request_release_memory(nofl_space,
                                     npages << lospace->page_size_log2);
 
-  while (!nofl_space_shrink(nofl_space, 0))
-    trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
+  // If there is no space, and a collection doesn't make any, we may be out of
+  // memory.
+  int allocation_is_stuck = 0;
+  while (!nofl_space_shrink(nofl_space, 0)) {
+    trigger_collection(mut, GC_COLLECTION_COMPACTING, allocation_is_stuck);
+    allocation_is_stuck = 1;
+  }
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(lospace, npages, kind);
@@ -942,9 +947,22 @@ allocate_large(struct gc_mutator *mut, size_t size,
   return ret;
 }
 
+struct small_allocation {
+  struct gc_mutator *mut;
+  int is_stuck;
+};
+
 static void
-collect_for_small_allocation(void *mut) {
-  trigger_collection(mut, GC_COLLECTION_ANY, 0);
+collect_for_small_allocation(void *data) {
+  struct small_allocation *alloc = data;
+  // If whatever kind of collection seems best doesn't make space for the
+  // allocation, try a compacting one.  If that doesn't help either, we may be
+  // out of memory.
+  trigger_collection(alloc->mut,
+                     alloc->is_stuck ? GC_COLLECTION_COMPACTING
+                     : GC_COLLECTION_ANY,
+                     alloc->is_stuck);
+  alloc->is_stuck = 1;
 }
 
 void*
@@ -955,10 +973,11 @@ gc_allocate_slow(struct gc_mutator *mut, size_t size,
   if (size > gc_allocator_large_threshold())
     return allocate_large(mut, size, compute_trace_kind(kind));
 
+  struct small_allocation alloc = { mut, 0 };
   return gc_ref_heap_object(nofl_allocate(&mut->allocator,
                                           heap_nofl_space(mutator_heap(mut)),
                                           size, collect_for_small_allocation,
-                                          mut, kind));
+                                          &alloc, kind));
 }
 
 void
-- 
2.43.0


From 3189a227edac547bdcc063a37aff5cb0ffbed06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 31/37] fix: pcc: have blocks for all of the memory of a
 growable heap

When the heap grew, the blocks that it got could be too few: some blocks
of a slab aren't available for allocation, the memory of large objects
needs blocks once they are freed, and there could be no block to borrow
when evacuation needed more than the heap size.
---
 src/copy-space.h | 39 ++++++++++++++++++++++++++++++++-------
 src/pcc.c        |  7 ++++++-
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index a3b0e50..98472c6 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -874,13 +874,14 @@ copy_space_first_payload_block(struct copy_space *space) {
   return copy_space_field_logging_blocks(space);
 }
 
+// Add enough slabs for BYTES worth of blocks to the space, all paged out.
 static void
-copy_space_expand(struct copy_space *space, size_t bytes) {
-  GC_ASSERT(!copy_space_fixed_size(space));
-  ssize_t to_acquire = -copy_space_maybe_reacquire_memory(space, bytes);
-  if (to_acquire <= 0) return;
-  size_t reserved = align_up(to_acquire, COPY_SPACE_SLAB_SIZE);
-  size_t nslabs = reserved / COPY_SPACE_SLAB_SIZE;
+copy_space_provision_blocks(struct copy_space *space, size_t bytes) {
+  // Not all blocks of a slab are available for allocation.
+  size_t payload_blocks_per_slab =
+    COPY_SPACE_NONHEADER_BLOCKS_PER_SLAB - copy_space_first_payload_block(space);
+  size_t payload_size = payload_blocks_per_slab * COPY_SPACE_BLOCK_SIZE;
+  size_t nslabs = (bytes + payload_size - 1) / payload_size;
   struct copy_space_slab *slabs =
     copy_space_allocate_slabs(nslabs, space->flags);
   copy_space_add_slabs(space, slabs, nslabs);
@@ -894,13 +895,37 @@ copy_space_expand(struct copy_space *space, size_t bytes) {
       block->all_zeroes[0] = block->all_zeroes[1] = 1;
       block->in_core = 0;
       copy_space_page_out_block(space, block, &lock);
-      reserved -= COPY_SPACE_BLOCK_SIZE;
     }
   }
   gc_lock_release(&lock);
+}
+
+static void
+copy_space_expand(struct copy_space *space, size_t bytes) {
+  GC_ASSERT(!copy_space_fixed_size(space));
+  ssize_t to_acquire = -copy_space_maybe_reacquire_memory(space, bytes);
+  if (to_acquire < (ssize_t)COPY_SPACE_BLOCK_SIZE) return;
+  copy_space_provision_blocks(space, to_acquire);
   copy_space_reacquire_memory(space, 0);
 }
 
+// Make sure that there are BYTES worth of paged-out blocks, for use by
+// copy_space_borrow_block.
+static void
+copy_space_ensure_spare_blocks(struct copy_space *space, size_t bytes) {
+  GC_ASSERT(!copy_space_fixed_size(space));
+  size_t spare = 0;
+  struct gc_lock lock = copy_space_lock(space);
+  for (int age = 0; age < COPY_SPACE_PAGE_OUT_QUEUE_SIZE; age++)
+    for (struct copy_space_block *block = space->paged_out[age].list.head;
+         block && spare < bytes;
+         block = block->next)
+      spare += COPY_SPACE_BLOCK_SIZE;
+  gc_lock_release(&lock);
+  if (spare < bytes)
+    copy_space_provision_blocks(space, bytes - spare);
+}
+
 static void
 copy_space_advance_page_out_queue(void *data) {
   struct copy_space *space = data;
diff --git a/src/pcc.c b/src/pcc.c
index 8b9bfc6..289def2 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -642,7 +642,9 @@ static void heap_reset_large_object_pages(struct gc_heap *heap, size_t npages) {
   GC_ASSERT(npages <= previous);
   size_t bytes = (previous - npages) <<
     heap_large_object_space(heap)->page_size_log2;
-  copy_space_reacquire_memory(heap_resizable_space(heap), bytes);
+  // If the heap grew while it had more large objects, there may not be blocks
+  // for all of the memory that they leave behind.
+  copy_space_expand(heap_resizable_space(heap), bytes);
 }
 
 static void wait_for_mutators_to_stop(struct gc_heap *heap) {
@@ -967,6 +969,9 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
       if (pending > 0)
         resize_heap(heap, heap->size + pending);
     }
+    // If the heap can grow, it should never run out during evacuation.
+    if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
+      copy_space_ensure_spare_blocks(space, heap->size / 4);
   }
   HEAP_EVENT(heap, restarting_mutators);
   allow_mutators_to_continue(heap);
-- 
2.43.0


From 909518a0ced364e41560e178beaf67a0afe1a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 32/37] fix: pcc: stop collecting if collection doesn't make
 space

An allocation that no collection makes space for would collect forever.
As in mmc, grow the heap, or if it can't grow, give up.
---
 src/pcc.c | 62 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index 289def2..df3c52b 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -898,11 +898,28 @@ copy_spaces_allocated_bytes(struct gc_heap *heap)
     : heap_mono_space(heap)->allocated_bytes_at_last_gc;
 }
 
+static int
+detect_out_of_memory(struct gc_heap *heap, uint64_t allocation_since_last_gc) {
+  // Ends of blocks that an allocation didn't fit into count as allocated.
+  struct copy_space *space = heap_allocation_space(heap);
+  if (allocation_since_last_gc
+      > space->fragmentation - space->fragmentation_at_last_gc)
+    return 0;
+
+  // No allocation since last gc: out of memory, unless the heap can grow.
+  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
+    return 1;
+
+  fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
+  GC_CRASH();
+}
+
 static enum gc_collection_kind
-collect(struct gc_mutator *mut,
-        enum gc_collection_kind requested_kind) GC_NEVER_INLINE;
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        int allocation_is_stuck) GC_NEVER_INLINE;
 static enum gc_collection_kind
-collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        int allocation_is_stuck) {
   struct gc_heap *heap = mutator_heap(mut);
   struct large_object_space *lospace = heap_large_object_space(heap);
   struct gc_extern_space *exspace = heap_extern_space(heap);
@@ -914,6 +931,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
   HEAP_EVENT(heap, waiting_for_stop);
   wait_for_mutators_to_stop(heap);
   HEAP_EVENT(heap, mutators_stopped);
+  int previous_gc_was_minor = GC_GENERATIONAL && is_minor_collection(heap);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor_gc =
@@ -922,10 +940,14 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
 #endif
     GC_GENERATIONAL ? gc_kind == GC_COLLECTION_MINOR : 0;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
+  uint64_t previous_counter = heap->total_allocated_bytes_at_last_gc;
   uint64_t *counter_loc = &heap->total_allocated_bytes_at_last_gc;
   copy_space_add_to_allocation_counter(heap_allocation_space(heap),
                                        counter_loc);
   large_object_space_add_to_allocation_counter(lospace, counter_loc);
+  int needs_to_grow = allocation_is_stuck && !previous_gc_was_minor
+    && detect_out_of_memory(heap, *counter_loc - previous_counter);
+  size_t previous_heap_size = heap->size;
   copy_spaces_start_gc(heap, is_minor_gc);
   large_object_space_start_gc(lospace, is_minor_gc);
   gc_extern_space_start_gc(exspace, is_minor_gc);
@@ -968,7 +990,14 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
       ssize_t pending = atomic_load(&space->bytes_to_page_out);
       if (pending > 0)
         resize_heap(heap, heap->size + pending);
+      needs_to_grow = 1;
     }
+    // The heap sizer thinks that there is enough space, but half of it is
+    // reserved for copying, and there is hardly any space left to allocate.
+    size_t minimum_heap_size = previous_heap_size
+      + align_up(previous_heap_size / 8, COPY_SPACE_BLOCK_SIZE);
+    if (needs_to_grow && heap->size < minimum_heap_size)
+      resize_heap(heap, minimum_heap_size);
     // If the heap can grow, it should never run out during evacuation.
     if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
       copy_space_ensure_spare_blocks(space, heap->size / 4);
@@ -979,7 +1008,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
 }
 
 static void trigger_collection(struct gc_mutator *mut,
-                               enum gc_collection_kind requested_kind) {
+                               enum gc_collection_kind requested_kind,
+                               int allocation_is_stuck) {
   struct gc_heap *heap = mutator_heap(mut);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
@@ -989,12 +1019,12 @@ static void trigger_collection(struct gc_mutator *mut,
   while (mutators_are_stopping(heap))
     prev_kind = pause_mutator_for_collection(heap, mut);
   if (prev_kind < (int)requested_kind)
-    collect(mut, requested_kind);
+    collect(mut, requested_kind, allocation_is_stuck);
   heap_unlock(heap);
 }
 
 void gc_collect(struct gc_mutator *mut, enum gc_collection_kind kind) {
-  trigger_collection(mut, kind);
+  trigger_collection(mut, kind, 0);
 }
 
 static void* allocate_large(struct gc_mutator *mut, size_t size) {
@@ -1005,8 +1035,13 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 
   copy_space_request_release_memory(heap_resizable_space(heap),
                                     npages << space->page_size_log2);
-  while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap)))
-    trigger_collection(mut, GC_COLLECTION_COMPACTING);
+  // If there is no space, and a collection doesn't make any, we may be out of
+  // memory.
+  int allocation_is_stuck = 0;
+  while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap))) {
+    trigger_collection(mut, GC_COLLECTION_COMPACTING, allocation_is_stuck);
+    allocation_is_stuck = 1;
+  }
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(space, npages, GC_TRACE_PRECISELY);
@@ -1020,7 +1055,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 }
 
 static void get_more_empty_blocks_for_mutator(void *mut) {
-  trigger_collection(mut, GC_COLLECTION_MINOR);
+  trigger_collection(mut, GC_COLLECTION_MINOR, 0);
 }
 
 void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
@@ -1037,14 +1072,17 @@ void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
     return allocate_large(mut, size);
 
   struct gc_ref ret;
+  int allocation_is_stuck = 0;
   while (1) {
     ret = copy_space_allocate(&mut->allocator,
                               heap_allocation_space(mutator_heap(mut)),
                               size);
-    if (gc_ref_is_null(ret))
-      trigger_collection(mut, GC_COLLECTION_MINOR);
-    else
+    if (!gc_ref_is_null(ret))
       break;
+    trigger_collection(mut, GC_COLLECTION_MINOR, allocation_is_stuck);
+    // If collection doesn't make space for the allocation, we may be out of
+    // memory.
+    allocation_is_stuck = 1;
   }
 
   return gc_ref_heap_object(ret);
-- 
2.43.0


From 608fbcf52ab55bacd9b8bb99428fafaa3a78192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 33/37] fix: semi: grow the heap enough to allocate

The heap sizer's target for a heap may not even fit the live data, as
half of a semi-space heap is reserved for copying.
---
 src/semi.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/semi.c b/src/semi.c
index a4ee85f..6d439cb 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -339,6 +339,17 @@ static void resize_heap(struct gc_heap *heap, size_t new_heap_size) {
     HEAP_EVENT(heap, heap_resized, heap->size);
 }
 
+// The heap sizer doesn't know that half of the heap is reserved for copying.
+// Grow the heap further if its target doesn't leave space for the allocation
+// that needs it, with some slack so as to not have to collect right again.
+static void ensure_space_for_alloc(struct gc_heap *heap, size_t for_alloc) {
+  struct semi_space *semi = heap_semi_space(heap);
+  size_t needed = 2 * (semi->live_bytes_at_last_gc + for_alloc);
+  needed += (align_up(semi->stolen_pages, 2) + 2) * semi->page_size;
+  if (heap->size < needed)
+    resize_heap(heap, needed + needed / 8);
+}
+
 static void reset_heap_limits(struct gc_heap *heap) {
   struct semi_space *semi = heap_semi_space(heap);
   size_t new_region_size = align_up(heap->size, semi->page_size * 2) / 2;
@@ -436,6 +447,8 @@ static void collect(struct gc_mutator *mut, size_t for_alloc) {
         heap->size);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
                       resize_heap);
+  if (for_alloc && heap->options->common.heap_size_policy != GC_HEAP_SIZE_FIXED)
+    ensure_space_for_alloc(heap, for_alloc);
   reset_heap_limits(heap);  
   clear_memory(semi->hp, semi->limit - semi->hp);
 
-- 
2.43.0


From 3504d60505dd9fae9f7c2381f344bf71fb5bfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:00 +0000
Subject: [PATCH 34/37] fix: mmc: don't count evacuation as allocation

Objects evacuated to a block that is then swept for allocation counted
as allocated since the collection that evacuated them, and not as
survivors.  In an exhausted heap that looked like progress.
---
 src/nofl-space.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 65c35e1..97f29e8 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -661,6 +661,9 @@ nofl_allocator_release_partly_full_block(struct nofl_allocator *alloc,
   size_t hole_size = alloc->sweep - alloc->alloc;
   GC_ASSERT(hole_size);
   block.summary->fragmentation_granules = hole_size / NOFL_GRANULE_SIZE;
+  if (space->evacuating)
+    // What was evacuated to the block is not an allocation since the collection.
+    block.summary->hole_granules = block.summary->fragmentation_granules;
   struct gc_lock lock = nofl_space_lock(space);
   nofl_block_stack_push(&space->partly_full, block, &lock);
   gc_lock_release(&lock);
@@ -709,8 +712,10 @@ static size_t
 nofl_allocator_acquire_evacuation_target(struct nofl_allocator* alloc,
                                          struct nofl_space *space) {
   size_t granules = nofl_allocator_acquire_partly_full_block(alloc, space);
-  if (granules)
+  if (granules) {
+    alloc->block.summary->hole_granules = NOFL_GRANULES_PER_BLOCK;
     return granules;
+  }
   return nofl_allocator_acquire_empty_block(alloc, space);
 }
 
-- 
2.43.0


From fc0aea5e86a33b3e546838f276b826df94c1d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:46 +0000
Subject: [PATCH 35/37] fix: bdw: clear an ephemeron's key when the key dies

GC_register_disappearing_link clears the link when the object that
contains it is found to be inaccessible, which is to say, the ephemeron.
The association was therefore never broken, and an ephemeron whose key
had been reclaimed yielded a dangling reference.
---
 src/bdw.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdw.c b/src/bdw.c
index 83a157d..5d51869 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -244,7 +244,10 @@ void gc_ephemeron_init(struct gc_mutator *mut, struct gc_ephemeron *ephemeron,
   gc_ephemeron_init_internal(mut->heap, ephemeron, key, value);
   if (GC_base((void*)gc_ref_value(key))) {
     struct gc_ref *loc = gc_edge_loc(gc_ephemeron_key_edge(ephemeron));
-    GC_register_disappearing_link((void**)loc);
+    // Clear the link when the key dies, as opposed to when the ephemeron
+    // does.
+    GC_general_register_disappearing_link((void**)loc,
+                                          gc_ref_heap_object(key));
   }
 }
 
-- 
2.43.0


From 16d2b771494764f39515c7c15b0c5a7366b97184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:46 +0000
Subject: [PATCH 36/37] fix: bdw: trace the chain of an ephemeron whose value
 is NULL

Such an ephemeron was taken to be on a freelist, so the ephemerons that
follow it in its chain were reclaimed.
---
 src/bdw.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bdw.c b/src/bdw.c
index 5d51869..81e00bd 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -309,8 +309,12 @@ mark_ephemeron(GC_word *addr, struct GC_ms_entry *mark_stack_ptr,
   struct gc_ephemeron *ephemeron = (struct gc_ephemeron*) addr;
 
   // If this ephemeron is on a freelist, its first word will be a
-  // freelist link and everything else will be NULL.
-  if (!gc_ref_value(gc_edge_ref(gc_ephemeron_value_edge(ephemeron)))) {
+  // freelist link and everything else will be NULL.  Note that the value
+  // of a live ephemeron may be NULL as well, as is its key once it has
+  // died, but then its chain still has to be traced.
+  if (!gc_ref_value(gc_edge_ref(gc_ephemeron_value_edge(ephemeron)))
+      && !gc_ref_value(gc_edge_ref(gc_ephemeron_key_edge(ephemeron)))
+      && !gc_ephemeron_chain_next(ephemeron)) {
     bdw_mark_edge(gc_edge(addr), NULL, &state);
     return state.mark_stack_ptr;
   }
-- 
2.43.0


From b1532b51d52ee9c50230f7773eb904abd4ee4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:16 +0000
Subject: [PATCH 37/37] fix: bdw: keep an own epoch for tracing ephemerons

The collection number changes at the end of marking, so ephemerons that
were traced on behalf of a finalizable object were not traced again in
the next collection, and what they referred to was reclaimed.
---
 src/bdw.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bdw.c b/src/bdw.c
index 81e00bd..5fad890 100644
--- a/src/bdw.c
+++ b/src/bdw.c
@@ -60,6 +60,7 @@ struct gc_heap {
   struct gc_finalizer_state *finalizer_state;
   gc_finalizer_callback have_finalizers;
   void *event_listener_data;
+  unsigned trace_epoch;
 };
 
 struct gc_mutator {
@@ -236,7 +237,9 @@ struct gc_ephemeron* gc_allocate_ephemeron(struct gc_mutator *mut) {
 }
 
 unsigned gc_heap_ephemeron_trace_epoch(struct gc_heap *heap) {
-  return GC_get_gc_no();
+  // Not GC_get_gc_no(), as that changes at the end of marking, before
+  // the data that finalizable objects refer to is traced.
+  return __the_bdw_gc_heap->trace_epoch;
 }
 
 void gc_ephemeron_init(struct gc_mutator *mut, struct gc_ephemeron *ephemeron,
@@ -484,6 +487,7 @@ static void on_collection_event(GC_EventType event) {
     break;
   }
   case GC_EVENT_MARK_START:
+    __the_bdw_gc_heap->trace_epoch++;
     HEAP_EVENT(mutators_stopped);
     HEAP_EVENT(prepare_gc, GC_COLLECTION_MAJOR);
     break;
-- 
2.43.0

