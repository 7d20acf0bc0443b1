// Embedder definition used by the /verif fuzzing harness.  Compiled into every
// translation unit of the collector under test via -DGC_EMBEDDER.
#ifndef FZ_EMBEDDER_H
#define FZ_EMBEDDER_H

#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>

#include "gc-config.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "gc-embedder-api.h"

struct gc_header { uintptr_t tag; };
#define GC_EMBEDDER_EPHEMERON_HEADER struct gc_header header;
#define GC_EMBEDDER_FINALIZER_HEADER struct gc_header header;

// Tag word of a live object:
//   bit 0      1 (0 when the word is a forwarding address or busy)
//   bits 1-3   kind
//   bits 4-23  number of fields
//   bits 24-49 size in bytes
//   bits 50-63 hash of the object's id
enum { FZ_NODE = 1, FZ_EPH = 2, FZ_FIN = 3 };
static inline uintptr_t fz_tag(unsigned kind, uintptr_t nf, uintptr_t size,
                               uintptr_t hash) {
  return 1 | ((uintptr_t)kind << 1) | (nf << 4) | (size << 24) | (hash << 50);
}
static inline unsigned fz_tag_kind(uintptr_t t) { return (t >> 1) & 7; }
static inline size_t fz_tag_nf(uintptr_t t) { return (t >> 4) & 0xfffff; }
static inline size_t fz_tag_size(uintptr_t t) { return (t >> 24) & 0x3ffffff; }

static inline uintptr_t* fz_tag_word(struct gc_ref ref) {
  return &((struct gc_header*) gc_ref_heap_object(ref))->tag;
}
// Fields start right after the tag word or one word later, so that objects have
// fields in their first granule as well as in their last word.
static inline int fz_tag_id_first(uintptr_t t) { return (t >> 50) & 1; }
static inline struct gc_ref* fz_fields_for_tag(struct gc_ref ref, uintptr_t tag) {
  return ((struct gc_ref*) gc_ref_heap_object(ref)) + (fz_tag_id_first(tag) ? 2 : 1);
}
static inline struct gc_ref* fz_fields(struct gc_ref ref) {
  return fz_fields_for_tag(ref, *fz_tag_word(ref));
}
// The word that holds the id of the object.
static inline uintptr_t* fz_id_word(uintptr_t addr) {
  uintptr_t tag = *(uintptr_t*)addr;
  return (uintptr_t*)addr + 1 + (fz_tag_id_first(tag) ? 0 : fz_tag_nf(tag));
}
static inline size_t fz_size_from_tag(uintptr_t tag) {
  switch (fz_tag_kind(tag)) {
    case FZ_NODE: return fz_tag_size(tag);
    case FZ_EPH: return gc_ephemeron_size();
    case FZ_FIN: return gc_finalizer_size();
    default: abort();
  }
}

struct gc_mutator_roots {
  size_t count;
  struct gc_ref *refs;
};
struct gc_heap_roots {
  size_t count;
  struct gc_ref *refs;
};

#ifndef FZ_PRIORITIES
#define FZ_PRIORITIES 3
#endif
static inline size_t gc_finalizer_priority_count(void) { return FZ_PRIORITIES; }

// Allow a one-byte-tagged reference, as an embedder with tagged object
// references would: displacements 0 and 3 are valid.
static inline int
gc_is_valid_conservative_ref_displacement(uintptr_t displacement) {
  return displacement == 0 || displacement == 3;
}

#define FZ_EXT_STRIDE 256
#define FZ_EXT_MAX 4096
struct gc_extern_space {
  char *base;
  uint8_t mark[FZ_EXT_MAX];
  unsigned visits;
  unsigned bad;           // references that are not extern objects
  unsigned start_count, finish_count;
  int in_gc, minor;
  int protocol_error;
};

static inline int gc_extern_space_visit(struct gc_extern_space *space,
                                        struct gc_edge edge,
                                        struct gc_ref ref) {
  uintptr_t off = gc_ref_value(ref) - (uintptr_t)space->base;
  if (off >= (uintptr_t)FZ_EXT_STRIDE * FZ_EXT_MAX || off % FZ_EXT_STRIDE) {
    atomic_fetch_add(&space->bad, 1);
    return 0;
  }
  atomic_fetch_add(&space->visits, 1);
  if (!space->in_gc) space->protocol_error = 1;
  return !atomic_exchange(&space->mark[off / FZ_EXT_STRIDE], 1);
}
static inline void gc_extern_space_start_gc(struct gc_extern_space *space,
                                            int is_minor_gc) {
  if (!space) return;
  if (space->in_gc) space->protocol_error = 2;
  space->in_gc = 1;
  space->minor = !!is_minor_gc;
  space->start_count++;
  if (!is_minor_gc)
    for (size_t i = 0; i < FZ_EXT_MAX; i++) space->mark[i] = 0;
}
static inline void gc_extern_space_finish_gc(struct gc_extern_space *space,
                                             int is_minor_gc) {
  if (!space) return;
  if (!space->in_gc) space->protocol_error = 3;
  if (space->minor != !!is_minor_gc) space->protocol_error = 4;
  space->in_gc = 0;
  space->finish_count++;
}

static inline void gc_trace_object(struct gc_ref ref,
                                   void (*trace_edge)(struct gc_edge edge,
                                                      struct gc_heap *heap,
                                                      void *trace_data),
                                   struct gc_heap *heap,
                                   void *trace_data,
                                   size_t *size) {
  uintptr_t tag = *fz_tag_word(ref);
  if (!(tag & 1)) abort();
  if (trace_edge) {
    switch (fz_tag_kind(tag)) {
      case FZ_NODE: {
        size_t nf = fz_tag_nf(tag);
        struct gc_ref *f = fz_fields_for_tag(ref, tag);
        for (size_t i = 0; i < nf; i++)
          trace_edge(gc_edge(&f[i]), heap, trace_data);
        break;
      }
      case FZ_EPH:
        gc_trace_ephemeron(gc_ref_heap_object(ref), trace_edge, heap,
                           trace_data);
        break;
      case FZ_FIN:
        gc_trace_finalizer(gc_ref_heap_object(ref), trace_edge, heap,
                           trace_data);
        break;
      default:
        abort();
    }
  }
  if (size)
    *size = fz_size_from_tag(tag);
}

static inline void gc_trace_mutator_roots(struct gc_mutator_roots *roots,
                                          void (*trace_edge)(struct gc_edge edge,
                                                             struct gc_heap *heap,
                                                             void *trace_data),
                                          struct gc_heap *heap,
                                          void *trace_data) {
  if (roots)
    for (size_t i = 0; i < roots->count; i++)
      trace_edge(gc_edge(&roots->refs[i]), heap, trace_data);
}

static inline void gc_trace_heap_roots(struct gc_heap_roots *roots,
                                       void (*trace_edge)(struct gc_edge edge,
                                                          struct gc_heap *heap,
                                                          void *trace_data),
                                       struct gc_heap *heap,
                                       void *trace_data) {
  if (roots)
    for (size_t i = 0; i < roots->count; i++)
      trace_edge(gc_edge(&roots->refs[i]), heap, trace_data);
}

// Forwarding: the forwarding address replaces the tag word; 0 means busy.
static inline uintptr_t gc_object_forwarded_nonatomic(struct gc_ref ref) {
  uintptr_t tag = *fz_tag_word(ref);
  return (tag & 1) ? 0 : tag;
}
static inline void gc_object_forward_nonatomic(struct gc_ref ref,
                                               struct gc_ref new_ref) {
  *fz_tag_word(ref) = gc_ref_value(new_ref);
}
static inline struct gc_atomic_forward
gc_atomic_forward_begin(struct gc_ref ref) {
  uintptr_t tag = atomic_load_explicit(fz_tag_word(ref), memory_order_acquire);
  enum gc_forwarding_state state;
  if (tag == 0)
    state = GC_FORWARDING_STATE_BUSY;
  else if (tag & 1)
    state = GC_FORWARDING_STATE_NOT_FORWARDED;
  else
    state = GC_FORWARDING_STATE_FORWARDED;
  return (struct gc_atomic_forward){ ref, tag, state };
}
static inline int
gc_atomic_forward_retry_busy(struct gc_atomic_forward *fwd) {
  uintptr_t tag = atomic_load_explicit(fz_tag_word(fwd->ref),
                                       memory_order_acquire);
  if (tag == 0)
    return 0;
  fwd->state = (tag & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED
    : GC_FORWARDING_STATE_FORWARDED;
  fwd->data = tag;
  return 1;
}
static inline void
gc_atomic_forward_acquire(struct gc_atomic_forward *fwd) {
  if (atomic_compare_exchange_strong(fz_tag_word(fwd->ref), &fwd->data,
                                     (uintptr_t)0))
    fwd->state = GC_FORWARDING_STATE_ACQUIRED;
  else if (fwd->data == 0)
    fwd->state = GC_FORWARDING_STATE_BUSY;
  else
    fwd->state = GC_FORWARDING_STATE_FORWARDED;
}
static inline void
gc_atomic_forward_abort(struct gc_atomic_forward *fwd) {
  atomic_store_explicit(fz_tag_word(fwd->ref), fwd->data, memory_order_release);
  fwd->state = GC_FORWARDING_STATE_NOT_FORWARDED;
}
static inline size_t
gc_atomic_forward_object_size(struct gc_atomic_forward *fwd) {
  return fz_size_from_tag(fwd->data);
}
static inline void
gc_atomic_forward_commit(struct gc_atomic_forward *fwd, struct gc_ref new_ref) {
  *fz_tag_word(new_ref) = fwd->data;
  atomic_store_explicit(fz_tag_word(fwd->ref), gc_ref_value(new_ref),
                        memory_order_release);
  fwd->state = GC_FORWARDING_STATE_FORWARDED;
}
static inline uintptr_t
gc_atomic_forward_address(struct gc_atomic_forward *fwd) {
  return fwd->data;
}

#endif // FZ_EMBEDDER_H
