// Embedder used by the simulation: typed objects with self-describing headers.
#ifndef SIM_EMBEDDER_H
#define SIM_EMBEDDER_H
#include <stdatomic.h>
#include <stdint.h>
#include "gc-config.h"
#include "gc-embedder-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "objlayout.h"

#define GC_EMBEDDER_EPHEMERON_HEADER struct ohdr header;
#define GC_EMBEDDER_FINALIZER_HEADER struct ohdr header;

extern int h_extern_visit(struct gc_extern_space *space, uintptr_t *loc, uintptr_t ref);
extern void h_extern_start(struct gc_extern_space *space, int is_minor);
extern void h_extern_finish(struct gc_extern_space *space, int is_minor);
extern void h_on_trace(uintptr_t obj, int kind);
extern uintptr_t h_busy_tag(uintptr_t obj);
extern void h_on_forward(uintptr_t from, uintptr_t to);

struct gc_mutator_roots { uintptr_t n; uintptr_t *slots; void *owner; };
struct gc_heap_roots { uintptr_t n; uintptr_t *slots; };

static inline size_t gc_finalizer_priority_count(void) { return SIM_NPRIO; }
static inline int gc_is_valid_conservative_ref_displacement(uintptr_t displacement) {
  return displacement == 0;
}
static inline int gc_extern_space_visit(struct gc_extern_space *space, struct gc_edge edge, struct gc_ref ref) {
  return h_extern_visit(space, (uintptr_t *)gc_edge_loc(edge), gc_ref_value(ref));
}
static inline void gc_extern_space_start_gc(struct gc_extern_space *space, int is_minor_gc) { h_extern_start(space, is_minor_gc); }
static inline void gc_extern_space_finish_gc(struct gc_extern_space *space, int is_minor_gc) { h_extern_finish(space, is_minor_gc); }

#define SIM_BUSY ((uintptr_t)0)
static inline _Atomic uintptr_t *sim_tag_word(struct gc_ref ref) { return (_Atomic uintptr_t *)gc_ref_heap_object(ref); }

static inline void
gc_trace_object(struct gc_ref ref,
                void (*trace_edge)(struct gc_edge edge, struct gc_heap *heap, void *trace_data),
                struct gc_heap *heap, void *trace_data, size_t *size) {
  struct ohdr *o = gc_ref_heap_object(ref);
  uintptr_t tag = o->tag;
  if (tag == SIM_BUSY && trace_edge) tag = h_busy_tag((uintptr_t)o);
  int kind = TAG_KIND(tag);
  if (trace_edge) h_on_trace((uintptr_t)o, kind);
  switch (kind) {
  case K_EXT:
  case K_NODE: {
    if (trace_edge) {
      uintptr_t n = TAG_NFIELDS(tag);
      uintptr_t *f = OBJ_FIELDS(o);
      for (uintptr_t i = 0; i < n; i++) trace_edge(gc_edge(&f[i]), heap, trace_data);
    }
    if (size) *size = TAG_NWORDS(tag) * 8;
    break;
  }
  case K_LEAF:
    if (size) *size = TAG_NWORDS(tag) * 8;
    break;
  case K_EPH:
    if (trace_edge) gc_trace_ephemeron((struct gc_ephemeron *)o, trace_edge, heap, trace_data);
    if (size) *size = gc_ephemeron_size();
    break;
  case K_FIN:
    if (trace_edge) gc_trace_finalizer((struct gc_finalizer *)o, trace_edge, heap, trace_data);
    if (size) *size = gc_finalizer_size();
    break;
  default:
    GC_CRASH();
  }
}
static inline void
gc_trace_mutator_roots(struct gc_mutator_roots *roots,
                       void (*trace_edge)(struct gc_edge edge, struct gc_heap *heap, void *trace_data),
                       struct gc_heap *heap, void *trace_data) {
  if (roots)
    for (uintptr_t i = 0; i < roots->n; i++) trace_edge(gc_edge(&roots->slots[i]), heap, trace_data);
}
static inline void
gc_trace_heap_roots(struct gc_heap_roots *roots,
                    void (*trace_edge)(struct gc_edge edge, struct gc_heap *heap, void *trace_data),
                    struct gc_heap *heap, void *trace_data) {
  if (roots)
    for (uintptr_t i = 0; i < roots->n; i++) trace_edge(gc_edge(&roots->slots[i]), heap, trace_data);
}

static inline uintptr_t gc_object_forwarded_nonatomic(struct gc_ref ref) {
  uintptr_t tag = *(uintptr_t *)gc_ref_heap_object(ref);
  return (tag & 1) ? 0 : tag;
}
static inline void gc_object_forward_nonatomic(struct gc_ref ref, struct gc_ref new_ref) {
  h_on_forward(gc_ref_value(ref), gc_ref_value(new_ref));
  *(uintptr_t *)gc_ref_heap_object(ref) = gc_ref_value(new_ref);
}
static inline void sim_classify(struct gc_atomic_forward *fwd, uintptr_t tag) {
  fwd->data = tag;
  fwd->state = tag == SIM_BUSY ? GC_FORWARDING_STATE_BUSY
    : (tag & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED : GC_FORWARDING_STATE_FORWARDED;
}
static inline struct gc_atomic_forward gc_atomic_forward_begin(struct gc_ref ref) {
  struct gc_atomic_forward fwd = { ref, 0, 0 };
  sim_classify(&fwd, atomic_load_explicit(sim_tag_word(ref), memory_order_acquire));
  return fwd;
}
static inline int gc_atomic_forward_retry_busy(struct gc_atomic_forward *fwd) {
  uintptr_t tag = atomic_load_explicit(sim_tag_word(fwd->ref), memory_order_acquire);
  if (tag == SIM_BUSY) return 0;
  sim_classify(fwd, tag);
  return 1;
}
static inline void gc_atomic_forward_acquire(struct gc_atomic_forward *fwd) {
  uintptr_t expected = fwd->data;
  if (atomic_compare_exchange_strong(sim_tag_word(fwd->ref), &expected, SIM_BUSY))
    fwd->state = GC_FORWARDING_STATE_ACQUIRED;
  else {
    sim_classify(fwd, expected);
  }
}
static inline void gc_atomic_forward_abort(struct gc_atomic_forward *fwd) {
  atomic_store_explicit(sim_tag_word(fwd->ref), fwd->data, memory_order_release);
  fwd->state = GC_FORWARDING_STATE_NOT_FORWARDED;
}
static inline size_t gc_atomic_forward_object_size(struct gc_atomic_forward *fwd) {
  uintptr_t tag = fwd->data;
  switch (TAG_KIND(tag)) {
  case K_NODE: case K_LEAF: return TAG_NWORDS(tag) * 8;
  case K_EPH: return gc_ephemeron_size();
  case K_FIN: return gc_finalizer_size();
  default: GC_CRASH();
  }
}
static inline void gc_atomic_forward_commit(struct gc_atomic_forward *fwd, struct gc_ref new_ref) {
  *(uintptr_t *)gc_ref_heap_object(new_ref) = fwd->data;
  h_on_forward(gc_ref_value(fwd->ref), gc_ref_value(new_ref));
  atomic_store_explicit(sim_tag_word(fwd->ref), gc_ref_value(new_ref), memory_order_release);
  fwd->state = GC_FORWARDING_STATE_FORWARDED;
}
static inline uintptr_t gc_atomic_forward_address(struct gc_atomic_forward *fwd) { return fwd->data; }
#endif
