// Plain-C interface between the uninstrumented harness and the collector
// under test.  Implemented by mutops.c, compiled once per variant.
#ifndef MUTOPS_H
#define MUTOPS_H
#include <stdint.h>
#include <stddef.h>
enum { COL_SEMI, COL_PCC, COL_MMC };
struct variant_info {
  int collector, generational, precise_roots, cons_roots, cons_trace, parallel, debug;
  int can_pin, may_move, interior_ok;
  size_t large_threshold, granule, eph_size, fin_size;
};
extern struct variant_info VI;
void mo_fill_info(void);
enum { AK_TAGGED, AK_TAGGED_POINTERLESS, AK_UNTAGGED_CONSERVATIVE, AK_UNTAGGED_POINTERLESS };
enum { CK_ANY, CK_MINOR, CK_MAJOR, CK_COMPACTING };
struct mo_options { int policy, parallelism; size_t heap_size, max_heap_size; double multiplier, expansiveness; int stats; void *made; };
int mo_init(const struct mo_options *o, uintptr_t stack_base, void **heap, void **mut, void *listener_data);
void *mo_init_for_thread(uintptr_t base, void *heap);
void mo_finish_for_thread(void *mut);
void mo_set_roots(void *mut, void *roots);
void mo_heap_set_roots(void *heap, void *roots);
void mo_set_extern_space(void *heap, void *space);
void *mo_alloc(void *mut, size_t size, int kind);
void mo_barrier(void *mut, void *obj, size_t size, uintptr_t *loc, uintptr_t val);
void mo_safepoint(void *mut);
void mo_collect(void *mut, int kind);
void mo_pin(void *mut, void *obj);
uint64_t mo_counter(void *heap);
void *mo_call_without_gc(void *mut, void *(*f)(void *), void *data);
void *mo_call_with_stack_addr(void *(*f)(uintptr_t, void *), void *data);
void *mo_eph_alloc(void *mut);
void mo_eph_init(void *mut, void *e, uintptr_t key, uintptr_t val);
uintptr_t mo_eph_key(void *e);
uintptr_t mo_eph_value(void *e);
void *mo_chain_head(uintptr_t *loc);
void mo_chain_push(uintptr_t *loc, void *e);
void *mo_chain_next(void *e);
void mo_eph_mark_dead(void *e);
void *mo_fin_alloc(void *mut);
void mo_fin_attach(void *mut, void *f, unsigned prio, uintptr_t obj, uintptr_t closure);
uintptr_t mo_fin_object(void *f);
uintptr_t mo_fin_closure(void *f);
void *mo_fin_pop(void *mut);
void mo_fin_set_callback(void *heap, void (*cb)(void *heap, size_t count));
// Keep the only reference to an object in a callee-saved register across a collection.
void mo_collect_reg_root(void *mut, int kind, uintptr_t *slot);
// Large-object old/young query, for write barriers only.

// The bundled statistics listener, when it is chained in front of the harness's.
struct mo_stats { uint64_t major, minor, elapsed_mutator, elapsed_collector, cpu_mutator, cpu_collector, heap, max_heap, live, max_live, count, min, max, median; };
void mo_stats_read(struct mo_stats *s);
uint64_t mo_stats_percentile(double p);
// The listener before the statistics listener.
void h_pre_heap(void *data, int ev, uintptr_t arg);
void *h_pre_mutator_added(void *data);
void h_pre_mutator(void *mdata, int ev);

// Options; they are numbered here in the order of the harness's own table.
int mo_opt_id(int k);
void *mo_opt_alloc(void);
int mo_opt_from_string(const char *s);
int mo_opt_set_int(void *o, int k, int v);
int mo_opt_set_size(void *o, int k, size_t v);
int mo_opt_set_double(void *o, int k, double v);
int mo_opt_parse(void *o, int k, const char *s);
int mo_opt_parse_many(void *o, const char *s);

// Harness callbacks (uninstrumented).
void h_ev_init(void *data, size_t heap_size);
void h_ev_heap(void *data, int ev, uintptr_t arg);
void *h_ev_mutator_added(void *data);
void h_ev_mutator(void *mdata, int ev);
enum { HE_REQUESTING_STOP, HE_WAITING_FOR_STOP, HE_MUTATORS_STOPPED, HE_PREPARE_GC, HE_ROOTS_TRACED, HE_HEAP_TRACED,
       HE_EPHEMERONS_TRACED, HE_FINALIZERS_TRACED, HE_RESTARTING, HE_HEAP_RESIZED, HE_LIVE_DATA_SIZE, HE_INIT };
enum { ME_CAUSE_GC, ME_STOPPING, ME_STOPPED, ME_RESTARTED, ME_REMOVED };
#endif
