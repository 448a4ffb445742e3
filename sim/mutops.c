// Thin wrappers around the inline collector API; compiled with the same
// instrumentation and flags as the collector, so the inline fast paths are
// subject to preemption like everything else.
#include <sys/types.h>
#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "gc-event-listener-chain.h"
#include "gc-basic-stats.h"
#include "mutops.h"
#include "objlayout.h"

struct variant_info VI;
#ifndef SIM_COLLECTOR
#error SIM_COLLECTOR
#endif
#ifndef GC_PRECISE_ROOTS
#define GC_PRECISE_ROOTS 0
#endif
void mo_fill_info(void) {
  VI = (struct variant_info){
    .collector = SIM_COLLECTOR, .generational = GC_GENERATIONAL, .precise_roots = !(GC_CONSERVATIVE_ROOTS),
    .cons_roots = GC_CONSERVATIVE_ROOTS, .cons_trace = GC_CONSERVATIVE_TRACE, .parallel = GC_PARALLEL,
    .debug = GC_DEBUG, .can_pin = gc_can_pin_objects(), .interior_ok = GC_CONSERVATIVE_ROOTS,
    .large_threshold = gc_allocator_large_threshold(), .granule = gc_allocator_small_granule_size(),
    .eph_size = gc_ephemeron_size(), .fin_size = gc_finalizer_size() };
}

static void l_init(void *d, size_t n) { h_ev_init(d, n); }
static void l_requesting_stop(void *d) { h_ev_heap(d, HE_REQUESTING_STOP, 0); }
static void l_waiting_for_stop(void *d) { h_ev_heap(d, HE_WAITING_FOR_STOP, 0); }
static void l_mutators_stopped(void *d) { h_ev_heap(d, HE_MUTATORS_STOPPED, 0); }
static void l_prepare_gc(void *d, enum gc_collection_kind k) { h_ev_heap(d, HE_PREPARE_GC, k); }
static void l_roots_traced(void *d) { h_ev_heap(d, HE_ROOTS_TRACED, 0); }
static void l_heap_traced(void *d) { h_ev_heap(d, HE_HEAP_TRACED, 0); }
static void l_ephemerons_traced(void *d) { h_ev_heap(d, HE_EPHEMERONS_TRACED, 0); }
static void l_finalizers_traced(void *d) { h_ev_heap(d, HE_FINALIZERS_TRACED, 0); }
static void l_restarting(void *d) { h_ev_heap(d, HE_RESTARTING, 0); }
static void *l_mutator_added(void *d) { return h_ev_mutator_added(d); }
static void l_cause(void *m) { h_ev_mutator(m, ME_CAUSE_GC); }
static void l_stopping(void *m) { h_ev_mutator(m, ME_STOPPING); }
static void l_stopped(void *m) { h_ev_mutator(m, ME_STOPPED); }
static void l_restarted(void *m) { h_ev_mutator(m, ME_RESTARTED); }
static void l_removed(void *m) { h_ev_mutator(m, ME_REMOVED); }
static void l_resized(void *d, size_t n) { h_ev_heap(d, HE_HEAP_RESIZED, n); }
static void l_live(void *d, size_t n) { h_ev_heap(d, HE_LIVE_DATA_SIZE, n); }

static const struct gc_event_listener L_SELF = {
    .init = l_init, .requesting_stop = l_requesting_stop, .waiting_for_stop = l_waiting_for_stop,
    .mutators_stopped = l_mutators_stopped, .prepare_gc = l_prepare_gc, .roots_traced = l_roots_traced,
    .heap_traced = l_heap_traced, .ephemerons_traced = l_ephemerons_traced, .finalizers_traced = l_finalizers_traced,
    .restarting_mutators = l_restarting, .mutator_added = l_mutator_added, .mutator_cause_gc = l_cause,
    .mutator_stopping = l_stopping, .mutator_stopped = l_stopped, .mutator_restarted = l_restarted,
    .mutator_removed = l_removed, .heap_resized = l_resized, .live_data_size = l_live };
static void f_init(void *d, size_t n) { h_pre_heap(d, HE_INIT, n); }
static void f_requesting_stop(void *d) { h_pre_heap(d, HE_REQUESTING_STOP, 0); }
static void f_waiting_for_stop(void *d) { h_pre_heap(d, HE_WAITING_FOR_STOP, 0); }
static void f_mutators_stopped(void *d) { h_pre_heap(d, HE_MUTATORS_STOPPED, 0); }
static void f_prepare_gc(void *d, enum gc_collection_kind k) { h_pre_heap(d, HE_PREPARE_GC, k); }
static void f_roots_traced(void *d) { h_pre_heap(d, HE_ROOTS_TRACED, 0); }
static void f_heap_traced(void *d) { h_pre_heap(d, HE_HEAP_TRACED, 0); }
static void f_ephemerons_traced(void *d) { h_pre_heap(d, HE_EPHEMERONS_TRACED, 0); }
static void f_finalizers_traced(void *d) { h_pre_heap(d, HE_FINALIZERS_TRACED, 0); }
static void f_restarting(void *d) { h_pre_heap(d, HE_RESTARTING, 0); }
static void *f_mutator_added(void *d) { return h_pre_mutator_added(d); }
static void f_cause(void *m) { h_pre_mutator(m, ME_CAUSE_GC); }
static void f_stopping(void *m) { h_pre_mutator(m, ME_STOPPING); }
static void f_stopped(void *m) { h_pre_mutator(m, ME_STOPPED); }
static void f_restarted(void *m) { h_pre_mutator(m, ME_RESTARTED); }
static void f_removed(void *m) { h_pre_mutator(m, ME_REMOVED); }
static void f_resized(void *d, size_t n) { h_pre_heap(d, HE_HEAP_RESIZED, n); }
static void f_live(void *d, size_t n) { h_pre_heap(d, HE_LIVE_DATA_SIZE, n); }
static const struct gc_event_listener L_PRE = {
    .init = f_init, .requesting_stop = f_requesting_stop, .waiting_for_stop = f_waiting_for_stop,
    .mutators_stopped = f_mutators_stopped, .prepare_gc = f_prepare_gc, .roots_traced = f_roots_traced,
    .heap_traced = f_heap_traced, .ephemerons_traced = f_ephemerons_traced, .finalizers_traced = f_finalizers_traced,
    .restarting_mutators = f_restarting, .mutator_added = f_mutator_added, .mutator_cause_gc = f_cause,
    .mutator_stopping = f_stopping, .mutator_stopped = f_stopped, .mutator_restarted = f_restarted,
    .mutator_removed = f_removed, .heap_resized = f_resized, .live_data_size = f_live };
static struct gc_basic_stats STATS;
static struct gc_event_listener_chain INNER, OUTER;
void mo_stats_read(struct mo_stats *s) {
  gc_basic_stats_finish(&STATS);
  struct gc_latency *p = &STATS.pause_times;
  *s = (struct mo_stats){ STATS.major_collection_count, STATS.minor_collection_count, STATS.elapsed_mutator_usec, STATS.elapsed_collector_usec,
    STATS.cpu_mutator_usec, STATS.cpu_collector_usec, STATS.heap_size, STATS.max_heap_size, STATS.live_data_size, STATS.max_live_data_size,
    gc_latency_count(p), gc_latency_min(p), gc_latency_max(p), gc_latency_median(p) };
}
uint64_t mo_stats_percentile(double p) { return gc_latency_percentile(&STATS.pause_times, p); }

static const int OPT_ID[] = { GC_OPTION_HEAP_SIZE_POLICY, GC_OPTION_HEAP_SIZE, GC_OPTION_MAXIMUM_HEAP_SIZE, GC_OPTION_HEAP_SIZE_MULTIPLIER, GC_OPTION_HEAP_EXPANSIVENESS, GC_OPTION_PARALLELISM };
int mo_opt_id(int k) { return OPT_ID[k]; }
void *mo_opt_alloc(void) { return gc_allocate_options(); }
int mo_opt_from_string(const char *s) { return gc_option_from_string(s); }
int mo_opt_set_int(void *o, int k, int v) { return gc_options_set_int(o, OPT_ID[k], v); }
int mo_opt_set_size(void *o, int k, size_t v) { return gc_options_set_size(o, OPT_ID[k], v); }
int mo_opt_set_double(void *o, int k, double v) { return gc_options_set_double(o, OPT_ID[k], v); }
int mo_opt_parse(void *o, int k, const char *s) { return gc_options_parse_and_set(o, OPT_ID[k], s); }
int mo_opt_parse_many(void *o, const char *s) { return gc_options_parse_and_set_many(o, s); }

int mo_init(const struct mo_options *o, uintptr_t base, void **heap, void **mut, void *ldata) {
  struct gc_event_listener L = L_SELF;
  if (o->stats) {
    INNER = GC_EVENT_LISTENER_CHAIN_DATA(GC_BASIC_STATS, &STATS, L_SELF, ldata);
    OUTER = GC_EVENT_LISTENER_CHAIN_DATA(L_PRE, &STATS, GC_EVENT_LISTENER_CHAIN, &INNER);
    L = GC_EVENT_LISTENER_CHAIN; ldata = &OUTER;
  }
  struct gc_options *opt = o->made ? o->made : gc_allocate_options();
  if (!opt) return 0;
  int ok = o->made || gc_options_set_int(opt, GC_OPTION_HEAP_SIZE_POLICY, o->policy)
    && gc_options_set_size(opt, GC_OPTION_HEAP_SIZE, o->heap_size)
    && gc_options_set_int(opt, GC_OPTION_PARALLELISM, o->parallelism);
  if (!o->made && o->max_heap_size) ok = ok && gc_options_set_size(opt, GC_OPTION_MAXIMUM_HEAP_SIZE, o->max_heap_size);
  if (!o->made && o->multiplier > 0) ok = ok && gc_options_set_double(opt, GC_OPTION_HEAP_SIZE_MULTIPLIER, o->multiplier);
  if (!o->made && o->expansiveness > 0) ok = ok && gc_options_set_double(opt, GC_OPTION_HEAP_EXPANSIVENESS, o->expansiveness);
  if (!ok) return -1;
  struct gc_heap *h = NULL; struct gc_mutator *m = NULL;
  int r = gc_init(opt, base ? gc_stack_addr(base) : gc_empty_stack_addr(), &h, &m, L, ldata);
  *heap = h; *mut = m;
  return r;
}
void *mo_init_for_thread(uintptr_t base, void *heap) { return gc_init_for_thread(gc_stack_addr(base), heap); }
void mo_finish_for_thread(void *m) { gc_finish_for_thread(m); }
void mo_set_roots(void *m, void *r) { gc_mutator_set_roots(m, r); }
void mo_heap_set_roots(void *h, void *r) { gc_heap_set_roots(h, r); }
void mo_set_extern_space(void *h, void *s) { gc_heap_set_extern_space(h, s); }
void *mo_alloc(void *m, size_t size, int kind) {
  switch (kind) {
  case AK_TAGGED: return gc_allocate(m, size, GC_ALLOCATION_TAGGED);
  case AK_TAGGED_POINTERLESS: return gc_allocate(m, size, GC_ALLOCATION_TAGGED_POINTERLESS);
  case AK_UNTAGGED_CONSERVATIVE: return gc_allocate(m, size, GC_ALLOCATION_UNTAGGED_CONSERVATIVE);
  default: return gc_allocate(m, size, GC_ALLOCATION_UNTAGGED_POINTERLESS);
  }
}
void mo_barrier(void *m, void *obj, size_t size, uintptr_t *loc, uintptr_t val) {
  gc_write_barrier(m, gc_ref_from_heap_object(obj), size, gc_edge(loc), gc_ref(val));
}
void mo_safepoint(void *m) { gc_safepoint(m); }
void mo_collect(void *m, int kind) { gc_collect(m, (enum gc_collection_kind)kind); }
void mo_pin(void *m, void *obj) { gc_pin_object(m, gc_ref_from_heap_object(obj)); }
uint64_t mo_counter(void *heap) { return gc_allocation_counter(heap); }
void *mo_call_without_gc(void *m, void *(*f)(void *), void *data) { return gc_call_without_gc(m, f, data); }
struct csa { void *(*f)(uintptr_t, void *); void *data; };
static void *csa_tramp(struct gc_stack_addr a, void *p) { struct csa *c = p; return c->f(a.addr, c->data); }
void *mo_call_with_stack_addr(void *(*f)(uintptr_t, void *), void *data) {
  struct csa c = { f, data }; return gc_call_with_stack_addr(csa_tramp, &c);
}
void *mo_eph_alloc(void *m) { return gc_allocate_ephemeron(m); }
void mo_eph_init(void *m, void *e, uintptr_t k, uintptr_t v) { gc_ephemeron_init(m, e, gc_ref(k), gc_ref(v)); }
uintptr_t mo_eph_key(void *e) { return gc_ref_value(gc_ephemeron_key(e)); }
uintptr_t mo_eph_value(void *e) { return gc_ref_value(gc_ephemeron_value(e)); }
void *mo_chain_head(uintptr_t *loc) { return gc_ephemeron_chain_head((struct gc_ephemeron **)loc); }
void mo_chain_push(uintptr_t *loc, void *e) { gc_ephemeron_chain_push((struct gc_ephemeron **)loc, e); }
void *mo_chain_next(void *e) { return gc_ephemeron_chain_next(e); }
void mo_eph_mark_dead(void *e) { gc_ephemeron_mark_dead(e); }
void *mo_fin_alloc(void *m) { return gc_allocate_finalizer(m); }
void mo_fin_attach(void *m, void *f, unsigned p, uintptr_t o, uintptr_t c) { gc_finalizer_attach(m, f, p, gc_ref(o), gc_ref(c)); }
uintptr_t mo_fin_object(void *f) { return gc_ref_value(gc_finalizer_object(f)); }
uintptr_t mo_fin_closure(void *f) { return gc_ref_value(gc_finalizer_closure(f)); }
void *mo_fin_pop(void *m) { return gc_pop_finalizable(m); }
void mo_fin_set_callback(void *h, void (*cb)(void *, size_t)) { gc_set_finalizer_callback(h, (gc_finalizer_callback)cb); }

void mo_reg_collect_(void *m, int kind) { gc_collect(m, (enum gc_collection_kind)kind); }
__asm__(".text\n.globl mo_collect_reg_root\nmo_collect_reg_root:\n"
        "push %rbx\npush %r12\nsub $8,%rsp\n"
        "mov %rdx,%r12\nxor $-1,%r12\n"          // the slot's address is not a heap address anyway
        "mov (%rdx),%rbx\nmovq $0,(%rdx)\n"
        "call mo_reg_collect_\n"
        "xor $-1,%r12\nmov %rbx,(%r12)\n"
        "add $8,%rsp\npop %r12\npop %rbx\nret\n");
