#ifndef PARAMS_H
#define PARAMS_H
// Workload parameters: name, default.
#define PARAMS(X) \
  X(nmut, 1) X(waves, 1) X(ops, 300) X(heap_kb, 4096) X(policy, 0) X(mult_pct, 0) X(expans_pct, 0) X(maxheap_kb, 0) \
  X(par, 1) X(ncpu, 2) X(slots, 16) X(hroots, 8) X(chains, 2) X(live_pct, 25) X(bounded_live, 1) X(main_empty_base, 0) \
  X(small_max, 12) X(fields_max, 4) X(p_medium, 20) X(p_large, 10) X(p_edge, 10) X(large_max_kb, 64) X(p_leaf, 250) \
  X(w_alloc, 100) X(w_link, 60) X(w_load, 60) X(w_clear, 20) X(w_copy, 10) X(w_unlink, 10) X(w_hstore, 20) X(w_hload, 20) \
  X(w_eph, 0) X(w_ephread, 0) X(w_ephdead, 0) X(w_ephweb, 0) X(w_push, 0) X(w_walk, 0) X(w_fin, 0) X(w_pop, 0) X(w_pin, 0) \
  X(w_gcany, 0) X(w_gcminor, 0) X(w_gcmajor, 2) X(w_gccompact, 0) X(w_safepoint, 10) X(w_nogc, 0) X(w_churn, 10) \
  X(w_list, 4) X(w_wide, 2) X(w_tree, 2) X(w_counter, 2) X(w_extern, 0) X(w_imm, 4) X(ext_trace, 1) X(w_remember, 0) X(w_breathe, 0) X(w_interior, 0) X(w_regroot, 0) \
  X(w_glob, 0) X(w_idle, 0) X(w_read, 20) X(w_relink, 5) X(w_fragment, 0) X(w_drop, 1) X(w_biglive, 0) X(w_huge, 0) \
  X(churn_kb, 64) X(wide_max, 300) X(list_max, 200) X(untagged, 0) X(nprio, 3) X(zero_probe, 1) \
  X(drain, 1) X(drain_reuse, 0) X(drain_idle, 0) X(drain_fin, 0) X(drain_policy, 0) X(oom_ok, 0) X(osfault_ok, 0) X(regular_tag, 0) \
  X(strategy, 0) X(quantum, 2000) X(sync_weight, 0) X(ns_per_1k, 1000) X(place, 0) X(pct_depth, 6) \
  X(f_spurious, 0) X(f_weakcas, 0) X(f_stall, 0) X(f_clock, 0) X(f_mmap, 0) X(f_madvise, 0) X(f_malloc, 0) X(f_thread, 0) X(f_slow, 0) \
  X(strict_busy, 0) X(f_trylock, 0) X(f_sigextra, 0) X(max_steps, 400000000) X(max_noprogress, 60000000) X(wall_limit, 60) X(fault_after_init, 1) X(stats, 0) X(tiny, 0) X(w_fillup, 0) X(optstr, 0) X(tso, 0) X(wide_lim, 400) X(w_poll, 0) X(w_junk, 0) X(mmap_at, 0) X(malloc_at, 0)
struct hparams {
#define X(n, d) long n;
  PARAMS(X)
#undef X
};
extern struct hparams P;
#endif
