PB(discards) PB(moved) PB(eph_cleared) PB(eph_made) PB(eph_markdead) PB(chain_push) PB(chain_push_race) PB(chain_walk) PB(chain_walk_race)
PB(fin_attached) PB(fin_popped) PB(fin_resurrected) PB(fin_callback) PB(pinned) PB(pin_survived_compact) PB(interior) PB(regroot) PB(globroot)
PB(busy_trace) PB(remember_bursts) PB(breathes) PB(max_live_under_kb) PB(max_live_over_kb) PB(large_alloc) PB(large_freed) PB(medium_alloc) PB(recycled_alloc) PB(untagged_alloc) PB(barrier) PB(barrier_old) PB(nogc_calls) PB(nogc_during_gc)
PB(threads_started) PB(threads_exited) PB(stopped_in_wait) PB(gc_minor) PB(gc_major) PB(gc_compacting) PB(explicit_gc) PB(concurrent_gc_requests)
PB(resizes) PB(extern_visits) PB(extern_traced) PB(counter_reads) PB(oom_expected) PB(relief) PB(os_refusals_survived) PB(dropped) PB(max_live_kb) PB(max_objects)
PB(forwarded) PB(traced) PB(idle_checks) PB(policy_checks) PB(reuse_checks) PB(fin_drain_rounds) PB(full_precise_checks) PB(remembered_young) PB(huge_alloc)
PB(max_foot_excess_kb) PB(adaptive_checks) PB(growable_checks) PB(idle_shrinks) PB(max_idle_excess_kb) PB(max_idle_excess2_kb) PB(forced_growth) PB(stats_checks) PB(stats_overflow) PB(fillups) PB(option_checks) PB(options_by_text) PB(waited_growths) PB(polls_while_stopping) PB(eph_kept_conservatively) PB(junk_words)
