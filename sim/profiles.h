// Per-property workload profiles.  Everything is a function of (profile, seed,
// variant under test).
static struct sim_rng PR;
static uint32_t rr(uint32_t n) { return sim_rndn(&PR, n); }
static long range(long lo, long hi) { return lo + (long)rr((uint32_t)(hi - lo + 1)); }
static long logrange(long lo, long hi) { // roughly log-uniform
  int b = 0; while ((lo << (b + 1)) <= hi) b++;
  long v = lo << rr(b + 1); v += rr(v); return v > hi ? hi : v;
}
static int chance(int pct) { return (int)rr(100) < pct; }
static void heap(long mb_lo, long mb_hi) {
  P.heap_kb = range(mb_lo, mb_hi) * 1024 + (chance(30) ? rr(1024) & ~3 : 0);
}
static void zero_weights(void) {
  P.w_eph = P.w_ephread = P.w_ephdead = P.w_ephweb = P.w_push = P.w_walk = P.w_fin = P.w_pop = P.w_pin = P.w_extern = P.w_interior = P.w_regroot = P.w_glob = P.w_idle = P.w_fragment = P.w_biglive = P.w_nogc = P.w_huge = 0;
}
static void base(void) {
  static const int st[] = { 0, 0, 0, 1, 1, 1, 2, 3 };
  P.strategy = st[rr(8)];
  P.quantum = logrange(25, 20000);
  P.sync_weight = chance(40) ? 0 : chance(50) ? P.quantum / 8 : P.quantum / 2;
  P.ns_per_1k = logrange(300, 300000);
  P.place = rr(4); P.pct_depth = 1 + rr(12);
  P.ncpu = range(1, 8);
  P.par = VI.parallel ? range(1, 6) : 1;
  P.nmut = chance(30) ? 1 : range(2, 6); P.waves = chance(70) ? 1 : range(2, 3);
  if (VI.collector == COL_SEMI) P.nmut = P.waves = 1;
  P.ops = logrange(40, 500) / (P.nmut > 2 ? 2 : 1);
  heap(4 + (P.nmut > 2 ? P.nmut : 0), 12);
  P.live_pct = VI.collector == COL_MMC ? range(10, 35) : range(8, 20);
  P.slots = range(6, 32); P.hroots = range(2, 24);
  P.p_large = chance(30) ? 0 : logrange(1, 60); P.p_medium = chance(30) ? 0 : logrange(4, 200); P.p_edge = chance(50) ? 0 : logrange(2, 80);
  P.large_max_kb = range(20, 200); P.small_max = range(2, 30); P.fields_max = range(2, 10);
  P.churn_kb = logrange(8, 400); P.w_churn = range(1, 20);
  P.w_gcany = chance(40) ? 0 : range(1, 4); P.w_gcminor = VI.generational && chance(80) ? range(1, 12) : chance(20); P.w_gcmajor = range(0, 4); P.w_gccompact = VI.collector == COL_MMC && chance(60) ? range(1, 4) : 0;
  P.w_safepoint = range(0, 20); P.w_nogc = chance(50) ? range(1, 6) : 0;
  // A little of everything in most runs.
  if (chance(50)) { P.w_eph = range(1, 15); P.w_ephread = 5; P.w_ephweb = rr(4); P.w_ephdead = rr(3); }
  P.chains = range(0, 4);
  if (chance(35)) { P.w_push = range(1, 20); P.w_walk = range(1, 10); }
  if (chance(40)) { P.w_fin = range(1, 15); P.w_pop = range(1, 10); }
  if (chance(30)) P.w_extern = range(1, 8);
  if (VI.can_pin && chance(25)) P.w_pin = range(1, 3);
  if (chance(30)) P.w_fragment = range(1, 4);
  if (VI.cons_roots) { P.w_interior = range(0, 10); P.w_regroot = rr(3); P.w_glob = range(0, 10); P.untagged = chance(50); }
  else P.untagged = VI.collector == COL_MMC && chance(30);
  P.drain_fin = chance(50); P.drain_reuse = chance(30);
  if (chance(30)) { P.policy = 1 + rr(2); P.mult_pct = range(150, 300); P.expans_pct = range(20, 200); }
  if (chance(40)) { P.f_spurious = logrange(1000, 200000); P.f_sigextra = logrange(1000, 200000); }
  if (chance(40)) P.f_weakcas = logrange(500, 100000);
  if (chance(30)) P.f_trylock = logrange(1000, 200000);
  if (chance(30)) P.f_stall = logrange(100, 20000);
  if (P.policy && chance(40)) P.w_huge = range(1, 6);
  if (VI.collector == COL_SEMI) P.w_nogc = 0;
  // Bound the amount of work between two collections in small quanta.
  if (P.quantum < 100) P.ops = P.ops / 2 + 10;
}
static void mt(int lo, int hi) { if (VI.collector != COL_SEMI) P.nmut = range(lo, hi); if (P.heap_kb < (4 + P.nmut) * 1024) P.heap_kb = (4 + P.nmut) * 1024; }
static void p_C01(void) { base(); P.w_read = 40; if (VI.collector == COL_MMC && chance(60)) P.w_gccompact = range(1, 6); }
static void p_C02(void) {
  base(); P.w_alloc = 200; P.w_churn = range(5, 20); P.p_medium = range(20, 300); P.p_edge = range(20, 200); P.p_large = range(0, 60); P.w_fragment = range(1, 6);
  P.policy = 0; mt(1, 5);
  if (chance(20)) P.w_breathe = range(1, 3);
}
static void p_C03(void) {
  base(); P.w_gcminor = range(4, 20); P.w_gcmajor = chance(50); P.w_gccompact = VI.collector == COL_MMC && chance(30); P.w_link = 150; P.w_list = range(2, 12); P.w_wide = range(2, 12); P.w_tree = range(1, 8);
  P.wide_max = logrange(40, 3000); P.w_relink = 20; P.p_large = range(5, 60); P.slots = range(4, 20); if (chance(60)) { P.w_fin = 0; } P.w_churn = range(1, 10); P.waves = VI.collector == COL_SEMI ? 1 : range(1, 3);
  if (VI.generational && chance(50)) { P.w_remember = range(5, 60); mt(2, 6); P.ops = logrange(60, 400); if (chance(50)) P.quantum = logrange(10, 400); P.wide_max = logrange(300, 3000); }
}
static void p_C04(void) {
  base(); P.policy = 0; P.w_churn = range(10, 40); P.churn_kb = logrange(100, 800); P.drain_reuse = 1; P.p_large = chance(50) ? range(5, 150) : P.p_large; P.large_max_kb = range(20, 400); P.w_fragment = range(0, 6);
  P.w_pin = 0; P.w_drop = range(1, 4); P.ops = logrange(60, 400);
  if (chance(25)) P.w_breathe = range(1, 4);
}
static void p_C05(void) { base(); P.w_eph = range(10, 40); P.w_ephread = 20; P.w_ephweb = range(3, 15); P.w_ephdead = rr(5); P.w_gcmajor = range(2, 6); P.par = VI.parallel ? range(1, 8) : 1; P.quantum = logrange(20, 2000); P.w_churn = range(1, 5); if (chance(50)) P.policy = 0; }
static void p_C06(void) {
  base(); P.w_push = range(20, 60); P.w_walk = range(10, 40); P.w_ephdead = range(0, 10); P.chains = range(1, 3); mt(2, 6); P.quantum = logrange(15, 400); P.f_weakcas = chance(60) ? logrange(1000, 200000) : 0; P.w_churn = rr(4); P.churn_kb = logrange(8, 100);
  P.w_alloc = 30; P.w_list = P.w_tree = P.w_wide = 1;
}
static void p_C07(void) { base(); P.w_fin = range(10, 50); P.w_pop = range(3, 40); P.drain_fin = 1; P.nprio = range(1, 3); P.w_gcmajor = range(2, 6); P.w_churn = range(1, 6); P.quantum = logrange(15, 2000); if (chance(70)) mt(2, 6); }
static void p_C08(void) {
  base(); mt(2, 8); P.waves = VI.collector == COL_SEMI ? 1 : range(1, 4); P.ops = logrange(10, 120); P.w_gcany = range(1, 8); P.w_gcminor = range(1, 8); P.w_gcmajor = range(1, 8); P.w_nogc = VI.collector == COL_SEMI ? 0 : range(2, 20); P.w_safepoint = range(1, 30);
  P.quantum = logrange(10, 1500); P.f_spurious = chance(60) ? logrange(2000, 400000) : 0; P.f_sigextra = P.f_spurious; P.f_stall = chance(60) ? logrange(200, 40000) : 0; P.w_churn = range(0, 4); P.churn_kb = logrange(8, 80); P.w_idle = chance(20);
  P.f_slow = chance(40) ? logrange(3000, 300000) : 0;
}
static void p_C09(void) { base(); P.w_pin = range(2, 15); P.w_gccompact = VI.collector == COL_MMC ? range(2, 10) : 0; P.w_read = 40; P.w_fragment = range(1, 6); }
static void p_C10(void) { base(); P.w_interior = range(5, 40); P.w_regroot = range(1, 6); P.w_glob = range(5, 30); P.w_nogc = VI.collector == COL_SEMI ? 0 : range(1, 8); P.untagged = chance(80); P.main_empty_base = 0; }
static void p_C11(void) { base(); mt(1, 6); P.ops = logrange(20, 150); P.waves = VI.collector == COL_SEMI ? 1 : range(1, 4); P.w_gcany = range(1, 6); P.w_gcminor = range(1, 6); P.w_gcmajor = range(1, 6); P.w_nogc = VI.collector == COL_SEMI ? 0 : range(1, 10); P.quantum = logrange(10, 1500); P.w_churn = range(1, 8); P.churn_kb = logrange(8, 120); if (chance(50)) { P.policy = 1 + rr(2); P.mult_pct = range(150, 300); P.expans_pct = range(20, 200); } }
static void p_C12(void) { base(); P.policy = 0; P.w_churn = range(10, 40); P.churn_kb = logrange(100, 1200); P.p_large = range(0, 200); P.large_max_kb = range(20, 400); mt(1, 6); P.w_fragment = range(0, 5); if (chance(25)) P.w_breathe = range(1, 4); P.f_slow = chance(30) ? logrange(3000, 300000) : 0; }
static void p_C13(void) {
  base(); P.policy = 1 + rr(2); P.mult_pct = range(120, 400); P.expans_pct = range(5, 300); P.drain_policy = 1; P.live_pct = range(10, 90); P.bounded_live = 1; P.heap_kb = range(4, 10) * 1024 + (P.nmut > 2 ? P.nmut * 1024 : 0);
  if (chance(40)) P.live_pct = range(100, 300);
  P.f_clock = chance(60) ? logrange(1000, 200000) : 0; P.w_idle = chance(60) ? range(1, 3) : 0; P.ns_per_1k = logrange(3000, 3000000); P.w_churn = range(5, 30); P.churn_kb = logrange(50, 600);
  P.f_slow = chance(40) ? logrange(3000, 300000) : 0; if (chance(25)) P.w_breathe = range(1, 4);
}
static void p_C14(void) {
  base(); P.drain_idle = 1; P.w_idle = chance(70) ? range(1, 4) : 0; P.p_large = range(5, 150); P.large_max_kb = range(20, 300); P.ns_per_1k = logrange(3000, 3000000); P.w_churn = range(4, 20);
  P.policy = chance(50) ? 0 : 2; P.mult_pct = P.policy ? range(120, 300) : 0; P.expans_pct = P.policy ? range(20, 200) : 0; P.f_clock = chance(30) ? logrange(1000, 100000) : 0;
  P.f_slow = chance(70) ? logrange(3000, 500000) : 0; if (chance(40)) P.ns_per_1k = logrange(300000, 30000000);
  if (chance(60)) P.w_breathe = range(1, 12);
}
static void p_C15(void) {
  base(); P.osfault_ok = 1; P.f_mmap = chance(70) ? logrange(1000, 500000) : 0; P.f_malloc = chance(30) ? logrange(100, 20000) : 0; P.f_thread = chance(50) ? logrange(10000, 600000) : 0; P.f_madvise = chance(40) ? logrange(1000, 500000) : 0;
  P.fault_after_init = chance(60); P.policy = chance(30) ? 0 : 1 + rr(2); if (P.policy) { P.mult_pct = range(120, 400); P.expans_pct = range(5, 200); P.live_pct = range(20, 200); P.bounded_live = 1; } else { P.mult_pct = P.expans_pct = 0; }
  P.w_churn = range(5, 30); P.churn_kb = logrange(50, 600);
  if (chance(30)) { P.oom_ok = 1; P.bounded_live = 0; P.policy = 0; P.w_list = 60; P.list_max = 2000; P.w_drop = 0; P.w_clear = 2; }
  P.f_slow = chance(40) ? logrange(3000, 300000) : 0;
}
static void p_C16(void) { base(); P.w_counter = range(10, 60); mt(1, 6); P.waves = VI.collector == COL_SEMI ? 1 : range(1, 4); P.w_churn = range(2, 20); P.p_large = range(0, 80); }
static void p_C17(void) { base(); mt(1, 7); P.w_gcany = range(1, 10); P.w_gcminor = range(1, 10); P.w_gcmajor = range(1, 10); P.w_gccompact = range(1, 10); P.ops = logrange(20, 150); P.quantum = logrange(10, 1500); P.w_churn = rr(8); P.churn_kb = logrange(8, 100); }
static void p_C18(void) { base(); P.w_extern = range(10, 60); P.w_eph = range(2, 20); P.w_ephweb = rr(5); P.w_imm = 0; }
static void p_C19(void) { base(); P.par = VI.parallel ? range(2, 8) : 1; P.ncpu = range(1, 8); P.quantum = logrange(10, 1000); P.w_list = range(2, 20); P.w_wide = range(2, 20); P.w_tree = range(2, 20); P.list_max = logrange(100, 6000); P.wide_max = logrange(100, 6000); P.f_thread = chance(40) ? logrange(50000, 800000) : 0; P.fault_after_init = 0; P.osfault_ok = 1; P.f_spurious = chance(60) ? logrange(2000, 300000) : 0; P.f_weakcas = chance(60) ? logrange(1000, 200000) : 0; P.f_stall = chance(60) ? logrange(200, 40000) : 0; P.nmut = VI.collector == COL_SEMI ? 1 : range(1, 3); heap(8, 20); P.live_pct = VI.collector == COL_MMC ? range(20, 40) : range(10, 20); P.ops = logrange(30, 200); }
static void p_C20(void) { base(); P.p_large = range(100, 500); P.large_max_kb = logrange(20, 600); P.w_churn = range(2, 20); P.w_read = 60; P.w_list = 1; P.ops = logrange(80, 600); P.w_idle = chance(30); P.ns_per_1k = logrange(3000, 1000000); P.drain_reuse = 1; P.f_slow = chance(40) ? logrange(3000, 300000) : 0; if (chance(40)) P.w_breathe = range(1, 4); }
static void p_C92(void) {
  base(); P.stats = 1; mt(1, 5); P.ops = logrange(20, 200); P.w_gcany = range(1, 6); P.w_gcminor = range(1, 6); P.w_gcmajor = range(1, 6); P.w_gccompact = range(0, 3); P.w_churn = range(0, 8); P.churn_kb = logrange(8, 120); P.ns_per_1k = logrange(100, 3000000);
  P.f_clock = chance(70) ? logrange(3000, 500000) : 0; P.w_idle = chance(30); P.f_slow = chance(30) ? logrange(3000, 300000) : 0; P.waves = VI.collector == COL_SEMI ? 1 : range(1, 3);
  if (chance(50)) { P.policy = 1 + rr(2); P.mult_pct = range(150, 300); P.expans_pct = range(20, 200); }
}
static void p_C91(void) {
  base(); mt(1, 3); P.ops = logrange(10, 80); P.ns_per_1k = logrange(100, 300000); P.optstr = 1 + rr(1 << 30); P.drain_policy = chance(50);
  if (chance(60)) { P.policy = 1 + rr(2); P.mult_pct = range(110, 500); P.expans_pct = range(20, 200); }
  if (chance(30)) { P.f_malloc = logrange(1000, 300000); P.fault_after_init = 0; P.osfault_ok = 1; }
}
static const struct profile { const char *name; void (*fn)(void); } profiles[] = {
#define F(n) { #n, p_##n }
  F(C01), F(C02), F(C03), F(C04), F(C05), F(C06), F(C07), F(C08), F(C09), F(C10), F(C11), F(C12), F(C13), F(C14), F(C15), F(C16), F(C17), F(C18), F(C19), F(C20), F(C91), F(C92),
#undef F
};
static const struct profile *profile_find(const char *n) { for (unsigned i = 0; i < sizeof profiles / sizeof *profiles; i++) if (!strcmp(profiles[i].name, n)) return &profiles[i]; return NULL; }
static void profile_apply(const struct profile *p, uint64_t seed) {
  uint64_t h = 0; for (const char *c = p->name; *c; c++) h = h * 131 + *c;
  PR.s = sim_hash64(seed * 0x9E3779B97F4A7C15ULL + h + VI.collector * 31 + VI.generational * 7 + VI.cons_roots * 3 + VI.cons_trace * 5 + VI.parallel * 11);
  p->fn();
  if (VI.collector != COL_MMC && P.policy == 0 && P.live_pct > 20) P.live_pct = 20;
  if (VI.collector == COL_SEMI) { P.nmut = P.waves = 1; P.w_nogc = P.w_idle = P.drain_idle = 0; }
  if (!VI.can_pin) P.w_pin = 0;
  if (!VI.cons_roots) P.w_interior = P.w_regroot = P.w_glob = 0;
  if (!P.chains) P.w_walk = 0;
  // Drawn independently, so that turning these on changes nothing else about a run.
  struct sim_rng X = { sim_hash64(PR.s ^ 0x57a7) };
  if (strcmp(p->name, "C19")) {
    int pct = !strcmp(p->name, "C11") ? 50 : 12;
    if (!P.stats && !P.f_malloc && (int)sim_rndn(&X, 100) < pct) P.stats = 1;
    if (strcmp(p->name, "C14") && strcmp(p->name, "C16") && strcmp(p->name, "C12") && sim_rndn(&X, 100) < 4) {
      // A heap of a few blocks: it may well be too small, but the collector has to say so.
      P.tiny = 1; P.oom_ok = 1; P.drain_reuse = P.drain_idle = P.drain_policy = P.w_biglive = 0;
      long lo = P.policy ? 256 : 16; P.heap_kb = lo << sim_rndn(&X, P.policy ? 4 : 8); P.heap_kb += sim_rndn(&X, P.heap_kb);
    } else if (!P.policy && sim_rndn(&X, 100) < (!strcmp(p->name, "C04") ? 30 : 8)) P.w_fillup = 1 + sim_rndn(&X, 3);
    if (!P.optstr && sim_rndn(&X, 100) < (strcmp(p->name, "C15") ? 5 : 40)) P.optstr = 1 + sim_rndn(&X, 1 << 30);
    if (!P.f_madvise && strcmp(p->name, "C15") && sim_rndn(&X, 100) < 20) P.f_madvise = 1000L << sim_rndn(&X, 10);
  }
  // Machines with more processors than the collector has workers, and nurseries of several slabs.
  struct sim_rng Y = { sim_hash64(PR.s ^ 0xc9a5) };
  if (sim_rndn(&Y, 100) < 8) P.ncpu = 9 + sim_rndn(&Y, 248);
  if (VI.parallel && sim_rndn(&Y, 100) < 4) P.par = 9 + sim_rndn(&Y, 56);
  if (P.nmut > 1 || VI.parallel || P.policy == 2) { int t = sim_rndn(&Y, 100); P.tso = strcmp(p->name, "C19") ? (t < 15) + (t < 8) : (t < 50) + (t < 35); }
  // Objects of many references overflow the workers' own work lists, so that they share and steal.
  if (VI.parallel && sim_rndn(&Y, 100) < (strcmp(p->name, "C19") ? 4 : 35)) { P.wide_max = 1500 + sim_rndn(&Y, 6000); P.wide_lim = 1 << (9 + sim_rndn(&Y, 4)); P.w_wide += 20 + sim_rndn(&Y, 60); P.small_max = 1 + sim_rndn(&Y, 4); if (P.par < 3) P.par = 3 + sim_rndn(&Y, 6); }
  if (P.nmut > 1 && sim_rndn(&Y, 100) < (!strcmp(p->name, "C08") || !strcmp(p->name, "C17") ? 50 : 12)) P.w_poll = 1 + sim_rndn(&Y, 8);
  if (VI.cons_roots && sim_rndn(&Y, 100) < (!strcmp(p->name, "C10") ? 60 : !strcmp(p->name, "C20") || !strcmp(p->name, "C01") ? 30 : 8)) { P.w_junk = 2 + sim_rndn(&Y, 30); P.oom_ok = 1; }
  // A single refusal at a chosen call, and the run goes on.
  if (!strcmp(p->name, "C15") && sim_rndn(&Y, 100) < (VI.collector == COL_SEMI ? 75 : 40)) {
    P.f_mmap = P.f_malloc = 0; P.fault_after_init = sim_rndn(&Y, 100) < 85;
    if (sim_rndn(&Y, 100) < 80) P.mmap_at = 1 + sim_rndn(&Y, sim_rndn(&Y, 3) ? 8 : 40); else P.malloc_at = 1 + sim_rndn(&Y, 200);
    if (P.fault_after_init && !P.policy && sim_rndn(&Y, 100) < 60 && !P.oom_ok) { P.policy = 1 + sim_rndn(&Y, 2); P.mult_pct = 120 + sim_rndn(&Y, 280); P.expans_pct = 5 + sim_rndn(&Y, 195); P.live_pct = 20 + sim_rndn(&Y, 180); P.bounded_live = 1; }
    // Without large objects the refused mapping is the one that would have grown the heap.
    if (P.mmap_at && sim_rndn(&Y, 100) < (VI.collector == COL_SEMI ? 80 : 30)) {
      P.p_large = P.w_huge = P.w_biglive = 0;
      if (VI.collector == COL_SEMI) { P.mmap_at = 1 + sim_rndn(&Y, 3); P.fault_after_init = 1; if (!P.oom_ok && sim_rndn(&Y, 4)) { P.policy = 2; P.mult_pct = 120 + sim_rndn(&Y, 280); P.expans_pct = 5 + sim_rndn(&Y, 195); P.live_pct = 20 + sim_rndn(&Y, 180); P.bounded_live = 1; } }
    }
  }
}
