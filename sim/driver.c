// Driver: derives parameters from (profile, seed), forks one child per seed,
// aggregates coverage, replays and minimises recorded runs.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "sim.h"
#include "params.h"
#include "harness.h"
#include "mutops.h"
#include "profiles.h"

static const char *pnames[] = {
#define X(n, d) #n,
  PARAMS(X)
#undef X
};
#define NP ((int)(sizeof pnames / sizeof *pnames))
static long *pval(struct hparams *p, int i) { return (long *)p + i; }
static int pfind(const char *n, size_t len) { for (int i = 0; i < NP; i++) if (strlen(pnames[i]) == len && !strncmp(pnames[i], n, len)) return i; return -1; }
static struct hparams P0;

static void to_sp(uint64_t seed) {
  memset(&SP, 0, sizeof SP);
  SP.seed = seed; SP.strategy = P.strategy; SP.quantum = P.quantum; SP.sync_weight = P.sync_weight; SP.ns_per_1k = P.ns_per_1k;
  SP.place_policy = P.place; SP.ncpu = P.ncpu; SP.max_steps = P.max_steps; SP.max_noprogress = P.max_noprogress * (VI.debug ? 8 : 1); SP.pct_depth = P.pct_depth; SP.wall_limit = P.wall_limit;
  SP.tso = P.tso; SP.fault_at[FK_MMAP_FAIL] = P.mmap_at; SP.fault_at[FK_MALLOC_FAIL] = P.malloc_at;
  uint32_t *f = SP.fault_ppm;
  f[FK_SPURIOUS_WAKE] = P.f_spurious; f[FK_WEAK_CAS] = P.f_weakcas; f[FK_STALL] = P.f_stall; f[FK_SLOW_CALL] = P.f_slow; f[FK_CLOCK_JUMP] = P.f_clock; f[FK_MMAP_FAIL] = P.f_mmap;
  f[FK_MADVISE_FAIL] = P.f_madvise; f[FK_MALLOC_FAIL] = P.f_malloc; f[FK_THREAD_FAIL] = P.f_thread; f[FK_TRYLOCK_BUSY] = P.f_trylock; f[FK_SIGNAL_EXTRA] = P.f_sigextra;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct saved { struct hparams p; uint64_t seed; struct sim_event *ev; uint64_t nev; int has_events; };

// Runs one simulation in a child.  Result is left in *R, events in sim_events.
static int run_child(uint64_t seed, int replaying, struct sim_event *ev, uint64_t nev, int verbose) {
  memset(R, 0, offsetof(struct sim_result, pairmap));
  fflush(stdout);
  to_sp(seed);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    sim_verbose = verbose;
    sim_replaying = replaying; sim_replay = ev; sim_nreplay = nev;
    sim_run(harness_main, NULL);
  }
  int st; waitpid(pid, &st, 0);
  if (R->outcome == 0) {
    R->outcome = 5; snprintf(R->klass, sizeof R->klass, "internal"); snprintf(R->msg, sizeof R->msg, "child ended without an outcome: status %x", st);
  }
  if (R->outcome == 3) { // name the crash by what happened, not by address
    R->outcome = 2; if (!R->klass[0]) snprintf(R->klass, sizeof R->klass, "crash");
  }
  return R->outcome;
}
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
static void print_params(FILE *f, uint64_t seed) {
  fprintf(f, "\"seed\":%lu,\"params\":{", seed);
  int first = 1; for (int i = 0; i < NP; i++) if (*pval(&P, i) != *pval(&P0, i)) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", pnames[i], *pval(&P, i)); first = 0; }
  fputc('}', f);
}
static const char *onames[] = { "none", "ok", "violation", "crash", "expected", "internal" };
static void print_result(FILE *f, uint64_t seed) {
  fprintf(f, "{\"type\":\"result\",\"outcome\":\"%s\",\"klass\":", onames[R->outcome]); jstr(f, R->klass);
  fprintf(f, ",\"msg\":"); jstr(f, R->msg); fprintf(f, ",\"log\":"); jstr(f, R->log);
  fprintf(f, ",\"hash\":\"%016lx\",\"sched_hash\":\"%016lx\",\"steps\":%lu,\"events\":%lu,\"sim_ns\":%lu,\"sig\":%d,\"pc\":\"%lx\",\"addr\":\"%lx\",\"bt\":[", R->hash, R->sched_hash, R->total_steps, R->nevents, R->sim_ns, R->crash_sig, R->crash_pc, R->crash_addr);
  for (int i = 0; i < R->nbt; i++) fprintf(f, "%s\"%lx\"", i ? "," : "", R->bt[i]);
  fprintf(f, "],"); print_params(f, seed); fprintf(f, "}\n"); fflush(f);
}
static void write_replay(const char *path, uint64_t seed, struct sim_event *ev, uint64_t n, int with_events, const char *const *extra) {
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
  fprintf(f, "# whippet deterministic-simulation replay\n");
  for (; extra && *extra; extra++) fprintf(f, "# %s\n", *extra);
  fprintf(f, "# outcome %s %s\n# %s\n", onames[R->outcome], R->klass, R->msg);
  fprintf(f, "hash %016lx\nseed %lu\n", R->hash, seed);
  for (int i = 0; i < NP; i++) if (*pval(&P, i) != *pval(&P0, i)) fprintf(f, "param %s %ld\n", pnames[i], *pval(&P, i));
  if (with_events) {
    fprintf(f, "events %lu\n", n);
    static const char *en[] = { "", "switch", "block", "fault", "choice" };
    for (uint64_t i = 0; i < n; i++) fprintf(f, "%s %u %lu %u %u\n", en[ev[i].type], ev[i].fiber, ev[i].step, ev[i].arg, ev[i].aux);
  }
  fclose(f);
}
static struct saved read_replay(const char *path) {
  struct saved s = { .p = P0 }; FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(2); }
  char line[4096]; uint64_t cap = 0;
  while (fgets(line, sizeof line, f)) {
    char k[64]; unsigned long a, b; long v; unsigned fi, arg, aux;
    if (line[0] == '#') continue;
    if (sscanf(line, "seed %lu", &a) == 1) { s.seed = a; continue; }
    if (sscanf(line, "param %63s %ld", k, &v) == 2) { int i = pfind(k, strlen(k)); if (i < 0) { fprintf(stderr, "unknown parameter %s\n", k); exit(2); } *pval(&s.p, i) = v; continue; }
    if (sscanf(line, "events %lu", &a) == 1) { s.has_events = 1; cap = a + 1; s.ev = calloc(cap, sizeof *s.ev); continue; }
    if (sscanf(line, "%63s %u %lu %u %u", k, &fi, &b, &arg, &aux) == 5 && s.nev < cap) {
      int t = !strcmp(k, "switch") ? EV_SWITCH : !strcmp(k, "block") ? EV_BLOCK : !strcmp(k, "fault") ? EV_FAULT : EV_CHOICE;
      s.ev[s.nev++] = (struct sim_event){ b, arg, fi, t, aux };
    }
  }
  fclose(f); return s;
}
static struct sim_event *copy_events(uint64_t *n) {
  *n = R->nevents > sim_max_events ? sim_max_events : R->nevents;
  struct sim_event *e = malloc((*n + 1) * sizeof *e); memcpy(e, sim_events, *n * sizeof *e); return e;
}

// ------------------------------------------------------------------ minimisation
static char want_klass[96]; static double deadline; static long tries;
static int fails_gen(uint64_t seed) { tries++; run_child(seed, 0, NULL, 0, 0); return R->outcome == 2 && !strcmp(R->klass, want_klass); }
static int fails_rep(uint64_t seed, struct sim_event *e, uint64_t n) { tries++; run_child(seed, 1, e, n, 0); return R->outcome == 2 && !strcmp(R->klass, want_klass); }

static void usage(void) { fprintf(stderr, "usage: driver info | run|one|replay|minimise ...\n"); exit(2); }
int main(int argc, char **argv) {
  P0 = P;
  if (argc < 2) usage();
  const char *cmd = argv[1], *profile = "C01", *out = NULL, *file = NULL; uint64_t seed = 1, count = 1000000000; double tlimit = 1e9, t0 = now(); int verbose = 0, maxviol = 3;
  char *sets[64]; int nsets = 0; const char *extra[16]; int nextra = 0; int stride = 1; int hashes = 0;
  for (int i = 2; i < argc; i++) {
    if (!strcmp(argv[i], "--profile")) profile = argv[++i];
    else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 0);
    else if (!strcmp(argv[i], "--stride")) stride = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], 0, 0);
    else if (!strcmp(argv[i], "--time")) tlimit = atof(argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--set")) sets[nsets++] = argv[++i];
    else if (!strcmp(argv[i], "--note")) extra[nextra++] = argv[++i];
    else if (!strcmp(argv[i], "--max-violations")) maxviol = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--hashes")) hashes = 1;
    else if (!strcmp(argv[i], "-v")) verbose = 1;
    else if (argv[i][0] != '-') file = argv[i];
    else usage();
  }
  extra[nextra] = NULL;
  sim_setup(); harness_init();
  if (!strcmp(cmd, "info")) {
    printf("{\"collector\":%d,\"generational\":%d,\"cons_roots\":%d,\"cons_trace\":%d,\"parallel\":%d,\"debug\":%d,\"can_pin\":%d,\"large\":%zu,\"granule\":%zu,\"eph\":%zu,\"fin\":%zu}\n",
           VI.collector, VI.generational, VI.cons_roots, VI.cons_trace, VI.parallel, VI.debug, VI.can_pin, VI.large_threshold, VI.granule, VI.eph_size, VI.fin_size);
    return 0;
  }
  if (!strcmp(cmd, "replay") || !strcmp(cmd, "minimise")) {
    if (!file) usage();
    struct saved s = read_replay(file); P = s.p;
    for (int i = 0; i < nsets; i++) { char *eq = strchr(sets[i], '='); int k = pfind(sets[i], eq - sets[i]); *pval(&P, k) = atol(eq + 1); }
    if (!strcmp(cmd, "replay")) {
      run_child(s.seed, s.has_events, s.ev, s.nev, verbose); print_result(stdout, s.seed);
      if (out) { uint64_t n; struct sim_event *e = copy_events(&n); write_replay(out, s.seed, e, n, 1, extra); }
      return R->outcome == 2 ? 1 : 0;
    }
    deadline = now() + (tlimit < 1e8 ? tlimit : 60);
    run_child(s.seed, s.has_events, s.ev, s.nev, 0);
    if (R->outcome != 2) { print_result(stdout, s.seed); return 3; }
    strcpy(want_klass, R->klass);
    // 1. workload size, while the run is still regenerated from the seed
    if (!s.has_events) {
      int progress = 1;
      while (progress && now() < deadline) {
        progress = 0;
        struct { const char *n; long lo; int mode; } red[] = { { "drain_idle", 0, 0 }, { "drain_fin", 0, 0 }, { "drain_reuse", 0, 0 }, { "drain_policy", 0, 0 }, { "drain", 0, 0 }, { "waves", 1, 1 }, { "nmut", 1, 1 }, { "ops", 1, 2 }, { "par", 1, 1 }, { "chains", 0, 1 } };
        for (unsigned i = 0; i < sizeof red / sizeof *red && now() < deadline; i++) {
          int k = pfind(red[i].n, strlen(red[i].n)); long v = *pval(&P, k); if (v <= red[i].lo) continue;
          long cand[3] = { red[i].lo, v / 2, v - 1 - (red[i].mode == 2 ? v / 10 : 0) }; int nc = red[i].mode ? 3 : 1;
          for (int c = 0; c < nc; c++) { if (cand[c] < red[i].lo || cand[c] >= v) continue; *pval(&P, k) = cand[c]; if (fails_gen(s.seed)) { progress = 1; break; } *pval(&P, k) = v; }
        }
        for (int k = 0; k < NP && now() < deadline; k++) if ((!strncmp(pnames[k], "w_", 2) || !strncmp(pnames[k], "f_", 2)) && *pval(&P, k)) { long v = *pval(&P, k); *pval(&P, k) = 0; if (fails_gen(s.seed)) progress = 1; else *pval(&P, k) = v; }
      }
      if (!fails_gen(s.seed)) { fprintf(stderr, "minimise: lost the failure\n"); return 3; }
      s.ev = copy_events(&s.nev);
    }
    if (!fails_rep(s.seed, s.ev, s.nev)) { printf("{\"type\":\"minimise\",\"ok\":0,\"reason\":\"event replay does not reproduce\"}\n"); if (out) { fails_gen(s.seed); write_replay(out, s.seed, NULL, 0, 0, extra); } return 0; }
    // 2. ddmin over schedule and fault events
    uint64_t n0 = s.nev, chunk = s.nev / 2; if (!chunk) chunk = 1;
    struct sim_event *tmp = malloc((s.nev + 1) * sizeof *tmp);
    while (now() < deadline && s.nev) {
      int any = 0;
      for (uint64_t at = 0; at < s.nev && now() < deadline;) {
        uint64_t e = at + chunk > s.nev ? s.nev : at + chunk, m = 0;
        for (uint64_t i = 0; i < s.nev; i++) if (i < at || i >= e) tmp[m++] = s.ev[i];
        if (fails_rep(s.seed, tmp, m)) { memcpy(s.ev, tmp, m * sizeof *tmp); s.nev = m; any = 1; } else at = e;
      }
      if (chunk == 1) { if (!any) break; } else if (!any || chunk > s.nev / 2) chunk = chunk / 2 ? chunk / 2 : 1;
    }
    int ok = fails_rep(s.seed, s.ev, s.nev);
    if (out) write_replay(out, s.seed, s.ev, s.nev, 1, extra);
    printf("{\"type\":\"minimise\",\"ok\":%d,\"events_before\":%lu,\"events_after\":%lu,\"tries\":%ld,\"klass\":\"%s\",\"hash\":\"%016lx\"}\n", ok, n0, s.nev, tries, R->klass, R->hash);
    print_result(stdout, s.seed);
    return 0;
  }
  const struct profile *pr = profile_find(profile); if (!pr) { fprintf(stderr, "no profile %s\n", profile); return 2; }
  int one = !strcmp(cmd, "one"); if (!one && strcmp(cmd, "run")) usage();
  uint64_t runs = 0, oc[6] = { 0 }, steps = 0, ns = 0, sw = 0, nf[FK_COUNT] = { 0 }, nfp[FK_COUNT] = { 0 }, gcs[4] = { 0 }, ops = 0, allocs = 0, verified = 0, probes[SIM_NPROBE] = { 0 }, ticks = 0, multi = 0; int maxfib = 0;
  uint64_t *sh = calloc(1 << 20, 8); uint64_t distinct = 0; int viol = 0; uint64_t strat[4] = { 0 }; uint64_t swruns = 0;
  memset(R->pairmap, 0, sizeof R->pairmap);
  for (uint64_t k = 0; k < count && now() - t0 < tlimit; k++, seed += stride) {
    P = P0; profile_apply(pr, seed);
    for (int i = 0; i < nsets; i++) { char *eq = strchr(sets[i], '='); int j = eq ? pfind(sets[i], eq - sets[i]) : -1; if (j < 0) { fprintf(stderr, "bad --set %s\n", sets[i]); return 2; } *pval(&P, j) = atol(eq + 1); }
    run_child(seed, 0, NULL, 0, verbose);
    runs++; oc[R->outcome]++; steps += R->total_steps; ns += R->sim_ns; sw += R->switches; ops += R->ops; allocs += R->allocs; verified += R->verified; ticks += R->ticks;
    strat[P.strategy & 3]++; if (R->nfibers > 1) multi++; if (R->nfibers > maxfib) maxfib = R->nfibers;
    for (int i = 0; i < FK_COUNT; i++) { nf[i] += R->nfault[i]; nfp[i] += R->nfpoint[i]; }
    for (int i = 0; i < 4; i++) gcs[i] += R->gcs[i];
    for (int i = 0; i < nprobes; i++) if (!strncmp(probe_names[i], "max_", 4)) { if (R->probes[i] > probes[i]) probes[i] = R->probes[i]; } else probes[i] += R->probes[i];
    uint64_t h = R->sched_hash ? R->sched_hash : 1; if (R->switches) { swruns++; for (uint64_t j = h & 0xfffff;; j = (j + 1) & 0xfffff) { if (!sh[j]) { sh[j] = h; distinct++; break; } if (sh[j] == h) break; } }
    if (hashes) { uint64_t nfired = 0, ngc = 0; for (int i = 0; i < FK_COUNT; i++) nfired += R->nfault[i]; for (int i = 0; i < 4; i++) ngc += R->gcs[i];
      printf("H %lu %016lx %016lx %lu %lu %lu %lu %lu %s %s\n", seed, R->hash, R->sched_hash, R->total_steps, R->switches, nfired, ngc, R->sim_ns, onames[R->outcome], R->klass); }
    if (one || R->outcome == 2 || R->outcome == 5) {
      print_result(stdout, seed);
      if (out && one) { uint64_t n; struct sim_event *e = copy_events(&n); write_replay(out, seed, e, n, 1, extra); }
      if (++viol >= maxviol && !one) break;
    } else if (R->outcome == 4) { printf("{\"type\":\"expected\",\"klass\":\"%s\",\"seed\":%lu,\"profile\":\"%s\"}\n", R->klass, seed, profile); }
    if (one) break;
  }
  uint64_t pairs = 0; for (unsigned i = 0; i < sizeof R->pairmap; i++) pairs += __builtin_popcount(R->pairmap[i]);
  double wall = now() - t0;
  printf("{\"type\":\"summary\",\"profile\":\"%s\",\"runs\":%lu,\"wall\":%.3f,\"ok\":%lu,\"violations\":%lu,\"expected\":%lu,\"internal\":%lu,\"next_seed\":%lu,\"steps\":%lu,\"sim_ns\":%lu,\"switches\":%lu,\"ops\":%lu,\"allocs\":%lu,\"heap_verifications\":%lu,\"ticks\":%lu,\"distinct_schedules\":%lu,\"multi_thread_runs\":%lu,\"switch_pairs\":%lu,\"max_threads\":%d",
         profile, runs, wall, oc[1], oc[2] + oc[3], oc[4], oc[5], seed, steps, ns, sw, ops, allocs, verified, ticks, distinct, multi, pairs, maxfib);
  printf(",\"gcs\":{\"minor\":%lu,\"major\":%lu,\"compacting\":%lu},\"strategies\":{\"uniform\":%lu,\"pct\":%lu,\"sticky\":%lu,\"victim\":%lu},\"faults\":{", gcs[1], gcs[2], gcs[3], strat[0], strat[1], strat[2], strat[3]);
  for (int i = 0; i < FK_COUNT; i++) printf("%s\"%s\":[%lu,%lu]", i ? "," : "", sim_fault_names[i], nf[i], nfp[i]);
  printf("},\"probes\":{");
  for (int i = 0; i < nprobes; i++) printf("%s\"%s\":%lu", i ? "," : "", probe_names[i], probes[i]);
  printf("},\"pairmap\":\""); for (unsigned i = 0; i < sizeof R->pairmap; i++) printf("%02x", R->pairmap[i]); printf("\"}\n");
  return oc[2] + oc[3] ? 1 : 0;
}
