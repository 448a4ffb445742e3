#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "sim.h"

struct sim_params SP;
struct sim_result *R;
struct sim_os_stats OS;
const char *sim_fault_names[FK_COUNT] = {
  "spurious_wakeup", "weak_cas_failure", "thread_stall", "clock_jump", "mmap_enomem",
  "madvise_failure", "malloc_null", "pthread_create_eagain", "trylock_busy", "signal_wakes_extra", "slow_system_call", "delayed_store" };
int sim_noyield, sim_faults_enabled = 1, sim_verbose;
volatile int sim_world_checked;
void (*sim_os_discard_hook)(uintptr_t, size_t, int);
int (*sim_crash_hook)(int, uintptr_t, uintptr_t);
struct sim_event *sim_events; uint64_t sim_nevents, sim_max_events = 1 << 20;
struct sim_event *sim_replay; uint64_t sim_nreplay; int sim_replaying;
uint64_t sim_last_log_step; int sim_last_log_fiber; char sim_last_log[256];
int sim_thread_fail_after = -1;
uint64_t sim_bg_ticks; int sim_bg_fiber = -1;

// ---------------------------------------------------------------- utilities
uint64_t sim_hash64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x;
}
uint64_t sim_rnd(struct sim_rng *r) {
  r->s += 0x9e3779b97f4a7c15ULL; uint64_t x = r->s;
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x;
}
uint32_t sim_rndn(struct sim_rng *r, uint32_t n) { return n ? (uint32_t)(((sim_rnd(r) >> 32) * (uint64_t)n) >> 32) : 0; }

static char *priv_next = (char *)SIM_PRIV_BASE;
void *sim_priv_alloc(size_t n) {
  n = (n + 15) & ~15ULL; void *p = priv_next; priv_next += n;
  if (priv_next > (char *)SIM_PRIV_BASE + SIM_PRIV_SIZE) sim_internal("private arena exhausted");
  return p;
}

static uint64_t thash = 0x1234567, shash = 0x7654321;
void sim_mix(uint64_t v) { thash = sim_hash64(thash ^ v); }
static void smix(uint64_t v) { shash = sim_hash64(shash ^ v); }

// ---------------------------------------------------------------- fibers
enum fstate { F_FREE, F_RUN, F_MUTEX, F_COND, F_SLEEP, F_JOIN, F_RD, F_WR, F_SEM, F_BARRIER, F_DONE };
static const char *fstate_names[] = { "free", "runnable", "mutex", "cond", "sleep", "join", "rdlock", "wrlock", "sem", "barrier", "done" };
struct fiber {
  uint64_t ctx[18]; int noyield, err; int id; enum fstate st; char *stk;
  void *(*fn)(void *); void *arg; void *ret;
  void *wait; void *wmutex; int join_target;
  int timed, rt_clock, timedout, spurious; uint64_t wake_at; // wake_at in clock domain
  uint64_t steps;   // local accesses
  uint64_t fpts;    // fault points passed
  uint64_t choices;
  int64_t prio; uint64_t stall_until; int detached;
  const char *name; uint64_t seq;   // wait order
  uint64_t progress;
  size_t rcur, rend;  // replay cursor (switch/block events)
  uint64_t lastpc;
};
static struct fiber F[SIM_MAXFIB];
static int nfib, cur = -1;
static long B, B0;
static uint64_t total, wsum, jumped_ns, nswitch, waitseq;
static int64_t rt_offset = 1700000000LL * 1000000000LL;
static struct sim_rng rsched, rfault;
static uint64_t progress_mark, idle_jumps, idle_jump_ns;
static int64_t low_prio = 0; static uint32_t pct_left; static int victim; static uint64_t same_run;
static int started;

// Scheduling decisions run on the simulator's own stack, entered and left without
// touching the fiber's stack or the dead words below its stack pointer: a
// conservative collector sees the same stack contents whether a decision was
// drawn from the seed or taken from a replay file.
uint64_t *sim_k_ctx, sim_k_rax, sim_k_rip;
static int k_op; static uint64_t k_a, k_b; static uint32_t k_ret; static int k_inside;
static char kstack[1 << 17] __attribute__((aligned(64), used));
void sim_k_dispatch(void) __attribute__((used, noinline));
extern void sim_k_leave(void) __attribute__((noreturn));
__asm__(".text\n.globl sim_k_enter\nsim_k_enter:\n"
        "mov sim_k_ctx(%rip),%rax\n"
        "mov %rbx,0(%rax)\nmov %rcx,8(%rax)\nmov %rdx,16(%rax)\nmov %rsi,24(%rax)\nmov %rdi,32(%rax)\nmov %rbp,40(%rax)\nmov %rsp,48(%rax)\n"
        "mov %r8,56(%rax)\nmov %r9,64(%rax)\nmov %r10,72(%rax)\nmov %r11,80(%rax)\nmov %r12,88(%rax)\nmov %r13,96(%rax)\nmov %r14,104(%rax)\nmov %r15,112(%rax)\n"
        "mov sim_k_rax(%rip),%rbx\nmov %rbx,120(%rax)\nmov sim_k_rip(%rip),%rbx\nmov %rbx,128(%rax)\n"
        "lea kstack+131008(%rip),%rsp\nxor %ebp,%ebp\ncall sim_k_dispatch\n"
        ".globl sim_k_leave\nsim_k_leave:\n"
        "mov sim_k_ctx(%rip),%rax\nmov 128(%rax),%rbx\nmov %rbx,sim_k_rip(%rip)\n"
        "mov 0(%rax),%rbx\nmov 8(%rax),%rcx\nmov 16(%rax),%rdx\nmov 24(%rax),%rsi\nmov 32(%rax),%rdi\nmov 40(%rax),%rbp\nmov 48(%rax),%rsp\n"
        "mov 56(%rax),%r8\nmov 64(%rax),%r9\nmov 72(%rax),%r10\nmov 80(%rax),%r11\nmov 88(%rax),%r12\nmov 96(%rax),%r13\nmov 104(%rax),%r14\nmov 112(%rax),%r15\n"
        "mov 120(%rax),%rax\njmp *sim_k_rip(%rip)\n");
enum { K_EXPIRED, K_DESCHEDULE, K_FAULT, K_CHOICE };
static inline __attribute__((always_inline)) void kcall(int op, uint64_t x, uint64_t y) {
  k_op = op; k_a = x; k_b = y;
  __asm__ volatile("mov %%rax,sim_k_rax(%%rip)\nlea 1f(%%rip),%%rax\nmov %%rax,sim_k_rip(%%rip)\njmp sim_k_enter\n1:\n"
                   ::: "memory", "cc", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}

static inline void settle(void) {
  long n = B0 - B; B0 = B;
  if (n > 0 && cur >= 0) { F[cur].steps += n; total += n; }
}
uint64_t sim_steps(void) { settle(); return total; }
static uint64_t mono(void) { settle(); return 1000000000ULL + ((total - wsum) * SP.ns_per_1k) / 1000 + jumped_ns; }
uint64_t sim_now(void) { return mono(); }
int sim_self(void) { return cur; }
void sim_set_name(const char *n) { F[cur].name = n; }
uint64_t sim_fiber_progress(int f) { return F[f].progress; }
void sim_progress(void) { settle(); progress_mark = total - wsum; idle_jumps = 0; idle_jump_ns = 0; F[cur].progress++; }
int sim_fiber_blocked(int f) { return F[f].st != F_RUN; }

static void record(int type, int fiber, uint64_t step, uint32_t arg, int aux) {
  smix(((uint64_t)type << 56) ^ ((uint64_t)fiber << 48) ^ ((uint64_t)arg << 20) ^ step ^ ((uint64_t)aux << 40));
  if (sim_nevents < sim_max_events)
    sim_events[sim_nevents] = (struct sim_event){ step, arg, fiber, type, aux };
  sim_nevents++;
}

static void fill_result(void) {
  settle();
  R->hash = sim_hash64(thash ^ shash ^ total); R->sched_hash = shash; R->total_steps = total - wsum; R->switches = nswitch;
  R->sim_ns = mono() - 1000000000ULL; R->nevents = sim_nevents; R->nfibers = nfib; R->ticks = sim_bg_ticks;
}
static void die(int code) __attribute__((noreturn));
static void die(int code) { _exit(code); }
void sim_finish_ok(void) { fill_result(); R->outcome = 1; die(0); }
void sim_finish_expected(const char *why) {
  fill_result(); R->outcome = 4; snprintf(R->klass, sizeof R->klass, "%s", why); die(0);
}
static void describe_fibers(char *buf, size_t n) {
  size_t o = 0; buf[0] = 0;
  for (int i = 0; i < nfib && o + 64 < n; i++)
    o += snprintf(buf + o, n - o, " [%d %s %s%s%s]", i, F[i].name ? F[i].name : "?", fstate_names[F[i].st],
                  F[i].timed ? " timed" : "", i == cur ? " *" : "");
}
void sim_violation(const char *klass, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  fill_result();
  snprintf(R->klass, sizeof R->klass, "%s", klass);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  R->outcome = 2; die(3);
}
void sim_internal(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (R) { fill_result(); snprintf(R->klass, sizeof R->klass, "internal"); vsnprintf(R->msg, sizeof R->msg, fmt, ap); R->outcome = 5; }
  else { vfprintf(stderr, fmt, ap); fputc('\n', stderr); }
  va_end(ap); die(5);
}
void sim_vlog(const char *fmt, ...) {
  if (!sim_verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "[%d %llu] ", cur, (unsigned long long)(total + (B0 - B)));
  vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap);
}
void sim_logf(const char *fmt, ...) {
  char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  size_t n = strlen(b);
  if (R->loglen + n + 1 < sizeof R->log) { memcpy(R->log + R->loglen, b, n); R->loglen += n; R->log[R->loglen] = 0; }
}

static int runnable(int i) { return F[i].st == F_RUN; }
static int cond_expired(struct fiber *f) {
  if (!f->timed) return 0;
  int64_t now = mono(); if (f->rt_clock) now += rt_offset;
  return now >= (int64_t)f->wake_at;
}
static void wake_from_cond(struct fiber *f);
static void expire_timers(void) {
  for (int i = 0; i < nfib; i++) {
    struct fiber *f = &F[i];
    if (f->timed && f->st != F_RUN && f->st != F_DONE && cond_expired(f)) {
      f->timed = 0;
      if (f->st == F_COND) { if (f->spurious) f->timedout = 0; else f->timedout = 1; wake_from_cond(f); }
      else f->st = F_RUN;
    }
  }
}
static void limits(void) {
  if (SP.max_steps && total - wsum > SP.max_steps) {
    sim_finish_expected("step-budget"); // progress was made all along
  }
  if (SP.max_noprogress && total - wsum - progress_mark > SP.max_noprogress) {
    char b[700]; describe_fibers(b, sizeof b);
    sim_violation("livelock", "no workload progress for %llu accesses:%s", (unsigned long long)(total - wsum - progress_mark), b);
  }
}

// The liveness oracles assume a fair scheduler: once a run makes no progress for
// a while, unfair strategies (priorities, stalls, a victim, long quanta) are
// suspended until it does.
static int fair_req;
void sim_set_fair(int on) { fair_req = on; }
static inline int fair(void) { return fair_req || (SP.max_noprogress && total - wsum - progress_mark > SP.max_noprogress / 4); }
// Geometric-ish grant
static long draw_grant(void) {
  uint64_t q = SP.quantum ? SP.quantum : 1000;
  if (q > 100 && fair()) q = 100;
  uint64_t r = sim_rnd(&rsched);
  // approx exponential: sum of trailing bits trick
  double u = ((r >> 11) + 1) * (1.0 / 9007199254740994.0);
  double e = 0; // -ln(u) via series-free loop: use log2 from exponent bits
  union { double d; uint64_t i; } v = { u };
  int ex = (int)((v.i >> 52) & 0x7ff) - 1023; v.i = (v.i & 0xfffffffffffffULL) | 0x3ff0000000000000ULL;
  e = -(ex + (v.d - 1.0)) * 0.6931;
  double g = e * q; if (g < 1) g = 1; if (g > 1e7) g = 1e7;
  return (long)g;
}
static void grant(void) {
  struct fiber *f = &F[cur];
  long g;
  if (sim_replaying) {
    // next switch event of this fiber after its current step
    while (f->rcur < f->rend && sim_replay[f->rcur].step < f->steps) f->rcur++;
    size_t i = f->rcur;
    while (i < f->rend && (sim_replay[i].type != EV_SWITCH || sim_replay[i].step <= f->steps)) i++;
    g = i < f->rend ? (long)(sim_replay[i].step - f->steps) : 1000000;
    if (g > 1000000) g = 1000000;
  } else g = draw_grant();
  // Stop when the next timer is due, so that timers expire at the same step
  // whether or not the grants are the recorded ones.
  uint64_t now = 0;
  for (int i = 0; i < nfib; i++) if (F[i].timed && F[i].st != F_RUN && F[i].st != F_DONE) {
    if (!now) now = mono();
    int64_t d = (int64_t)F[i].wake_at - (int64_t)now - (F[i].rt_clock ? rt_offset : 0);
    if (d < 0) d = 0;
    int64_t st = SP.ns_per_1k ? (int64_t)(((unsigned __int128)d * 1000) / SP.ns_per_1k) : 1000000;
    if (st < 1) st = 1;
    if (st < g) g = st;
  }
  B0 = B = g;
}
static int pick_default(void) {
  for (int k = 1; k <= nfib; k++) { int i = (cur + k) % nfib; if (runnable(i)) return i; }
  return -1;
}
static int pick(int exclude_cur) {
  int c[SIM_MAXFIB], n = 0; uint64_t now = total;
  int isfair = fair();
  if (!isfair) for (int i = 0; i < nfib; i++) if (runnable(i) && !(exclude_cur && i == cur) && F[i].stall_until <= now) c[n++] = i;
  if (!n) for (int i = 0; i < nfib; i++) if (runnable(i) && !(exclude_cur && i == cur)) c[n++] = i;
  if (!n) return -1;
  if (n == 1) return c[0];
  switch (isfair ? 0 : SP.strategy) {
  case 1: { // PCT
    int best = c[0];
    for (int i = 1; i < n; i++) if (F[c[i]].prio > F[best].prio) best = c[i];
    return best; }
  case 3: { // victim: mostly avoid the victim
    if (sim_rndn(&rsched, 64) == 0) victim = sim_rndn(&rsched, nfib);
    int k = c[sim_rndn(&rsched, n)];
    if (k == victim && sim_rndn(&rsched, 20)) { k = c[sim_rndn(&rsched, n)]; if (k == victim) k = c[sim_rndn(&rsched, n)]; }
    return k; }
  default: return c[sim_rndn(&rsched, n)];
  }
}
// Store buffers (total store order, as on x86): with SP.tso set, a plain-ordered
// atomic store may stay in its thread's buffer, seen by that thread alone, until
// the thread performs a sequentially consistent store, a fence, a
// read-modify-write, an ordinary write or a call out of the collector, or until
// a few switches to other threads have gone by.
#define TSO_N 8
struct tso { uintptr_t a; uint64_t v; uint8_t n, ttl; };
static struct tso TB[SIM_MAXFIB][TSO_N]; static int TN[SIM_MAXFIB], tso_all, tso_cur;
static void tso_pop(int f) {
  struct tso *e = &TB[f][0];
  switch (e->n) { case 1: *(volatile uint8_t *)e->a = e->v; break; case 2: *(volatile uint16_t *)e->a = e->v; break; case 4: *(volatile uint32_t *)e->a = e->v; break; default: *(volatile uint64_t *)e->a = e->v; }
  for (int i = 1; i < TN[f]; i++) TB[f][i - 1] = TB[f][i];
  TN[f]--; tso_all--;
}
static void tso_flush_slow(void) __attribute__((noinline));
static void tso_flush_slow(void) { while (TN[cur]) tso_pop(cur); tso_cur = 0; }
static inline void tso_flush(void) { if (__builtin_expect(tso_cur, 0)) tso_flush_slow(); }
void sim_tso_flush(void) { tso_flush(); }
static void tso_flush_all(void) { if (tso_all) for (int f = 0; f < nfib; f++) while (TN[f]) tso_pop(f); tso_cur = 0; }
static void tso_tick(void) { // on a switch
  if (tso_all) for (int f = 0; f < nfib; f++) if (TN[f]) {
    if (--TB[f][0].ttl == 0) do tso_pop(f); while (TN[f] && !TB[f][0].ttl);
  }
}
static int tso_overlap(uintptr_t a, unsigned n) { for (int i = 0; i < TN[cur]; i++) if (TB[cur][i].a < a + n && a < TB[cur][i].a + TB[cur][i].n) return 1; return 0; }
static void tso_read_slow(uintptr_t a, unsigned n) __attribute__((noinline));
static void tso_read_slow(uintptr_t a, unsigned n) { if (tso_overlap(a, n)) tso_flush_slow(); }
static inline void tso_read(const volatile void *a, unsigned n) { if (__builtin_expect(tso_cur, 0)) tso_read_slow((uintptr_t)a, n); }
// Level 1 delays stores briefly, wherever they are; level 2 picks some of the
// sites that store and delays those for long, while others run.
static int tso_store(uintptr_t a, uint64_t v, unsigned n, int mo, uintptr_t pc) { // 1: buffered
  if (mo == __ATOMIC_SEQ_CST || cur < 0) { tso_flush(); return 0; }
  int slow = SP.tso > 1;
  if (slow && sim_hash64(SP.seed * 31 + pc) % 6) { tso_flush(); return 0; }
  unsigned ttl = (sim_hash64(SP.seed * 31 + cur * 1009 + F[cur].steps + (B0 - B)) & 0xffff) % (slow ? 250 : 8);
  if (!ttl && !TN[cur]) return 0;
  if (TN[cur] == TSO_N) tso_pop(cur);
  TB[cur][TN[cur]++] = (struct tso){ a, v, n, ttl ? ttl : 1 }; tso_all++; tso_cur = 1;
  R->nfpoint[FK_TSO]++; R->nfault[FK_TSO]++;
  // Like a stall, recorded as a switch event: run others soon, while the store is pending.
  if (!sim_replaying && !sim_noyield && !fair() && B > 12 && sim_rndn(&rsched, 4) == 0) {
    settle(); B0 = B = 1 + sim_rndn(&rsched, slow ? 5 : 12);
    if (slow) F[cur].stall_until = total + (1ULL << (7 + sim_rndn(&rsched, 10)));
  }
  return 1;
}
static void switch_to(int n) {
  if (n == cur) { grant(); return; }
  tso_tick();
  int old = cur; nswitch++;
  uint64_t a = F[old].lastpc, b = F[n].lastpc;
  uint32_t h = (uint32_t)sim_hash64(a * 31 + b) & 65535; R->pairmap[h >> 3] |= 1 << (h & 7);
  same_run = 0;
  cur = n; F[n].timedout |= 0; tso_cur = TN[n] != 0;
  F[old].noyield = sim_noyield; sim_noyield = 0; F[old].err = errno;
  B0 = B = 0;
  // grant for the new fiber computed with cur == n
  grant();
  sim_k_ctx = F[n].ctx; errno = F[n].err; sim_noyield = F[n].noyield;
}
static int replay_target(int type) { // matching event for cur at its current step
  struct fiber *f = &F[cur];
  for (size_t i = f->rcur; i < f->rend && sim_replay[i].step <= f->steps; i++)
    if (sim_replay[i].step == f->steps && sim_replay[i].type == type) return sim_replay[i].arg;
  return -1;
}

static void budget_expired(uintptr_t pc) __attribute__((noinline));
static void budget_expired(uintptr_t pc) {
  if (!started || cur < 0) { B0 = B = 1000000; return; }
  if (sim_noyield) { settle(); B0 = B = 1; return; }
  settle(); limits();
  F[cur].lastpc = pc;
  expire_timers();
  same_run++;
  int n;
  if (sim_replaying) {
    n = replay_target(EV_SWITCH);
    if (n < 0 || n >= nfib || !runnable(n) || n == cur) { grant(); return; }
  } else {
    // Not a fault point of its own: the effect is recorded as switch events.
    if (SP.fault_ppm[FK_STALL] && sim_faults_enabled && R->nfpoint[FK_STALL]++ >= 0 && sim_rndn(&rsched, 1000000) < SP.fault_ppm[FK_STALL]) { R->nfault[FK_STALL]++; F[cur].stall_until = total + (1ULL << sim_rndn(&rsched, 22)); }
    if (SP.strategy == 1) {
      if (pct_left && sim_rndn(&rsched, 4) == 0) { pct_left--; F[cur].prio = --low_prio; }
      if (same_run * SP.quantum > 300000) { F[cur].prio = --low_prio; same_run = 0; }
    }
    n = pick(0);
    if (SP.strategy == 2 && !fair() && sim_rndn(&rsched, 8)) n = runnable(cur) ? cur : n;
    if (n < 0 || n == cur) { grant(); return; }
  }
  record(EV_SWITCH, cur, F[cur].steps, n, 0);
  switch_to(n);
}
static inline void step(long w, uintptr_t pc) {
  B -= w;
  if (__builtin_expect(B <= 0, 0)) { if (!sim_k_ctx) { B0 = B = 1000000; return; } if (k_inside) sim_internal("preempted inside the simulator"); kcall(K_EXPIRED, pc, 0); }
}
#define PC ((uintptr_t)__builtin_return_address(0))
static void sync_point(uintptr_t pc) {
  wsum += SP.sync_weight; step(1 + SP.sync_weight, pc);
  settle(); expire_timers(); tso_flush();
}
void sim_yield(void) { sync_point(PC); }
// A system call that takes its time before having an effect; like a stall, recorded as a switch.
static void slow_call(uintptr_t pc) {
  tso_flush_all();
  if (!SP.fault_ppm[FK_SLOW_CALL]) return;
  if (!sim_replaying && started && cur >= 0 && !sim_noyield && sim_faults_enabled && R->nfpoint[FK_SLOW_CALL]++ >= 0 && sim_rndn(&rsched, 1000000) < SP.fault_ppm[FK_SLOW_CALL]) {
    settle(); R->nfault[FK_SLOW_CALL]++; F[cur].stall_until = total + (1ULL << (8 + sim_rndn(&rsched, 14))); B0 = B = 1;
  }
  step(1, pc); settle();
}

// Current fiber is no longer runnable (or wants to yield): pick somebody else.
static void deschedule_k(int voluntary, uintptr_t pc) {
  if (cur < 0) sim_internal("block before start");
  B -= 1; settle(); F[cur].lastpc = pc;
  if (sim_noyield) sim_internal("blocking while noyield");
  limits();
  while (1) {
    expire_timers();
    int any = 0;
    for (int i = 0; i < nfib; i++) if (runnable(i)) any = 1;
    if (any) break;
    // idle: advance the clock
    int64_t best = INT64_MAX; int bi = -1; int64_t now = mono();
    for (int i = 0; i < nfib; i++) if (F[i].timed && F[i].st != F_DONE && F[i].st != F_RUN) {
      int64_t d = (int64_t)F[i].wake_at - now - (F[i].rt_clock ? rt_offset : 0);
      if (d < best) { best = d; bi = i; }
    }
    if (bi < 0) { char b[900]; describe_fibers(b, sizeof b); sim_violation("deadlock", "all threads blocked:%s", b); }
    if (best > 0) { jumped_ns += best; idle_jumps++; idle_jump_ns += best; }
    if (idle_jumps > 300000 || idle_jump_ns > 4000ULL * 1000000000ULL) {
      char b[900]; describe_fibers(b, sizeof b); sim_violation("deadlock", "no workload progress while time advances:%s", b);
    }
  }
  int n;
  if (sim_replaying) {
    n = replay_target(EV_BLOCK);
    if (n < 0 || n >= nfib || !runnable(n)) { n = voluntary ? pick_default() : pick_default(); }
  } else {
    if (voluntary && SP.strategy == 1) F[cur].prio = --low_prio;
    n = pick(0);
  }
  record(EV_BLOCK, cur, F[cur].steps, n, 0);
  switch_to(n);
}

static inline void deschedule(int voluntary, uintptr_t pc) { tso_flush(); kcall(K_DESCHEDULE, voluntary, pc); }

uint64_t sim_refusal_step; int sim_refusal_fiber;
static int fault_k(int kind) {
  if (cur < 0) return 0;
  uint64_t idx = F[cur].fpts++;
  R->nfpoint[kind]++;
  int fire = 0;
  if (sim_replaying) {
    // fault events are few: linear scan over per-fiber list
    extern size_t sim_frep_lo[], sim_frep_hi[];
    extern struct sim_event *sim_frep;
    for (size_t i = sim_frep_lo[cur]; i < sim_frep_hi[cur]; i++)
      if (sim_frep[i].step == idx) { fire = sim_frep[i].aux == kind; break; }
  } else if (sim_faults_enabled && SP.fault_ppm[kind])
    fire = sim_rndn(&rfault, 1000000) < SP.fault_ppm[kind];
  else if (sim_faults_enabled && SP.fault_at[kind] && --SP.fault_at[kind] == 0) fire = 1; // just one, at a chosen call
  if (fire && (kind == FK_MMAP_FAIL || kind == FK_MALLOC_FAIL || kind == FK_THREAD_FAIL)) { sim_refusal_step = sim_steps(); sim_refusal_fiber = cur; }
  if (fire) { R->nfault[kind]++; record(EV_FAULT, cur, idx, 1, kind); }
  return fire;
}
size_t sim_frep_lo[SIM_MAXFIB], sim_frep_hi[SIM_MAXFIB]; struct sim_event *sim_frep;

// A recorded small-integer choice (0..n-1)
static uint32_t choice_k(uint32_t n) {
  uint64_t idx = F[cur].choices++;
  uint32_t v;
  if (n <= 1) return 0;
  if (sim_replaying) {
    v = 0;
    for (size_t i = sim_frep_lo[cur]; i < sim_frep_hi[cur]; i++)
      if (sim_frep[i].type == EV_CHOICE && sim_frep[i].step == (idx | (1ULL << 63))) { v = sim_frep[i].arg; break; }
    if (v >= n) v = 0;
  } else v = sim_rndn(&rsched, n);
  if (v) record(EV_CHOICE, cur, idx | (1ULL << 63), v, 0);
  return v;
}

void sim_k_dispatch(void) {
  k_inside = 1;
  switch (k_op) {
  case K_EXPIRED: budget_expired(k_a); break;
  case K_DESCHEDULE: deschedule_k((int)k_a, k_b); break;
  case K_FAULT: k_ret = fault_k((int)k_a); break;
  case K_CHOICE: k_ret = choice_k((uint32_t)k_a); break;
  }
  k_inside = 0;
}
int sim_fault(int kind) {
  if (cur < 0) return 0;
  if (k_inside) return fault_k(kind);
  kcall(K_FAULT, kind, 0); return (int)k_ret;
}
static uint32_t sim_choice(uint32_t n) {
  if (k_inside) return choice_k(n);
  kcall(K_CHOICE, n, 0); return k_ret;
}

static void fiber_entry(void) {
  struct fiber *f = &F[cur];
  f->ret = f->fn(f->arg);
  tso_flush();
  f = &F[cur];
  f->st = F_DONE;
  for (int i = 0; i < nfib; i++) if (F[i].st == F_JOIN && F[i].join_target == cur) F[i].st = F_RUN;
  sim_noyield = 0;
  deschedule(0, 0);
  sim_internal("dead fiber resumed");
}
static int new_fiber(void *(*fn)(void *), void *arg, const char *name) {
  int id = -1;
  if (nfib < SIM_MAXFIB) id = nfib++;
  else return -1;
  struct fiber *f = &F[id];
  memset(f, 0, sizeof *f);
  f->id = id; f->fn = fn; f->arg = arg; f->name = name;
  f->stk = (char *)(SIM_STACK_BASE + (uint64_t)id * (SIM_STACK_SIZE + 65536));
  f->st = F_RUN;
  uintptr_t *sp = (uintptr_t *)(f->stk + SIM_STACK_SIZE - 256);
  *--sp = 0; // alignment: entry has rsp%16==8
  f->ctx[6] = (uint64_t)sp; f->ctx[16] = (uint64_t)fiber_entry;
  f->prio = (int64_t)(sim_rnd(&rsched) >> 40) + 1;
  if (sim_replaying) {
    size_t lo = 0; while (lo < sim_nreplay && sim_replay[lo].fiber < id) lo++;
    size_t hi = lo; while (hi < sim_nreplay && sim_replay[hi].fiber == id) hi++;
    f->rcur = lo; f->rend = hi;
  }
  return id;
}
int sim_spawn(void *(*fn)(void *), void *arg, const char *name) {
  int id = new_fiber(fn, arg, name);
  if (id < 0) sim_internal("too many fibers");
  sync_point(PC);
  return id;
}
void sim_join(int f) {
  sync_point(PC);
  while (F[f].st != F_DONE) { F[cur].st = F_JOIN; F[cur].join_target = f; deschedule(0, PC); }
}
void sim_sleep_ns(uint64_t ns) {
  sync_point(PC);
  F[cur].timed = 1; F[cur].rt_clock = 0; F[cur].wake_at = mono() + ns; F[cur].st = F_SLEEP;
  deschedule(0, PC);
}

// ---------------------------------------------------------------- pthreads
struct smutex { int owner1; int type; int count; };     // overlays pthread_mutex_t
static struct smutex *SM(void *m) { return m; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset(m, 0, sizeof *m);
  if (a) SM(m)->type = *(const int *)a & 3;
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
static int mutex_try(pthread_mutex_t *m) {
  struct smutex *s = SM(m);
  if (!s->owner1) { s->owner1 = cur + 1; s->count = 1; return 1; }
  if (s->type == PTHREAD_MUTEX_RECURSIVE && s->owner1 == cur + 1) { s->count++; return 1; }
  return 0;
}
static void lock_slow(pthread_mutex_t *m, uintptr_t pc) {
  while (!mutex_try(m)) { F[cur].st = F_MUTEX; F[cur].wait = m; deschedule(0, pc); }
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { sync_point(PC); lock_slow(m, PC); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  sync_point(PC);
  // A failing trylock on a free mutex is legal for callers to observe (it was
  // momentarily held); inject it.
  if (!SM(m)->owner1 && sim_fault(FK_TRYLOCK_BUSY)) return EBUSY;
  return mutex_try(m) ? 0 : EBUSY;
}
static void unlock_raw(void *m) {
  tso_flush();
  struct smutex *s = SM(m);
  // Tracer workers' locks change hands between collecting threads, so only ask that somebody holds it.
  if (!s->owner1) sim_violation("unlock-unheld", "thread %d unlocks a mutex that nobody holds", cur);
  if (s->type == PTHREAD_MUTEX_RECURSIVE && s->count > 1) { s->count--; return; }
  s->owner1 = 0; s->count = 0;
  // All waiters become runnable and race for it.
  for (int i = 0; i < nfib; i++) if (F[i].st == F_MUTEX && F[i].wait == m) F[i].st = F_RUN;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { unlock_raw(m); sync_point(PC); return 0; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return sim_pthread_mutex_lock(m); }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
struct scond { int clock; };
int sim_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { *(int *)a = c; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  memset(c, 0, sizeof *c); if (a) *(int *)c = *(const int *)a; return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
static void wake_from_cond(struct fiber *f) {
  f->timed = 0; f->wait = f->wmutex; f->st = F_RUN; f->seq = 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, uintptr_t pc) {
  sync_point(pc);
  struct fiber *f = &F[cur];
  if (SM(m)->owner1 != cur + 1) sim_violation("cond-wait-unlocked", "pthread_cond_wait with a mutex %s", SM(m)->owner1 ? "another thread holds" : "nobody holds");
  int spurious = sim_fault(FK_SPURIOUS_WAKE);
  if (!spurious || 1) {
    f->timedout = 0; f->spurious = 0; f->timed = 0;
    f->wait = c; f->wmutex = m; f->st = F_COND; f->seq = ++waitseq;
    if (ts) {
      f->timed = 1; f->rt_clock = *(int *)c == CLOCK_REALTIME;
      f->wake_at = ts->tv_sec * 1000000000LL + ts->tv_nsec;
      if (sim_bg_fiber < 0) sim_bg_fiber = cur;
    }
    if (spurious) {
      // A spurious wakeup after a short while.
      int64_t at = mono() + (f->fpts * 7919 % 5000) + (f->timed && f->rt_clock ? rt_offset : 0);
      if (!f->timed || at < (int64_t)f->wake_at) { f->rt_clock = f->timed ? f->rt_clock : 0; f->wake_at = at; f->timed = 1; f->spurious = 1; }
    }
    struct smutex *s = SM(m); int cnt = s->count; s->count = 1; unlock_raw(m);
    deschedule(0, pc);
    f = &F[cur];
    lock_slow(m, pc);
    s->count = cnt ? cnt : 1;
  }
  int to = f->timedout; f->timedout = 0;
  return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, NULL, PC); }
static void maybe_set_clock(void) { // somebody sets the wall clock
  if (sim_fault(FK_CLOCK_JUMP)) {
    static const int64_t jumps[] = { -3600LL * 1000000000, -2LL * 1000000000, -500000000LL, 700000000LL, 5LL * 1000000000, 600LL * 1000000000 };
    rt_offset += jumps[F[cur].fpts % 6];
  }
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  maybe_set_clock();
  int r = cond_wait(c, m, ts, PC);
  if (cur == sim_bg_fiber) sim_bg_ticks++;
  return r;
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  int save = *(int *)c; *(int *)c = k; int r = cond_wait(c, m, ts, PC); *(int *)c = save; return r;
}
int sim_pthread_cond_signal(pthread_cond_t *c) {
  sync_point(PC);
  int extra = sim_fault(FK_SIGNAL_EXTRA);
  int w[SIM_MAXFIB], n = 0;
  for (int i = 0; i < nfib; i++) if (F[i].st == F_COND && F[i].wait == c) w[n++] = i;
  // Which waiter wakes is a scheduling choice.
  if (n) {
    int k = sim_choice(n); wake_from_cond(&F[w[k]]);
    if (extra && n > 1) wake_from_cond(&F[w[(k + 1) % n]]);
  }
  sync_point(PC);
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c) {
  sync_point(PC);
  for (int i = 0; i < nfib; i++) if (F[i].st == F_COND && F[i].wait == c) {
    wake_from_cond(&F[i]);
  }
  sync_point(PC);
  return 0;
}
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  sync_point(PC);
  if (sim_fault(FK_THREAD_FAIL)) return EAGAIN;
  int id = new_fiber(fn, arg, "gc-thread");
  if (id < 0) return EAGAIN;
  *t = (pthread_t)(id + 1);
  sync_point(PC);
  return 0;
}
int sim_pthread_join(pthread_t t, void **r) { int f = (int)t - 1; sim_join(f); if (r) *r = F[f].ret; return 0; }
int sim_pthread_detach(pthread_t t) { return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)(cur + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { tso_flush(); F[cur].ret = r; F[cur].st = F_DONE;
  for (int i = 0; i < nfib; i++) if (F[i].st == F_JOIN && F[i].join_target == cur) F[i].st = F_RUN;
  deschedule(0, PC); __builtin_trap(); }
int sim_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { return 0; }
int sim_pthread_getattr_np(pthread_t t, pthread_attr_t *a) { memset(a, 0, sizeof *a); *(long *)a = (long)t; return 0; }
int sim_pthread_attr_getstack(const pthread_attr_t *a, void **lo, size_t *sz) {
  int f = (int)*(const long *)a - 1; if (f < 0) f = cur; *lo = F[f].stk; *sz = SIM_STACK_SIZE; return 0;
}
int sim_pthread_setname_np(pthread_t t, const char *n) { return 0; }
int sim_pthread_setcancelstate(int s, int *o) { return 0; }
int sim_pthread_sigmask(int how, const void *s, void *o) { return 0; }
int sim_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { return 0; }
static void fill_cpus(size_t n, cpu_set_t *s) { CPU_ZERO_S(n, s); for (int i = 0; i < SP.ncpu; i++) CPU_SET_S(i * 2 + 1, n, s); }
int sim_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { fill_cpus(n, s); return 0; }
int sim_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { fill_cpus(n, s); return 0; }
int sim_get_nprocs(void) { return SP.ncpu; }
long sim_sysconf(int n) {
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return SP.ncpu;
  if (n == _SC_PAGESIZE) return 4096;
  return sysconf(n);
}
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { tso_flush(); if (*(int *)o == 0) { *(int *)o = 1; f(); *(int *)o = 2; } return 0; }
// once-control states 1 (running) are waited for
// spin locks
int sim_pthread_spin_init(pthread_spinlock_t *l, int s) { *(volatile int *)l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *l) { return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { sync_point(PC); if (*(volatile int *)l) return EBUSY; *(volatile int *)l = 1; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { sync_point(PC); while (*(volatile int *)l) deschedule(1, PC); *(volatile int *)l = 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { tso_flush(); *(volatile int *)l = 0; sync_point(PC); return 0; }
// rwlocks
struct srw { int writer1; int readers; };
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const void *a) { memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { sync_point(PC); struct srw *r = (void *)l; if (r->writer1) return EBUSY; r->readers++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { sync_point(PC); struct srw *r = (void *)l; if (r->writer1 || r->readers) return EBUSY; r->writer1 = cur + 1; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { sync_point(PC); struct srw *r = (void *)l; while (r->writer1) { F[cur].st = F_RD; F[cur].wait = l; deschedule(0, PC); } r->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { sync_point(PC); struct srw *r = (void *)l; while (r->writer1 || r->readers) { F[cur].st = F_WR; F[cur].wait = l; deschedule(0, PC); } r->writer1 = cur + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  tso_flush(); struct srw *r = (void *)l; if (r->writer1) r->writer1 = 0; else r->readers--;
  for (int i = 0; i < nfib; i++) if ((F[i].st == F_RD || F[i].st == F_WR) && F[i].wait == l) F[i].st = F_RUN;
  sync_point(PC); return 0;
}
int sim_sem_init(sem_t *s, int p, unsigned v) { *(int *)s = v; return 0; }
int sim_sem_destroy(sem_t *s) { return 0; }
int sim_sem_wait(sem_t *s) { sync_point(PC); while (*(int *)s <= 0) { F[cur].st = F_SEM; F[cur].wait = s; deschedule(0, PC); } --*(int *)s; return 0; }
int sim_sem_trywait(sem_t *s) { sync_point(PC); if (*(int *)s <= 0) { errno = EAGAIN; return -1; } --*(int *)s; return 0; }
int sim_sem_post(sem_t *s) { tso_flush(); ++*(int *)s; for (int i = 0; i < nfib; i++) if (F[i].st == F_SEM && F[i].wait == s) F[i].st = F_RUN; sync_point(PC); return 0; }
struct sbar { int need, have, gen; };
int sim_pthread_barrier_init(pthread_barrier_t *b, const void *a, unsigned n) { struct sbar *s = (void *)b; s->need = n; s->have = 0; s->gen = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t *b) { return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b) {
  sync_point(PC); struct sbar *s = (void *)b; int g = s->gen;
  if (++s->have == s->need) { s->have = 0; s->gen++; for (int i = 0; i < nfib; i++) if (F[i].st == F_BARRIER && F[i].wait == b) F[i].st = F_RUN; return PTHREAD_BARRIER_SERIAL_THREAD; }
  while (s->gen == g) { F[cur].st = F_BARRIER; F[cur].wait = b; deschedule(0, PC); }
  return 0;
}
#define NKEYS 16
static void *tsd[SIM_MAXFIB][NKEYS]; static int nkeys;
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { if (nkeys == NKEYS) return EAGAIN; *k = nkeys++; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { return tsd[cur][k]; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { tsd[cur][k] = (void *)v; return 0; }

// ---------------------------------------------------------------- time
int sim_sched_yield(void) { sync_point(PC); deschedule(1, PC); return 0; }
void sim_pause(void) { sync_point(PC); deschedule(1, PC); }
int sim_usleep(useconds_t us) {
  sync_point(PC);
  F[cur].timed = 1; F[cur].rt_clock = 0; F[cur].wake_at = mono() + us * 1000ULL + 50; F[cur].st = F_SLEEP;
  deschedule(0, PC); return 0;
}
int sim_nanosleep(const struct timespec *t, struct timespec *r) {
  sync_point(PC);
  F[cur].timed = 1; F[cur].rt_clock = 0; F[cur].wake_at = mono() + t->tv_sec * 1000000000ULL + t->tv_nsec + 50; F[cur].st = F_SLEEP;
  deschedule(0, PC); return 0;
}
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
  sync_point(PC);
  uint64_t v = t->tv_sec * 1000000000ULL + t->tv_nsec;
  F[cur].timed = 1; F[cur].rt_clock = (fl & TIMER_ABSTIME) && c == CLOCK_REALTIME;
  F[cur].wake_at = (fl & TIMER_ABSTIME) ? v : mono() + v + 50; F[cur].st = F_SLEEP;
  deschedule(0, PC); return 0;
}
unsigned sim_sleep(unsigned s) { struct timespec t = { s, 0 }; sim_nanosleep(&t, 0); return 0; }
uint64_t sim_cpu_of(uint64_t mono_ns) { return mono_ns - mono_ns / 4 + 12345678; } // processor time runs slower than the clock
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
  step(3, PC); // reading the clock takes time
  settle();
  uint64_t n = mono();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { maybe_set_clock(); n += rt_offset; }
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) n = sim_cpu_of(n);
  // strictly increasing even when accesses are nearly free
  static uint64_t last; if (c == CLOCK_MONOTONIC) { if (n <= last) { jumped_ns += last + 1 - n; n = last + 1; } last = n; }
  ts->tv_sec = n / 1000000000ULL; ts->tv_nsec = n % 1000000000ULL; return 0;
}
time_t sim_time(time_t *t) { time_t v = (mono() + rt_offset) / 1000000000ULL; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *tz) { step(3, PC); settle(); maybe_set_clock(); uint64_t n = mono() + rt_offset; tv->tv_sec = n / 1000000000ULL; tv->tv_usec = n % 1000000000ULL / 1000; return 0; }

// ---------------------------------------------------------------- fake OS memory
#define PGSZ 4096ULL
#define NPG (SIM_OS_SIZE / PGSZ)
struct mapping { uintptr_t lo, hi; int prot; };
static struct mapping *maps; static int nmaps; static const int maxmaps = 200000;
static struct sim_rng rplace;
static void maps_insert(int i, uintptr_t lo, uintptr_t hi, int prot) {
  if (nmaps >= maxmaps) sim_internal("too many mappings");
  memmove(&maps[i + 1], &maps[i], (nmaps - i) * sizeof *maps); nmaps++;
  maps[i] = (struct mapping){ lo, hi, prot };
}
static int maps_first(uintptr_t a) { // first mapping with hi > a
  int lo = 0, hi = nmaps; while (lo < hi) { int m = (lo + hi) / 2; if (maps[m].hi > a) hi = m; else lo = m + 1; } return lo;
}
static int range_free(uintptr_t lo, uintptr_t hi) { int i = maps_first(lo); return i == nmaps || maps[i].lo >= hi; }
static void maps_remove(uintptr_t lo, uintptr_t hi) {
  int i = maps_first(lo);
  while (i < nmaps && maps[i].lo < hi) {
    struct mapping m = maps[i];
    if (m.lo >= lo && m.hi <= hi) { memmove(&maps[i], &maps[i + 1], (nmaps - i - 1) * sizeof *maps); nmaps--; continue; }
    if (m.lo < lo && m.hi > hi) { maps[i].hi = lo; maps_insert(i + 1, hi, m.hi, m.prot); return; }
    if (m.lo < lo) maps[i].hi = lo; else maps[i].lo = hi;
    i++;
  }
}
int sim_os_is_mapped(uintptr_t a, size_t n) {
  uintptr_t e = a + n;
  for (int i = maps_first(a); a < e; i++) { if (i >= nmaps || maps[i].lo > a || !(maps[i].prot & PROT_WRITE)) return 0; a = maps[i].hi; }
  return 1;
}
uint64_t sim_os_rw_mapped(void) { uint64_t s = 0; for (int i = 0; i < nmaps; i++) if (maps[i].prot & PROT_WRITE) s += maps[i].hi - maps[i].lo; return s; }
uint64_t sim_os_resident(void) {
  uint64_t s = 0, last = 0; static unsigned char vec[65536];
  for (int i = 0; i < nmaps; i++) if (maps[i].prot & PROT_WRITE)
    for (uintptr_t a = maps[i].lo; a < maps[i].hi; a += sizeof vec * PGSZ) {
      size_t n = maps[i].hi - a; if (n > sizeof vec * PGSZ) n = sizeof vec * PGSZ;
      if (mincore((void *)a, n, vec)) sim_internal("mincore");
      for (size_t k = 0; k < n / PGSZ; k++) s += vec[k] & 1;
      if (sim_verbose && s - last > 64) sim_vlog("resident %lu KB in %lx..%lx", (s - last) * 4, a, a + n);
      last = s;
    }
  return s * PGSZ;
}
static uintptr_t place(size_t len) {
  uintptr_t lo = SIM_OS_BASE + (1 << 20), hi = SIM_OS_BASE + SIM_OS_SIZE;
  if (SP.place_policy == 1) { // bottom up
    uintptr_t a = lo;
    for (int i = 0; i < nmaps; i++) { if (maps[i].lo - a >= len && maps[i].lo > a) return a; a = maps[i].hi; }
    return hi - a >= len ? a : 0;
  }
  if (SP.place_policy == 2) { // random
    for (int k = 0; k < 200; k++) {
      uint64_t span = (hi - lo - len) / PGSZ;
      uintptr_t a = lo + (sim_rnd(&rplace) % span) * PGSZ;
      if (range_free(a, a + len)) return a;
    }
  }
  uintptr_t e = hi; // top down first fit
  for (int i = nmaps - 1; i >= 0; i--) { if (e - maps[i].hi >= len) return e - len; e = maps[i].lo; }
  return e - lo >= len ? e - len : 0;
}
void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  tso_flush_all();
  sync_point(PC); slow_call(PC);
  OS.mmaps++;
  len = (len + PGSZ - 1) & ~(PGSZ - 1);
  uintptr_t want = (uintptr_t)addr & ~(PGSZ - 1), a = 0;
  if (!len) { errno = EINVAL; return MAP_FAILED; }
  if (sim_fault(FK_MMAP_FAIL)) { OS.mmap_failed++; errno = ENOMEM; return MAP_FAILED; }
  if (!(flags & MAP_ANONYMOUS)) { errno = ENODEV; return MAP_FAILED; }
  if ((flags & MAP_FIXED) || (flags & MAP_FIXED_NOREPLACE)) {
    if (want < SIM_OS_BASE || want + len > SIM_OS_BASE + SIM_OS_SIZE) { errno = ENOMEM; return MAP_FAILED; }
    if ((flags & MAP_FIXED_NOREPLACE) && !range_free(want, want + len)) { errno = EEXIST; return MAP_FAILED; }
    a = want; maps_remove(a, a + len);
    madvise((void *)a, len, MADV_DONTNEED);
  } else if (want >= SIM_OS_BASE && want + len <= SIM_OS_BASE + SIM_OS_SIZE && range_free(want, want + len)) a = want;
  else a = place(len);
  if (!a) { errno = ENOMEM; return MAP_FAILED; }
  if (mprotect((void *)a, len, prot)) sim_internal("mprotect %d", errno);
  maps_insert(maps_first(a), a, a + len, prot);
  sim_mix(a ^ len); sim_vlog("mmap %zx -> %lx prot %d", len, a, prot);
  return (void *)a;
}
int sim_munmap(void *addr, size_t len) {
  tso_flush_all();
  sync_point(PC); slow_call(PC);
  OS.munmaps++;
  uintptr_t a = (uintptr_t)addr; len = (len + PGSZ - 1) & ~(PGSZ - 1);
  if ((a & (PGSZ - 1)) || !len) { errno = EINVAL; return -1; }
  if (a < SIM_OS_BASE || a + len > SIM_OS_BASE + SIM_OS_SIZE) sim_violation("bad-munmap", "munmap(%p,%zx) outside simulated space", addr, len);
  if (sim_os_discard_hook) sim_os_discard_hook(a, len, 1);
  maps_remove(a, a + len);
  madvise((void *)a, len, MADV_DONTNEED); mprotect((void *)a, len, PROT_NONE);
  OS.unmapped_bytes += len; sim_mix(a + 1); sim_vlog("munmap %lx %zx", a, len);
  return 0;
}
int sim_madvise(void *addr, size_t len, int adv) {
  tso_flush_all();
  sync_point(PC); slow_call(PC);
  OS.madvises++;
  uintptr_t a = (uintptr_t)addr;
  if (a & (PGSZ - 1)) { errno = EINVAL; return -1; }
  if (adv == MADV_DONTNEED || adv == MADV_FREE || adv == MADV_REMOVE) {
    if (len && !sim_os_is_mapped(a, len)) { errno = ENOMEM; return -1; }
    if (sim_fault(FK_MADVISE_FAIL)) { errno = EAGAIN; return -1; }
    if (sim_os_discard_hook) sim_os_discard_hook(a, len, 0);
    madvise(addr, len, MADV_DONTNEED);
    OS.discarded_bytes += len; sim_mix(a + 2); sim_vlog("discard %lx %zx", a, len);
  }
  return 0;
}
int sim_mprotect(void *addr, size_t len, int prot) {
  tso_flush_all();
  sync_point(PC); slow_call(PC); uintptr_t a = (uintptr_t)addr; len = (len + PGSZ - 1) & ~(PGSZ - 1);
  for (uintptr_t x = a; x < a + len;) { int i = maps_first(x); if (i == nmaps || maps[i].lo > x) { errno = ENOMEM; return -1; } x = maps[i].hi; }
  maps_remove(a, a + len); maps_insert(maps_first(a), a, a + len, prot);
  return mprotect(addr, len, prot);
}
void *sim_mremap(void *o, size_t os, size_t ns, int fl, ...) { errno = ENOMEM; return MAP_FAILED; }

// ---------------------------------------------------------------- malloc
struct mh { uint32_t cls; uint32_t magic; uint64_t size; };
static char *mnext = (char *)SIM_MALLOC_BASE; static struct mh *mfree[48]; static uint64_t mlive; static uint8_t mjunk;
uint64_t sim_malloc_live(void) { return mlive; }
static int mcls(size_t n) { int c = 5; while ((1ULL << c) < n) c++; return c; }
static void *mraw(size_t n) {
  int c = mcls(n + 16); struct mh *h = mfree[c];
  if (h) mfree[c] = *(struct mh **)(h + 1);
  else { h = (struct mh *)mnext; mnext += 1ULL << c; if (mnext > (char *)SIM_MALLOC_BASE + SIM_MALLOC_SIZE) { mnext -= 1ULL << c; errno = ENOMEM; return NULL; } }
  h->cls = c; h->magic = 0xA110CA7E; h->size = n; mlive += n;
  return h + 1;
}
void *sim_malloc(size_t n) {
  step(2, PC);
  if (sim_fault(FK_MALLOC_FAIL)) { errno = ENOMEM; return NULL; }
  void *p = mraw(n); if (p) memset(p, mjunk, n); return p;
}
void *sim_calloc(size_t a, size_t b) {
  step(2, PC);
  if (sim_fault(FK_MALLOC_FAIL)) { errno = ENOMEM; return NULL; }
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  void *p = mraw(n); if (p) memset(p, 0, n); return p;
}
size_t sim_malloc_size(void *p) { return ((struct mh *)p - 1)->size; }
void sim_free_raw(void *p) { tso_flush(); struct mh *h = (struct mh *)p - 1; h->magic = 0xF4EEF4EE; mlive -= h->size; memset(p, 0xDB, h->size); *(struct mh **)p = mfree[h->cls]; mfree[h->cls] = h; }
void sim_free(void *p) {
  tso_flush();
  step(2, PC);
  if (!p) return;
  struct mh *h = (struct mh *)p - 1;
  if ((uintptr_t)p < SIM_MALLOC_BASE || (uintptr_t)p > SIM_MALLOC_BASE + SIM_MALLOC_SIZE || h->magic != 0xA110CA7E)
    sim_violation("bad-free", "free(%p): not an allocated block (double free?)", p);
  h->magic = 0xF4EEF4EE; mlive -= h->size; memset(p, 0xDB, h->size);
  *(struct mh **)p = mfree[h->cls]; mfree[h->cls] = h;
}
void *sim_realloc(void *p, size_t n) {
  tso_flush();
  step(2, PC);
  if (!p) return sim_malloc(n);
  if (sim_fault(FK_MALLOC_FAIL)) { errno = ENOMEM; return NULL; }
  struct mh *h = (struct mh *)p - 1; size_t o = h->size;
  void *q = mraw(n); if (!q) return NULL; memset(q, mjunk, n); memcpy(q, p, o < n ? o : n); sim_free(p); return q;
}
int sim_posix_memalign(void **r, size_t al, size_t n) {
  step(2, PC); if (sim_fault(FK_MALLOC_FAIL)) return ENOMEM;
  if (al <= 16) { *r = mraw(n); return 0; }
  uintptr_t a = ((uintptr_t)mnext + 16 + al - 1) & ~(al - 1); mnext = (char *)((a + n + 63) & ~63ULL);
  struct mh *h = (struct mh *)a - 1; h->cls = mcls(n) ; h->magic = 0xA110CA7E; h->size = 0; memset((void *)a, mjunk, n); *r = (void *)a; return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { void *p = NULL; return sim_posix_memalign(&p, al, n) ? NULL : p; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }

// ---------------------------------------------------------------- stdio / misc
static void log_text(const char *b, size_t n) {
  settle(); sim_last_log_step = cur >= 0 ? F[cur].steps : 0; sim_last_log_fiber = cur; R->loglines++;
  size_t k = n < sizeof sim_last_log - 1 ? n : sizeof sim_last_log - 1; memcpy(sim_last_log, b, k); sim_last_log[k] = 0;
  if (R->loglen + n + 1 < sizeof R->log) { memcpy(R->log + R->loglen, b, n); R->loglen += n; R->log[R->loglen] = 0; }
  if (sim_verbose) fwrite(b, 1, n, stderr);
}
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { char b[1024]; int n = vsnprintf(b, sizeof b, fmt, ap); log_text(b, n < (int)sizeof b ? n : sizeof b - 1); return n; }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(0, fmt, ap); va_end(ap); return n; }
int sim___fprintf_chk(FILE *f, int fl, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim___printf_chk(int fl, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(0, fmt, ap); va_end(ap); return n; }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *f) { log_text(p, s * n); return n; }
int sim_fputs(const char *s, FILE *f) { log_text(s, strlen(s)); return 0; }
int sim_puts(const char *s) { log_text(s, strlen(s)); return 0; }
int sim_fputc(int c, FILE *f) { char b = c; log_text(&b, 1); return c; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, 0); }
int sim_fflush(FILE *f) { return 0; }
void sim_perror(const char *s) { char b[256]; int n = snprintf(b, sizeof b, "%s: %s\n", s, strerror(errno)); log_text(b, n); }
int sim_getpagesize(void) { return 4096; }
char *sim_getenv(const char *n) { return NULL; }
int sim_dl_iterate_phdr(int (*cb)(struct dl_phdr_info *, size_t, void *), void *data) {
  // Two loaded objects: an executable (text + writable data) and a relocated
  // shared object.  Their writable segments tile the static-data arena.
  ElfW(Phdr) ph[3]; memset(ph, 0, sizeof ph);
  ph[0].p_type = PT_LOAD; ph[0].p_flags = PF_R | PF_X; ph[0].p_vaddr = 0x1000; ph[0].p_memsz = 0x1000;
  ph[1].p_type = PT_DYNAMIC; ph[1].p_flags = PF_R | PF_W; ph[1].p_vaddr = 0x3000; ph[1].p_memsz = 0x100;
  ph[2].p_type = PT_LOAD; ph[2].p_flags = PF_R | PF_W; ph[2].p_vaddr = SIM_GLOB_BASE; ph[2].p_memsz = SIM_GLOB_SIZE / 2;
  struct dl_phdr_info in; memset(&in, 0, sizeof in);
  in.dlpi_addr = 0; in.dlpi_name = ""; in.dlpi_phdr = ph; in.dlpi_phnum = 3;
  int r = cb(&in, sizeof in, data); if (r) return r;
  ElfW(Phdr) p2[2]; memset(p2, 0, sizeof p2);
  p2[0].p_type = PT_LOAD; p2[0].p_flags = PF_R | PF_W; p2[0].p_vaddr = 0x10000; p2[0].p_memsz = SIM_GLOB_SIZE / 2;
  p2[1].p_type = PT_NOTE;
  in.dlpi_addr = SIM_GLOB_BASE + SIM_GLOB_SIZE / 2 - 0x10000; in.dlpi_name = "libsim.so"; in.dlpi_phdr = p2; in.dlpi_phnum = 2;
  return cb(&in, sizeof in, data);
}
void sim_abort(void) {
  if (sim_crash_hook && sim_crash_hook(SIGABRT, 0, 0)) { char k[64]; snprintf(k, sizeof k, "%.60s", R->klass); sim_finish_expected(k); }
  sim_violation("abort", "abort() called; last message: %s", sim_last_log);
}
void sim_exit(int c) { sim_violation("exit", "exit(%d) called by the collector", c); }
uint32_t sim_arc4random(void) { return (uint32_t)sim_rnd(&rplace); }
int sim_rand(void) { return sim_rnd(&rplace) >> 33; }
long sim_random(void) { return sim_rnd(&rplace) >> 33; }
ssize_t sim_getrandom(void *p, size_t n, unsigned f) { for (size_t i = 0; i < n; i++) ((char *)p)[i] = sim_rnd(&rplace); return n; }
long sim_syscall(long n, ...) { errno = ENOSYS; return -1; }
pid_t sim_gettid(void) { return 1000 + cur; }

// ---------------------------------------------------------------- TSan runtime
#define HR(p, n) void __tsan_##p##read##n(void *a) { step(1, PC); tso_read(a, n); }
#define HW(p, n) void __tsan_##p##write##n(void *a) { step(1, PC); tso_flush(); }
#define H(p) HR(p, 1) HR(p, 2) HR(p, 4) HR(p, 8) HR(p, 16) HW(p, 1) HW(p, 2) HW(p, 4) HW(p, 8) HW(p, 16)
H() H(unaligned_) H(volatile_) H(unaligned_volatile_)
void __tsan_vptr_read(void **a) { step(1, PC); tso_flush(); }
void __tsan_vptr_update(void **a, void *b) { step(1, PC); tso_flush(); }
void __tsan_init(void) {}
// Only the harness's own entry points into the collector (mutops.c) have these.
void __tsan_func_entry(void *a) {}
void __tsan_func_exit(void) { tso_flush(); }
void __tsan_read_range(void *a, size_t n) { step(1, PC); tso_flush(); }
void __tsan_write_range(void *a, size_t n) { step(1, PC); tso_flush(); }
void *sim_memset(void *d, int c, size_t n) { tso_flush(); return memset(d, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { tso_flush(); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { tso_flush(); return memmove(d, s, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { tso_flush(); return memcmp(a, b, n); }
static inline void astep(uintptr_t pc) { uint32_t w = SP.sync_weight / 4; wsum += w; step(1 + w, pc); }
#define ATOM(N, T) \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { astep(PC); if (__builtin_expect(tso_cur, 0)) for (int i = TN[cur] - 1; i >= 0; i--) { struct tso *e = &TB[cur][i]; if (e->a == (uintptr_t)a && e->n == sizeof(T)) return e->v; if (e->a < (uintptr_t)a + sizeof(T) && (uintptr_t)a < e->a + e->n) { tso_flush(); break; } } return *a; } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { astep(PC); if (SP.tso && tso_store((uintptr_t)a, v, sizeof(T), mo, PC)) return; *a = v; } \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { astep(PC); tso_flush(); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { astep(PC); tso_flush(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { astep(PC); tso_flush(); if (*a == *c) { if (sim_fault(FK_WEAK_CAS)) return 0; *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { astep(PC); tso_flush(); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { astep(PC); if (mo == __ATOMIC_SEQ_CST) tso_flush(); }
void __tsan_atomic_signal_fence(int mo) {}

// ---------------------------------------------------------------- setup / run
static char sig_altstack[65536];
static void on_signal(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = uc_;
  uintptr_t pc = uc->uc_mcontext.gregs[REG_RIP], addr = (uintptr_t)si->si_addr;
  if (sig == SIGALRM) {
    R->crash_sig = sig; R->crash_pc = pc; fill_result();
    snprintf(R->klass, sizeof R->klass, "hang"); snprintf(R->msg, sizeof R->msg, "wall-clock watchdog expired"); R->outcome = 2; _exit(3);
  }
  fill_result();
  R->crash_sig = sig; R->crash_pc = pc; R->crash_addr = addr;
  int n = 0; uintptr_t *bp = (uintptr_t *)uc->uc_mcontext.gregs[REG_RBP];
  while (n < 24 && (uintptr_t)bp > SIM_STACK_BASE && (uintptr_t)bp < SIM_STACK_BASE + SIM_MAXFIB * (SIM_STACK_SIZE + 65536) && !((uintptr_t)bp & 7)) {
    uintptr_t ra = bp[1]; if (!ra) break; R->bt[n++] = ra; uintptr_t *nb = (uintptr_t *)bp[0]; if (nb <= bp) break; bp = nb;
  }
  R->nbt = n;
  if (sim_crash_hook && sim_crash_hook(sig, pc, addr)) { R->outcome = 4; if (!R->klass[0]) snprintf(R->klass, sizeof R->klass, "expected-crash"); _exit(0); }
  snprintf(R->klass, sizeof R->klass, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "SIG");
  snprintf(R->msg, sizeof R->msg, "signal %d pc=%lx addr=%lx fiber=%d(%s) last message: %.200s", sig, pc, addr, cur, cur >= 0 && F[cur].name ? F[cur].name : "?", sim_last_log);
  R->outcome = 3; _exit(3);
}
static void map_at(uint64_t a, uint64_t n, int prot) {
  if (mmap((void *)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void *)a) {
    perror("sim: mmap arena"); exit(5);
  }
}
void sim_setup(void) {
  prctl(41 /*PR_SET_THP_DISABLE*/, 1, 0, 0, 0);
  map_at(SIM_OS_BASE, SIM_OS_SIZE, PROT_NONE);
  map_at(SIM_MALLOC_BASE, SIM_MALLOC_SIZE, PROT_READ | PROT_WRITE);
  for (int i = 0; i < SIM_MAXFIB; i++) map_at(SIM_STACK_BASE + (uint64_t)i * (SIM_STACK_SIZE + 65536), SIM_STACK_SIZE, PROT_READ | PROT_WRITE);
  map_at(SIM_PRIV_BASE, SIM_PRIV_SIZE, PROT_READ | PROT_WRITE);
  map_at(SIM_GLOB_BASE, SIM_GLOB_SIZE, PROT_READ | PROT_WRITE);
  map_at(SIM_EXT_BASE, SIM_EXT_SIZE, PROT_READ | PROT_WRITE);
  sim_events = mmap(NULL, sim_max_events * sizeof *sim_events, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void (*main_fn_)(void *);
static void *main_tramp(void *a) { main_fn_(a); sim_finish_ok(); return 0; }
static int cmp_ev(const void *a, const void *b) {
  const struct sim_event *x = a, *y = b;
  if (x->fiber != y->fiber) return x->fiber < y->fiber ? -1 : 1;
  if (x->step != y->step) return x->step < y->step ? -1 : 1;
  return (int)x->type - (int)y->type;
}
static void prep_replay(void) {
  // split: switch/block events (sorted per fiber) and fault/choice events
  size_t n = sim_nreplay, ns = 0, nf = 0;
  struct sim_event *sw = sim_priv_alloc((n + 1) * sizeof *sw), *fl = sim_priv_alloc((n + 1) * sizeof *fl);
  for (size_t i = 0; i < n; i++) if (sim_replay[i].type <= EV_BLOCK) sw[ns++] = sim_replay[i]; else fl[nf++] = sim_replay[i];
  qsort(sw, ns, sizeof *sw, cmp_ev); qsort(fl, nf, sizeof *fl, cmp_ev);
  sim_replay = sw; sim_nreplay = ns; sim_frep = fl;
  for (int f = 0; f < SIM_MAXFIB; f++) {
    size_t lo = 0; while (lo < nf && fl[lo].fiber < f) lo++;
    size_t hi = lo; while (hi < nf && fl[hi].fiber == f) hi++;
    sim_frep_lo[f] = lo; sim_frep_hi[f] = hi;
  }
}
void sim_run(void (*main_fn)(void *), void *arg) {
  stack_t ss = { .ss_sp = sig_altstack, .ss_size = sizeof sig_altstack }; sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = { SIGSEGV, SIGILL, SIGBUS, SIGABRT, SIGFPE, SIGTRAP, SIGALRM };
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
  alarm(SP.wall_limit ? SP.wall_limit : 60);
  rsched.s = sim_hash64(SP.seed * 3 + 1); rfault.s = sim_hash64(SP.seed * 3 + 2); rplace.s = sim_hash64(SP.seed * 3 + 3);
  static const uint8_t junk[] = { 0, 0xA5, 0xFF, 1 }; mjunk = junk[sim_hash64(SP.seed ^ 99) & 3];
  pct_left = SP.pct_depth; victim = 1;
  maps = sim_priv_alloc(sizeof *maps * (maxmaps + 1));
  if (sim_replaying) prep_replay();
  main_fn_ = main_fn;
  int id = new_fiber(main_tramp, arg, "main");
  cur = id; started = 1; grant();
  sim_k_ctx = F[id].ctx;
  sim_k_leave();
}
