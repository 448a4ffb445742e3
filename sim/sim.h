// Deterministic simulator core: fibers, scheduler, clock, fake OS, faults.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>

#define SIM_OS_BASE    0x10000000000ULL      // simulated address space for mmap
#define SIM_OS_SIZE    (8ULL << 30)
#define SIM_MALLOC_BASE 0x20000000000ULL     // simulated malloc arena
#define SIM_MALLOC_SIZE (1ULL << 30)
#define SIM_STACK_BASE 0x30000000000ULL      // fiber stacks
#define SIM_STACK_SIZE (1ULL << 20)
#define SIM_PRIV_BASE  0x40000000000ULL      // harness-private arena (never scanned)
#define SIM_PRIV_SIZE  (24ULL << 30)
#define SIM_GLOB_BASE  0x50000000000ULL      // "static data" scanned conservatively
#define SIM_GLOB_SIZE  (64ULL << 10)
#define SIM_EXT_BASE   0x60000000000ULL      // external (non-GC) objects
#define SIM_EXT_SIZE   (64ULL << 20)
#define SIM_MAXFIB 48

enum { EV_SWITCH = 1, EV_BLOCK = 2, EV_FAULT = 3, EV_CHOICE = 4 };
struct sim_event { uint64_t step; uint32_t arg; uint8_t fiber; uint8_t type; uint16_t aux; };

// Fault kinds
enum {
  FK_SPURIOUS_WAKE, FK_WEAK_CAS, FK_STALL, FK_CLOCK_JUMP, FK_MMAP_FAIL,
  FK_MADVISE_FAIL, FK_MALLOC_FAIL, FK_THREAD_FAIL, FK_TRYLOCK_BUSY, FK_SIGNAL_EXTRA, FK_SLOW_CALL, FK_TSO,
  FK_COUNT
};
extern const char *sim_fault_names[FK_COUNT];

struct sim_params {
  uint64_t seed;
  int strategy;           // 0 uniform 1 PCT 2 sticky 3 victim
  uint32_t quantum;       // mean accesses between preemptions
  uint32_t sync_weight;   // extra budget consumed by synchronisation operations
  uint32_t ns_per_1k;     // simulated ns per 1000 accesses
  int place_policy;       // mmap placement
  int ncpu;
  uint32_t fault_ppm[FK_COUNT]; uint32_t fault_at[FK_COUNT]; // probability per fault point, parts per million
  uint64_t max_steps;     // total access budget
  uint64_t max_noprogress;// accesses without workload progress before "livelock"
  uint32_t pct_depth;
  int tso;                // atomic stores go through store buffers
  uint32_t wall_limit;    // seconds of real time before the watchdog fires
};
extern struct sim_params SP;

#define SIM_NPROBE 256
struct sim_result {         // shared with the parent
  volatile int outcome;     // 0 none 1 ok 2 violation 3 crash 4 expected-oom/termination 5 internal error
  char klass[96];
  char msg[1024];
  uint64_t hash;
  uint64_t sched_hash;
  uint64_t total_steps, switches, sim_ns, nfault[FK_COUNT], nfpoint[FK_COUNT];
  uint64_t preempt_pairs;
  uint64_t gcs[4];          // by kind
  uint64_t ops, allocs, verified, ticks;
  uint64_t probes[SIM_NPROBE];
  uint64_t nevents;
  uint64_t crash_pc, crash_addr; int crash_sig;
  uint64_t bt[24]; int nbt;
  int nfibers; uint64_t resident_kb, resident_before_kb;
  char log[4096]; uint32_t loglen;
  uint64_t loglines;
  uint8_t pairmap[8192];
};
extern struct sim_result *R;
extern struct sim_event *sim_events; extern uint64_t sim_nevents, sim_max_events;
extern struct sim_event *sim_replay; extern uint64_t sim_nreplay; extern int sim_replaying;

// Private arena allocation
void *sim_priv_alloc(size_t n);

// Running
void sim_setup(void);                       // map arenas (once, parent)
void sim_run(void (*main_fn)(void *), void *arg) __attribute__((noreturn)); // child
void sim_finish_ok(void) __attribute__((noreturn));
void sim_finish_expected(const char *why) __attribute__((noreturn));
void sim_violation(const char *klass, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_internal(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

// Scheduling
int sim_self(void);
int sim_spawn(void *(*fn)(void *), void *arg, const char *name); // harness threads
void sim_join(int fiber);
void sim_yield(void);                        // explicit scheduling point
void sim_sleep_ns(uint64_t ns);
uint64_t sim_now(void);
uint64_t sim_cpu_of(uint64_t mono_ns);        // processor time shown at that time
uint64_t sim_steps(void);
void sim_tso_flush(void);
void sim_set_fair(int on);                   // suspend unfair scheduling
void sim_progress(void);                     // workload made progress
extern int sim_noyield;
extern volatile int sim_world_checked;
int sim_fiber_blocked(int f);
void sim_set_name(const char *n);
uint64_t sim_fiber_progress(int f);

// Randomness: independent streams
uint64_t sim_hash64(uint64_t x);
struct sim_rng { uint64_t s; };
uint64_t sim_rnd(struct sim_rng *r);
uint32_t sim_rndn(struct sim_rng *r, uint32_t n);

// Trace hash
void sim_mix(uint64_t v);
void sim_logf(const char *fmt, ...);
extern int sim_verbose;
void sim_vlog(const char *fmt, ...) __attribute__((format(printf,1,2)));

// Faults
int sim_fault(int kind);
extern int sim_faults_enabled;

// Fake OS queries
struct sim_os_stats { uint64_t mapped, discarded_bytes, unmapped_bytes, mmaps, munmaps, madvises, mmap_failed; };
extern struct sim_os_stats OS;
int sim_os_is_mapped(uintptr_t a, size_t n);
uint64_t sim_os_resident(void);              // bytes of RW mapped memory resident
uint64_t sim_os_rw_mapped(void);
uint64_t sim_malloc_live(void);
size_t sim_malloc_size(void *p); void sim_free_raw(void *p);
extern void (*sim_os_discard_hook)(uintptr_t a, size_t n, int unmap);
extern int (*sim_crash_hook)(int sig, uintptr_t pc, uintptr_t addr); // 1: expected
extern uint64_t sim_last_log_step; extern int sim_last_log_fiber; extern char sim_last_log[256];
extern int sim_thread_fail_after;
extern uint64_t sim_refusal_step; extern int sim_refusal_fiber; // the last time the OS refused memory or a thread
extern uint64_t sim_bg_ticks; extern int sim_bg_fiber;

// Fiber info
struct sim_fiber_info { const char *name; int state; };
#endif
