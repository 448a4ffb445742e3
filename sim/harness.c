// Workload generator, reference model and oracles.  Compiled without
// instrumentation: everything here is atomic with respect to the simulated
// scheduler except explicit calls into the collector or the simulator core.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <stddef.h>
#include "sim.h"
#include "objlayout.h"
#include "mutops.h"
#include "params.h"
#include "harness.h"
struct gc_extern_space;
int sim_sched_yield(void);
int h_extern_visit(struct gc_extern_space *s, uintptr_t *loc, uintptr_t ref);

struct hparams P = {
#define X(n, d) .n = d,
  PARAMS(X)
#undef X
};

// ------------------------------------------------------------------ model
// Encoded references: 0 null; >0 object id; IMM: small negative; EXT / CHAIN: large negative.
#define ENC_EXT0 (-(1 << 24))
#define ENC_CHAIN0 (-(1 << 28))
#define IS_OBJ(e) ((e) > 0)
#define IS_IMM(e) ((e) < 0 && (e) > ENC_EXT0)
#define IS_EXT(e) ((e) <= ENC_EXT0 && (e) > ENC_CHAIN0)
#define IS_CHAIN(e) ((e) <= ENC_CHAIN0)
#define EXT_IDX(e) (ENC_EXT0 - (e))
#define CHAIN_IDX(e) (ENC_CHAIN0 - (e))

struct mobj {
  uintptr_t addr;
  int32_t *f;
  uint32_t nf, nw;
  uint8_t kind, alive, large, pinned, ak, dead, fstate, elig, prio, capclass, isold, kept_cons;
  uint32_t mark, seen, traced, fwd;
  int32_t chain, cprev, cnext;
  uint32_t w_head, w_serial, w_next;
  uint32_t born;
  uint64_t push_inv, push_done, dead_inv, dead_done;
  uintptr_t faddr; uint32_t wv, wpos, popgc; int32_t pushing;
  int32_t parent; uint32_t eliggc;
};
enum { FS_INIT, FS_ATTACHED, FS_POPPED };
#define MAXOBJ (1 << 23)
static struct mobj *M;
static uint32_t nobj;            // ids 1..nobj
static uint32_t *alive_list; static uint32_t nalive;
static uint32_t *fin_list; static uint32_t nfin;      // attached and not popped
static int32_t *fld_free[32];
static uint32_t *shadow;         // id per 8-byte granule
static uint32_t *pshadow;        // large object id per page
static uint64_t alloc_bytes_total, alloc_rounded_total, alloc_since_gc, live_after_gc, large_since_gc;
static uint32_t gcn;             // collections begun (mutators_stopped events)
static int cur_kind = -1;        // kind of the collection in progress / last
static int world_stopped; static int gc_fiber;
static int gc_full_done;         // completed collections
static uint64_t opstamp;         // global operation clock

#define NCHAIN_MAX 8
static struct chain { int32_t head; int owner_id; } chains[NCHAIN_MAX]; static int nchains;
#define HR_MAX 64
static struct { uintptr_t n; uintptr_t *slots; } hroots; static uintptr_t hr_words[HR_MAX + NCHAIN_MAX]; static int32_t hr_enc[HR_MAX + NCHAIN_MAX];
#define GLOB_N 256
static uintptr_t *glob; static int32_t glob_enc[GLOB_N]; static int glob_off[GLOB_N]; static int nglob;
#define NEXT_OBJ 48
#define EXT_STRIDE 64
static struct { int32_t f[4]; int nf; uint32_t visited_gc, traced_gc, mark, seen, must; uint32_t visits; } ext[NEXT_OBJ]; static int next;
static int ext_in_gc, ext_minor, ext_starts;

#define MAXMUT 40
#define MAXSLOTS 64
enum { W_NONE, W_INIT, W_USER, W_GCCALL, W_NOGC, W_EXIT, W_GONE };
static const char *where_names[] = { "none", "joining", "user code", "gc call", "gc-free call", "leaving", "gone" };
struct me { uint64_t magic; int fiber; int state; struct mut *m; };
enum { MS_NEW, MS_RUN, MS_CAUSE, MS_STOPPING, MS_STOPPED, MS_REMOVED };
struct mut {
  int idx, fiber, where, wave; void *gm; uintptr_t *slots; int32_t ms[MAXSLOTS]; uint16_t off[MAXSLOTS]; int ns;
  struct { uintptr_t n; uintptr_t *slots; void *owner; } roots;
  struct sim_rng r; long ops, opidx; struct me *me; int relief; uint64_t walk_inv; int in_walk;
  int pending_reg; int32_t reg_enc;
};
static struct mut MU[MAXMUT]; static int nmu;
static void *HEAP;
static struct hl { uint64_t magic; } *HL;
static size_t heap_size_now, heap_size_cfg, heap_size_max_seen; static int resized_count;
static uint64_t hs_frag; // largest heap size since the last collection ended; mmc: a shrunken heap may fill the holes of blocks that are not wholly free, which only compaction releases
static int unchecked_pins; // number of objects ever pinned
static int cons_or_pinned(void) { return VI.cons_roots || VI.cons_trace || unchecked_pins; }
static int precise(void) { return !VI.cons_roots && !VI.cons_trace; }

static const char *probe_names_[] = {
#define PB(n) #n,
#include "probes.h"
#undef PB
};
const char **probe_names = probe_names_;
enum {
#define PB(n) PR_##n,
#include "probes.h"
#undef PB
  PR_COUNT };
_Static_assert(PR_COUNT <= SIM_NPROBE, "probes");
const int nprobes = PR_COUNT;
#define PROBE(n) (R->probes[PR_##n]++)
#define PROBE_MAX(n, v) (R->probes[PR_##n] = R->probes[PR_##n] < (uint64_t)(v) ? (uint64_t)(v) : R->probes[PR_##n])

#define V sim_violation

static uint64_t patw(uint32_t id, uint32_t i) { return sim_hash64(((uint64_t)id << 32) | i) | 1; }
static uint64_t idword(uint32_t id) { return ((uint64_t)id << 1) | 1 | (0x5a5aULL << 48); }

static int32_t *fld_alloc(uint32_t n) {
  int c = 0; while ((1u << c) < n) c++;
  int32_t *p = fld_free[c];
  if (p) memcpy(&fld_free[c], p, 8); else p = sim_priv_alloc((4UL << c) < 16 ? 16 : (4UL << c));
  memset(p, 0, 4UL * n); return p;
}
static void fld_release(int32_t *p, uint32_t n) {
  if (!p) return; int c = 0; while ((1u << c) < n) c++;
  memcpy(p, &fld_free[c], 8); fld_free[c] = p;
}
static size_t osize(uint32_t id) { return (size_t)M[id].nw * 8; }
static uintptr_t ext_addr(int k) { return SIM_EXT_BASE + 4096 + (uintptr_t)k * EXT_STRIDE; }
static uintptr_t imm_word(int32_t e) { uintptr_t k = -e; return (k << 3) | (1 + k % 7); }
static uintptr_t word_of(int32_t e) {
  if (e == 0) return 0;
  if (e > 0) return M[e].addr;
  if (IS_IMM(e)) return imm_word(e);
  if (IS_EXT(e)) return ext_addr(EXT_IDX(e));
  sim_internal("word_of chain");
}
static const char *kname(int k) { static const char *n[] = { "node", "leaf", "ephemeron", "finalizer", "extern" }; return k < 5 ? n[k] : "?"; }
static const char *gckind(int k) { static const char *n[] = { "any", "minor", "major", "compacting" }; return k >= 0 && k < 4 ? n[k] : "none"; }

static uint64_t sz_round(size_t n) { return n > VI.large_threshold ? (n + 4095) & ~4095ULL : (n + VI.granule - 1) & ~(VI.granule - 1ULL); }

// ------------------------------------------------------------------ shadow
static void shadow_clear(uint32_t id) {
  struct mobj *o = &M[id];
  if (o->addr < SIM_OS_BASE) return;
  uintptr_t g0 = (o->addr - SIM_OS_BASE) >> 3, n = o->nw;
  if (o->large) {
    for (uintptr_t p = (o->addr - SIM_OS_BASE) >> 12, e = (o->addr - SIM_OS_BASE + osize(id) + 4095) >> 12; p < e; p++) if (pshadow[p] == id) pshadow[p] = 0;
  } else for (uintptr_t g = g0; g < g0 + n; g++) if (shadow[g] == id) shadow[g] = 0;
}
static void overlap(const char *ctx, uint32_t id, uint32_t other) {
  V("overlap", "%s: %s #%u [%lx,+%zx) overlaps live %s #%u [%lx,+%zx) (after gc %u)", ctx, kname(M[id].kind), id, M[id].addr, osize(id),
    kname(M[other].kind), other, M[other].addr, osize(other), gcn);
}
static void shadow_set(const char *ctx, uint32_t id) {
  struct mobj *o = &M[id];
  uintptr_t g0 = (o->addr - SIM_OS_BASE) >> 3, p0 = (o->addr - SIM_OS_BASE) >> 12, p1 = (o->addr - SIM_OS_BASE + osize(id) + 4095) >> 12;
  for (uintptr_t p = p0; p < p1; p++) if (pshadow[p] && pshadow[p] != id && M[pshadow[p]].alive) {
    uint32_t q = pshadow[p];
    if (o->addr < M[q].addr + osize(q) && M[q].addr < o->addr + osize(id)) overlap(ctx, id, q);
  }
  if (o->large) {
    for (uintptr_t p = p0; p < p1; p++) pshadow[p] = id;
    // small objects inside these pages?
    uintptr_t step = o->nw > 4096 ? 2 : 1;
    for (uintptr_t g = g0; g < g0 + o->nw; g += step) if (shadow[g] && M[shadow[g]].alive) {
      uint32_t q = shadow[g]; if (o->addr < M[q].addr + osize(q) && M[q].addr < o->addr + osize(id)) overlap(ctx, id, q); }
  } else for (uintptr_t g = g0; g < g0 + o->nw; g++) {
    uint32_t q = shadow[g];
    if (q && q != id && M[q].alive) overlap(ctx, id, q);
    shadow[g] = id;
  }
}

static void discard_hook(uintptr_t a, size_t n, int unmap) {
  if (!HEAP && !nobj) return;
  if (world_stopped) return;          // the walk at the end of the collection will notice
  uintptr_t p0 = (a - SIM_OS_BASE) >> 12, p1 = (a - SIM_OS_BASE + n) >> 12;
  for (uintptr_t p = p0; p < p1; p++) if (pshadow[p] && M[pshadow[p]].alive)
    V("live-memory-discarded", "%s [%lx,+%zx) covers live large object #%u [%lx,+%zx)", unmap ? "munmap" : "madvise", a, n, pshadow[p], M[pshadow[p]].addr, osize(pshadow[p]));
  uintptr_t g0 = (a - SIM_OS_BASE) >> 3, g1 = (a - SIM_OS_BASE + n) >> 3;
  for (uintptr_t g = g0; g < g1; g++) if (shadow[g] && M[shadow[g]].alive)
    V("live-memory-discarded", "%s [%lx,+%zx) covers live %s #%u [%lx,+%zx)", unmap ? "munmap" : "madvise", a, n, kname(M[shadow[g]].kind), shadow[g], M[shadow[g]].addr, osize(shadow[g]));
  PROBE(discards);
}

// ------------------------------------------------------------------ closure
static uint32_t cserial; static int32_t *cstack; static size_t csp, cstack_max;
static uint64_t cbytes;
static void cpush(int32_t e);
static int32_t chain_first_live(int32_t id) { while (id && M[id].dead) id = M[id].cnext; return id; }
static uint32_t neph_cleared, neph_kept;
static uint32_t gcs_idle;
static void made_progress(void) { if (gcs_idle > 100) sim_set_fair(0); gcs_idle = 0; }
static int32_t ccur; // who reaches the object being marked: >0 object, <0 extern, 0 root, FINROOT finalizer
#define FINROOT INT32_MAX
static void cmark_obj(int32_t id) {
  struct mobj *o = &M[id];
  if (o->mark == cserial) return;
  o->parent = ccur;
  o->mark = cserial; cbytes += sz_round(osize(id));
  if (csp >= cstack_max) sim_internal("closure stack");
  cstack[csp++] = id;
}
// The embedder visits chain heads as they are, so a dead ephemeron that a head
// still points to stays in memory until someone follows the chain.
static void cmark_dead_head(int c) {
  uintptr_t *loc = NULL;
  if (c < P.chains) loc = &hroots.slots[P.hroots + c];
  else if (chains[c].owner_id > 0) { struct mobj *o = &M[chains[c].owner_id]; for (uint32_t i = 0; i < o->nf; i++) if (o->f[i] == ENC_CHAIN0 - c) loc = &OBJ_FIELDS(o->addr)[i]; }
  if (!loc || ((uintptr_t)loc >= SIM_OS_BASE && (uintptr_t)loc < SIM_OS_BASE + SIM_OS_SIZE && !sim_os_is_mapped((uintptr_t)loc, 8))) return;
  uintptr_t a = *loc;
  if (a < SIM_OS_BASE || a + 16 > SIM_OS_BASE + SIM_OS_SIZE || (a & 7) || !sim_os_is_mapped(a, 16)) return;
  struct ohdr *h = (void *)a; uint64_t id = (h->idw & ~(0xffffULL << 48)) >> 1;
  if (!(h->idw & 1) || h->idw >> 48 != 0x5a5a || id == 0 || id > nobj || !M[id].alive || M[id].addr != a || M[id].kind != K_EPH || !M[id].dead) return;
  cmark_obj(id);
}
static void cpush(int32_t e) {
  if (e > 0) cmark_obj(e);
  else if (IS_EXT(e)) { int k = EXT_IDX(e); if (ext[k].mark != cserial) { ext[k].mark = cserial; cstack[csp++] = e; } }
  else if (IS_CHAIN(e)) { int32_t h = chain_first_live(chains[CHAIN_IDX(e)].head); if (h) cmark_obj(h); cmark_dead_head(CHAIN_IDX(e)); }
}
static int cis_marked(int32_t e) { return e <= 0 ? 1 : M[e].mark == cserial; }
static void crun(void) {
  while (csp) {
    int32_t id = ccur = cstack[--csp];
    if (id < 0) { int k = EXT_IDX(id); for (int i = 0; i < ext[k].nf; i++) cpush(ext[k].f[i]); continue; }
    struct mobj *o = &M[id];
    if (o->w_serial == cserial) { // ephemerons waiting for this key
      uint32_t e = o->w_head; o->w_head = 0; o->w_serial = 0;
      while (e) { uint32_t n = M[e].w_next; cpush(M[e].f[1]); e = n; }
    }
    switch (o->kind) {
    case K_NODE: for (uint32_t i = 0; i < o->nf; i++) if (o->f[i]) cpush(o->f[i]); break;
    case K_EPH:
      if (o->chain >= 0) { int32_t n = chain_first_live(o->cnext); if (n) cmark_obj(n); }
      if (o->dead || !o->f[0]) break;
      if (cis_marked(o->f[0])) cpush(o->f[1]);
      else { int32_t k = o->f[0]; if (M[k].w_serial != cserial) { M[k].w_serial = cserial; M[k].w_head = 0; } M[id].w_next = M[k].w_head; M[k].w_head = id; }
      break;
    case K_FIN:
      cpush(o->f[1]);
      if (o->fstate == FS_POPPED) cpush(o->f[0]);
      break;
    }
  }
}
static void closure_roots(void) {
  cserial++; csp = 0; cbytes = 0; ccur = 0;
  for (int i = 0; i < nmu; i++) if (MU[i].where != W_NONE && MU[i].where != W_GONE)
    { for (int k = 0; k < MU[i].ns; k++) cpush(MU[i].ms[k]); if (MU[i].pending_reg) cpush(MU[i].reg_enc); }
  for (int i = 0; i < (int)hroots.n; i++) cpush(hr_enc[i]);
  for (int i = 0; i < nglob; i++) cpush(glob_enc[i]);
  crun();
}
// Everything that must be retained, and which finalizers may fire, assuming
// every attached finalizer is still waiting.
static uint64_t predicted_fire;
static void closure_full(int mark_eligible) {
  closure_roots(); ccur = FINROOT;
  for (uint32_t i = 0; i < nfin; i++) cpush(fin_list[i]); // the tables keep the finalizers themselves, and their closures
  crun();
  predicted_fire = 0;
  for (int p = 0; p < SIM_NPRIO; p++) {
    uint32_t hit = 0;
    for (uint32_t i = 0; i < nfin; i++) { struct mobj *f = &M[fin_list[i]];
      if (f->prio == p && !cis_marked(f->f[0])) { if (mark_eligible) { if (!f->elig) predicted_fire++; f->elig = 1; f->eliggc = gcn; } hit++; f->capclass = 1; } else if (f->prio == p) f->capclass = 0; }
    ccur = FINROOT;
    if (hit) { for (uint32_t i = 0; i < nfin; i++) { struct mobj *f = &M[fin_list[i]]; if (f->prio == p && f->capclass) cpush(f->f[0]); } crun(); }
  }
  ccur = FINROOT;
  for (uint32_t i = 0; i < nfin; i++) cpush(fin_list[i]);
  crun();
}
// Why the model considers an object reachable.
static const char *why(int32_t id) {
  static char b[400]; size_t n = 0; b[0] = 0;
  if (id <= 0 || M[id].mark != cserial) return "unreachable";
  for (int d = 0; id > 0 && id != FINROOT && d < 12 && n < 340; d++) { n += snprintf(b + n, sizeof b - n, "%s%s#%d", d ? " < " : "", kname(M[id].kind), id); id = M[id].parent; }
  snprintf(b + n, sizeof b - n, id == FINROOT ? " < pending finalizer" : id == 0 ? " < root" : id < 0 ? " < extern" : " < ...");
  return b;
}
static uint64_t live_bytes_model(void) { closure_full(0); return cbytes; }

// ------------------------------------------------------------------ walk
static int32_t *wstack; static size_t wsp;
static uint32_t wepoch;
static struct { int32_t id; uintptr_t old; } *moved_list; static uint32_t nmoved;
static int is_full(void) { return cur_kind >= CK_MAJOR; }
static const char *via_name(int32_t from, char *b, size_t n) {
  if (from >= 0) snprintf(b, n, "#%d", from);
  else if (from > -100) snprintf(b, n, "extern %d", -from);
  else if (from > -2000) snprintf(b, n, "mutator %d", -from - 1000);
  else if (from > -3000) snprintf(b, n, "root %d", -from - 2000);
  else snprintf(b, n, "word %d", -from - 3000);
  return b;
}
static void check_object_at(int32_t id, uintptr_t a, const char *via, int32_t from) {
  struct mobj *o = &M[id]; char fb[40];
  if (a < SIM_OS_BASE || a + osize(id) > SIM_OS_BASE + SIM_OS_SIZE || !sim_os_is_mapped(a, osize(id)))
    V("lost-object", "%s of %s: reference to %s #%d holds %lx, not mapped memory (last known at %lx)", via, via_name(from, fb, 40), kname(o->kind), id, a, o->addr);
  struct ohdr *h = (void *)a;
  uint64_t tag = MK_TAG(o->kind, o->nf, o->nw);
  if (h->idw != idword(id) || h->tag != tag)
    V("lost-object", "%s of %s: reference to %s #%d (%zu bytes%s) holds %lx but memory there has tag %lx id word %lx (last known at %lx, born after gc %u, now gc %u %s)",
      via, via_name(from, fb, 40), kname(o->kind), id, osize(id), o->large ? ", large" : "", a, h->tag, h->idw, o->addr, o->born, gcn, gckind(cur_kind));
  if (a & 7 || (o->large ? (a & 4095) : (a & (VI.granule - 1)))) V("misaligned", "%s of %s: %s #%d at %lx", via, via_name(from, fb, 40), kname(o->kind), id, a);
}
static void check_payload(int32_t id) {
  struct mobj *o = &M[id];
  if (o->kind != K_NODE && o->kind != K_LEAF) return;
  uint64_t *w = (void *)o->addr;
  uint32_t lo = 2 + (o->kind == K_NODE ? o->nf : 0), n = o->nw;
  uint32_t stride = n > 2048 ? 509 : 1;
  for (uint32_t i = lo; i < n; i += stride) if (w[i] != patw(id, i))
    V("payload-corrupted", "%s #%d at %lx: word %u is %lx, expected %lx (gc %u %s)", kname(o->kind), id, o->addr, i, w[i], (uint64_t)patw(id, i), gcn, gckind(cur_kind));
  if (n > lo && w[n - 1] != patw(id, n - 1)) V("payload-corrupted", "%s #%d at %lx: last word %u is %lx (gc %u)", kname(o->kind), id, o->addr, n - 1, w[n - 1], gcn);
}
static int mmc_may_move(void) { return cur_kind == CK_COMPACTING && !VI.cons_trace; }
static void wvisit(int32_t e, uintptr_t w, const char *via, int32_t from) {
  char fb[40];
  if (e <= 0) {
    uintptr_t want = word_of(e);
    if (w != want) V("reference-changed", "%s of %s: expected %s %lx, found %lx", via, via_name(from, fb, 40), e == 0 ? "null" : IS_IMM(e) ? "immediate" : "extern", want, w);
    // Conservatively scanned memory is never matched against external objects.
    if (IS_EXT(e) && (from <= -2000 ? from > -3000 : from <= -1000 ? !VI.cons_roots : !VI.cons_trace)) ext[EXT_IDX(e)].must = wepoch;
    if (IS_EXT(e)) { int k = EXT_IDX(e); if (ext[k].seen != wepoch) { ext[k].seen = wepoch; wstack[wsp++] = e; } }
    return;
  }
  struct mobj *o = &M[e];
  if (!o->alive) sim_internal("walk reached dropped #%d via %s of %s", e, via, via_name(from, fb, 40));
  if (o->seen == wepoch) {
    if (w != o->addr) V("two-copies", "%s of %s: %s #%d referenced at %lx but another reference says %lx (gc %u %s)", via, via_name(from, fb, 40), kname(o->kind), e, w, o->addr, gcn, gckind(cur_kind));
    return;
  }
  check_object_at(e, w, via, from);
  o->seen = wepoch;
  if (w != o->addr) {
    if (o->pinned) V("pinned-moved", "pinned %s #%d moved from %lx to %lx in gc %u (%s)", kname(o->kind), e, o->addr, w, gcn, gckind(cur_kind));
    if (o->large) V("large-object-moved", "large %s #%d moved from %lx to %lx", kname(o->kind), e, o->addr, w);
    if (VI.cons_trace) V("conservative-moved", "%s #%d moved from %lx to %lx in a heap-conservative configuration", kname(o->kind), e, o->addr, w);
    if (VI.collector == COL_MMC && !mmc_may_move()) V("moved", "object #%d moved from %lx to %lx in a non-compacting collection (%s)", e, o->addr, w, gckind(cur_kind));
    moved_list[nmoved].id = e; moved_list[nmoved++].old = o->addr;
    o->addr = w;
  } else if (o->pinned && cur_kind == CK_COMPACTING) PROBE(pin_survived_compact);
  wstack[wsp++] = e;
}
static uint32_t id_at(uintptr_t a, const char *what) {
  if (a < SIM_OS_BASE || a + 16 > SIM_OS_BASE + SIM_OS_SIZE || (a & 7) || !sim_os_is_mapped(a, 16)) V("dangling", "%s yields %lx, which is not heap memory", what, a);
  struct ohdr *h = (void *)a; uint64_t id = (h->idw & ~(0xffffULL << 48)) >> 1;
  if (!(h->idw & 1) || h->idw >> 48 != 0x5a5a || id == 0 || id > nobj) V("dangling", "%s yields %lx, where there is no live object (tag %lx id word %lx)", what, a, h->tag, h->idw);
  if (h->tag != MK_TAG(M[id].kind, M[id].nf, M[id].nw)) V("dangling", "%s yields %lx, stale copy of #%lu (tag %lx)", what, a, id, h->tag);
  return id;
}
// The real successor (or head) S of a chain position must be the first model
// member at or after `first` that the collector had to keep alive or chose to.
static void wchain(void *S, int32_t first, const char *via, int32_t from) {
  char fb[40]; int32_t sid = 0;
  if (S) { sid = id_at((uintptr_t)S, via); if (M[sid].kind != K_EPH) V("chain-corrupt", "%s of %s yields %s #%d", via, via_name(from, fb, 40), kname(M[sid].kind), sid); }
  int32_t q = first;
  for (; q && q != sid; q = M[q].cnext) if (!M[q].dead) {
    if (M[q].f[0] <= 0 || cis_marked(M[q].f[0])) V("chain-lost", "%s of %s skips live ephemeron #%d (key #%d reachable: %s); next is #%d (gc %u %s)", via, via_name(from, fb, 40), q, M[q].f[0], why(M[q].f[0]), sid, gcn, gckind(cur_kind));
    M[q].dead = 1; M[q].dead_done = ++opstamp; PROBE(eph_cleared);
  }
  if (sid && !q) V("chain-dead-reappeared", "%s of %s yields ephemeron #%d, which is not on the rest of the chain", via, via_name(from, fb, 40), sid);
  if (sid && M[sid].dead) V("chain-dead-reappeared", "%s of %s yields dead ephemeron #%d", via, via_name(from, fb, 40), sid);
  if (sid) wvisit(sid, (uintptr_t)S, via, from);
}
static void walk_object(int32_t id) {
  struct mobj *o = &M[id];
  uintptr_t *fl = OBJ_FIELDS(o->addr);
  switch (o->kind) {
  case K_NODE:
    for (uint32_t i = 0; i < o->nf; i++) {
      if (IS_CHAIN(o->f[i])) wchain(mo_chain_head(&fl[i]), chains[CHAIN_IDX(o->f[i])].head, "chain in field", id);
      else wvisit(o->f[i], fl[i], "field", id);
    }
    break;
  case K_FIN:
    if (o->fstate == FS_INIT) break;
    wvisit(o->f[0], mo_fin_object((void *)o->addr), "finalizer object", id);
    wvisit(o->f[1], mo_fin_closure((void *)o->addr), "finalizer closure", id);
    break;
  case K_EPH: {
    if (o->chain >= 0) wchain(mo_chain_next((void *)o->addr), o->cnext, "chain successor", id);
    uintptr_t k = mo_eph_key((void *)o->addr), v = mo_eph_value((void *)o->addr);
    if (o->dead) { if (k || v) V("ephemeron-resurrected", "dead ephemeron #%d has key %lx value %lx (gc %u)", id, k, v, gcn); break; }
    if (!k) { // cleared by the collector
      if (cis_marked(o->f[0]))
        V("ephemeron-cleared-early", "ephemeron #%d cleared in gc %u (%s) although its key #%d is reachable", id, gcn, gckind(cur_kind), o->f[0]);
      if (v) V("ephemeron-half-cleared", "ephemeron #%d cleared but value %lx still readable", id, v);
      o->dead = 1; o->dead_done = ++opstamp; PROBE(eph_cleared); neph_cleared++;
      break;
    }
    if (!precise() && is_full() && !cis_marked(o->f[0])) { PROBE(eph_kept_conservatively); if (!o->kept_cons) { o->kept_cons = 1; neph_kept++; } }
    if (precise() && is_full() && !cis_marked(o->f[0]) && o->mark == cserial)
      V("ephemeron-not-cleared", "ephemeron #%d kept in full gc %u (%s) although its key #%d is unreachable (ephemeron: chain %d, born after gc %u, %s; key: %s, born after gc %u)", id, gcn, gckind(cur_kind), o->f[0], o->chain, o->born, why(id), kname(M[o->f[0]].kind), M[o->f[0]].born);
    if (o->f[0] > 0 && !M[o->f[0]].alive) V("ephemeron-resurrected", "ephemeron #%d still names key #%d that was dropped earlier", id, o->f[0]);
    if (o->f[1] > 0 && !M[o->f[1]].alive) V("ephemeron-resurrected", "ephemeron #%d still names value #%d that was dropped earlier", id, o->f[1]);
    wvisit(o->f[0], k, "ephemeron key", id);
    wvisit(o->f[1], v, "ephemeron value", id);
    break; }
  }
}
static void wrun(void) {
  while (wsp) {
    int32_t id = wstack[--wsp];
    if (id < 0) { int k = EXT_IDX(id); uintptr_t *fl = OBJ_FIELDS(ext_addr(k)); for (int i = 0; i < ext[k].nf; i++) wvisit(ext[k].f[i], fl[i], "extern field", -k - 1); continue; }
    walk_object(id);
  }
}
static void list_remove(uint32_t *l, uint32_t *n, uint32_t id) { for (uint32_t i = 0; i < *n; i++) if (l[i] == id) { l[i] = l[--*n]; return; } sim_internal("list_remove"); }
static void chain_unlink(int32_t id) {
  struct mobj *o = &M[id];
  if (o->chain < 0) return;
  if (o->cprev) M[o->cprev].cnext = o->cnext; else chains[o->chain].head = o->cnext;
  if (o->cnext) M[o->cnext].cprev = o->cprev;
  o->chain = -1; o->cprev = o->cnext = 0;
}
static void drop_object(int32_t id) {
  struct mobj *o = &M[id];
  if (o->kind == K_EPH) chain_unlink(id);
  if (o->kind == K_NODE) for (uint32_t i = 0; i < o->nf; i++) if (IS_CHAIN(o->f[i])) chains[CHAIN_IDX(o->f[i])].owner_id = -1;
  o->alive = 0; PROBE(dropped); if (o->large) PROBE(large_freed);
  fld_release(o->f, o->nf < 2 ? 2 : o->nf); o->f = NULL;
}
static uint64_t last_full_live;

static void verify_heap(void) {
  int ny = sim_noyield; sim_noyield = 1;
  R->verified++;
  wepoch++; wsp = 0; nmoved = 0;
  for (int i = 0; i < nmu; i++) { struct mut *m = &MU[i];
    if (m->where == W_NONE || m->where == W_GONE) continue;
    for (int k = 0; k < m->ns; k++) {
      int32_t e = m->ms[k]; uintptr_t w = m->slots[k];
      if (VI.cons_roots && e > 0) {
        if (w != M[e].addr + m->off[k]) V("root-changed", "conservative root slot %d of mutator %d (object #%d) was rewritten from %lx to %lx", k, m->idx, e, M[e].addr + m->off[k], w);
        w -= m->off[k];
      }
      wvisit(e, w, "root slot", -1000 - i);
    }
    if (m->pending_reg && m->reg_enc > 0) wvisit(m->reg_enc, M[m->reg_enc].addr, "register root", -1000 - i);
  }
  for (int i = 0; i < (int)hroots.n; i++)
    if (IS_CHAIN(hr_enc[i])) wchain(mo_chain_head(&hroots.slots[i]), chains[CHAIN_IDX(hr_enc[i])].head, "chain in heap root", -2000 - i);
    else wvisit(hr_enc[i], hroots.slots[i], "heap", -2000 - i);
  for (int i = 0; i < nglob; i++) { int32_t e = glob_enc[i]; wvisit(e, glob[i], "static data", -3000 - i); }
  for (uint32_t i = 0; i < nfin; i++) { struct mobj *o = &M[fin_list[i]]; wvisit(fin_list[i], o->fwd == gcn ? o->faddr : o->addr, "finalizer table", 0); }
  wrun();
  // Everything the collector must keep but the walk did not reach (objects
  // held only by finalizers it has not delivered yet) stays in the model.
  uint64_t live = 0, kept = 0;
  for (uint32_t i = 0; i < nmoved; i++) {
    uint32_t id = moved_list[i].id; uintptr_t nw = M[id].addr; M[id].addr = moved_list[i].old; shadow_clear(id); M[id].addr = nw; PROBE(moved);
  }
  for (uint32_t i = 0; i < nalive; i++) { uint32_t id = alive_list[i]; if (M[id].seen != wepoch) {
      if (M[id].mark == cserial && !(M[id].kind == K_EPH))
        V("model", "object #%u required but not reached by the walk", id);
      shadow_clear(id); } }
  for (uint32_t i = 0; i < nmoved; i++) shadow_set("after collection", moved_list[i].id);
  uint32_t j = 0;
  for (uint32_t i = 0; i < nalive; i++) {
    uint32_t id = alive_list[i];
    if (M[id].seen != wepoch) { drop_object(id); continue; }
    alive_list[j++] = id; live += sz_round(osize(id)); kept++;
    M[id].isold = 1;
    check_payload(id);
  }
  nalive = j;
  // Nothing keeps an unreachable external object's fields up to date: forget them.
  for (int k = 0; k < next; k++) if (ext[k].seen != wepoch) for (int i = 0; i < ext[k].nf; i++) { ext[k].f[i] = 0; OBJ_FIELDS(ext_addr(k))[i] = 0; }
  live_after_gc = live; alloc_since_gc = 0;
  PROBE_MAX(max_live_kb, live >> 10); PROBE_MAX(max_objects, kept);
  if (is_full()) last_full_live = live;
  sim_noyield = ny;
}

// ------------------------------------------------------------------ embedder callbacks
static void gc_object_checks(uintptr_t obj, uint32_t id) {
  struct mobj *o = &M[id];
  if (!o->alive) {
    if (precise() && is_full() && !(o->kind == K_EPH)) V("retained-garbage", "full gc %u (%s) traced %s #%u, unreachable since an earlier collection", gcn, gckind(cur_kind), kname(o->kind), id);
    return;
  }
  uintptr_t at = o->fwd == gcn ? o->faddr : o->addr;
  if (obj != at) V("stale-copy", "gc %u (%s) traced %s #%u at %lx but it lives at %lx", gcn, gckind(cur_kind), kname(o->kind), id, obj, at);
  o->traced = gcn;
  if (precise() && is_full() && o->mark != cserial && !(o->kind == K_EPH && o->dead))
    V("retained-garbage", "full gc %u (%s) retained %s #%u (%zu bytes), unreachable when the collection began", gcn, gckind(cur_kind), kname(o->kind), id, osize(id));
}
void h_on_trace(uintptr_t obj, int kind) {
  sim_tso_flush();
  if (!world_stopped) V("trace-outside-gc", "object %lx traced while mutators run", obj);
  PROBE(traced);
  if (kind == K_EXT) {
    if (obj < SIM_EXT_BASE + 4096 || (obj - SIM_EXT_BASE - 4096) % EXT_STRIDE || (obj - SIM_EXT_BASE - 4096) / EXT_STRIDE >= (uintptr_t)next) V("extern-garbage", "traced bogus external object %lx", obj);
    int k = (obj - SIM_EXT_BASE - 4096) / EXT_STRIDE;
    if (ext[k].visited_gc != gcn) V("extern-traced-unvisited", "external object %d traced without having been newly visited in gc %u", k, gcn);
    if (ext[k].traced_gc == gcn) V("extern-traced-twice", "external object %d traced twice in gc %u", k, gcn);
    ext[k].traced_gc = gcn; PROBE(extern_traced);
    return;
  }
  struct ohdr *h = (void *)obj; uint64_t id = (h->idw & ~(0xffffULL << 48)) >> 1;
  if (!(h->idw & 1) || h->idw >> 48 != 0x5a5a || !id || id > nobj || h->tag != MK_TAG(M[id].kind, M[id].nf, M[id].nw))
    V("traced-garbage", "gc %u (%s) traced %lx, which holds no object (tag %lx id word %lx)", gcn, gckind(cur_kind), obj, h->tag, h->idw);
  gc_object_checks(obj, id);
}
// Known finding F1: a worker that lost the race to evacuate an object that was
// marked in place instead claims its header for an instant, possibly while the
// object is being traced.  Wait that out (unless asked not to), but only accept
// it if the header comes back as it was.
uintptr_t h_busy_tag(uintptr_t obj) {
  sim_tso_flush();
  struct ohdr *h = (void *)obj; uint64_t id = (h->idw & ~(0xffffULL << 48)) >> 1;
  if (P.strict_busy || cur_kind != CK_COMPACTING || !VI.parallel || VI.collector != COL_MMC)
    V("traced-busy", "gc %u (%s) traced %lx (#%lu), whose header is claimed by a worker that is not going to move it", gcn, gckind(cur_kind), obj, id);
  PROBE(busy_trace);
  uint64_t tag = 0;
  for (int i = 0; i < 1000000 && !(tag = *(volatile uint64_t *)&h->tag); i++) sim_sched_yield();
  if (!(tag & 1)) V("traced-garbage", "gc %u (%s) traced %lx (#%lu), which was then evacuated to %lx", gcn, gckind(cur_kind), obj, id, tag);
  return tag;
}
void h_on_forward(uintptr_t from, uintptr_t to) {
  sim_tso_flush();
  if (!world_stopped) V("forward-outside-gc", "object %lx moved to %lx while mutators run", from, to);
  PROBE(forwarded);
  struct ohdr *h = (void *)from; uint64_t id = (h->idw & ~(0xffffULL << 48)) >> 1;
  if (!(h->idw & 1) || h->idw >> 48 != 0x5a5a || !id || id > nobj) V("traced-garbage", "gc %u moved %lx, which holds no object (id word %lx)", gcn, from, h->idw);
  struct mobj *o = &M[id];
  if (!o->alive) return;
  if (o->fwd == gcn) V("two-copies", "%s #%lu copied twice in gc %u (%s): to %lx and from %lx to %lx", kname(o->kind), id, gcn, gckind(cur_kind), o->faddr, from, to);
  if (o->addr != from) V("stale-copy", "%s #%lu moved from %lx but it lives at %lx", kname(o->kind), id, from, o->addr);
  if (o->pinned) V("pinned-moved", "pinned %s #%lu moved from %lx to %lx in gc %u (%s)", kname(o->kind), id, from, to, gcn, gckind(cur_kind));
  if (VI.collector == COL_MMC && !mmc_may_move()) V("moved", "object #%lu moved in a non-compacting collection (%s)", id, gckind(cur_kind));
  o->fwd = gcn; o->faddr = to;
}
int sim_sched_yield(void);
int h_extern_visit(struct gc_extern_space *s, uintptr_t *loc, uintptr_t ref) {
  sim_tso_flush();
  if ((void *)s != (void *)ext) V("extern-space-wrong", "gc_extern_space_visit called with space %p", (void *)s);
  if (!world_stopped || !ext_in_gc) V("extern-visit-outside-gc", "gc_extern_space_visit outside start/finish");
  if (ref < SIM_EXT_BASE + 4096 || (ref - SIM_EXT_BASE - 4096) % EXT_STRIDE || (ref - SIM_EXT_BASE - 4096) / EXT_STRIDE >= (uintptr_t)next) {
    // Name the object that used to live there, if any.
    uint32_t id = 0;
    if (ref >= SIM_OS_BASE && ref < SIM_OS_BASE + SIM_OS_SIZE) id = shadow[(ref - SIM_OS_BASE) >> 3];
    V("extern-garbage", "reference %lx (last known object #%u) found at %lx belongs to no space (gc %u %s)", ref, id, (uintptr_t)loc, gcn, gckind(cur_kind));
  }
  if (loc && *loc != ref) V("extern-garbage", "extern visit: location %lx does not hold %lx", (uintptr_t)loc, ref);
  int k = (ref - SIM_EXT_BASE - 4096) / EXT_STRIDE;
  ext[k].visits++; PROBE(extern_visits);
  if (ext[k].visited_gc == gcn) return 0;
  ext[k].visited_gc = gcn;
  return P.ext_trace;
}
void h_extern_start(struct gc_extern_space *s, int is_minor) {
  sim_tso_flush();
  if (ext_in_gc) V("extern-protocol", "gc_extern_space_start_gc twice without finish");
  if (!world_stopped) V("extern-protocol", "gc_extern_space_start_gc while mutators run");
  if (is_minor != (cur_kind == CK_MINOR)) V("extern-protocol", "extern start is_minor=%d in a %s collection", is_minor, gckind(cur_kind));
  ext_in_gc = 1; ext_minor = is_minor; ext_starts++;
}
void h_extern_finish(struct gc_extern_space *s, int is_minor) {
  sim_tso_flush();
  if (!ext_in_gc) V("extern-protocol", "gc_extern_space_finish_gc without start");
  if (is_minor != ext_minor) V("extern-protocol", "extern finish is_minor=%d after start %d", is_minor, ext_minor);
  ext_in_gc = 0; ext_starts |= 1 << 30;
}

// ------------------------------------------------------------------ events
static int hphase; // 0 idle 1 requested 2 waiting 3 stopped 4 prepared 5 roots 6 heap 7 eph 8 fin
static int live_seen; static size_t live_reported, live_prev, occ_at_gc; static int init_seen;
static uint64_t stop_alloc_total, counter_max_seen;
static uint8_t *gkinds; static uint32_t ngk; // kind of each collection begun
static uint32_t first_gc_seen;
static const char *hev_names[] = { "requesting_stop", "waiting_for_stop", "mutators_stopped", "prepare_gc", "roots_traced", "heap_traced", "ephemerons_traced", "finalizers_traced", "restarting_mutators", "heap_resized", "live_data_size" };
// --- listeners chained in front of this one: a trivial one, then the bundled statistics
enum { PRE_MUT = 100 };
static int pre_code[SIM_MAXFIB]; static uintptr_t pre_arg[SIM_MAXFIB];
static uint64_t pre_time[SIM_MAXFIB];
static int resizing;
static const char *ev_name(int code);
static void pre_note(int code, uintptr_t arg) {
  int f = sim_self();
  if (pre_code[f]) V("event-chain", "%s event was not passed on to every chained listener", ev_name(pre_code[f] - 1));
  pre_code[f] = code + 1; pre_arg[f] = arg; pre_time[f] = sim_now();
}
// The same event must have reached the listener before this one.
static void pre_check(int code, uintptr_t arg) {
  if (!P.stats) return;
  int f = sim_self(), got = pre_code[f]; pre_code[f] = 0;
  if (!got) V("event-chain", "%s event reached the last of the chained listeners only", ev_name(code));
  if (got != code + 1) V("event-chain", "chained listeners saw %s as %s", ev_name(code), ev_name(got - 1));
  if (arg != pre_arg[f]) V("event-chain", "chained listeners saw %s with different arguments, %lu and %lu", ev_name(code), pre_arg[f], arg);
}
struct pre_mut { uint64_t magic; int fiber; };
static void *pre_data;
void h_pre_heap(void *data, int ev, uintptr_t arg) {
  sim_tso_flush();
  if (ev == HE_INIT) pre_data = data;
  if (data != pre_data) V("event-data", "%s event delivered with data %p", ev_name(ev), data);
  if (ev == HE_HEAP_RESIZED) resizing++;
  pre_note(ev, arg);
}
void *h_pre_mutator_added(void *data) {
  sim_tso_flush();
  if (data != pre_data) V("event-data", "mutator_added delivered with data %p", data);
  struct pre_mut *e = sim_priv_alloc(sizeof *e); e->magic = 0x707265; e->fiber = sim_self();
  pre_note(PRE_MUT + ME_REMOVED + 1, 0); return e;
}
void h_pre_mutator(void *d, int ev) {
  sim_tso_flush();
  struct pre_mut *e = d;
  if ((uintptr_t)d < SIM_PRIV_BASE || (uintptr_t)d > SIM_PRIV_BASE + SIM_PRIV_SIZE || e->magic != 0x707265) V("event-data", "%s delivered with data %p", ev_name(PRE_MUT + ev), d);
  if (e->fiber != sim_self()) V("event-data", "%s of thread %d delivered on thread %d", ev_name(PRE_MUT + ev), e->fiber, sim_self());
  pre_note(PRE_MUT + ev, 0);
}
// What the statistics must say.  The listener read the clock between the two
// listeners around it, so each of its readings is known to an interval.
struct ivl { uint64_t lo, hi; };
#define MAXPAUSE 200000
static struct ivl *pauses; static uint32_t npauses, nminor_st, nmajor_st;
static struct ivl t_last, cpu_last, sum_mut, sum_gc, sum_cmut, sum_cgc; static uint64_t max_live_st;
static struct ivl ivl_now(void) { return (struct ivl){ pre_time[sim_self()] / 1000, sim_now() / 1000 }; }
static struct ivl ivl_cpu(void) { return (struct ivl){ sim_cpu_of(pre_time[sim_self()]) / 1000, sim_cpu_of(sim_now()) / 1000 }; }
static struct ivl ivl_since(struct ivl a, struct ivl b) { return (struct ivl){ b.lo > a.hi ? b.lo - a.hi : 0, b.hi - a.lo }; }
static void ivl_add(struct ivl *s, struct ivl d) { s->lo += d.lo; s->hi += d.hi; }
static void stats_event(int ev, uintptr_t arg) {
  if (!P.stats) return;
  struct ivl t = ivl_now(), c = ivl_cpu();
  switch (ev) {
  case HE_INIT: t_last = t; cpu_last = c; break;
  case HE_REQUESTING_STOP: ivl_add(&sum_mut, ivl_since(t_last, t)); ivl_add(&sum_cmut, ivl_since(cpu_last, c)); t_last = t; cpu_last = c; break;
  case HE_RESTARTING:
    if (!pauses) pauses = sim_priv_alloc(sizeof *pauses * MAXPAUSE);
    if (npauses < MAXPAUSE) pauses[npauses++] = ivl_since(t_last, t);
    ivl_add(&sum_gc, ivl_since(t_last, t)); ivl_add(&sum_cgc, ivl_since(cpu_last, c)); t_last = t; cpu_last = c; break;
  case HE_PREPARE_GC: if (arg == CK_MINOR) nminor_st++; else nmajor_st++; break;
  case HE_LIVE_DATA_SIZE: if (arg > max_live_st) max_live_st = arg; break;
  case HE_HEAP_RESIZED: resizing--; break;
  }
}
static int cmp_u64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
#define IN(what, v, iv) do { if ((v) < (iv).lo || (v) > (iv).hi) V("statistics", "%s is %lu us; the events say between %lu and %lu", what, (v), (iv).lo, (iv).hi); } while (0)
#define EQ(what, v, w) do { if ((v) != (w)) V("statistics", "%s is %lu; the events say %lu", what, (uint64_t)(v), (uint64_t)(w)); } while (0)
// A reported quantile is the upper edge of the bucket that holds the value, and a bucket is no wider than 1/16 of it.
static void check_quantile(const char *what, uint64_t v, double p, const uint64_t *lo, const uint64_t *hi) {
  double n = npauses * p; uint32_t k1 = n - 1e-6 < 0 ? 0 : (uint32_t)(n - 1e-6), k2 = (uint32_t)(n + 1e-6);
  if (k1 < n - 1e-6) k1++; if (k2 < n + 1e-6) k2++;
  if (k1 < 1) k1 = 1; if (k2 < 1) k2 = 1; if (k2 > npauses) k2 = npauses; if (k1 > npauses) k1 = npauses;
  uint64_t h = hi[k2 - 1], up = h + (h / 16 > 1 ? h / 16 : 1);
  if (v <= lo[k1 - 1] || v > up) V("statistics", "%s pause is reported as %lu us; number %u of %u pauses took between %lu and %lu us", what, v, k1, npauses, lo[k1 - 1], h);
}
static void check_stats(void) {
  if (!P.stats) return;
  struct mo_stats s; uint64_t t0 = sim_now();
  mo_stats_read(&s);
  pre_time[sim_self()] = t0;
  struct ivl t = ivl_now(), c = ivl_cpu(); PROBE(stats_checks);
  EQ("number of minor collections", s.minor, nminor_st); EQ("number of other collections", s.major, nmajor_st);
  EQ("number of pauses", s.count, npauses);
  if (!resizing) { EQ("heap size", s.heap, heap_size_now); EQ("largest heap size", s.max_heap, heap_size_max_seen); }
  EQ("live data size", s.live, live_reported); EQ("largest live data size", s.max_live, max_live_st);
  ivl_add(&sum_mut, ivl_since(t_last, t)); ivl_add(&sum_cmut, ivl_since(cpu_last, c));
  IN("elapsed mutator time", s.elapsed_mutator, sum_mut); IN("elapsed collector time", s.elapsed_collector, sum_gc);
  IN("mutator processor time", s.cpu_mutator, sum_cmut); IN("collector processor time", s.cpu_collector, sum_cgc);
  if (!npauses || npauses == MAXPAUSE) return;
  uint64_t *lo = sim_priv_alloc(8UL * npauses), *hi = sim_priv_alloc(8UL * npauses);
  for (uint32_t i = 0; i < npauses; i++) { lo[i] = pauses[i].lo; hi[i] = pauses[i].hi; }
  qsort(lo, npauses, 8, cmp_u64); qsort(hi, npauses, 8, cmp_u64);
  if (hi[npauses - 1] >= 1ULL << 28) { PROBE(stats_overflow); return; } // longer than the histogram measures
  if (s.min > hi[0] || s.min + s.min / 16 + 1 < lo[0]) V("statistics", "shortest pause is reported as %lu us; it took between %lu and %lu us", s.min, lo[0], hi[0]);
  check_quantile("longest", s.max, 1, lo, hi); check_quantile("median", s.median, 0.5, lo, hi);
  static const double ps[] = { 0.01, 0.1, 0.25, 0.75, 0.95, 0.99, 1.0 };
  for (unsigned i = 0; i < sizeof ps / sizeof *ps; i++) { char b[40]; snprintf(b, sizeof b, "%g%% percentile", ps[i] * 100); check_quantile(b, mo_stats_percentile(ps[i]), ps[i], lo, hi); }
}
void h_ev_init(void *data, size_t heap_size) {
  sim_tso_flush();
  pre_check(HE_INIT, heap_size); stats_event(HE_INIT, heap_size);
  if (data != HL) V("event-data", "init event delivered with data %p", data);
  if (init_seen++) V("event-order", "init event delivered twice");
  heap_size_now = heap_size; heap_size_max_seen = heap_size; hs_frag = heap_size;
  if (labs((long)heap_size - P.heap_kb * 1024) > 8 << 20) V("heap-size", "init reports heap size %zu, configured %ld KB", heap_size, P.heap_kb);
}
// The documented bounds of the adaptive policy around live data L.
static double adaptive_lo(double L) { double a = 1.1 * L, b = L + (4 << 20); return a > b ? a : b; }
static double adaptive_hi(double L) { double a = 5 * L, b = L + (4 << 20); return a > b ? a : b; }
static uint64_t req_size[SIM_MAXFIB]; static uint32_t req_gc[SIM_MAXFIB];
// Some allocation is still waiting after a whole collection: then the heap may grow a little beyond the policy.
static size_t hs_gc_start;
static int waited_growth(size_t size) {
  size_t was = heap_size_now > hs_gc_start ? heap_size_now : hs_gc_start; // the sizer may first have shrunk it in this collection
  if (!world_stopped || size <= heap_size_now || size > was + (P.nmut * P.waves + 1) * (256UL << 10)) return 0;
  for (int i = 0; i < SIM_MAXFIB; i++) if (req_size[i] && gcn - req_gc[i] >= 2) { PROBE(waited_growths); return 1; }
  return 0;
}
static int grew_waiting;
static int sizer_exact(void) { return VI.collector != COL_MMC; } // mmc estimates live data; at least what was found live
static void check_resize(size_t size) {
  double tol = VI.collector == COL_SEMI ? 16384 : 16;
  if (world_stopped) grew_waiting = 0;
  if (!world_stopped && sim_self() != sim_bg_fiber) { PROBE(forced_growth); // a large allocation that did not fit
    if (size < heap_size_now) V("heap-size-policy", "a mutator shrank the heap from %zu to %zu", heap_size_now, size);
    return; }
  double L0 = live_reported, L1 = world_stopped && live_seen ? live_reported : L0;
  if (world_stopped && !live_seen) sim_internal("resize before live data size");
  if (world_stopped) L0 = live_prev;
  double lo = L0 < L1 ? L0 : L1, hi = L0 < L1 ? L1 : L0;
  if (P.policy == 2) {
    PROBE(adaptive_checks);
    if (VI.collector != COL_SEMI && size + tol < adaptive_lo(lo)) V("heap-size-policy", "adaptive heap resized to %zu with %.0f bytes live: below the minimum %.0f", size, lo, adaptive_lo(lo));
    if (!sizer_exact()) { hi = heap_size_max_seen; if (occ_at_gc > hi) hi = occ_at_gc; }
    if (size > adaptive_hi(hi) + tol && !(grew_waiting = waited_growth(size))) V("heap-size-policy", "adaptive heap resized to %zu with %.0f bytes live: above the maximum %.0f", size, hi, adaptive_hi(hi));
  } else if (P.policy == 1) {
    PROBE(growable_checks);
    if (!world_stopped) V("heap-size-policy", "growable heap resized to %zu by the background thread", size);
    if (sizer_exact() && VI.collector != COL_SEMI && size > P.mult_pct / 100.0 * L1 + tol && !waited_growth(size)) V("heap-size-policy", "growable heap resized to %zu with %.0f bytes live; multiplier %.2f", size, L1, P.mult_pct / 100.0);
  }
}
static void check_size_after_gc(void) {
  double L = live_reported;
  if (VI.collector == COL_SEMI) return; // grows over two collections
  if (P.policy == 1 && P.mult_pct && heap_size_now + 16 < P.mult_pct / 100.0 * L) V("heap-size-policy", "growable heap is %zu bytes after a collection that found %.0f bytes live; multiplier %.2f", heap_size_now, L, P.mult_pct / 100.0);
  if (P.policy == 2 && heap_size_now + 16 < adaptive_lo(L)) V("heap-size-policy", "adaptive heap is %zu bytes after a collection that found %.0f bytes live", heap_size_now, L);
  int gw = grew_waiting; grew_waiting = 0;
  if (P.policy == 2 && sizer_exact() && !gw && heap_size_now > adaptive_hi(L) + 16) V("heap-size-policy", "adaptive heap is still %zu bytes after a collection that found %.0f bytes live", heap_size_now, L);
}
static size_t hs_at_gc, los_after_gc;
static size_t large_live(void) { size_t n = 0; for (uint32_t i = 0; i < nalive; i++) if (M[alive_list[i]].large) n += (osize(alive_list[i]) + 4095) & ~4095UL; return n; }
static int live_kind;
// Measured excess is nil except in generational pcc, whose nursery is filled beyond the heap size.
static size_t footprint_slack(void) { return VI.collector == COL_PCC && VI.generational ? 4 << 20 : 512 << 10; }
static size_t stop_size; // when the world stopped
static uint64_t foot_occ; // largest occupancy seen above the announced heap size, until a resize or a collection settles it
static uint64_t foot_cap(void) { return hs_frag > live_after_gc ? hs_frag : live_after_gc; }
static void foot_settle(void) {
  uint64_t cap = foot_cap();
  if (foot_occ > cap + footprint_slack())
    V("footprint", "objects occupied %lu bytes (%lu live after the last collection) in a heap of %lu bytes", foot_occ, live_after_gc, cap);
  foot_occ = 0;
}
// What pcc loses at the ends of regions counts as live: each loses less than the object that didn't fit, so
// all together lose less than the largest survivors, one for each region.
static size_t region_ends(size_t live) {
  size_t regions = live / (65536 - 8192) + 8, count[130] = { 0 }, sum = 0;
  for (uint32_t i = 0; i < nalive; i++) if (!M[alive_list[i]].large && osize(alive_list[i]) <= 8256) count[(osize(alive_list[i]) + 63) / 64]++;
  for (int b = 129; b > 0 && regions; b--) { size_t n = count[b] < regions ? count[b] : regions; sum += n * b * 64; regions -= n; }
  return sum;
}
static void check_live_reported(void) {
  size_t lo = live_after_gc, hi = live_after_gc;
  if (VI.collector == COL_MMC) { lo = los_after_gc < hs_at_gc ? los_after_gc : hs_at_gc; }
  if (live_reported < lo) PROBE_MAX(max_live_under_kb, 1 + ((lo - live_reported) >> 10));
  if (live_reported + (VI.collector == COL_MMC ? 4096 : 0) < lo) V("live-data-size", "collection reported %zu bytes of live data, but %zu bytes are live", live_reported, lo);
  if (VI.collector == COL_SEMI) hi += req_size[sim_self()];
  if (live_kind < CK_MAJOR || !precise()) return;
  if (live_reported > hi) PROBE_MAX(max_live_over_kb, 1 + ((live_reported - hi) >> 10));
  size_t tol = 512 * 1024;
  if (VI.collector == COL_PCC && live_reported > hi + tol && region_ends(hi) > tol) tol = region_ends(hi);
  if (live_reported > hi + tol) V("live-data-size", "full collection reported %zu bytes of live data, but only %zu bytes are live", live_reported, hi);
}
static void phase(int ev, int from, int to) {
  if (hphase != from) V("event-order", "%s event in phase %d, expected phase %d (gc %u)", hev_names[ev], hphase, from, gcn);
  hphase = to;
}
void h_ev_heap(void *data, int ev, uintptr_t arg) {
  sim_tso_flush();
  pre_check(ev, arg); stats_event(ev, arg);
  if (data != HL) V("event-data", "%s event delivered with data %p", hev_names[ev], data);
  sim_vlog("event %s %lu", hev_names[ev], arg);
  sim_mix(ev * 1000003 + arg);
  switch (ev) {
  case HE_REQUESTING_STOP: phase(ev, 0, 1); gc_fiber = sim_self(); break;
  case HE_WAITING_FOR_STOP: phase(ev, 1, 2); break;
  case HE_MUTATORS_STOPPED:
    phase(ev, 2, 3);
    for (int i = 0; i < nmu; i++) { struct mut *m = &MU[i];
      if (m->where == W_NONE || m->where == W_GONE || !m->me) continue;
      if (VI.collector == COL_SEMI) continue;
      int ok = 0;
      switch (m->me->state) {
      case MS_STOPPED: ok = 1; break;
      case MS_CAUSE: ok = m->fiber == sim_self(); break;
      case MS_REMOVED: ok = 1; break;
      case MS_RUN: ok = m->where == W_NOGC || m->where == W_INIT; if (m->where == W_NOGC) PROBE(nogc_during_gc); break;
      }
      if (!ok) V("not-stopped", "collection %u began while mutator %d is %s (event state %d)", gcn + 1, m->idx, where_names[m->where], m->me->state);
    }
    foot_settle(); stop_size = heap_size_now;
    world_stopped = 1; gcn++; stop_alloc_total = alloc_bytes_total; live_seen = 0; ext_starts = 0;
    if (live_after_gc + alloc_since_gc > occ_at_gc) occ_at_gc = live_after_gc + alloc_since_gc;
    break;
  case HE_PREPARE_GC: hs_gc_start = heap_size_now;
    phase(ev, 3, 4);
    cur_kind = (int)arg;
    if (arg < CK_MINOR || arg > CK_COMPACTING) V("event-order", "prepare_gc with kind %lu", arg);
    if (arg == CK_COMPACTING && VI.cons_trace) V("gc-kind", "compacting collection in a heap-conservative configuration");
    R->gcs[arg]++; if (arg == CK_MINOR) PROBE(gc_minor); else if (arg == CK_MAJOR) PROBE(gc_major); else PROBE(gc_compacting);
    if (ngk < MAXOBJ) gkinds[ngk++] = arg;
    closure_full(1);
    break;
  case HE_ROOTS_TRACED: phase(ev, 4, 5); break;
  case HE_HEAP_TRACED: phase(ev, 5, 6); break;
  case HE_EPHEMERONS_TRACED: phase(ev, 6, 7); break;
  case HE_FINALIZERS_TRACED: phase(ev, 7, 8); break;
  case HE_LIVE_DATA_SIZE:
    if (hphase < 4 || hphase > 8 || live_seen) V("event-order", "live_data_size in phase %d (seen %d)", hphase, live_seen);
    live_seen = 1; live_prev = live_reported; live_reported = arg;
    if (VI.collector == COL_MMC && gcn > 1) check_live_reported(); // of the previous collection
    break;
  case HE_RESTARTING:
    phase(ev, 8, 0);
    if (sim_self() != gc_fiber) V("event-order", "restarting event from another thread");
    if (!live_seen) V("event-order", "collection %u finished without live_data_size event", gcn);
    if (ext_in_gc) V("extern-protocol", "collection finished without gc_extern_space_finish_gc");
    if (ext_starts != (1 | 1 << 30)) V("extern-protocol", "collection %u: extern start/finish calls %x", gcn, ext_starts);
    verify_heap();
    hs_at_gc = heap_size_now; live_kind = cur_kind; los_after_gc = large_live();
    if (VI.collector != COL_MMC) check_live_reported();
    check_size_after_gc();
    if (VI.collector != COL_MMC) hs_frag = heap_size_now;
    else if (cur_kind == CK_COMPACTING) hs_frag = stop_size > heap_size_now ? stop_size : heap_size_now;
    for (int i = 0; i < nmu; i++) if (MU[i].me && MU[i].fiber == gc_fiber && MU[i].me->state == MS_CAUSE) MU[i].me->state = MS_RUN;
    if (is_full()) {
      if (!VI.cons_trace) for (uint32_t i = 0; i < nfin; i++) if (M[fin_list[i]].traced != gcn) V("finalizer-lost", "attached finalizer #%u was not traced in full gc %u", fin_list[i], gcn);
      for (int k = 0; k < next; k++) if (ext[k].must == wepoch) {
        if (ext[k].visited_gc != gcn) V("extern-not-visited", "external object %d is referenced by a live object but was not offered to the embedder in gc %u (%s)", k, gcn, gckind(cur_kind));
        if (P.ext_trace && ext[k].traced_gc != gcn) V("extern-not-traced", "external object %d newly visited in gc %u but its fields were not traced", k, gcn);
      }
      if (precise()) PROBE(full_precise_checks);
    }
    world_stopped = 0; sim_progress();
    if (++gcs_idle > 100) sim_set_fair(1);
    if (gcs_idle > 1000) V("gc-livelock", "%u collections in a row without an allocation succeeding or an operation completing", gcs_idle);
    break;
  case HE_HEAP_RESIZED: {
    PROBE(resizes);
    if (P.policy == 0) { if (arg != heap_size_now) V("heap-resized-fixed", "heap_resized to %lu (from %zu) under the fixed policy", arg, heap_size_now); }
    if (P.policy == 1 && arg < heap_size_now) V("heap-shrunk-growable", "heap_resized from %zu to %lu under the growable policy", heap_size_now, arg);
    if (P.maxheap_kb && arg > (size_t)P.maxheap_kb * 1024 + (8 << 20)) V("heap-above-maximum", "heap_resized to %lu above the configured maximum", arg);
    if (arg < (P.tiny ? 1 << 12 : 1 << 16) || arg > (4UL << 30)) V("heap-size-absurd", "heap_resized to %lu", arg);
    if (P.policy) check_resize(arg);
    heap_size_now = arg; if (arg > heap_size_max_seen) heap_size_max_seen = arg;
    if (arg > hs_frag) hs_frag = arg;
    if (foot_occ) foot_settle();
    break; }
  }
}
static struct mut *mut_of_fiber(int f) { for (int i = 0; i < nmu; i++) if (MU[i].fiber == f && MU[i].where != W_NONE && MU[i].where != W_GONE) return &MU[i]; return NULL; }
void *h_ev_mutator_added(void *data) {
  sim_tso_flush();
  pre_check(PRE_MUT + ME_REMOVED + 1, 0);
  if (data != HL) V("event-data", "mutator_added delivered with data %p", data);
  struct mut *m = mut_of_fiber(sim_self());
  if (!m || m->where != W_INIT || m->me) V("event-order", "mutator_added on a thread that is not joining");
  struct me *e = sim_priv_alloc(sizeof *e);
  e->magic = 0x6d65; e->fiber = m->fiber; e->state = MS_RUN; e->m = m; m->me = e;
  PROBE(threads_started);
  return e;
}
static const char *ev_name(int code) {
  static const char *mn[] = { "mutator_cause_gc", "mutator_stopping", "mutator_stopped", "mutator_restarted", "mutator_removed", "mutator_added" };
  return code >= PRE_MUT ? mn[code - PRE_MUT] : code == HE_INIT ? "init" : hev_names[code];
}
static const char *mev_names[] = { "mutator_cause_gc", "mutator_stopping", "mutator_stopped", "mutator_restarted", "mutator_removed" };
void h_ev_mutator(void *d, int ev) {
  sim_tso_flush();
  pre_check(PRE_MUT + ev, 0);
  struct me *e = d;
  if ((uintptr_t)d < SIM_PRIV_BASE || (uintptr_t)d > SIM_PRIV_BASE + SIM_PRIV_SIZE || e->magic != 0x6d65) V("event-data", "%s delivered with data %p", mev_names[ev], d);
  if (e->fiber != sim_self()) V("event-data", "%s of thread %d delivered on thread %d", mev_names[ev], e->fiber, sim_self());
  sim_vlog("event %s mutator %d", mev_names[ev], e->m->idx);
  if (world_stopped && ev != ME_REMOVED) V("event-order", "%s of mutator %d during a collection", mev_names[ev], e->m->idx);
  int s = e->state, ok = 0;
  switch (ev) {
  case ME_CAUSE_GC: ok = s == MS_RUN; e->state = MS_CAUSE; break;
  case ME_STOPPING: ok = s == MS_RUN; e->state = MS_STOPPING; break;
  case ME_STOPPED: ok = s == MS_STOPPING; e->state = MS_STOPPED; break;
  case ME_RESTARTED: ok = s == MS_STOPPED; e->state = MS_RUN; break;
  case ME_REMOVED: ok = s == MS_RUN && e->m->where == W_EXIT; e->state = MS_REMOVED; PROBE(threads_exited); break;
  }
  if (!ok) V("event-order", "%s of mutator %d in state %d (%s)", mev_names[ev], e->m->idx, s, where_names[e->m->where]);
}
static uint64_t fin_reported, fin_popped_n;
static void fin_callback(void *heap, size_t n) {
  sim_tso_flush();
  if (heap != HEAP) V("finalizer-callback", "callback with heap %p", heap);
  if (!n) V("finalizer-callback", "callback reports zero finalizers");
  fin_reported += n; PROBE(fin_callback);
  if (fin_reported > fin_popped_n + nfin) V("finalizer-callback", "callback has reported %lu finalizers; only %lu were ever attached", fin_reported, fin_popped_n + nfin);
}

// ------------------------------------------------------------------ gc calls
static void gc_enter(struct mut *m) {
  if (world_stopped) V("ran-during-collection", "mutator %d runs user code during collection %u", m->idx, gcn);
  if (m->me && VI.collector != COL_SEMI && m->me->state != MS_RUN) V("event-order", "mutator %d runs user code in event state %d", m->idx, m->me->state);
  m->where = W_GCCALL;
}
static void gc_leave(struct mut *m, const char *op) {
  if (world_stopped) V("ran-during-collection", "mutator %d returned from %s during collection %u", m->idx, op, gcn);
  if (m->me) {
    if (VI.collector != COL_SEMI && m->me->state != MS_RUN) V("event-order", "mutator %d returned from %s in event state %d", m->idx, op, m->me->state);
  }
  m->where = W_USER;
}
static uint32_t rn(struct mut *m, uint32_t n) { return sim_rndn(&m->r, n); }
static uintptr_t slot_base(struct mut *m, int k) { return m->slots[k] - m->off[k]; }
static void slot_put(struct mut *m, int k, int32_t e) { m->ms[k] = e; m->off[k] = 0; m->slots[k] = e ? word_of(e) : 0; }
static int pick_obj(struct mut *m, int kind) {
  for (int t = 0; t < 6; t++) { int k = rn(m, m->ns); int32_t e = m->ms[k]; if (e > 0 && (kind < 0 || M[e].kind == kind)) return k; }
  return -1;
}
static int free_slot(struct mut *m) { int k = rn(m, m->ns); for (int t = 0; t < 4; t++) { int j = rn(m, m->ns); if (!m->ms[j]) return j; } return k; }

static int nhuge;
static uint64_t budget_mark, live_limit(void), last_live;
static int over_budget;
static uint64_t live_limit(void) { return (uint64_t)heap_size_cfg / 100 * P.live_pct; }
static void drop_some(struct mut *m, int num, int den) { for (int k = 0; k < m->ns; k++) if ((int)rn(m, den) < num) slot_put(m, k, 0); }
static void op_safepoint(struct mut *m);
static void pop_one(struct mut *m, int keep);
static void ext_store(int k, int i, int32_t e);
static void relief(struct mut *m) {
  PROBE(relief);
  for (int i = 0; i < nmu; i++) if (MU[i].where != W_NONE && MU[i].where != W_GONE && &MU[i] != m) MU[i].relief = 1;
  for (int round = 0; round < 12; round++) {
    drop_some(m, 3, 4);
    for (int i = 0; i < (int)hroots.n; i++) if (!IS_CHAIN(hr_enc[i]) && rn(m, 3)) { hr_enc[i] = 0; hroots.slots[i] = 0; }
    for (int i = 0; i < nglob; i++) if (rn(m, 3)) { glob_enc[i] = 0; glob[i] = 0; }
    for (int k = 0; k < next; k++) for (int i = 0; i < ext[k].nf; i++) if (rn(m, 3)) ext_store(k, i, 0);
    if (nfin && round > 2) for (int i = 0; i < 8; i++) pop_one(m, 0);
    // mark old chain members dead so that associations can go away
    if (round > 1) for (int c = 0; c < nchains; c++) { int n = 0; for (int32_t q = chains[c].head; q; q = M[q].cnext) if (n++ > 4 && !M[q].dead && M[q].push_done) { M[q].dead_inv = ++opstamp; mo_eph_mark_dead((void *)M[q].addr); M[q].dead = 1; M[q].dead_done = ++opstamp; } }
    last_live = live_bytes_model();
    if (last_live <= live_limit()) { over_budget = 0; return; }
    op_safepoint(m); sim_sleep_ns(20000); op_safepoint(m);
  }
  over_budget = 1;
}
static void budget(struct mut *m, size_t upcoming) {
  if (!P.bounded_live) return;
  if (alloc_bytes_total + upcoming - budget_mark > heap_size_cfg / 32) {
    budget_mark = alloc_bytes_total + upcoming;
    last_live = live_bytes_model();
    if (last_live + upcoming > live_limit()) relief(m);
  }
}
static int32_t model_new(struct mut *m, uintptr_t p, int kind, uint32_t nf, uint32_t nw, int ak) {
  if (nobj + 2 >= MAXOBJ) sim_finish_expected("object-table-full");
  uint32_t id = ++nobj; struct mobj *o = &M[id];
  size_t size = (size_t)nw * 8;
  o->kind = kind; o->nf = nf; o->nw = nw; o->ak = ak; o->large = size > VI.large_threshold; o->chain = -1; o->born = gcn;
  o->addr = p; o->f = fld_alloc(nf < 2 ? 2 : nf);
  char what[48]; snprintf(what, sizeof what, "new %s", kname(kind));
  if (!p) V("null-allocation", "allocation of %zu bytes returned null", size);
  if (p & 7 || (o->large ? p & 4095 : p & (VI.granule - 1))) V("misaligned", "%s of %zu bytes allocated at %lx", kname(kind), size, p);
  if (p < SIM_OS_BASE || p + size > SIM_OS_BASE + SIM_OS_SIZE || !sim_os_is_mapped(p, size)) V("unmapped-allocation", "%zu bytes allocated at %lx, not mapped", size, p);
  o->alive = 1;
  uintptr_t g = (p - SIM_OS_BASE) >> 3;
  if (shadow[g] && !M[shadow[g]].alive) PROBE(recycled_alloc);
  shadow_set(what, id);
  uint64_t *w = (void *)p;
  for (uint32_t i = 0; i < nw; i++) if (w[i]) V("not-zeroed", "%zu-byte %s allocated at %lx (gc %u): word %u is %lx", size, kname(kind), p, gcn, i, w[i]);
  alive_list[nalive++] = id;
  alloc_bytes_total += size; alloc_rounded_total += sz_round(size); alloc_since_gc += sz_round(size); R->allocs++; made_progress();
  if (o->large) PROBE(large_alloc); else if (size > 256) PROBE(medium_alloc);
  uint64_t occ = live_after_gc + alloc_since_gc, cap = foot_cap();
  if (occ > cap) PROBE_MAX(max_foot_excess_kb, (occ - cap) >> 10);
  if (occ > cap + footprint_slack() && occ > foot_occ) {
    // A resize in progress makes room before it announces the new size.
    foot_occ = occ;
    if (!P.policy) foot_settle();
  }
  struct ohdr *h = (void *)p; h->idw = idword(id); h->tag = MK_TAG(kind, nf, nw);
  sim_mix(p);
  return id;
}
static int32_t new_obj(struct mut *m, int kind, uint32_t nf, uint32_t nw, int ak) {
  size_t size = (size_t)nw * 8;
  budget(m, size);
  gc_enter(m); req_size[m->fiber] = size; req_gc[m->fiber] = gcn;
  uintptr_t p = (uintptr_t)mo_alloc(m->gm, size, ak);
  req_size[m->fiber] = 0; gc_leave(m, "allocation");
  int32_t id = model_new(m, p, kind, nf, nw, ak);
  uint64_t *w = (void *)p;
  for (uint32_t i = 2 + (kind == K_NODE ? nf : 0); i < nw; i++) w[i] = patw(id, i);
  return id;
}
static int pick_ak(struct mut *m, int kind) {
  if (kind == K_NODE) return VI.cons_trace && P.untagged && rn(m, 3) == 0 ? (PROBE(untagged_alloc), AK_UNTAGGED_CONSERVATIVE) : AK_TAGGED;
  int r = rn(m, 4);
  if (P.untagged && VI.collector == COL_MMC && r == 0) { PROBE(untagged_alloc); return AK_UNTAGGED_POINTERLESS; }
  return r == 1 ? AK_TAGGED : AK_TAGGED_POINTERLESS;
}
static uint32_t pick_nw(struct mut *m, uint32_t min) {
  uint32_t r = rn(m, 1000), nw;
  if (r < (uint32_t)P.p_large) nw = VI.large_threshold / 8 + 1 + rn(m, P.large_max_kb * 128 - VI.large_threshold / 8);
  else if (r < (uint32_t)(P.p_large + P.p_medium)) nw = 32 + rn(m, VI.large_threshold / 8 - 32 + 1);
  else if (r < (uint32_t)(P.p_large + P.p_medium + P.p_edge)) {
    static const int d[] = { -2, -1, 0, 1, 2 };
    static const int b[] = { 0, 2048, 4096, 8192, 1024, 512, 256, 12288 };
    uint32_t base = b[rn(m, 8)]; if (!base) base = VI.large_threshold;
    nw = base / 8 + d[rn(m, 5)];
    if ((long)nw * 8 > P.large_max_kb * 1024) nw = 4;
  } else nw = 2 + rn(m, P.small_max + 1);
  if (nw < min) nw = min;
  return nw;
}
// Store a reference (or immediate) into a field of a live object, with barrier.
static void store(struct mut *m, int32_t id, uint32_t i, int32_t e) {
  if (id <= 0 || M[id].kind != K_NODE || i >= M[id].nf || IS_CHAIN(M[id].f[i]) || IS_CHAIN(e)) return;
  uintptr_t *loc = &OBJ_FIELDS(M[id].addr)[i];
  if (e > 0) {
    PROBE(barrier); if (M[id].isold) { PROBE(barrier_old); if (!M[e].isold) PROBE(remembered_young); }
    mo_barrier(m->gm, (void *)M[id].addr, osize(id), loc, M[e].addr);
  }
  if (world_stopped) V("ran-during-collection", "mutator %d in a write barrier during collection %u", m->idx, gcn);
  *loc = e ? word_of(e) : 0; M[id].f[i] = e;
}
static int32_t pick_val(struct mut *m) { // random value from slots, sometimes null/immediate
  int r = rn(m, 12);
  if (r == 0) return 0;
  if (r == 1) return -1 - (int)rn(m, 60);
  if (r == 2 && next && P.w_extern) return ENC_EXT0 - (int)rn(m, next);
  return m->ms[rn(m, m->ns)];
}
static int32_t new_node(struct mut *m, uint32_t nf, uint32_t extra, int fill) {
  uint32_t nw = 2 + nf + extra;
  int32_t id = new_obj(m, K_NODE, nf, nw, pick_ak(m, K_NODE));
  if (fill) for (uint32_t i = 0; i < nf && i < 16; i++) { int32_t e = pick_val(m); M[id].f[i] = e; OBJ_FIELDS(M[id].addr)[i] = e ? word_of(e) : 0; }
  return id;
}
static int32_t new_leaf(struct mut *m, uint32_t nw) { return new_obj(m, K_LEAF, 0, nw, pick_ak(m, K_LEAF)); }
static int32_t new_random(struct mut *m, int fill) {
  if ((int)rn(m, 1000) < P.p_leaf) return new_leaf(m, pick_nw(m, 2));
  uint32_t nf = rn(m, P.fields_max + 1), nw = pick_nw(m, 2 + nf);
  if (nw > 64 && rn(m, 2)) nf += rn(m, nw - 2 - nf > 100 ? 100 : nw - 2 - nf);
  if (!nf && nw == 2) return new_obj(m, K_NODE, 0, nw, pick_ak(m, K_NODE));
  return new_node(m, nf, nw - 2 - nf, fill);
}

// ------------------------------------------------------------------ operations
static void op_alloc(struct mut *m) { int32_t id = new_random(m, 1); slot_put(m, free_slot(m), id); }
static void op_link(struct mut *m) {
  int k = pick_obj(m, K_NODE); if (k < 0) return;
  int32_t id = m->ms[k]; if (!M[id].nf) return;
  uint32_t i = rn(m, M[id].nf); if (IS_CHAIN(M[id].f[i])) return;
  store(m, id, i, pick_val(m));
}
static void op_load(struct mut *m) {
  int k = pick_obj(m, K_NODE); if (k < 0) return;
  int32_t id = m->ms[k]; if (!M[id].nf) return;
  uint32_t i = rn(m, M[id].nf); int32_t e = M[id].f[i]; if (IS_CHAIN(e)) return;
  uintptr_t w = OBJ_FIELDS(slot_base(m, k))[i];
  if (w != (e ? word_of(e) : 0)) V("reference-changed", "mutator %d read %lx from field %u of #%d, expected %lx", m->idx, w, i, id, e ? word_of(e) : 0);
  slot_put(m, free_slot(m), e);
}
static void op_clear(struct mut *m) { slot_put(m, rn(m, m->ns), 0); }
static void op_copy(struct mut *m) { int a = rn(m, m->ns), b = rn(m, m->ns); slot_put(m, b, m->ms[a]); }
static void op_unlink(struct mut *m) {
  int k = pick_obj(m, K_NODE); if (k < 0) return; int32_t id = m->ms[k]; if (!M[id].nf) return;
  uint32_t i = rn(m, M[id].nf); if (!IS_CHAIN(M[id].f[i])) store(m, id, i, 0);
}
static void hr_put(int i, int32_t e) { hr_enc[i] = e; hroots.slots[i] = e ? word_of(e) : 0; }
static void op_hstore(struct mut *m) { int i = rn(m, P.hroots); hr_put(i, rn(m, 4) ? pick_val(m) : 0); }
static void op_hload(struct mut *m) {
  int i = rn(m, P.hroots); int32_t e = hr_enc[i];
  if (hroots.slots[i] != (e ? word_of(e) : 0)) V("reference-changed", "heap root %d holds %lx, expected #%d", i, hroots.slots[i], e);
  slot_put(m, free_slot(m), e);
}
static int32_t make_eph(struct mut *m, int32_t (*get)(struct mut *, int, void *), void *arg) {
  budget(m, VI.eph_size);
  gc_enter(m); req_size[m->fiber] = VI.eph_size; req_gc[m->fiber] = gcn;
  uintptr_t p = (uintptr_t)mo_eph_alloc(m->gm);
  req_size[m->fiber] = 0; gc_leave(m, "ephemeron allocation");
  int32_t id = model_new(m, p, K_EPH, 0, VI.eph_size / 8, AK_TAGGED);
  int32_t k = get(m, 0, arg), v = get(m, 1, arg);
  if (k <= 0) k = id;
  if (IS_CHAIN(v)) v = 0;
  M[id].f[0] = k; M[id].f[1] = v;
  mo_eph_init(m->gm, (void *)p, word_of(k), v ? word_of(v) : 0);
  PROBE(eph_made);
  return id;
}
static int32_t get_slots(struct mut *m, int w, void *a) { return m->ms[((int *)a)[w]]; }
static int pick_key(struct mut *m) { int k = pick_obj(m, -1); return k; }
static void op_eph(struct mut *m) {
  int a[2] = { pick_key(m), (int)rn(m, m->ns) }; if (a[0] < 0) return;
  int32_t id = make_eph(m, get_slots, a);
  slot_put(m, free_slot(m), id);
}
static void read_eph(struct mut *m, int32_t id) {
  struct mobj *o = &M[id];
  uintptr_t k = mo_eph_key((void *)o->addr), v = mo_eph_value((void *)o->addr);
  if (world_stopped) V("ran-during-collection", "mutator %d", m->idx);
  uintptr_t ek = o->dead ? 0 : word_of(o->f[0]), ev = o->dead || !o->f[1] ? 0 : word_of(o->f[1]);
  if (o->dead_inv) return; // an explicit mark-dead may be racing
  if (k != ek || v != ev) V("ephemeron-wrong", "ephemeron #%d reads key %lx value %lx, expected %lx %lx", id, k, v, ek, ev);
}
static void op_ephread(struct mut *m) { int k = pick_obj(m, K_EPH); if (k >= 0) read_eph(m, m->ms[k]); }
static void mark_dead(struct mut *m, int32_t id) {
  M[id].dead_inv = ++opstamp; mo_eph_mark_dead((void *)M[id].addr); M[id].dead = 1; M[id].dead_done = ++opstamp; PROBE(eph_markdead);
}
static void op_ephdead(struct mut *m) { int k = pick_obj(m, K_EPH); if (k >= 0) mark_dead(m, m->ms[k]); }
struct web { int sa, se; int key, val; };
static int32_t web_get(struct mut *m, int w, void *a) { struct web *x = a; int32_t arr = m->ms[x->sa]; if (arr <= 0 || M[arr].kind != K_NODE || (int)M[arr].nf <= x->key || (int)M[arr].nf <= x->val) return 0; return w ? (x->val < 0 ? 0 : M[arr].f[x->val]) : M[arr].f[x->key]; }
static void init_field(struct mut *m, int32_t id, uint32_t i, int32_t e) { store(m, id, i, e); }
static void op_ephweb(struct mut *m) {
  // keys in one array, ephemerons in another; values form chains, cycles or trees over the keys
  int n = 2 + rn(m, 12), sa = free_slot(m), se = free_slot(m); if (sa == se) return;
  slot_put(m, sa, new_node(m, n, 0, 0)); slot_put(m, se, new_node(m, n, rn(m, 4), 0));
  int shape = rn(m, 4);
  for (int i = 0; i < n; i++) { int32_t k = rn(m, 3) ? new_node(m, 1 + rn(m, 2), rn(m, 3), 0) : new_leaf(m, pick_nw(m, 2)); init_field(m, m->ms[sa], i, k); }
  int perm[16]; for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = n - 1; i > 0; i--) { int j = rn(m, i + 1); int t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  for (int i = 0; i < n; i++) {
    if (M[m->ms[sa]].kind != K_NODE || M[m->ms[se]].kind != K_NODE) return;
    int k = perm[i]; struct web w = { sa, se, k, 0 };
    w.val = shape == 0 ? (k + 1 < n ? k + 1 : -1) : shape == 1 ? (k + 1) % n : shape == 2 ? (2 * k + 1 < n ? 2 * k + 1 : -1) : (int)rn(m, n);
    int32_t e = make_eph(m, web_get, &w);
    // relief may have cleared the slots while we were allocating
    if (m->ms[se] <= 0 || m->ms[sa] <= 0) return;
    init_field(m, m->ms[se], i, e);
    if (shape == 3 && rn(m, 2)) { // value reaches another key through a field
      int32_t kk = M[m->ms[sa]].f[k]; if (kk > 0 && M[kk].kind == K_NODE && M[kk].nf) store(m, kk, 0, M[m->ms[sa]].f[rn(m, n)]); }
  }
  int keep = rn(m, 4);
  if (keep) slot_put(m, free_slot(m), M[m->ms[sa]].f[rn(m, n)]);
  if (keep != 3) { if (m->ms[sa] > 0 && m->ms[sa] != m->ms[se]) slot_put(m, sa, 0); }
}
// --- chains
static void link_model(int32_t id, int c) {
  struct mobj *o = &M[id];
  if (o->chain >= 0) return;
  int ny = sim_noyield; sim_noyield = 1;
  void *S = mo_chain_next((void *)o->addr); int32_t sid = 0;
  sim_noyield = ny;
  if (S) {
    sid = id_at((uintptr_t)S, "chain successor");
    if (M[sid].kind != K_EPH) V("chain-corrupt", "successor of #%d is %s #%d", id, kname(M[sid].kind), sid);
    if (M[sid].chain < 0) { if (!M[sid].pushing || M[sid].pushing != c + 1) V("chain-corrupt", "successor of #%d is #%d, not a member of the chain", id, sid); PROBE(chain_push_race); link_model(sid, c); }
    if (M[sid].chain != c) V("chain-corrupt", "successor of #%d on chain %d is #%d of chain %d", id, c, sid, M[sid].chain);
  }
  int32_t prev = 0, q = chains[c].head;
  for (; q && q != sid; prev = q, q = M[q].cnext)
    if (M[q].push_done && M[q].push_done < o->push_inv && !M[q].dead && !M[q].dead_inv)
      V("chain-lost", "push of ephemeron #%d lost live ephemeron #%d, pushed before it began", id, q);
  // Dead members between here and the successor: they come after #id unless
  // they were pushed after it, in which case their successor is #id.
  while (prev && (M[prev].dead || M[prev].dead_inv)) {
    sim_noyield = 1; void *t = mo_chain_next((void *)M[prev].addr); sim_noyield = ny;
    if (t == (void *)o->addr) break;
    q = prev; prev = M[prev].cprev;
  }
  o->chain = c; o->cprev = prev; o->cnext = q;
  if (prev) M[prev].cnext = id; else chains[c].head = id;
  if (q) M[q].cprev = id;
}
static uintptr_t *chain_loc(struct mut *m, int *cp, int32_t *owner) {
  *owner = 0;
  for (int t = 0; t < 3; t++) {
    int k = pick_obj(m, K_NODE); if (k < 0) break; int32_t id = m->ms[k];
    for (uint32_t i = 0; i < M[id].nf && i < 4; i++) if (IS_CHAIN(M[id].f[i])) { *cp = CHAIN_IDX(M[id].f[i]); *owner = id; return &OBJ_FIELDS(M[id].addr)[i]; }
  }
  if (!P.chains) return NULL;
  *cp = rn(m, P.chains); return &hroots.slots[P.hroots + *cp];
}
static void op_push(struct mut *m) {
  if (rn(m, 12) == 0 && P.chains) { // a chain whose head lives in a heap object
    int c = -1; for (int i = P.chains; i < NCHAIN_MAX; i++) if (chains[i].owner_id < 0 && !chains[i].head) { c = i; break; }
    if (c >= 0) {
      chains[c].owner_id = 0; // reserve
      int32_t id = new_node(m, 1 + rn(m, 3), 0, 0); int i = rn(m, M[id].nf); M[id].f[i] = ENC_CHAIN0 - c; chains[c].owner_id = id; if (nchains <= c) nchains = c + 1;
      slot_put(m, free_slot(m), id);
    }
  }
  int a[2] = { pick_key(m), (int)rn(m, m->ns) }; if (a[0] < 0) return;
  int32_t id = make_eph(m, get_slots, a);
  int c; int32_t owner; uintptr_t *loc = chain_loc(m, &c, &owner);
  if (!loc) { slot_put(m, free_slot(m), id); return; }
  if (owner) mo_barrier(m->gm, (void *)M[owner].addr, osize(owner), loc, M[id].addr);
  M[id].pushing = c + 1; M[id].push_inv = ++opstamp;
  mo_chain_push(loc, (void *)M[id].addr);
  link_model(id, c);
  M[id].pushing = 0; M[id].push_done = ++opstamp; PROBE(chain_push);
  if (rn(m, 4) == 0) slot_put(m, free_slot(m), id);
}
static uint32_t walkserial;
#define WALKMAX 60000
static int32_t *walk_seen[MAXMUT];
static void op_walk(struct mut *m) {
  int c; int32_t owner; uintptr_t *loc = chain_loc(m, &c, &owner); if (!loc) return;
  uint64_t inv = ++opstamp;
  int32_t *seen = walk_seen[m->idx]; if (!seen) seen = walk_seen[m->idx] = sim_priv_alloc(4 * WALKMAX);
  uint32_t n = 0, g0 = gcn; int32_t last = 0;
  for (void *e = mo_chain_head(loc); e; e = mo_chain_next(e)) {
    int32_t id = id_at((uintptr_t)e, "chain traversal");
    if (M[id].kind != K_EPH || !M[id].alive) V("chain-corrupt", "traversal of chain %d reached %s #%d (alive %d)", c, kname(M[id].kind), id, M[id].alive);
    if (M[id].dead && M[id].dead_done && M[id].dead_done < inv) V("chain-dead-reappeared", "traversal returned ephemeron #%d, dead before the traversal began", id);
    if (n >= WALKMAX) V("chain-cycle", "traversal of chain %d does not end", c);
    seen[n] = id;
    if (M[id].chain < 0) { if (M[id].pushing != c + 1) V("chain-corrupt", "traversal of chain %d reached #%d, which is on no chain", c, id); PROBE(chain_walk_race); }
    else if (M[id].chain != c) V("chain-corrupt", "traversal of chain %d reached #%d of chain %d", c, id, M[id].chain);
    n++;
    if (rn(m, 24) == 0) mark_dead(m, id);
    last = id;
  }
  (void)last;
  if (gcn != g0) sim_internal("collection during chain traversal");
  PROBE(chain_walk);
  uint32_t ser = ++walkserial;
  for (uint32_t i = 0; i < n; i++) {
    if (M[seen[i]].wv == ser) V("chain-cycle", "traversal of chain %d visited #%d twice", c, seen[i]);
    M[seen[i]].wv = ser; M[seen[i]].wpos = i;
  }
  uint32_t pos = 0; int first = 1;
  for (int32_t q = chains[c].head; q; q = M[q].cnext) {
    if (M[q].wv == ser) { if (!first && M[q].wpos < pos) V("chain-order", "traversal of chain %d saw #%d out of order", c, q); pos = M[q].wpos; first = 0; }
    else if (M[q].push_done && M[q].push_done < inv && !M[q].dead && !M[q].dead_inv) { if (sim_verbose) for (int32_t t = chains[c].head; t; t = M[t].cnext) sim_vlog("chain #%d %s pos %d push %lu..%lu dead %lu..%lu (walk %lu)", t, M[t].dead ? "dead" : "live", M[t].wv == ser ? (int)M[t].wpos : -1, M[t].push_inv, M[t].push_done, M[t].dead_inv, M[t].dead_done, inv);
      V("chain-lost", "traversal of chain %d missed live ephemeron #%d (last seen #%d of %u, model successor #%d, head #%d)", c, q, last, n, last ? M[last].cnext : 0, chains[c].head); }
  }
}
// --- finalizers
static void op_fin(struct mut *m) {
  int a = pick_obj(m, -1); if (a < 0 || nfin > 400) return;
  budget(m, VI.fin_size);
  gc_enter(m); req_size[m->fiber] = VI.fin_size; req_gc[m->fiber] = gcn;
  uintptr_t p = (uintptr_t)mo_fin_alloc(m->gm);
  req_size[m->fiber] = 0; gc_leave(m, "finalizer allocation");
  int32_t id = model_new(m, p, K_FIN, 0, VI.fin_size / 8, AK_TAGGED);
  a = pick_obj(m, -1); if (a < 0) { return; }
  int32_t ob = m->ms[a], cl = rn(m, 3) ? 0 : m->ms[rn(m, m->ns)];
  if (ob == id || cl == id) return;
  if (cl < 0) cl = 0;
  M[id].f[0] = ob; M[id].f[1] = cl; M[id].fstate = FS_ATTACHED; M[id].prio = rn(m, P.nprio); M[id].elig = 0;
  fin_list[nfin++] = id; PROBE(fin_attached);
  mo_fin_attach(m->gm, (void *)p, M[id].prio, word_of(ob), cl ? word_of(cl) : 0);
  if (rn(m, 8) == 0) slot_put(m, free_slot(m), id);
  if (rn(m, 3)) slot_put(m, a, 0);
}
static void pop_one(struct mut *m, int keep) {
  void *f = mo_fin_pop(m->gm);
  if (world_stopped) V("ran-during-collection", "mutator %d", m->idx);
  if (!f) return;
  int32_t id = id_at((uintptr_t)f, "popped finalizer");
  struct mobj *o = &M[id];
  if (o->kind != K_FIN) V("finalizer-corrupt", "popped %s #%d", kname(o->kind), id);
  if (o->fstate == FS_POPPED) V("finalizer-twice", "finalizer #%d delivered twice", id);
  if (!o->alive || o->fstate != FS_ATTACHED) V("finalizer-corrupt", "popped finalizer #%d in state %d", id, o->fstate);
  if ((uintptr_t)f != o->addr) V("stale-copy", "popped finalizer #%d at %p but it lives at %lx", id, f, o->addr);
  if (!o->elig) V("finalizer-early", "finalizer #%d (priority %d) delivered but its object #%d was reachable at every collection", id, o->prio, o->f[0]);
  uintptr_t ob = mo_fin_object(f), cl = mo_fin_closure(f);
  if (ob != word_of(o->f[0]) || cl != (o->f[1] ? word_of(o->f[1]) : 0)) V("finalizer-corrupt", "finalizer #%d delivered with object %lx closure %lx, expected %lx %lx", id, ob, cl, word_of(o->f[0]), o->f[1] ? word_of(o->f[1]) : 0);
  check_object_at(o->f[0], ob, "finalizer object", id);
  o->fstate = FS_POPPED; fin_popped_n++; list_remove(fin_list, &nfin, id); PROBE(fin_popped);
  o->popgc = gcn;
  if (keep) { if (rn(m, 3) == 0) { slot_put(m, free_slot(m), o->f[0]); PROBE(fin_resurrected); } else if (rn(m, 3) == 0) slot_put(m, free_slot(m), id); }
}
static void op_pop(struct mut *m) { int n = 1 + rn(m, 4); while (n--) pop_one(m, 1); }
static void op_pin(struct mut *m) {
  if (!VI.can_pin) return; int k = pick_obj(m, -1); if (k < 0) return;
  int32_t id = m->ms[k]; M[id].pinned = 1; unchecked_pins++; PROBE(pinned);
  mo_pin(m->gm, (void *)M[id].addr);
}
static int effective_kind(int k) {
  if (VI.collector == COL_MMC && !VI.cons_trace) return k;
  return k == CK_COMPACTING ? CK_MAJOR : k;
}
static void op_collect(struct mut *m, int kind) {
  uint32_t g0 = ngk; PROBE(explicit_gc);
  gc_enter(m);
  mo_collect(m->gm, kind);
  gc_leave(m, "gc_collect");
  if (ngk > g0 + 1) PROBE(concurrent_gc_requests);
  int best = -1; for (uint32_t i = g0; i < ngk; i++) { int k = gkinds[i]; if (i == 0 && VI.collector == COL_MMC && k == CK_MAJOR) k = CK_COMPACTING; if (k > best) best = k; }
  if (best < effective_kind(kind)) V("request-not-honoured", "gc_collect(%s) by mutator %d returned; strongest collection begun since: %s", gckind(kind), m->idx, gckind(best));
}
static void op_safepoint(struct mut *m) { gc_enter(m); mo_safepoint(m->gm); gc_leave(m, "safepoint"); }
// A computation that only polls has to be stopped by a collection that others ask for.
static void op_poll(struct mut *m) {
  uint32_t n = 10 + rn(m, 300), g = gcn, was = 0;
  for (uint32_t i = 0; gcn == g; i++) {
    op_safepoint(m);
    if (hphase != 1 && hphase != 2) { was = 0; if (i > n) break; } else if (gcn != g) break;
    else if (!was++) PROBE(polls_while_stopping);
    if (was == 2000) sim_set_fair(1);
    if (was > 100000) V("safepoint-ignored", "mutator %d passed %u safepoints while collection %u waited for it to stop", m->idx, was, gcn);
    sim_yield();
  }
  sim_set_fair(gcs_idle > 100);
}
struct nogc { struct mut *m; uint32_t n; uint64_t ns; int join0, join1; };
static void *nogc_body(void *p) {
  struct nogc *a = p;
  if (a->join1 > a->join0) { for (int i = a->join0; i < a->join1; i++) sim_join(MU[i].fiber); }
  else { for (uint32_t i = 0; i < a->n; i++) sim_yield(); if (a->ns) sim_sleep_ns(a->ns); }
  sim_progress();
  return (void *)(uintptr_t)(0xabc00 + a->m->idx);
}
static void run_nogc(struct mut *m, struct nogc *a) {
  PROBE(nogc_calls);
  if (world_stopped) V("ran-during-collection", "mutator %d", m->idx);
  m->where = W_NOGC;
  void *r = mo_call_without_gc(m->gm, nogc_body, a);
  if (r != (void *)(uintptr_t)(0xabc00 + m->idx)) V("nogc-result", "gc_call_without_gc returned %p", r);
  gc_leave(m, "gc_call_without_gc");
}
static void op_nogc(struct mut *m) { struct nogc a = { m, rn(m, 40), rn(m, 3) ? 0 : rn(m, 3000000), 0, 0 }; run_nogc(m, &a); }
static void op_churn(struct mut *m) {
  long left = 1 + rn(m, P.churn_kb) * 1024L;
  while (left > 0) { int32_t id = new_random(m, rn(m, 4) == 0); left -= osize(id); if (rn(m, 16) == 0) slot_put(m, free_slot(m), id); }
}
static void op_list(struct mut *m) {
  int n = 1 + rn(m, P.list_max), k = free_slot(m);
  slot_put(m, k, 0);
  int tail = rn(m, 3) == 0; int32_t head = 0; int kt = -1;
  if (tail) { // append at the tail: old objects point to young ones
    kt = free_slot(m); if (kt == k) return;
    head = new_node(m, 2, rn(m, 3), 0); slot_put(m, k, head); slot_put(m, kt, head);
    while (n--) { int32_t e = new_node(m, 2, rn(m, 3), 0); int32_t t = m->ms[kt]; if (t <= 0 || M[t].kind != K_NODE || !M[t].nf || IS_CHAIN(M[t].f[0])) { slot_put(m, k, e); return; } store(m, t, 0, e); slot_put(m, kt, e); }
    slot_put(m, kt, 0);
  } else while (n--) {
    int32_t e = new_node(m, 1 + rn(m, 2), rn(m, 3), 0); int32_t h = m->ms[k];
    M[e].f[0] = h; OBJ_FIELDS(M[e].addr)[0] = h ? word_of(h) : 0;
    slot_put(m, k, e);
  }
}
static void op_wide(struct mut *m) {
  int n = 1 + rn(m, P.wide_max), k = free_slot(m);
  slot_put(m, k, new_node(m, n, 0, 0));
  int lim = n > P.wide_lim ? P.wide_lim : n;
  for (int i = 0; i < lim; i++) {
    int32_t e = rn(m, 4) == 0 ? m->ms[rn(m, m->ns)] : rn(m, 2) ? new_leaf(m, P.wide_lim > 400 ? 2 + rn(m, 8) : pick_nw(m, 2)) : new_node(m, 1, 0, 1);
    int32_t a = m->ms[k]; if (a <= 0 || M[a].kind != K_NODE || (int)M[a].nf <= i || IS_CHAIN(M[a].f[i])) return;
    store(m, a, n > lim ? rn(m, M[a].nf) : (uint32_t)i, e);
  }
}
// Fill the remembered set: old-to-young references in every field of a wide old object.
static void op_remember(struct mut *m) {
  int k = -1;
  for (int i = 0; i < m->ns; i++) { int32_t id = m->ms[i]; if (id > 0 && M[id].kind == K_NODE && M[id].isold && M[id].nf >= 100 && (k < 0 || M[id].nf > M[m->ms[k]].nf)) k = i; }
  if (k < 0) { int n = 100 + rn(m, 100 + P.wide_max); slot_put(m, free_slot(m), new_node(m, n, 0, 0)); return; }
  int ky = free_slot(m); if (ky == k) return;
  int32_t a0 = m->ms[k]; PROBE(remember_bursts);
  for (uint32_t i = 0; ; i++) {
    if (i % 256 == 0) slot_put(m, ky, new_leaf(m, pick_nw(m, 2)));
    int32_t a = m->ms[k], e = m->ms[ky];
    if (a != a0 || i >= M[a].nf || e <= 0) return;
    if (!IS_CHAIN(M[a].f[i])) store(m, a, i, e);
  }
}
static void op_tree(struct mut *m) {
  // breadth-first binary tree rooted in one slot, children attached with barriers
  int n = 1 + rn(m, 60), k = free_slot(m), ka = free_slot(m); if (k == ka) return;
  slot_put(m, ka, new_node(m, n, 0, 0));
  for (int i = 0; i < n; i++) {
    int32_t e = new_node(m, 2, rn(m, 4), 0); int32_t a = m->ms[ka]; if (a <= 0 || M[a].kind != K_NODE || (int)M[a].nf != n) return;
    store(m, a, i, e);
    if (i) { int32_t par = M[a].f[(i - 1) / 2]; if (par > 0 && M[par].kind == K_NODE && M[par].nf == 2) store(m, par, (i - 1) & 1, e); }
  }
  if (m->ms[ka] > 0 && M[m->ms[ka]].kind == K_NODE && M[m->ms[ka]].nf) slot_put(m, k, M[m->ms[ka]].f[0] > 0 ? M[m->ms[ka]].f[0] : 0);
  slot_put(m, ka, 0);
}
static uint64_t counter_prev_stop;
static void op_counter(struct mut *m) {
  uint64_t seen = counter_max_seen, at_stop = stop_alloc_total; uint32_t g = gcn;
  gc_enter(m); uint64_t c = mo_counter(HEAP); gc_leave(m, "gc_allocation_counter");
  PROBE(counter_reads);
  if (c < seen) V("counter-decreased", "allocation counter went from %lu to %lu", seen, c);
  uint64_t slack = (nmu + 1) * 65536UL;
  if (c + slack < at_stop) V("counter-low", "allocation counter is %lu; %lu bytes had been allocated at the last collection (%u collections)", c, at_stop, g);
  // mmc counts the holes it skips and has not swept when a collection begins; pcc loses the ends of regions.
  uint64_t up = alloc_rounded_total + (1 << 20); for (int i = 0; i < SIM_MAXFIB; i++) up += sz_round(req_size[i]);
  up += (VI.collector == COL_MMC ? (uint64_t)(gcn + 2) * heap_size_max_seen + (8 << 20) : VI.collector == COL_PCC ? alloc_rounded_total / 7 + nmu * 65536UL : 0);
  if (c > up) V("counter-high", "allocation counter is %lu after %lu bytes allocated in %u collections", c, alloc_bytes_total, gcn);
  if (c > counter_max_seen) counter_max_seen = c;
}
static void ext_store(int k, int i, int32_t e) { ext[k].f[i] = e; OBJ_FIELDS(ext_addr(k))[i] = e ? word_of(e) : 0; }
static void op_extern(struct mut *m) {
  if (next < NEXT_OBJ && (next < 4 || rn(m, 8) == 0)) {
    int k = next++; struct ohdr *h = (void *)ext_addr(k);
    ext[k].nf = !P.ext_trace || VI.cons_roots || VI.cons_trace || VI.generational ? 0 : rn(m, 5);
    h->idw = 1; h->tag = MK_TAG(K_EXT, ext[k].nf, EXT_STRIDE / 8);
    for (int i = 0; i < ext[k].nf; i++) ext_store(k, i, 0);
  }
  int k = rn(m, next);
  if (ext[k].nf && rn(m, 2)) { int32_t e = rn(m, 3) ? m->ms[rn(m, m->ns)] : ENC_EXT0 - (int)rn(m, next); ext_store(k, rn(m, ext[k].nf), e); }
  switch (rn(m, 3)) {
  case 0: slot_put(m, free_slot(m), ENC_EXT0 - k); break;
  case 1: { int s = pick_obj(m, K_NODE); if (s < 0) break; int32_t id = m->ms[s]; if (!M[id].nf) break; uint32_t i = rn(m, M[id].nf); if (!IS_CHAIN(M[id].f[i])) store(m, id, i, ENC_EXT0 - k); break; }
  case 2: hr_put(rn(m, P.hroots), ENC_EXT0 - k); break;
  }
}
static void op_imm(struct mut *m) { slot_put(m, rn(m, m->ns), -1 - (int)rn(m, 100)); }
static void op_interior(struct mut *m) {
  if (!VI.cons_roots) return;
  int k = pick_obj(m, -1); if (k < 0) return; int32_t id = m->ms[k];
  size_t lim = osize(id) > 60000 ? 60000 : osize(id);
  m->off[k] = rn(m, lim); m->slots[k] = M[id].addr + m->off[k]; PROBE(interior);
}
// Words that look like references, to objects long gone or to nothing, must do no harm wherever they are found.
#define NJUNK 12
static void op_junk(struct mut *m) {
  if (!VI.cons_roots || m->ns + NJUNK > MAXSLOTS) return;
  for (int n = rn(m, 6); n >= 0; n--) {
    uintptr_t w = 0; uint32_t id = nobj ? 1 + rn(m, nobj) : 0; int how = rn(m, 10);
    if (id && how < 3) for (int i = 0; i < 30 && !M[id].large; i++) id = 1 + rn(m, nobj);
    if (id && how < 7) { w = M[id].addr; if (rn(m, 3) == 0) w += rn(m, osize(id)); else if (rn(m, 8) == 0) w += 16 * rn(m, 65536) - 524288; }
    else if (how == 7) w = SIM_OS_BASE + 8 * (uint64_t)rn(m, 1u << 30);
    else if (how == 8) w = sim_rnd(&m->r) >> rn(m, 64);
    m->slots[m->ns + rn(m, NJUNK)] = w; PROBE(junk_words);
  }
}
static void op_regroot(struct mut *m) {
  if (!VI.cons_roots) return;
  int k = pick_obj(m, -1); if (k < 0) return; int32_t id = m->ms[k];
  m->slots[k] = M[id].addr; m->off[k] = 0;
  m->pending_reg = 1; m->reg_enc = id; m->ms[k] = 0; PROBE(regroot);
  uintptr_t was = M[id].addr;
  // hide the other direct copies of the pointer
  gc_enter(m); mo_collect_reg_root(m->gm, rn(m, 2) ? CK_MAJOR : CK_COMPACTING, &m->slots[k]); gc_leave(m, "gc_collect");
  m->ms[k] = id; m->pending_reg = 0;
  if (m->slots[k] != was || M[id].addr != was) V("root-changed", "register root #%d moved", id);
}
static void op_glob(struct mut *m) {
  if (!VI.cons_roots) return;
  int i = rn(m, nglob); int32_t e = rn(m, 3) ? m->ms[rn(m, m->ns)] : 0;
  glob_enc[i] = e; glob[i] = e ? word_of(e) : 0; PROBE(globroot);
}
static void op_idle(struct mut *m) { struct nogc a = { m, 0, 1000000ULL * (1 + rn(m, 2500)), 0, 0 }; run_nogc(m, &a); }
static void op_read(struct mut *m) {
  int k = pick_obj(m, -1); if (k < 0) return; int32_t id = m->ms[k];
  check_object_at(id, slot_base(m, k), "slot", -1000 - m->idx); check_payload(id);
  for (int d = 0; d < 8 && M[id].kind == K_NODE && M[id].nf; d++) {
    uint32_t i = rn(m, M[id].nf); int32_t e = M[id].f[i]; if (IS_CHAIN(e)) break; uintptr_t w = OBJ_FIELDS(M[id].addr)[i];
    if (w != (e ? word_of(e) : 0)) V("reference-changed", "mutator %d read %lx from field %u of #%d, expected %lx", m->idx, w, i, id, e ? word_of(e) : 0);
    if (e <= 0) break;
    id = e; check_object_at(id, w, "field", id); check_payload(id);
  }
}
static void op_relink(struct mut *m) { for (int i = 0; i < 6; i++) op_link(m); }
static void op_fragment(struct mut *m) {
  int n = 20 + rn(m, 180), k = free_slot(m);
  slot_put(m, k, new_node(m, n, 0, 0));
  for (int i = 0; i < n; i++) { int32_t e = new_leaf(m, pick_nw(m, 2)); int32_t a = m->ms[k]; if (a <= 0 || M[a].kind != K_NODE || (int)M[a].nf != n) return; store(m, a, i, e); }
  int32_t a = m->ms[k]; int mode = rn(m, 3);
  for (int i = 0; i < n; i++) if (mode == 0 ? i & 1 : mode == 1 ? rn(m, 2) : rn(m, 16)) store(m, a, i, 0);
}
static void op_drop(struct mut *m) { drop_some(m, 1, 2); if (rn(m, 4) == 0) for (int i = 0; i < P.hroots; i++) if (rn(m, 2)) hr_put(i, 0); }
static void op_biglive(struct mut *m) {
  int k = free_slot(m); long kb = P.live_pct * P.heap_kb / 100 / 2;
  slot_put(m, k, new_leaf(m, kb * 128));
}
// A single object comparable to the whole heap; heaps that may grow must make room for it.
static void op_huge(struct mut *m) {
  if (P.policy == 0 || nhuge >= 4) return;
  uint32_t nw = heap_size_now / 800 * (30 + rn(m, 150));
  if (nw * 8UL <= VI.large_threshold || nw * 8UL > (64UL << 20)) return;
  nhuge++; PROBE(huge_alloc);
  long sv = P.bounded_live; P.bounded_live = 0; int32_t id = new_leaf(m, nw); P.bounded_live = sv;
  if (rn(m, 3) == 0) slot_put(m, free_slot(m), id);
}
// The heap breathes out and in: large objects take memory from the small-object space, it goes idle long enough for
// pages to be given back, and once the large objects die the memory is taken back for small ones.
static void op_breathe(struct mut *m) {
  uint64_t live = live_bytes_model(), room = live_limit() > live ? live_limit() - live : 0;
  room = room / 100 * (30 + rn(m, 65));
  int n = 1 + rn(m, 6); uint64_t each = room / n;
  if (each <= VI.large_threshold + 64 || each > (64UL << 20)) return;
  int ks[8]; int32_t ids[8];
  PROBE(breathes);
  for (int i = 0; i < n; i++) { ks[i] = free_slot(m); ids[i] = new_leaf(m, each / 8); slot_put(m, ks[i], ids[i]); }
  if (VI.collector != COL_SEMI) for (int r = 0, e = 1 + rn(m, 5); r < e; r++) {
    struct nogc a = { m, 0, rn(m, 3) ? 1000000000ULL + rn(m, 2000) * 1000ULL : 1000000ULL * (1 + rn(m, 2500)), 0, 0 };
    run_nogc(m, &a); op_safepoint(m); if (rn(m, 3) == 0) op_alloc(m);
  }
  for (int i = 0; i < n; i++) if (m->ms[ks[i]] == ids[i]) slot_put(m, ks[i], 0);
  op_collect(m, rn(m, 3) ? CK_MAJOR : rn(m, 2) ? CK_COMPACTING : CK_ANY);
  int k = free_slot(m); slot_put(m, k, 0);
  for (int64_t left = room / 100 * (20 + rn(m, 70)); left > 0;) {
    int32_t e = new_node(m, 1, rn(m, 60), 0), h = m->ms[k];
    if (h > 0 && M[h].kind != K_NODE) return;
    M[e].f[0] = h; OBJ_FIELDS(M[e].addr)[0] = h ? word_of(h) : 0;
    slot_put(m, k, e); left -= osize(e);
  }
  if (rn(m, 2)) op_collect(m, CK_MAJOR);
}
// Fill the heap well beyond what the collector is comfortable with, ask for a
// collection, let everything go, and then want a good part of the heap at once.
static void op_fillup(struct mut *m) {
  if (P.policy || over_budget) return;
  uint64_t live = live_bytes_model(), room = heap_size_cfg / 100 * (VI.collector == COL_MMC ? 40 + rn(m, 36) : 15 + rn(m, 20));
  if (room <= live) return;
  room -= live; PROBE(fillups);
  int k = free_slot(m); slot_put(m, k, 0);
  long sv = P.bounded_live; P.bounded_live = 0;
  int style = rn(m, 3); // small, medium, mixed
  for (int64_t left = room; left > 0;) {
    int32_t e = new_node(m, 1, style == 0 ? rn(m, 4) : style == 1 ? 20 + rn(m, 500) : rn(m, 300), 0), h = m->ms[k];
    if (h > 0 && (M[h].kind != K_NODE || !M[h].nf || IS_CHAIN(M[h].f[0]))) break;
    M[e].f[0] = h; OBJ_FIELDS(M[e].addr)[0] = h ? word_of(h) : 0;
    slot_put(m, k, e); left -= osize(e);
  }
  for (int i = 0, n = 1 + rn(m, 2); i < n; i++) op_collect(m, rn(m, 4));
  drop_some(m, 1, 1);
  for (int i = 0, n = 1 + rn(m, 3); i < n; i++) {
    int32_t id = new_leaf(m, heap_size_cfg / 100 * (VI.collector == COL_MMC ? 25 : 12) / 8);
    if (rn(m, 3) == 0) slot_put(m, k, id);
  }
  P.bounded_live = sv;
}
static const struct opdef { const char *name; void (*fn)(struct mut *); size_t woff; } OPS[] = {
#define O(n) { #n, op_##n, offsetof(struct hparams, w_##n) }
  O(alloc), O(link), O(load), O(clear), O(copy), O(unlink), O(hstore), O(hload), O(eph), O(ephread), O(ephdead), O(ephweb), O(push), O(walk), O(fin), O(pop), O(pin),
  O(safepoint), O(nogc), O(churn), O(list), O(wide), O(tree), O(counter), O(extern), O(imm), O(interior), O(regroot), O(glob), O(idle), O(read), O(relink), O(fragment), O(drop), O(biglive), O(huge), O(remember), O(breathe), O(fillup), O(poll), O(junk),
};
#define NOPS ((int)(sizeof OPS / sizeof *OPS))
static void one_op(struct mut *m) {
  if (m->relief) { m->relief = 0; drop_some(m, 3, 4); }
  long tot = P.w_gcany + P.w_gcminor + P.w_gcmajor + P.w_gccompact;
  for (int i = 0; i < NOPS; i++) tot += *(long *)((char *)&P + OPS[i].woff);
  long r = rn(m, tot);
  static const int gk[] = { CK_ANY, CK_MINOR, CK_MAJOR, CK_COMPACTING };
  long gw[] = { P.w_gcany, P.w_gcminor, P.w_gcmajor, P.w_gccompact };
  R->ops++;
  for (int i = 0; i < 4; i++) { if (r < gw[i]) { sim_vlog("m%d op %ld gc %s", m->idx, m->opidx, gckind(gk[i])); op_collect(m, gk[i]); return; } r -= gw[i]; }
  for (int i = 0; i < NOPS; i++) { long w = *(long *)((char *)&P + OPS[i].woff); if (r < w) { sim_vlog("m%d op %ld %s", m->idx, m->opidx, OPS[i].name); OPS[i].fn(m); return; } r -= w; }
}
static void run_ops(struct mut *m, long n) {
  for (long i = 0; i < n; i++) { m->opidx++; one_op(m); sim_progress(); made_progress(); }
}
static void mut_init(struct mut *m, uintptr_t *slots) {
  m->slots = slots; m->ns = P.slots; memset(m->ms, 0, sizeof m->ms); memset(m->off, 0, sizeof m->off);
  m->r.s = sim_hash64(SP.seed * 1000003 + m->idx * 7919 + 17);
  m->roots.n = m->ns; m->roots.slots = slots; m->roots.owner = m;
}
static void *th_body(uintptr_t base, void *arg) {
  struct mut *m = arg;
  uintptr_t slots[MAXSLOTS]; memset(slots, 0, sizeof slots);
  mut_init(m, slots);
  m->where = W_INIT;
  m->gm = mo_init_for_thread(base, HEAP);
  if (!m->gm) V("thread-init", "gc_init_for_thread returned null");
  if (world_stopped) V("ran-during-collection", "gc_init_for_thread returned during collection %u", gcn);
  m->where = W_USER;
  if (!VI.cons_roots) mo_set_roots(m->gm, &m->roots);
  run_ops(m, P.ops);
  for (int k = 0; k < m->ns; k++) { if (m->ms[k] > 0 && rn(m, 3) == 0) hr_put(rn(m, P.hroots), m->ms[k]); slot_put(m, k, 0); }
  if (!VI.cons_roots && (m->idx & 1)) mo_set_roots(m->gm, NULL);
  gc_enter(m); m->where = W_EXIT;
  mo_finish_for_thread(m->gm);
  m->where = W_GONE;
  return NULL;
}
static void *th_main(void *arg) { ((struct mut *)arg)->fiber = sim_self(); mo_call_with_stack_addr(th_body, arg); return NULL; }

static int faults_fired(void) { uint64_t n = 0; for (int i = 0; i < FK_COUNT; i++) if (i == FK_MMAP_FAIL || i == FK_MALLOC_FAIL || i == FK_THREAD_FAIL) n += R->nfault[i]; return n > 0; }
static int crash_hook(int sig, uintptr_t pc, uintptr_t addr) {
  int f = sim_self(); const char *l = sim_last_log;
  int oom = strstr(l, "ran out of space") || strstr(l, "Out of memory") || strstr(l, "failed to allocated") || strstr(l, "weird: we have the space");
  int osf = faults_fired();
  if (sig != SIGILL && sig != SIGABRT) return 0; // abort(): the chain of event listeners, when it can't allocate
  if (sig == SIGILL && oom && sim_last_log_fiber == f) {
    if (P.oom_ok) { PROBE(oom_expected); snprintf(R->klass, sizeof R->klass, "out-of-memory"); return 1; }
    if (osf && P.osfault_ok) { snprintf(R->klass, sizeof R->klass, "os-refusal"); return 1; }
    // A heap that cannot grow to fit a huge object may refuse it, but must say so.
    if (!precise() || unchecked_pins || over_budget || nhuge) { PROBE(oom_expected); snprintf(R->klass, sizeof R->klass, "oom-excusable"); return 1; }
    uint64_t live = live_bytes_model(), req = 0; for (int i = 0; i < SIM_MAXFIB; i++) req += req_size[i];
    if (live > live_limit() + heap_size_cfg / 12) { PROBE(oom_expected); snprintf(R->klass, sizeof R->klass, "oom-over-budget"); return 1; }
    // How much room compaction makes for a large object, with many sparse blocks and
    // hardly an evacuation reserve, is a matter of heuristics.
    if (P.w_fillup && VI.collector == COL_MMC && live + req > heap_size_cfg / 100 * 30) { PROBE(oom_expected); snprintf(R->klass, sizeof R->klass, "oom-fillup"); return 1; }
    V("spurious-oom", "out of memory with %lu bytes reachable and %lu requested in a heap of %zu bytes (gc %u, last kind %s): %.80s", live, req, heap_size_now, gcn, gckind(cur_kind), l);
  }
  // Giving up is right where the refusal can't be worked around, but not later.
  if (osf && P.osfault_ok && sim_refusal_fiber == f && sim_steps() - sim_refusal_step < 20000) { snprintf(R->klass, sizeof R->klass, "os-refusal"); return 1; }
  return 0;
}

// ------------------------------------------------------------------ drain
static void drain(struct mut *m) {
  // Everybody else has left.
  if (P.w_junk) for (int k = m->ns; k < MAXSLOTS; k++) m->slots[k] = 0;
  op_collect(m, CK_MAJOR);
  for (int k = 0; k < m->ns; k++) if (m->ms[k] > 0) { check_object_at(m->ms[k], slot_base(m, k), "slot", -1000); }
  if (P.drain_policy) {
    for (int i = 0; i < 3; i++) op_collect(m, CK_MAJOR);
    uint64_t live = live_after_gc; double mult = P.mult_pct / 100.0; PROBE(policy_checks);
    if (P.policy == 1 && mult > 1 && !P.maxheap_kb && precise() && (double)heap_size_now < 0.85 * mult * live)
      V("heap-below-policy", "growable heap is %zu bytes after full collections with %lu bytes live; multiplier %.2f", heap_size_now, live, mult);
  }
  if (P.drain_fin && nfin) {
    // Drop everything; every finalizer whose object became unreachable must be delivered.
    drop_some(m, 1, 1); for (int i = 0; i < (int)hroots.n; i++) if (!IS_CHAIN(hr_enc[i])) hr_put(i, 0);
    for (int i = 0; i < nglob; i++) { glob_enc[i] = 0; glob[i] = 0; }
    for (int k = 0; k < next; k++) for (int i = 0; i < ext[k].nf; i++) ext_store(k, i, 0);
    for (int round = 0; round < 40 && nfin; round++) {
      PROBE(fin_drain_rounds);
      for (int t = 0; t < 2000; t++) { uint64_t b = fin_popped_n; pop_one(m, 0); if (b == fin_popped_n) break; }
      op_collect(m, CK_MAJOR);
      static uint32_t want[512]; uint32_t nw = 0;
      for (uint32_t i = 0; i < nfin && nw < 512; i++) if (M[fin_list[i]].eliggc == gcn) want[nw++] = fin_list[i];
      uint64_t before = fin_popped_n;
      for (int t = 0; t < 2000; t++) { uint64_t b = fin_popped_n; pop_one(m, 0); if (b == fin_popped_n) break; }
      if (!precise()) { if (before == fin_popped_n) break; continue; }
      for (uint32_t i = 0; i < nw; i++) {
        int32_t ob = M[want[i]].f[0]; int ok = M[want[i]].fstate == FS_POPPED;
        for (uint32_t j = 0; j < nw && !ok; j++) ok = M[want[j]].f[0] == ob && M[want[j]].fstate == FS_POPPED && M[want[j]].popgc == gcn;
        // semi traces large objects as soon as it visits them, in the middle of resolving the finalizers of one priority.
        if (VI.collector == COL_SEMI) for (uint32_t j = 0; j < nw && !ok; j++) ok = M[want[j]].f[0] > 0 && M[M[want[j]].f[0]].large && M[want[j]].fstate == FS_POPPED && M[want[j]].popgc == gcn;
        if (!ok && sim_verbose) { sim_vlog("object kind %s chain %d traced %u gcn %u alive %d", kname(M[ob].kind), M[ob].chain, M[ob].traced, gcn, M[ob].alive); for (uint32_t j = 0; j < nw; j++) sim_vlog("want #%d prio %d object %s #%d closure %d state %d popgc %u", want[j], M[want[j]].prio, kname(M[M[want[j]].f[0]].kind), M[want[j]].f[0], M[want[j]].f[1], M[want[j]].fstate, M[want[j]].popgc); }
        if (!ok) V("finalizer-not-delivered", "finalizer #%u (priority %d) not delivered after a full collection found its object #%d unreachable", want[i], M[want[i]].prio, ob);
      }
      if (before == fin_popped_n) break;
    }
    if (precise() && fin_reported != fin_popped_n) {
      uint32_t pend = 0; for (uint32_t i = 0; i < nfin; i++) if (M[fin_list[i]].elig) pend++;
      if (!pend) V("finalizer-callback", "callback reported %lu finalizers, %lu were delivered", fin_reported, fin_popped_n);
    }
  }
  if (P.drain_reuse && precise() && P.policy == 0) {
    drop_some(m, 1, 1); for (int i = 0; i < (int)hroots.n; i++) if (!IS_CHAIN(hr_enc[i])) hr_put(i, 0);
    for (int k = 0; k < next; k++) for (int i = 0; i < ext[k].nf; i++) ext_store(k, i, 0);
    op_collect(m, CK_MAJOR); op_collect(m, CK_COMPACTING);
    last_live = live_bytes_model();
    if (last_live < heap_size_cfg / 10) {
      long frac = VI.collector == COL_MMC ? 60 : 30;
      uint32_t nw = heap_size_cfg / 100 * frac / 8;
      for (int i = 0; i < 3; i++) { PROBE(reuse_checks); long sv = P.bounded_live; P.bounded_live = 0; int32_t id = new_leaf(m, nw); P.bounded_live = sv; slot_put(m, 0, id); op_read(m); slot_put(m, 0, 0); }
    }
  }
  if (P.drain_idle) {
    drop_some(m, 1, 1); for (int i = 0; i < (int)hroots.n; i++) if (!IS_CHAIN(hr_enc[i])) hr_put(i, 0);
    for (int i = 0; i < nglob; i++) { glob_enc[i] = 0; glob[i] = 0; }
    for (int i = 0; i < 3; i++) op_collect(m, CK_MAJOR);
    struct nogc a = { m, 0, 1000000000ULL * 200, 0, 0 }; run_nogc(m, &a); PROBE(idle_checks);
    if (P.policy == 2 && VI.parallel && VI.collector == COL_PCC) {
      PROBE(idle_shrinks);
      if (heap_size_now > adaptive_lo(live_reported) * 1.01 + 65536) V("heap-size-policy", "adaptive heap is still %zu bytes after 200 idle seconds with %zu bytes live", heap_size_now, live_reported);
    }
    R->resident_kb = sim_os_resident() >> 10;
    uint64_t cap_kb = (heap_size_now + sim_os_rw_mapped() / 16) >> 10;
    if (R->resident_kb > cap_kb) PROBE_MAX(max_idle_excess_kb, R->resident_kb - cap_kb);
    // Only a collection can give back blocks that mmc has not swept; verification in its debug builds reads released pages back in.
    if (!R->nfault[FK_MADVISE_FAIL] && (VI.collector == COL_PCC || (P.policy == 0 && !VI.debug)) && R->resident_kb > cap_kb + 1024)
      V("idle-residency", "%lu KB resident after 200 idle seconds, with a heap of %zu KB and %zu bytes live", R->resident_kb, heap_size_now >> 10, live_reported);
    sim_vlog("idle: resident %lu KB heap %zu KB", R->resident_kb, heap_size_now >> 10);
    op_collect(m, CK_COMPACTING); op_collect(m, CK_MAJOR);
    struct nogc b = { m, 0, 1000000000ULL * 20, 0, 0 }; run_nogc(m, &b);
    uint64_t res2 = sim_os_resident() >> 10; cap_kb = (heap_size_now + sim_os_rw_mapped() / 16) >> 10;
    if (res2 > cap_kb) PROBE_MAX(max_idle_excess2_kb, res2 - cap_kb);
    if (!R->nfault[FK_MADVISE_FAIL] && VI.collector == COL_MMC && !VI.debug && res2 > cap_kb + (VI.cons_roots || VI.cons_trace ? 4096 : 1024))
      V("idle-residency", "%lu KB resident after a compacting collection and 20 idle seconds, with a heap of %zu KB and %zu bytes live", res2, heap_size_now >> 10, live_reported);
    op_collect(m, CK_MAJOR);
    run_ops(m, 30);
  }
}

#include "options.h"
static void *main_body(uintptr_t base, void *arg) {
  struct mut *m = &MU[0]; nmu = 1;
  uintptr_t slots[MAXSLOTS]; memset(slots, 0, sizeof slots);
  m->idx = 0; m->fiber = sim_self(); mut_init(m, slots); m->where = W_INIT;
  HL = sim_priv_alloc(16); HL->magic = 1;
  sim_os_discard_hook = discard_hook; sim_crash_hook = crash_hook;
  sim_set_name("main");
  struct mo_options o = { .policy = P.policy, .parallelism = P.par, .heap_size = P.heap_kb * 1024UL, .max_heap_size = P.maxheap_kb * 1024UL,
                          .multiplier = P.mult_pct / 100.0, .expansiveness = P.expans_pct / 100.0, .stats = P.stats };
  if (P.fault_after_init) sim_faults_enabled = 0;
  if (P.optstr) {
    OX.s = sim_hash64(P.optstr * 0x9E3779B97F4A7C15ULL);
    for (int n = on_(4); n--;) opt_round();
    o.made = opt_from_text(&o, 1);
  }
  int r = mo_init(&o, base, &HEAP, &m->gm, HL);
  if (r == -1) V("options-rejected", "gc_init's options were refused");
  if (r == 0) { if (faults_fired()) sim_finish_expected("init-failed-os-refusal"); V("init-failed", "gc_init failed"); }
  sim_faults_enabled = 1;
  if (!init_seen) V("event-order", "no init event");
  heap_size_cfg = P.heap_kb * 1024UL;
  m->where = W_USER;
  if (!VI.cons_roots) mo_set_roots(m->gm, &m->roots);
  if (P.hroots < 1) P.hroots = 1;
  hroots.n = P.hroots + P.chains; hroots.slots = hr_words;
  for (int i = 0; i < NCHAIN_MAX; i++) { chains[i].head = 0; chains[i].owner_id = -1; }
  for (int i = 0; i < P.chains; i++) { hr_enc[P.hroots + i] = ENC_CHAIN0 - i; chains[i].owner_id = 0; }
  nchains = P.chains;
  mo_heap_set_roots(HEAP, &hroots);
  mo_set_extern_space(HEAP, ext);
  mo_fin_set_callback(HEAP, fin_callback);
  glob = (uintptr_t *)SIM_GLOB_BASE; nglob = 0;
  if (VI.cons_roots) { nglob = GLOB_N; glob = (uintptr_t *)(SIM_GLOB_BASE + SIM_GLOB_SIZE / 2 - GLOB_N * 4); }
  for (int w = 0; w < P.waves; w++) {
    int j0 = nmu, n = VI.collector == COL_SEMI ? 1 : (int)P.nmut;
    if (nmu + n - 1 > MAXMUT) break;
    for (int i = 1; i < n; i++) {
      struct mut *t = &MU[nmu]; t->idx = nmu; t->wave = w; t->where = W_NONE; nmu++;
      t->fiber = -1; t->fiber = sim_spawn(th_main, t, "mutator");
      if (rn(m, 2)) one_op(m);
    }
    run_ops(m, P.ops);
    if (nmu > j0) { struct nogc a = { m, 0, 0, j0, nmu }; run_nogc(m, &a); }
  }
  if (P.drain) { drain(m); }
  check_stats();
  // Conservative roots keep a few keys by accident, but not all of them.
  if (neph_kept >= 25 && neph_cleared * 10 < neph_kept) V("ephemeron-not-cleared", "%u ephemerons were kept in full collections although their keys were unreachable, and only %u were cleared", neph_kept, neph_cleared);
  sim_finish_ok();
  return NULL;
}
void harness_main(void *arg) {
  if (P.main_empty_base) main_body(0, NULL);
  else mo_call_with_stack_addr(main_body, NULL);
}
void harness_init(void) {
  mo_fill_info();
  M = sim_priv_alloc(sizeof *M * (size_t)MAXOBJ);
  alive_list = sim_priv_alloc(4UL * MAXOBJ); fin_list = sim_priv_alloc(4UL * 4096);
  shadow = sim_priv_alloc((SIM_OS_SIZE >> 3) * 4); pshadow = sim_priv_alloc((SIM_OS_SIZE >> 12) * 4);
  cstack_max = MAXOBJ + 65536; cstack = sim_priv_alloc(cstack_max * 4); wstack = sim_priv_alloc(cstack_max * 4);
  moved_list = sim_priv_alloc(sizeof *moved_list * (size_t)MAXOBJ); gkinds = sim_priv_alloc(MAXOBJ);
}
