// Oracle for option parsing (included by harness.c).  A reference model says
// which strings are well formed and what they set; two option structures are
// compared as bytes (the simulator's malloc fills fresh memory alike, so two
// structures with the same options are identical, padding included).
#include <limits.h>
#define NOPT 6
static const char *const opt_name[NOPT] = { "heap-size-policy", "heap-size", "maximum-heap-size", "heap-size-multiplier", "heap-expansiveness", "parallelism" };
enum { OT_INT, OT_SIZE, OT_DOUBLE };
static const int opt_type[NOPT] = { OT_INT, OT_SIZE, OT_SIZE, OT_DOUBLE, OT_DOUBLE, OT_INT };
struct optval { int i; uint64_t z; double d; };
struct optset { struct optval v[NOPT]; unsigned set; };
static struct sim_rng OX;
static int on_(uint32_t n) { return sim_rndn(&OX, n); }
static uint64_t malloc_faults(void) { return R->nfault[FK_MALLOC_FAIL]; }
static int opt_apply(void *o, int k, const struct optval *v) {
  return opt_type[k] == OT_INT ? mo_opt_set_int(o, k, v->i) : opt_type[k] == OT_SIZE ? mo_opt_set_size(o, k, v->z) : mo_opt_set_double(o, k, v->d);
}
// A fresh structure holding exactly these options; NULL if memory is refused.
static void *opt_make(const struct optset *s) {
  void *o = mo_opt_alloc(); if (!o) { if (!malloc_faults()) V("options-alloc", "gc_allocate_options failed"); return NULL; }
  for (int k = 0; k < NOPT; k++) if (s->set >> k & 1)
    if (!opt_apply(o, k, &s->v[k])) V("options-rejected", "setting %s to int %d / size %lu / double %g failed", opt_name[k], s->v[k].i, s->v[k].z, s->v[k].d);
  return o;
}
static int opt_same(void *a, void *b) { size_t n = sim_malloc_size(a); return n == sim_malloc_size(b) && !memcmp(a, b, n); }
static int opt_is(void *o, const struct optset *s) { void *r = opt_make(s); if (!r) return 1; int same = opt_same(o, r); sim_free_raw(r); return same; }
// A well-formed value, as text and as what it means.
static void opt_good(int k, struct optval *v, char *buf) {
  static const char *const pol[] = { "fixed", "growable", "adaptive" };
  static const char unit[] = "kmgt";
  switch (opt_type[k]) {
  case OT_INT:
    if (!strcmp(opt_name[k], "parallelism")) { v->i = on_(3) ? 1 + on_(64) : on_(2) ? 64 : 1; sprintf(buf, "%d", v->i); }
    else { v->i = on_(3); strcpy(buf, pol[v->i]); }
    break;
  case OT_SIZE: {
    int u = on_(5), sh = u ? 10 * u : 0; uint64_t n, top = ~0ULL >> sh; if (top > (1ULL << 62)) top = 1ULL << 62;
    switch (on_(4)) { case 0: n = on_(64); break; case 1: n = top - on_(3); break; default: n = sim_rnd(&OX) >> (2 + on_(60)); if (n > top) n = top; }
    v->z = n << sh; sprintf(buf, u ? "%lu%c" : "%lu", n, u ? unit[u - 1] : 0); break;
  }
  default: {
    int mul = !strcmp(opt_name[k], "heap-size-multiplier");
    switch (on_(5)) {
    case 0: strcpy(buf, mul ? "1" : "0"); break;
    case 1: strcpy(buf, mul ? "1e6" : "50"); break;
    case 2: sprintf(buf, "%d", mul ? 1 + on_(9) : on_(50)); break;
    default: sprintf(buf, "%.*f", 1 + on_(6), (mul ? 1 : 0) + on_(4000000) / 1e5 * (mul ? 1 : 1)); break;
    }
    v->d = strtod(buf, NULL);
    if (v->d > (mul ? 1e6 : 50)) { strcpy(buf, "1.5"); v->d = 1.5; }
  } }
}
// A value that must be refused.
static void opt_bad(int k, char *buf) {
  static const char *const any[] = { "", "foo", "4mm", "--1", "1-", "5q", "1.5.2", "k", "12x4", "nan", "-" };
  static const char *const size[] = { "-1", "-4k", "99999999999999999999999", "16777216t", "17179869184g", "17592186044416m", "18014398509481984k", "4kb", "1k1", "4.5m" };
  static const char *const par[] = { "0", "65", "-1", "4294967297", "8589934594", "99999999999999999999", "-4294967295", "1k", "2.0", "18446744073709551617" };
  static const char *const pol[] = { "3", "-1", "fixe", "fixedd", "adaptive-", "growabl", "4294967296", "4294967297", "-4294967295" };
  static const char *const mul[] = { "0.99", "0", "-1", "-inf", "inf", "1000001", "2e6", "0.999999", "-2", "1e" };
  static const char *const exp[] = { "-0.1", "50.1", "51", "inf", "-1", "1e3", "-inf", "5e", "50.00001" };
  const char *s = NULL;
#define PICK(a) a[on_(sizeof a / sizeof *a)]
  if (!on_(3)) s = PICK(any);
  else switch (k) { case 0: s = PICK(pol); break; case 1: case 2: s = PICK(size); break; case 3: s = PICK(mul); break; case 4: s = PICK(exp); break; default: s = PICK(par); }
  strcpy(buf, s);
}
static void opt_check_names(void) {
  for (int k = 0; k < NOPT; k++) {
    char b[64]; int g = mo_opt_from_string(opt_name[k]);
    if (g != mo_opt_id(k)) V("options-name", "option name %s is number %d, expected %d", opt_name[k], g, mo_opt_id(k));
    strcpy(b, opt_name[k]); b[on_(strlen(b))] ^= 1 + on_(6);
    if (strchr(b, 0) == b + strlen(opt_name[k]) && mo_opt_from_string(b) >= 0) V("options-name", "option name %s accepted", b);
    sprintf(b, on_(2) ? "%sx" : "%.5s", opt_name[k]); if (mo_opt_from_string(b) >= 0) V("options-name", "option name %s accepted", b);
  }
}
// One round: typed setters, single values and lists, well formed or not.
static void opt_round(void) {
  struct optset cur = { .set = 0 }; void *o = mo_opt_alloc(); if (!o) { if (!malloc_faults()) V("options-alloc", "gc_allocate_options failed"); return; }
  opt_check_names();
  for (int n = 1 + on_(6); n--;) {
    PROBE(option_checks);
    int k = on_(NOPT); char buf[1024], str[1024]; struct optval v = { 0 };
    switch (on_(4)) {
    case 0: opt_good(k, &v, buf); if (!opt_apply(o, k, &v)) V("options-rejected", "setting %s to %s failed", opt_name[k], buf); cur.v[k] = v; cur.set |= 1u << k; break;
    case 1: { // a typed setter must refuse a value out of range, and options of another type
      int t = on_(2);
      if (t) {
        if (opt_type[k] == OT_SIZE ? mo_opt_set_int(o, k, 1) || mo_opt_set_double(o, k, 1.0) : opt_type[k] == OT_INT ? mo_opt_set_size(o, k, 1) || mo_opt_set_double(o, k, 1.0) : mo_opt_set_int(o, k, 1) || mo_opt_set_size(o, k, 1))
          V("options-accepted", "%s set through a setter of another type", opt_name[k]);
      } else if (opt_type[k] == OT_INT) { static const int bi[] = { -1, INT_MIN, INT_MAX, 65, 100 }; int b = bi[on_(5)]; if (mo_opt_set_int(o, k, b)) V("options-accepted", "%s set to %d", opt_name[k], b); }
      else if (opt_type[k] == OT_DOUBLE) { static const double bd[] = { -1, -1e-9, 1e300, 1000000.5, 1e7 }; double b = bd[on_(5)]; if (mo_opt_set_double(o, k, b)) V("options-accepted", "%s set to %g", opt_name[k], b); }
      break;
    }
    case 2: {
      int good = on_(2); if (good) opt_good(k, &v, buf); else opt_bad(k, buf);
      int r = mo_opt_parse(o, k, buf);
      if (good != !!r) V(good ? "options-rejected" : "options-accepted", "parsing \"%s\" for %s returned %d", buf, opt_name[k], r);
      if (good) { cur.v[k] = v; cur.set |= 1u << k; }
      break;
    }
    default: {
      struct optset st[8]; int nst = 0; st[nst++] = cur; char *q = str; *q = 0;
      int items = on_(7), bad = on_(2) && items ? on_(items) : -1;
      for (int i = 0; i < items; i++) {
        int k2 = on_(NOPT); struct optval v2 = { 0 }; if (i) *q++ = ',';
        if (i == bad) {
          opt_good(k2, &v2, buf);
          switch (on_(8)) {
          case 0: q += sprintf(q, "%s", opt_name[k2]); break;                       // no value
          case 1: q += sprintf(q, "=%s", buf); break;                               // no name
          case 2: q += sprintf(q, "%sx=%s", opt_name[k2], buf); break;              // unknown name
          case 3: q += sprintf(q, "%.4s=%s", opt_name[k2], buf); break;
          case 4: q += sprintf(q, "%s=%s!", opt_name[k2], buf); break;              // stray character
          case 5: q += sprintf(q, "%s==%s", opt_name[k2], buf); break;
          default: opt_bad(k2, buf); q += sprintf(q, "%s=%s", opt_name[k2], buf); break;
          }
        } else {
          opt_good(k2, &v2, buf); q += sprintf(q, "%s=%s", opt_name[k2], buf);
          if (bad < 0 || i < bad) { st[nst] = st[nst - 1]; st[nst].v[k2] = v2; st[nst].set |= 1u << k2; nst++; }
        }
      }
      uint64_t f0 = malloc_faults(); int r = mo_opt_parse_many(o, str);
      if (r && bad >= 0) V("options-accepted", "\"%s\" accepted", str);
      if (!r && bad < 0 && malloc_faults() == f0) V("options-rejected", "\"%s\" rejected", str);
      if (r) cur = st[nst - 1];
      else { // options before the malformed one may have been set
        int j = nst - 1; while (j > 0 && !opt_is(o, &st[j])) j--;
        cur = st[j];
      }
      k = -1; strcpy(buf, str);
    } }
    if (!opt_is(o, &cur)) V("options-value", "after %s%s\"%.200s\" the options differ from what was set", k < 0 ? "parsing " : opt_name[k], k < 0 ? "" : " ", buf);
  }
}
// The run's own options, given as a string.
static void *opt_from_text(const struct mo_options *m, int noise) {
  static const char *const pol[] = { "fixed", "growable", "adaptive" };
  char str[1024], *q = str; struct optset s = { .set = 0 }; int order[NOPT]; for (int i = 0; i < NOPT; i++) order[i] = i;
  for (int i = NOPT - 1; i > 0; i--) { int j = on_(i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
  struct optval v[NOPT] = { { .i = m->policy }, { .z = m->heap_size }, { .z = m->max_heap_size }, { .d = m->multiplier }, { .d = m->expansiveness }, { .i = m->parallelism } };
  for (int i = 0; i < NOPT; i++) {
    int k = order[i]; if ((k == 2 && !v[k].z) || (opt_type[k] == OT_DOUBLE && !(v[k].d > 0))) continue;
    if (noise && !on_(3)) { struct optval d; char b[64]; opt_good(k, &d, b); q += sprintf(q, "%s=%s,", opt_name[k], b); } // overridden below
    q += sprintf(q, "%s=", opt_name[k]); s.v[k] = v[k]; s.set |= 1u << k;
    if (k == 0) q += sprintf(q, "%s", pol[v[k].i]);
    else if (opt_type[k] == OT_INT) q += sprintf(q, "%d", v[k].i);
    else if (opt_type[k] == OT_DOUBLE) q += sprintf(q, "%.*f", 2 + on_(3), v[k].d);
    else if (v[k].z % (1 << 20) == 0 && on_(2)) q += sprintf(q, "%lum", v[k].z >> 20);
    else if (v[k].z % 1024 == 0 && on_(2)) q += sprintf(q, "%luk", v[k].z >> 10);
    else q += sprintf(q, "%lu", v[k].z);
    *q++ = ',';
  }
  q[-1] = 0;
  void *o = mo_opt_alloc(); if (!o) return NULL;
  uint64_t f0 = malloc_faults();
  if (!mo_opt_parse_many(o, str)) { if (malloc_faults() == f0) V("options-rejected", "\"%s\" rejected", str); if (!opt_is(o, &(struct optset){ 0 })) V("options-value", "options changed by a parse that had no memory"); return NULL; }
  if (!opt_is(o, &s)) V("options-value", "after parsing \"%s\" the options differ from those set one by one", str);
  PROBE(options_by_text);
  return o;
}
