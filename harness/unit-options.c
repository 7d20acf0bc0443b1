// Option setting and parsing against an independent reference.
#include "unit.h"
#include <limits.h>
#include <math.h>
#include "gc-api.h"
#define GC_IMPL 1
#include "gc-options-internal.h"

static const char *uop_names[] = { "SETINT", "SETSIZE", "SETDOUBLE", "PARSE", "MANY", "NAME" };
enum { SETINT, SETSIZE, SETDOUBLE, PARSE, MANY, NAME, NOPS };
static const size_t uop_count = NOPS;

static void ugen(struct rng *r, struct ucase *c) {
  size_t n = 1 + rn(r, 60);
  for (size_t i = 0; i < n; i++) {
    static const int w[] = { 2, 3, 3, 14, 10, 1 };
    int x = rn(r, 33), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rn(r, 16), rn(r, 1 << 16));
  }
}

struct model { int policy, par; size_t hs, mhs; double mult, exp; };
static const char *names[] = { "heap-size-policy", "heap-size", "maximum-heap-size",
  "heap-size-multiplier", "heap-expansiveness", "parallelism" };
static const int ids[] = { GC_OPTION_HEAP_SIZE_POLICY, GC_OPTION_HEAP_SIZE,
  GC_OPTION_MAXIMUM_HEAP_SIZE, GC_OPTION_HEAP_SIZE_MULTIPLIER, GC_OPTION_HEAP_EXPANSIVENESS,
  GC_OPTION_PARALLELISM };
static struct gc_common_options *common(struct gc_options *o) { return (struct gc_common_options*)o; }

static void compare(struct gc_options *o, struct model *m, const char *why) {
  struct gc_common_options *c = common(o);
  if ((int)c->heap_size_policy != m->policy) ufail("%s: heap-size-policy is %d, expected %d", why, c->heap_size_policy, m->policy);
  if (c->heap_size != m->hs) ufail("%s: heap-size is %zu, expected %zu", why, c->heap_size, m->hs);
  if (c->maximum_heap_size != m->mhs) ufail("%s: maximum-heap-size is %zu, expected %zu", why, c->maximum_heap_size, m->mhs);
  if (c->heap_size_multiplier != m->mult) ufail("%s: heap-size-multiplier is %g, expected %g", why, c->heap_size_multiplier, m->mult);
  if (c->heap_expansiveness != m->exp) ufail("%s: heap-expansiveness is %g, expected %g", why, c->heap_expansiveness, m->exp);
  if (c->parallelism != m->par) ufail("%s: parallelism is %d, expected %d", why, c->parallelism, m->par);
}
static int mset_int(struct model *m, int opt, int v) {
  switch (opt) {
  case 0: if (v < 0 || v > 2) return 0; m->policy = v; return 1;
  case 5: if (v < 1 || v > 64) return 0; m->par = v; return 1;
  default: return 0;
  }
}
static int mset_size(struct model *m, int opt, size_t v) {
  switch (opt) {
  case 1: m->hs = v; return 1;
  case 2: m->mhs = v; return 1;
  default: return 0;
  }
}
static int mset_double(struct model *m, int opt, double v) {
  switch (opt) {
  case 3: if (!(v >= 1.0 && v <= 1e6)) return 0; m->mult = v; return 1;
  case 4: if (!(v >= 0.0 && v <= 50.0)) return 0; m->exp = v; return 1;
  default: return 0;
  }
}
// Reference integer parser: [+-](0x hex | 0 octal | decimal), with *rest set.
// Returns 0 if there are no digits.  Saturates.
static int ref_int(const char *s, __int128 *val, const char **rest) {
  int neg = 0;
  if (*s == '+' || *s == '-') neg = *s++ == '-';
  int base = 10;
  if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X') &&
      ((s[2] >= '0' && s[2] <= '9') || ((s[2] | 32) >= 'a' && (s[2] | 32) <= 'f')))
    base = 16, s += 2;
  else if (s[0] == '0') base = 8;
  __int128 v = 0; int n = 0;
  for (;; s++, n++) {
    int d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'f' ? (*s | 32) - 'a' + 10 : 99;
    if (d >= base) break;
    if (v < ((__int128)1 << 100)) v = v * base + d;
  }
  *rest = s; *val = neg ? -v : v;
  return n > 0;
}
static int mparse(struct model *m, int opt, const char *s) {
  __int128 v; const char *rest;
  switch (opt) {
  case 0:
    if (!strcmp(s, "fixed")) return mset_int(m, 0, 0);
    if (!strcmp(s, "growable")) return mset_int(m, 0, 1);
    if (!strcmp(s, "adaptive")) return mset_int(m, 0, 2);
    // fall through
  case 5:
    if (!ref_int(s, &v, &rest) || *rest || v < INT_MIN || v > INT_MAX) return 0;
    return mset_int(m, opt, (int)v);
  case 1: case 2: {
    if (!ref_int(s, &v, &rest) || v < 0) return 0;
    int sh = 0;
    switch (*rest | 32) { case 'k': sh = 10; break; case 'm': sh = 20; break; case 'g': sh = 30; break; case 't': sh = 40; break; }
    if (sh) rest++;
    if (*rest) return 0;
    if (v >= ((__int128)1 << 63)) return 0;
    v <<= sh;
    if (v >= ((__int128)1 << 63)) return 0;
    return mset_size(m, opt, (size_t)v);
  }
  default: {
    char *end;
    double d = strtod(s, &end);
    if (end == s || *end) return 0;
    return mset_double(m, opt, d);
  }
  }
}
// A value for an option, mostly well-formed; value characters only.
static int gen_value(struct rng *r, int opt, char *out) {
  int well = rn(r, 10) < 7;
  static const char *pol[] = { "fixed", "growable", "adaptive", "0", "1", "2", "3", "-1", "Fixed", "fixe", "fixedd", "" };
  static const char *junk[] = { "", "-", "+", "k", "0x", "1kk", "1kb", "k1", "1.5", "1e3", "12a", "-5", "--5", "99999999999999999999",
    "9223372036854775806", "9223372036854775808", "18446744073709551615", "8388607t", "8388608t", "16777216t", "9007199254740991k", "9007199254740992k", "18014398509481984k", "0x7fffffffffffffe", "00", "08", "-0", "+7", "1m1", "0x10g", "0X1M",
    "4294967297", "2147483648", "-2147483649", "4294967296", "nan", "inf", "-inf", "1e6", "1000000.1", "0.99", "50.5", "50", "0", "-0.1", "1e400", ".5", "5.", "1", "64", "65", "fixed", "0x1p4", "1e-400" };
  if (!well) { strcpy(out, junk[rn(r, sizeof junk / sizeof *junk)]); return 0; }
  switch (opt) {
  case 0: strcpy(out, pol[rn(r, 12)]); break;
  case 5: sprintf(out, rn(r, 4) ? "%d" : "0x%x", (int)rn(r, 80) - 5); if (out[0] == '0' && out[1] == 'x' && strlen(out) > 6) strcpy(out, "8"); break;
  case 1: case 2: {
    static const char *suf[] = { "", "k", "K", "m", "M", "g", "G", "t", "T" };
    int k = rn(r, 9);
    uint64_t v = rnd(r) >> (1 + rn(r, 63));
    if (v == INT64_MAX) v--;
    static const char *fm[] = { "%" PRIu64, "%" PRIu64, "0x%" PRIx64, "0%" PRIo64 };
    char b[64];
    sprintf(b, fm[rn(r, 4)], v);
    sprintf(out, "%s%s", b, suf[k]);
    break;
  }
  default: sprintf(out, rn(r, 2) ? "%.3f" : "%g", rn(r, 3) ? rn(r, 6000) * 0.01 : rn(r, 11000000) * 0.1); break;
  }
  return 1;
}
static void urun(struct ucase *c) {
  struct gc_options *o = gc_allocate_options();
  struct gc_common_options *co = common(o);
  // Defaults, as documented in doc/ and gc-options.h's implementation.
  struct model m = { co->heap_size_policy, co->parallelism, co->heap_size, co->maximum_heap_size,
    co->heap_size_multiplier, co->heap_expansiveness };
  if (m.policy != 0 || m.mhs != 0 || m.par < 1 || m.par > 64 || !m.hs || m.mult < 1 || m.exp < 0)
    ufail("defaults are out of range");
  int ok = 0, bad = 0;
  for (size_t n = 0; n < c->n; n++) {
    struct uop *op = &c->ops[n];
    struct rng r = { op->a };
    int opt = op->c % 6, got, want;
    char why[700];
    switch (op->code) {
    case SETINT: {
      static const int vs[] = { -1, 0, 1, 2, 3, 64, 65, INT_MIN, INT_MAX, 8 };
      int v = rn(&r, 2) ? vs[op->b % 10] : (int)rn(&r, 70);
      got = gc_options_set_int(o, ids[opt], v); want = mset_int(&m, opt, v);
      snprintf(why, sizeof why, "set_int(%s, %d)", names[opt], v);
      break;
    }
    case SETSIZE: {
      size_t v = op->b >> rn(&r, 64);
      got = gc_options_set_size(o, ids[opt], v); want = mset_size(&m, opt, v);
      snprintf(why, sizeof why, "set_size(%s, %zu)", names[opt], v);
      break;
    }
    case SETDOUBLE: {
      static const double vs[] = { 0.0, 1.0, -1e-9, 0.999999, 1e6, 1e6 + 1, 50.0, 50.0001, INFINITY, NAN, -INFINITY, 2.5 };
      double v = rn(&r, 2) ? vs[op->b % 12] : rn(&r, 70000) * 0.001;
      got = gc_options_set_double(o, ids[opt], v); want = mset_double(&m, opt, v);
      snprintf(why, sizeof why, "set_double(%s, %g)", names[opt], v);
      break;
    }
    case PARSE: {
      char v[128];
      gen_value(&r, opt, v);
      got = gc_options_parse_and_set(o, ids[opt], v); want = mparse(&m, opt, v);
      snprintf(why, sizeof why, "parse_and_set(%s, \"%s\")", names[opt], v);
      break;
    }
    case MANY: {
      char s[1024] = ""; int k = rn(&r, 6);
      want = 1;
      int syntax_ok = 1;
      for (int i = 0; i < k; i++) {
        int q = rn(&r, 6); char v[128];
        int well = gen_value(&r, q, v);
        (void)well;
        const char *nm = names[q], *eq = "=";
        int oops = rn(&r, 40);
        char nmbuf[64]; strcpy(nmbuf, nm);
        if (oops == 0) { strcat(nmbuf, "x"); nm = nmbuf; }
        if (oops == 1) { nmbuf[strlen(nmbuf) - 1] = 0; nm = nmbuf; }
        if (oops == 2) { nmbuf[0] -= 32; nm = nmbuf; }
        if (oops == 3) eq = "";
        if (oops == 4) eq = " =";
        if (i) strcat(s, ",");
        strcat(s, nm); strcat(s, eq); strcat(s, v);
        if (!want) continue;
        if (oops <= 4) want = syntax_ok = 0;
        else if (!mparse(&m, q, v)) want = 0;
      }
      got = gc_options_parse_and_set_many(o, s);
      snprintf(why, sizeof why, "parse_and_set_many(\"%s\")", s);
      break;
    }
    default: {
      for (int i = 0; i < 6; i++)
        if (gc_option_from_string(names[i]) != ids[i]) ufail("gc_option_from_string(%s)", names[i]);
      static const char *no[] = { "", "heap", "heap-size-", "heap-sizes", "HEAP-SIZE", "heap_size", "parallel", "=", "heap-size=" };
      if (gc_option_from_string(no[op->b % 9]) >= 0) ufail("gc_option_from_string(%s) accepted", no[op->b % 9]);
      got = want = 1;
      strcpy(why, "names");
      // unknown option ids are refused
      if (gc_options_set_int(o, 77, 1) || gc_options_set_size(o, -1, 1) || gc_options_parse_and_set(o, 99, "1"))
        ufail("unknown option was accepted");
      break;
    }
    }
    if (!!got != want) ufail("%s returned %d, expected %d", why, got, want);
    compare(o, &m, why);
    if (want) ok++; else bad++;
  }
  free(o);
  if (ok >= 2 && bad >= 2) NONTRIVIAL();
  USTAT(0, ok); USTAT(1, bad);
}
