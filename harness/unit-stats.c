// Collection statistics, histograms and listener chains against a model fed
// with the same generated history of events.  The clocks are ours.
#include "unit.h"
#include <sys/time.h>
#include "gc-assert.h"
#include "gc-collection-kind.h"
#include "gc-event-listener.h"
static uint64_t wall_us, cpu_ns;
static int fake_gettimeofday(struct timeval *tv, void *tz) {
  tv->tv_sec = wall_us / 1000000; tv->tv_usec = wall_us % 1000000;
  return 0;
}
static int fake_clock_gettime(clockid_t id, struct timespec *ts) {
  uint64_t ns = id == CLOCK_PROCESS_CPUTIME_ID ? cpu_ns : wall_us * 1000;
  ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000;
  return 0;
}
#define gettimeofday fake_gettimeofday
#define clock_gettime fake_clock_gettime
#include "gc-basic-stats.h"
#undef gettimeofday
#undef clock_gettime
#include "gc-event-listener-chain.h"
#include "gc-null-event-listener.h"

GC_DEFINE_HISTOGRAM(h_wide, 40, 6);
GC_DEFINE_HISTOGRAM(h_tiny, 6, 1);

static const char *uop_names[] = { "GC", "RESIZE", "LIVE", "ADDMUT", "DELMUT", "HIST" };
enum { GC, RESIZE, LIVE, ADDMUT, DELMUT, HIST, NOPS };
static const size_t uop_count = NOPS;
static void ugen(struct rng *r, struct ucase *c) {
  size_t n = 1 + rn(r, rn(r, 4) ? 60 : 400);
  c->p[0] = rnd(r);    // shape of the chain
  c->p[1] = rn(r, 26); // magnitude of pauses
  c->p[2] = rnd(r);
  for (size_t i = 0; i < n; i++) {
    static const int w[] = { 20, 4, 6, 2, 2, 2 };
    int x = rn(r, 36), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rnd(r), rnd(r));
  }
}

// ---- recording listeners
enum { E_INIT, E_REQ, E_WAIT, E_STOPPED, E_PREP, E_ROOTS, E_HEAP, E_EPH, E_FIN, E_RESTART,
       E_MADD, E_MCAUSE, E_MSTOPPING, E_MSTOPPED, E_MRESTARTED, E_MREMOVED, E_RESIZED, E_LIVE };
#define NREC 6
struct rec { int index; uint64_t hash, count; uint64_t last; };
struct mrec { struct rec *rec; uint64_t id; int alive; };
static struct rec recs[NREC];
static struct mrec mrecs[NREC][64]; static int nmrec[NREC];
static int order[NREC + 1], norder;
static void note(struct rec *r, int ev, uint64_t x) {
  if (r < recs || r >= recs + NREC) ufail("a listener got another one's data");
  r->hash = mix64(r->hash ^ mix64(ev * 1000003 + x)); r->count++; r->last = ev;
  if (norder < NREC) order[norder++] = r->index;
  else ufail("an event was delivered too often");
}
static struct rec* mnote(void *m, int ev) {
  struct mrec *mr = m;
  if (!mr || !mr->rec) ufail("a mutator event without the mutator's data");
  if (mr < mrecs[0] || mr >= (struct mrec*)(mrecs + NREC)) ufail("a mutator event got foreign data");
  if (!mr->alive) ufail("an event for a removed mutator");
  note(mr->rec, ev, mr->id);
  return mr->rec;
}
static void r_init(void *d, size_t s) { note(d, E_INIT, s); }
static void r_req(void *d) { note(d, E_REQ, 0); }
static void r_wait(void *d) { note(d, E_WAIT, 0); }
static void r_stopped(void *d) { note(d, E_STOPPED, 0); }
static void r_prep(void *d, enum gc_collection_kind k) { note(d, E_PREP, k); }
static void r_roots(void *d) { note(d, E_ROOTS, 0); }
static void r_heap(void *d) { note(d, E_HEAP, 0); }
static void r_eph(void *d) { note(d, E_EPH, 0); }
static void r_fin(void *d) { note(d, E_FIN, 0); }
static void r_restart(void *d) { note(d, E_RESTART, 0); }
static void* r_madd(void *d) {
  struct rec *r = d;
  note(r, E_MADD, 0);
  struct mrec *m = &mrecs[r->index][nmrec[r->index]];
  *m = (struct mrec){ r, nmrec[r->index], 1 };
  nmrec[r->index]++;
  return m;
}
static void r_mcause(void *m) { mnote(m, E_MCAUSE); }
static void r_mstopping(void *m) { mnote(m, E_MSTOPPING); }
static void r_mstopped(void *m) { mnote(m, E_MSTOPPED); }
static void r_mrestarted(void *m) { mnote(m, E_MRESTARTED); }
static void r_mremoved(void *m) { mnote(m, E_MREMOVED); ((struct mrec*)m)->alive = 0; }
static void r_resized(void *d, size_t s) { note(d, E_RESIZED, s); }
static void r_live(void *d, size_t s) { note(d, E_LIVE, s); }
static const struct gc_event_listener rec_listener = {
  .init = r_init, .requesting_stop = r_req, .waiting_for_stop = r_wait, .mutators_stopped = r_stopped,
  .prepare_gc = r_prep, .roots_traced = r_roots, .heap_traced = r_heap, .ephemerons_traced = r_eph,
  .finalizers_traced = r_fin, .restarting_mutators = r_restart, .mutator_added = r_madd,
  .mutator_cause_gc = r_mcause, .mutator_stopping = r_mstopping, .mutator_stopped = r_mstopped,
  .mutator_restarted = r_mrestarted, .mutator_removed = r_mremoved, .heap_resized = r_resized,
  .live_data_size = r_live };

// ---- a generated tree of chains: leaves are recorders, one statistics, nulls.
struct lis { struct gc_event_listener l; void *data; };
static struct gc_event_listener_chain chains[32]; static int nchains, nrecs, expect_order[NREC];
static struct gc_basic_stats stats;
static int have_stats;
static struct lis make(uint64_t *bits, int depth) {
  int k = *bits % 8; *bits = mix64(*bits);
  if (depth < 4 && nchains < 30 && k < 5 && nrecs < NREC) {
    struct lis a = make(bits, depth + 1), b = make(bits, depth + 1);
    struct gc_event_listener_chain *ch = &chains[nchains++];
    *ch = GC_EVENT_LISTENER_CHAIN_DATA(a.l, a.data, b.l, b.data);
    return (struct lis){ GC_EVENT_LISTENER_CHAIN, ch };
  }
  if (k == 5) return (struct lis){ GC_NULL_EVENT_LISTENER, NULL };
  if (k == 6 && !have_stats) { have_stats = 1; return (struct lis){ GC_BASIC_STATS, &stats }; }
  if (nrecs < NREC) {
    recs[nrecs] = (struct rec){ .index = nrecs };
    expect_order[nrecs] = nrecs;
    return (struct lis){ rec_listener, &recs[nrecs++] };
  }
  return (struct lis){ GC_NULL_EVENT_LISTENER, NULL };
}

static int cmp64(const void *a, const void *b) {
  uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b;
  return x < y ? -1 : x > y;
}
// The sketch may err by one part in 2^prec, upwards.
#define CHECK_HIST(name, h, v, n, bits, prec)                                                 \
  do {                                                                                        \
    if (name##_count(h) != (n)) ufail("%s has %" PRIu64 " samples, expected %zu", #name, name##_count(h), (size_t)(n)); \
    uint64_t limit = 1ull << ((bits) + (prec) - 1);                                           \
    uint64_t sum = 0;                                                                         \
    for (size_t b = 0; b < name##_size(); b++) {                                              \
      uint64_t want = 0, lo = name##_bucket_min_val(b);                                       \
      for (size_t j = 0; j < (n); j++)                                                        \
        want += (v)[j] >= lo && (b + 1 == name##_size() || (v)[j] < name##_bucket_min_val(b + 1)); \
      if (name##_ref(h, b) != want) ufail("%s bucket %zu from %" PRIu64 " has %" PRIu64 " samples, expected %" PRIu64, #name, b, lo, name##_ref(h, b), want); \
      sum += want;                                                                            \
    }                                                                                         \
    if (sum != (n)) ufail("%s buckets overlap", #name);                                       \
    if (!(n)) break;                                                                          \
    uint64_t mn = name##_min(h);                                                              \
    if (mn > (v)[0] || ((v)[0] < limit && (v)[0] - mn > ((v)[0] >> (prec)))) ufail("%s min is %" PRIu64 ", of %" PRIu64, #name, mn, (v)[0]); \
    uint64_t mx = name##_max(h);                                                              \
    if (mx <= (v)[(n) - 1] || ((v)[(n) - 1] < limit && mx - (v)[(n) - 1] > ((v)[(n) - 1] >> (prec)) + 1)) \
      ufail("%s max is %" PRIu64 ", of %" PRIu64, #name, mx, (v)[(n) - 1]);                    \
    double last = -1;                                                                         \
    for (int pi = 1; pi <= 20; pi++) {                                                        \
      double p = pi / 20.0;                                                                   \
      uint64_t got = name##_percentile(h, p);                                                 \
      if (pi == 10 && name##_median(h) != got) ufail("median is not the 50th percentile");    \
      if ((double)got < last) ufail("percentiles decrease");                                  \
      last = got;                                                                             \
      /* nearest rank, whichever way the product rounds */                                    \
      double x = p * (n); size_t rank = (size_t)x; if (x - rank > 1e-6) rank++;               \
      size_t rlo = rank ? rank : 1, rhi = x - (size_t)x < 1e-6 && rank < (n) ? rank + 1 : rlo; \
      if (rhi < rlo) rhi = rlo;                                                               \
      uint64_t slo = (v)[rlo - 1], shi = (v)[rhi - 1];                                        \
      if (got <= slo || (shi < limit && got > shi + (shi >> (prec)) + 1))                     \
        ufail("%s percentile %g of %zu samples is %" PRIu64 ", expected about %" PRIu64, #name, p, (size_t)(n), got, slo); \
    }                                                                                         \
  } while (0)

static void urun(struct ucase *c) {
  nchains = nrecs = have_stats = 0; memset(nmrec, 0, sizeof nmrec);
  memset(mrecs, 0, sizeof mrecs);
  uint64_t bits = c->p[0];
  struct lis top = make(&bits, 0);
  if (!have_stats) {
    struct gc_event_listener_chain *ch = &chains[nchains++];
    *ch = c->p[0] >> 60 & 1 ? GC_EVENT_LISTENER_CHAIN_DATA(GC_BASIC_STATS, &stats, top.l, top.data)
                            : GC_EVENT_LISTENER_CHAIN_DATA(top.l, top.data, GC_BASIC_STATS, &stats);
    top = (struct lis){ GC_EVENT_LISTENER_CHAIN, ch };
  }
  wall_us = 1700000000000000ull + c->p[2] % 1000000000; cpu_ns = c->p[2] >> 20;
  uint64_t hash = 0, count = 0;
  size_t heap = 1 + c->p[2] % 100000000, max_heap = heap, live = 0, max_live = 0;
  uint64_t major = 0, minor = 0, mut_us = 0, gc_us = 0, w0 = wall_us, cm = 0, cg = 0, c0 = cpu_ns / 1000;
  static uint64_t pauses[512]; size_t np = 0;
  void *muts[64]; uint64_t mid[64]; size_t nm = 0, added = 0;
#define EV(ev, x, call)                                                                       \
  do {                                                                                        \
    norder = 0; call;                                                                         \
    if (norder != nrecs) ufail("an event reached %d of %d listeners", norder, nrecs);         \
    for (int q = 0; q < nrecs; q++) {                                                         \
      if (order[q] != expect_order[q]) ufail("listeners were called out of order");           \
      if (recs[q].last != (ev)) ufail("event %d was delivered as %d", (int)(ev), (int)recs[q].last); \
    }                                                                                         \
    hash = mix64(hash ^ mix64((ev) * 1000003 + (x))); count++;                                \
  } while (0)
  EV(E_INIT, heap, top.l.init(top.data, heap));
  for (size_t i = 0; i < c->n; i++) {
    struct uop *op = &c->ops[i];
    switch (op->code) {
    case GC: {
      if (np == 512) break;
      uint64_t dm = op->a % 2000000, dc = op->b % 3000000;
      wall_us += dm; cpu_ns += dc * 1000;
      EV(E_REQ, 0, top.l.requesting_stop(top.data));
      mut_us += dm; cm += cpu_ns / 1000 - c0; c0 = cpu_ns / 1000; w0 = wall_us;
      uint64_t pause = op->c >> (20 + (op->d % 8) + (63 - 20 - 8 - (c->p[1] % 26 < 25 ? c->p[1] % 26 : 32)));
      if (op->d % 64 == 0) pause = 0;
      if (op->d % 64 == 1) pause = (1ull << (op->d >> 8) % 30) - (op->d >> 16) % 2;
      uint64_t cpu = op->d % 5000000;
      if (op->d & 64) for (size_t m = 0; m < nm; m++) EV(E_MSTOPPING, mid[m], top.l.mutator_stopping(muts[m]));
      if (nm && op->d & 128) EV(E_MCAUSE, mid[0], top.l.mutator_cause_gc(muts[0]));
      EV(E_WAIT, 0, top.l.waiting_for_stop(top.data));
      for (size_t m = 0; m < nm; m++) EV(E_MSTOPPED, mid[m], top.l.mutator_stopped(muts[m]));
      EV(E_STOPPED, 0, top.l.mutators_stopped(top.data));
      enum gc_collection_kind kind = (op->d >> 32) % 5;
      kind = kind == 0 ? GC_COLLECTION_ANY : kind <= 2 ? GC_COLLECTION_MINOR : kind == 3 ? GC_COLLECTION_MAJOR : GC_COLLECTION_COMPACTING;
      EV(E_PREP, kind, top.l.prepare_gc(top.data, kind));
      if (kind == GC_COLLECTION_MINOR) minor++; else major++;
      EV(E_ROOTS, 0, top.l.roots_traced(top.data));
      EV(E_HEAP, 0, top.l.heap_traced(top.data));
      EV(E_EPH, 0, top.l.ephemerons_traced(top.data));
      EV(E_FIN, 0, top.l.finalizers_traced(top.data));
      wall_us += pause; cpu_ns += cpu * 1000;
      EV(E_RESTART, 0, top.l.restarting_mutators(top.data));
      gc_us += pause; cg += cpu_ns / 1000 - c0; c0 = cpu_ns / 1000; w0 = wall_us;
      for (size_t m = 0; m < nm; m++) EV(E_MRESTARTED, mid[m], top.l.mutator_restarted(muts[m]));
      pauses[np++] = pause;
      break;
    }
    case RESIZE: {
      heap = op->a >> (op->b % 60);
      if (heap > max_heap) max_heap = heap;
      EV(E_RESIZED, heap, top.l.heap_resized(top.data, heap));
      break;
    }
    case LIVE: {
      live = op->a >> (op->b % 60);
      if (live > max_live) max_live = live;
      EV(E_LIVE, live, top.l.live_data_size(top.data, live));
      break;
    }
    case ADDMUT: {
      if (nm == 16 || added == 60) break;
      EV(E_MADD, 0, muts[nm] = top.l.mutator_added(top.data));
      mid[nm++] = added++;
      break;
    }
    case DELMUT: {
      if (!nm) break;
      size_t m = op->a % nm;
      EV(E_MREMOVED, mid[m], top.l.mutator_removed(muts[m]));
      muts[m] = muts[--nm]; mid[m] = mid[nm];
      break;
    }
    case HIST: {
      static uint64_t v[256];
      size_t n = 1 + op->a % 256;
      struct rng r = { op->b };
      struct h_wide w = make_h_wide(); struct h_tiny t = make_h_tiny();
      int sh = op->c % 64, spread = 1 + op->d % 40;
      for (size_t j = 0; j < n; j++) {
        int s = sh + rn(&r, spread);
        v[j] = s > 63 ? rn(&r, 4) : (rnd(&r) >> 1) >> s;
        h_wide_record(&w, v[j]); h_tiny_record(&t, v[j]);
      }
      qsort(v, n, sizeof *v, cmp64);
      CHECK_HIST(h_wide, &w, v, n, 40, 6);
      CHECK_HIST(h_tiny, &t, v, n, 6, 1);
      break;
    }
    }
    if (stats.major_collection_count != major || stats.minor_collection_count != minor)
      ufail("%" PRIu64 " major and %" PRIu64 " minor collections counted, expected %" PRIu64 " and %" PRIu64,
            stats.major_collection_count, stats.minor_collection_count, major, minor);
    if (stats.heap_size != heap || stats.max_heap_size != max_heap) ufail("heap size %zu (max %zu), expected %zu (%zu)", stats.heap_size, stats.max_heap_size, heap, max_heap);
    if (stats.live_data_size != live || stats.max_live_data_size != max_live) ufail("live data %zu (max %zu), expected %zu (%zu)", stats.live_data_size, stats.max_live_data_size, live, max_live);
    if (stats.elapsed_collector_usec != gc_us || stats.cpu_collector_usec != cg)
      ufail("collector time %" PRIu64 " (cpu %" PRIu64 "), expected %" PRIu64 " (%" PRIu64 ")", stats.elapsed_collector_usec, stats.cpu_collector_usec, gc_us, cg);
    if (stats.elapsed_mutator_usec != mut_us || stats.cpu_mutator_usec != cm)
      ufail("mutator time %" PRIu64 ", expected %" PRIu64, stats.elapsed_mutator_usec, mut_us);
  }
  for (int q = 0; q < nrecs; q++)
    if (recs[q].hash != hash || recs[q].count != count) ufail("listener %d saw another history", q);
  wall_us += 12345; cpu_ns += 54321000;
  gc_basic_stats_finish(&stats);
  mut_us += 12345; cm += cpu_ns / 1000 - c0;
  if (stats.elapsed_mutator_usec != mut_us || stats.cpu_mutator_usec != cm) ufail("mutator time is not complete");
  wall_us += 777;
  gc_basic_stats_finish(&stats);
  mut_us += 777;
  if (stats.elapsed_mutator_usec != mut_us) ufail("finishing again counts time twice");
  qsort(pauses, np, sizeof *pauses, cmp64);
  CHECK_HIST(gc_latency, &stats.pause_times, pauses, np, 25, 4);
  // What is printed is what was counted.
  char *text; size_t len;
  FILE *f = open_memstream(&text, &len);
  gc_basic_stats_print(&stats, f);
  fclose(f);
  char want[16][160];
  int nwant = 8;
  snprintf(want[0], 160, "%" PRIu64 " major collections", major);
  snprintf(want[1], 160, "%" PRIu64 " minor", minor);
  snprintf(want[2], 160, "%" PRIu64 ".%03" PRIu64 " ms total time", (mut_us + gc_us) / 1000, (mut_us + gc_us) % 1000);
  snprintf(want[3], 160, "%" PRIu64 ".%03" PRIu64 " stopped", gc_us / 1000, gc_us % 1000);
  snprintf(want[4], 160, "%" PRIu64 ".%03" PRIu64 " ms CPU time", (cm + cg) / 1000, (cm + cg) % 1000);
  snprintf(want[5], 160, "%" PRIu64 ".%03" PRIu64 " stopped", cg / 1000, cg % 1000);
  snprintf(want[6], 160, "%.3f MB (max %.3f MB)", heap / 1e6, max_heap / 1e6);
  snprintf(want[7], 160, "%.3f MB", max_live / 1e6);
  if (np) {
    uint64_t v[3] = { gc_latency_median(&stats.pause_times), gc_latency_percentile(&stats.pause_times, 0.95),
                      gc_latency_max(&stats.pause_times) };
    static const char *names[] = { "median", "p95", "max" };
    for (int q = 0; q < 3; q++)
      snprintf(want[nwant++], 160, "%" PRIu64 ".%03" PRIu64 " %s%s", v[q] / 1000, v[q] % 1000, q ? "" : "ms ", names[q]);
    // "1.234 ms median pause time, 2.345 p95, 3.456 max": a unit may precede the name.
    for (int q = 9; q < 11; q++) {
      char alt[140];
      snprintf(alt, sizeof alt, "%" PRIu64 ".%03" PRIu64 " ms %s", v[q - 8] / 1000, v[q - 8] % 1000, names[q - 8]);
      if (!strstr(text, want[q]) && strstr(text, alt)) snprintf(want[q], 160, "%s", alt);
    }
  }
  for (int q = 0; q < nwant; q++)
    if (!strstr(text, want[q])) ufail("\"%s\" is missing in: %s", want[q], text);
  free(text);
  for (size_t m = 0; m < nm; m++) EV(E_MREMOVED, mid[m], top.l.mutator_removed(muts[m]));
  if (np >= 3) NONTRIVIAL();
}
