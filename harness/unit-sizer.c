// Heap sizers over generated histories of collections, allocation and requests:
// bounds, monotonicity in each input, and what the growable policy promises.
#include "unit.h"
#include <assert.h>
#include <math.h>
#include <sys/time.h>
#define GC_IMPL 1
#include "gc-platform.h"
#include "heap-sizer.h"

static const char *uop_names[] = { "GC", "BEAT", "EXPAND", "MULT", "IDLE", "QUIET" };
enum { GC, BEAT, EXPAND, MULT, IDLE, QUIET, NOPS };
static const size_t uop_count = NOPS;
static void ugen(struct rng *r, struct ucase *c) {
  size_t n = 1 + rn(r, 120);
  c->p[0] = rn(r, 3) ? rn(r, 1001) : rn(r, 30);        // expansiveness * 100
  c->p[1] = 100 + rn(r, 500);   // multiplier * 100
  c->p[2] = rn(r, 3);           // policy
  c->p[3] = rnd(r);
  for (size_t i = 0; i < n; i++) {
    static const int w[] = { 20, 14, 5, 3, 3, 8 };
    int x = rn(r, 53), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rnd(r), 0);
  }
}

// ---- our platform
static uint64_t now_ns;
uint64_t gc_platform_monotonic_nanoseconds(void) { return now_ns; }
void gc_platform_init(void) {}
static struct gc_background_thread *the_thread;

// Two sizers fed the same history except for one input.
struct gc_heap { size_t size; uint64_t allocated; int sets; size_t last; };
static struct gc_heap heaps[2];
static uint64_t get_counter(struct gc_heap *h) { return h->allocated; }
static void set_size(struct gc_heap *h, size_t size) {
  if (h < heaps || h > heaps + 1) ufail("wrong heap");
  h->sets++; h->last = size; h->size = size;
}

// The balance rule, in floating point: the more live data and the more is
// allocated per second, the more room; clamped.
struct balance { double pause, lives, rate, e; size_t live; uint64_t bytes, beat; };
static struct balance bal[2];
static uint64_t balanced(struct balance *b) {
  double m = 1 + b->e * sqrt(b->live * b->rate / (b->pause / b->lives));
  if (!(m >= 1.1)) m = 1.1; else if (m > 5) m = 5;
  double size = b->live * m;
  return size - b->live < 4 << 20 ? b->live + (4 << 20) : size;
}
static size_t nexact, nbetween;
static void check_balance(int k, const char *why) {
  struct balance *b = &bal[k];
  // Implementations may round the smoothed figures.
  if (b->pause < 1e5 || b->lives < 1e5) return;
  double want = balanced(b), got = heaps[k].last;
  nexact++;
  if (want > b->live * 1.1 * 1.01 && want > b->live + 4.1 * (1 << 20) && want < b->live * 4.99) nbetween++;
  if (fabs(want - got) > 64 + want * 1e-3)
    ufail("%s: heap size %zu; %zu live bytes, %g bytes allocated per ns, a collection speed of %g bytes per ns and an expansiveness of %g make for %.0f",
          why, heaps[k].last, b->live, b->rate, b->lives / b->pause, b->e, want);
}
static void check_adaptive(struct gc_heap *h, size_t live, const char *why) {
  double lo = live * 1.1, hi = live * 5.0;
  double least = live + (4 << 20);
  double sz = h->last;
  double ulp = 2 + live * 1e-9;
  if (sz < lo - ulp && sz < least - ulp) ufail("%s: heap size %zu is below 1.1 times the live size %zu", why, h->last, live);
  if (sz < least - ulp) ufail("%s: heap size %zu leaves less than 4 MB free over %zu", why, h->last, live);
  if (sz > hi + ulp && sz > least + ulp) ufail("%s: heap size %zu is above 5 times the live size %zu", why, h->last, live);
}

static void urun(struct ucase *c) {
  memset(heaps, 0, sizeof heaps);
  now_ns = 1000000000ull + c->p[3] % 100000;
  int policy = c->p[2] % 3;
  size_t beats = 0, gcs = 0, moves = 0;
  struct gc_common_options o;
  memset(&o, 0, sizeof o);
  o.heap_size_policy = policy == 0 ? GC_HEAP_SIZE_GROWABLE : policy == 1 ? GC_HEAP_SIZE_ADAPTIVE : GC_HEAP_SIZE_FIXED;
  o.heap_size = o.maximum_heap_size = 16 << 20;
  o.heap_size_multiplier = c->p[1] / 100.0;
  o.heap_expansiveness = c->p[0] / 100.0;
  heaps[0].allocated = heaps[1].allocated = 1 + c->p[3] % 1000;
  heaps[0].size = heaps[1].size = o.heap_size;
  // The second sizer is more generous in one respect.
  int what = c->p[3] >> 40 & 3; // 0 expansiveness, 1 allocation rate, else the same
  struct gc_background_thread *t = gc_make_background_thread();
  struct gc_heap_sizer s[2];
  for (int i = 0; i < 2; i++) {
    struct gc_common_options oi = o;
    if (i && what == 0) { oi.heap_expansiveness *= 1.5; oi.heap_size_multiplier *= 1.5; }
    s[i] = gc_make_heap_sizer(&heaps[i], &oi, get_counter, set_size, t);
  }
  for (int i = 0; i < 2; i++)
    bal[i] = (struct balance){ 2e6, 20 << 20, 5, o.heap_expansiveness * (i && what == 0 ? 1.5 : 1), 0, heaps[i].allocated, now_ns };
  nexact = nbetween = 0;
  double mult[2] = { o.heap_size_multiplier, what == 0 ? o.heap_size_multiplier * 1.5 : o.heap_size_multiplier };
  size_t live = 0;
  for (size_t i = 0; i < c->n; i++) {
    struct uop *op = &c->ops[i];
    size_t before[2] = { heaps[0].size, heaps[1].size };
    heaps[0].sets = heaps[1].sets = 0;
    switch (op->code) {
    case GC: {
      live = op->a >> (24 + op->b % 40);
      if (op->b % 7 == 0) live = 0;
      uint64_t pause = op->c >> (30 + op->c % 30);
      for (int k = 0; k < 2; k++) {
        bal[k].live = live;
        bal[k].lives = bal[k].lives * 0.5 + live * 0.5;
        bal[k].pause = bal[k].pause * 0.5 + pause * 0.5;
        gc_heap_sizer_on_gc(s[k], heaps[k].size, live, pause, set_size);
      }
      gcs++;
      for (int k = 0; k < 2; k++) {
        if (policy == 2) {
          if (heaps[k].sets || heaps[k].size != o.heap_size) ufail("the fixed policy resized the heap");
        } else if (policy == 0) {
          double want = live * mult[k];
          if (heaps[k].size < before[k]) ufail("the growable policy shrank the heap from %zu to %zu", before[k], heaps[k].size);
          if (heaps[k].size + 2 + want * 1e-9 < want) ufail("heap of %zu is less than %g times %zu of live data", heaps[k].size, mult[k], live);
          if (heaps[k].size > before[k] && heaps[k].size > want + 2 + want * 1e-9) ufail("heap grew to %zu, with %zu live data and a multiplier of %g", heaps[k].size, live, mult[k]);
        } else {
          if (!heaps[k].sets) ufail("the adaptive policy did not size the heap at a collection");
          check_adaptive(&heaps[k], live, "collection");
          check_balance(k, "collection");
        }
      }
      break;
    }
    case BEAT:
    case QUIET: {
      int n = op->code == BEAT ? 1 : 1 + op->a % 14;
      for (int q = 0; q < n; q++) {
        uint64_t ns = 1 + op->a % 2000000000, bytes = op->b >> (24 + op->b % 40);
        if (op->a % 5) ns = 1000000000 + op->a % 1000000;
        if (op->code == QUIET) {
          ns = 1000000000 + (op->a >> 8) % 1000000;
          bytes = (op->b >> q) % (1u << op->c % 16);
        }
        now_ns += ns;
        heaps[0].allocated += bytes;
        heaps[1].allocated += what == 1 ? bytes * 2 : bytes;
        if (policy != 1) break;
        beats++;
        for (int k = 0; k < 2; k++) {
          double rate = (double)(heaps[k].allocated - bal[k].bytes) / (now_ns - bal[k].beat);
          bal[k].rate = bal[k].rate * 0.05 + rate * 0.95;
          bal[k].bytes = heaps[k].allocated; bal[k].beat = now_ns;
          heaps[k].sets = 0;
          gc_adaptive_heap_sizer_background_task(s[k].adaptive);
          if (!heaps[k].sets) ufail("the adaptive policy did not size the heap on a heartbeat");
          if (gcs) check_adaptive(&heaps[k], live, "heartbeat");
          if (gcs) check_balance(k, "heartbeat");
        }
      }
      break;
    }
    case IDLE: {
      // The counter could not be read: nothing changes.
      if (policy != 1) break;
      uint64_t save[2] = { heaps[0].allocated, heaps[1].allocated };
      now_ns += 1 + op->a % 2000000000;
      for (int k = 0; k < 2; k++) {
        heaps[k].allocated = 0;
        gc_adaptive_heap_sizer_background_task(s[k].adaptive);
        heaps[k].allocated = save[k];
        if (heaps[k].sets) ufail("the heap was resized without a reading of the allocation counter");
      }
      break;
    }
    case EXPAND: {
      if (policy != 1) break;
      double e = (op->a % 1001) / (op->b % 3 ? 100.0 : 10000.0);
      for (int k = 0; k < 2; k++) {
        size_t size = gc_adaptive_heap_sizer_set_expansiveness(s[k].adaptive, k && what == 0 ? e * 1.5 : e);
        heaps[k].last = heaps[k].size = size;
        bal[k].e = k && what == 0 ? e * 1.5 : e;
        if (gcs) check_balance(k, "expansiveness");
        if (gcs) check_adaptive(&heaps[k], live, "expansiveness");
        if (gcs && e == 0 && size > live * 1.1 + 2 + live * 1e-9 && size > live + (4u << 20) + 2)
          ufail("heap size %zu with no expansiveness and %zu live", size, live);
      }
      break;
    }
    case MULT: {
      if (policy != 0) break;
      double m = 1 + (op->a % 500) / 100.0;
      for (int k = 0; k < 2; k++) {
        mult[k] = k && what == 0 ? m * 1.5 : m;
        gc_growable_heap_sizer_set_multiplier(s[k].growable, mult[k]);
      }
      break;
    }
    }
    if (heaps[0].size != heaps[1].size) moves++;
    // All else being equal, more expansiveness or more allocation never make for
    // a smaller heap.
    double slack = 16 + heaps[0].size * 1e-6;
    if (policy == 1 && gcs && heaps[1].size + slack < heaps[0].size)
      ufail("heap size %zu is larger than %zu, that of a heap with more %s", heaps[0].size, heaps[1].size,
            what == 0 ? "expansiveness" : "allocation");
    if (what >= 2 && heaps[0].size != heaps[1].size) ufail("the same history gave sizes %zu and %zu", heaps[0].size, heaps[1].size);
  }
  gc_background_thread_start(t);
  gc_destroy_background_thread(t);
  for (int k = 0; k < 2; k++)
    if (policy == 1) free(s[k].adaptive);
    else if (policy == 0) gc_destroy_growable_heap_sizer(s[k].growable);
  if (gcs >= 2 && (policy != 1 || beats)) NONTRIVIAL();
  USTAT(0, moves);
  USTAT(1, nexact); USTAT(2, nbetween);
}
