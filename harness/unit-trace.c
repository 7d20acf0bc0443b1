// The tracers over a synthetic heap: every object reachable from the roots is
// traced exactly once, unreachable objects never; remembered edges are visited
// exactly once per cycle and kept or dropped as the visitor says; worklists
// deliver every item exactly once.
#include "unit.h"
#include <assert.h>
#define GC_IMPL 1
#include "gc-config.h"
#include "gc-inline.h"
#include "gc-ref.h"
#include "gc-edge.h"
#include "gc-assert.h"
#include "field-set.h"
#ifdef FZ_SERIAL
#include "serial-tracer.h"
#else
#include "parallel-tracer.h"
#endif
#include "simple-worklist.h"
#include "local-worklist.h"
#include "shared-worklist.h"

struct node { atomic_uint traced; atomic_uchar mark; uint8_t reach; uint32_t nedges, first; };
struct gc_heap {
  struct node *nodes; uint32_t n;
  uint32_t *edges; uint32_t ne;
  atomic_int tracing;
  atomic_uint root_visits[64]; uint32_t root_target[64]; uint32_t nroots;
  struct gc_field_set rset; atomic_uint *edge_visits; uint64_t keep_mask; size_t nrem;
  uintptr_t *slots;
  atomic_uint workers_used;
};
struct gc_trace_worker_data { int id; };

static struct gc_ref node_ref(struct gc_heap *h, uint32_t i) { return gc_ref((uintptr_t)&h->nodes[i]); }
static inline void visit(struct gc_heap *h, uint32_t i, struct gc_trace_worker *w) {
  struct node *nd = &h->nodes[i];
  if (!atomic_exchange(&nd->mark, 1)) gc_trace_worker_enqueue(w, node_ref(h, i));
}
static inline void trace_one(struct gc_ref ref, struct gc_heap *heap, struct gc_trace_worker *worker) {
  struct node *nd = (struct node*)gc_ref_heap_object(ref);
  if (nd < heap->nodes || nd >= heap->nodes + heap->n || ((char*)nd - (char*)heap->nodes) % sizeof *nd)
    ufail("traced something that was never enqueued: %zx", (size_t)gc_ref_value(ref));
  if (!atomic_load(&heap->tracing)) ufail("object traced outside of a trace");
  if (!gc_trace_worker_data(worker)) ufail("worker traces without data");
  unsigned k = atomic_fetch_add(&nd->traced, 1);
  if (k) ufail("object %zu traced twice", (size_t)(nd - heap->nodes));
  for (uint32_t e = 0; e < nd->nedges; e++) visit(heap, heap->edges[nd->first + e], worker);
}
static int visit_remembered(struct gc_edge edge, struct gc_heap *heap, void *data) {
  uintptr_t *slot = (uintptr_t*)gc_edge_loc(edge);
  size_t i = slot - heap->slots;
  if (i >= heap->nrem) ufail("remembered set holds an edge that was never logged");
  if (atomic_fetch_add(&heap->edge_visits[i], 1)) ufail("remembered edge %zu visited twice", i);
  visit(heap, heap->slots[i] % heap->n, data);
  return (mix64(heap->keep_mask + i) & 3) != 0;
}
static inline void trace_root(struct gc_root root, struct gc_heap *heap, struct gc_trace_worker *worker) {
  if (!atomic_load(&heap->tracing)) ufail("root traced outside of a trace");
  switch (root.kind) {
  case GC_ROOT_KIND_EDGE: {
    size_t i = (size_t)gc_edge_address(root.edge);
    if (i >= heap->nroots) ufail("unknown root");
    if (atomic_fetch_add(&heap->root_visits[i], 1)) ufail("root %zu traced twice", i);
    uint32_t t = heap->root_target[i];
    uint32_t fan = t >> 24;
    visit(heap, (t & 0xffffff) % heap->n, worker);
    for (uint32_t k = 0; k < fan * fan; k++) visit(heap, ((t & 0xffffff) + k) % heap->n, worker);
    break;
  }
  case GC_ROOT_KIND_EDGE_BUFFER:
    gc_field_set_visit_edge_buffer(&heap->rset, root.edge_buffer, visit_remembered, heap, worker);
    break;
  default: ufail("unexpected root kind %d", root.kind);
  }
}
static inline void gc_trace_worker_call_with_data(
    void (*f)(struct gc_tracer *, struct gc_heap *, struct gc_trace_worker *, struct gc_trace_worker_data *),
    struct gc_tracer *tracer, struct gc_heap *heap, struct gc_trace_worker *worker) {
  struct gc_trace_worker_data data = { 1 };
  atomic_fetch_add(&heap->workers_used, 1);
  f(tracer, heap, worker, &data);
}

static const char *uop_names[] = { "TRACE", "SIMPLE", "LOCAL", "DEQUE", "ROOTS", "LOG" };
enum { TRACE, SIMPLE, LOCAL, DEQUE, ROOTS, LOG_, NOPS };
static const size_t uop_count = NOPS;

static void ugen(struct rng *r, struct ucase *c) {
  c->p[0] = 1 + rn(r, 8);             // parallelism
  size_t n = 1 + rn(r, 8);
  for (size_t i = 0; i < n; i++) {
    static const int w[] = { 10, 1, 1, 3, 1, 4 };
    int x = rn(r, 20), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r) >> 16, rn(r, 1 << 20), rn(r, 1 << 20), rn(r, 1 << 20));
  }
}
static struct gc_heap *H;
static struct gc_tracer *T;

static void mkgraph(struct gc_heap *h, struct rng *r, int kind, uint32_t n) {
  free(h->nodes); free(h->edges);
  h->n = n;
  h->nodes = calloc(n, sizeof *h->nodes);
  uint32_t cap = n * 4 + 16; h->ne = 0;
  h->edges = malloc(cap * sizeof *h->edges);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t d = 0, base = h->ne;
    switch (kind) {
    case 0: d = rn(r, 4); for (uint32_t k = 0; k < d; k++) h->edges[h->ne++] = rn(r, n); break;   // random
    case 1: if (i + 1 < n) h->edges[h->ne++] = i + 1; d = h->ne - base; break;                    // list
    case 2: for (uint32_t k = 1; k <= 2; k++) if (2 * i + k < n) h->edges[h->ne++] = 2 * i + k;   // tree
      d = h->ne - base; break;
    case 3: if (i % 64 == 0) { uint32_t m = 100 + rn(r, 60); for (uint32_t k = 0; k < m && h->ne < cap; k++)  // wide
        h->edges[h->ne++] = (i + k + 1) % n; } d = h->ne - base; break;
    case 4: if (!i) for (uint32_t k = 1; k < n && h->ne < cap; k++) h->edges[h->ne++] = k;   // star
      d = h->ne - base; break;
    default: // several lists hanging from a comb
      if (i + 1 < n && i % 50) h->edges[h->ne++] = i + 1;
      if (i % 50 == 0 && i + 50 < n) h->edges[h->ne++] = i + 50;
      if (i % 50 == 0 && i + 1 < n) h->edges[h->ne++] = i + 1;
      d = h->ne - base; break;
    }
    if (h->ne > cap) abort();
    h->nodes[i].first = base; h->nodes[i].nedges = d;
  }
}
static void reach_from(struct gc_heap *h, uint32_t i, uint32_t *stack) {
  size_t sp = 0;
  if (h->nodes[i].reach) return;
  h->nodes[i].reach = 1; stack[sp++] = i;
  while (sp) {
    uint32_t x = stack[--sp];
    for (uint32_t e = 0; e < h->nodes[x].nedges; e++) {
      uint32_t y = h->edges[h->nodes[x].first + e];
      if (!h->nodes[y].reach) { h->nodes[y].reach = 1; stack[sp++] = y; }
    }
  }
}
// --- remembered set model: slots [0, nrem); logged[i] if in the set
#define MAXREM 20000
static uint8_t logged[MAXREM];
struct logger { struct gc_heap *h; uint64_t lo, hi, step; };
static void *log_thread(void *d) {
  struct logger *l = d;
  struct gc_field_set_writer w;
  gc_field_set_writer_init(&w, &l->h->rset);
  for (uint64_t i = l->lo; i < l->hi; i++) {
    gc_field_set_writer_add_edge(&w, gc_edge(&l->h->slots[i]));
    if (l->step && i % l->step == 0) gc_field_set_writer_release_buffer(&w);
  }
  gc_field_set_writer_release_buffer(&w);
  return NULL;
}
static void forget(struct gc_edge edge, struct gc_heap *h) {
  uintptr_t *slot = (uintptr_t*)gc_edge_loc(edge);
  size_t i = slot - h->slots;
  if (i >= h->nrem || !logged[i]) ufail("clearing the remembered set forgets an edge it does not hold");
  logged[i] = 0;
}
// --- deque
struct deq { struct shared_worklist q; atomic_uint *seen; size_t n; atomic_int done; };
static void take(struct deq *d, struct gc_ref r) {
  size_t i = gc_ref_value(r) / 8 - 1;
  if (i >= d->n) ufail("deque yielded %zx, which was never pushed", (size_t)gc_ref_value(r));
  if (atomic_fetch_add(&d->seen[i], 1)) ufail("deque yielded item %zu twice", i);
}
static void *thief(void *data) {
  struct deq *d = data;
  while (1) {
    int fin = atomic_load(&d->done);
    struct gc_ref r = shared_worklist_steal(&d->q);
    if (gc_ref_is_null(r)) { if (fin) return NULL; continue; }
    take(d, r);
  }
}
static void urun(struct ucase *c) {
  struct gc_heap *h = H = calloc(1, sizeof *h);
  T = calloc(1, sizeof *T);
  gc_field_set_init(&h->rset);
  memset(logged, 0, sizeof logged);
  h->slots = calloc(MAXREM, sizeof *h->slots);
  h->edge_visits = calloc(MAXREM, sizeof *h->edge_visits);
  if (!gc_tracer_init(T, h, c->p[0] ? c->p[0] % 9 : 1)) ufail("tracer init failed");
  for (size_t n = 0; n < c->n; n++) {
    struct uop *op = &c->ops[n];
    struct rng r = { op->a };
    switch (op->code) {
    case TRACE: {
      static const uint32_t sizes[] = { 1, 2, 10, 200, 2000, 5000, 20000, 60000 };
      uint32_t nn = sizes[op->b % 8]; nn += rn(&r, nn);
      mkgraph(h, &r, op->c % 6, nn);
      uint32_t *stack = malloc(nn * sizeof *stack);
      h->nroots = rn(&r, 3) ? 1 + rn(&r, 5) : rn(&r, 64);
      int two = op->d % 3 == 0, minor = (op->d / 3) % 2;
      for (uint32_t i = 0; i < h->nroots; i++) {
        h->root_target[i] = (rn(&r, 2) ? rn(&r, nn) : 0) & 0xffffff;
        if (rn(&r, 8) == 0) h->root_target[i] |= rn(&r, 60) << 24;
        h->root_visits[i] = 0;
      }
      atomic_store(&h->workers_used, 0);
      h->keep_mask = op->a;
      for (size_t i = 0; i < h->nrem; i++) h->edge_visits[i] = 0;
      gc_tracer_prepare(T);
      uint32_t first = two ? rn(&r, h->nroots + 1) : 0;
      atomic_store(&h->tracing, 1);
      if (two) {
        for (uint32_t i = 0; i < first; i++) gc_tracer_add_root(T, gc_root_edge(gc_edge((void*)(uintptr_t)i)));
        gc_tracer_trace_roots(T);
        for (uint32_t i = 0; i < first; i++)
          if (h->root_visits[i] != 1) ufail("root %u visited %u times by roots-only trace", i, h->root_visits[i]);
        for (uint32_t i = 0; i < nn; i++)
          if (h->nodes[i].traced) ufail("object traced by roots-only trace");
      }
      for (uint32_t i = first; i < h->nroots; i++) gc_tracer_add_root(T, gc_root_edge(gc_edge((void*)(uintptr_t)i)));
      if (minor) gc_field_set_add_roots(&h->rset, T);
      gc_tracer_trace(T);
      atomic_store(&h->tracing, 0);
      gc_tracer_release(T);
      for (uint32_t i = 0; i < h->nroots; i++) {
        if (h->root_visits[i] != 1) ufail("root %u visited %u times", i, h->root_visits[i]);
        uint32_t t = h->root_target[i], fan = t >> 24;
        reach_from(h, (t & 0xffffff) % nn, stack);
        for (uint32_t k = 0; k < fan * fan; k++) reach_from(h, ((t & 0xffffff) + k) % nn, stack);
      }
      for (size_t i = 0; i < h->nrem; i++) {
        if (h->edge_visits[i] != (unsigned)(minor && logged[i]))
          ufail("remembered edge %zu visited %u times, expected %d", i, h->edge_visits[i], minor && logged[i]);
        if (minor && logged[i]) {
          reach_from(h, h->slots[i] % nn, stack);
          if ((mix64(h->keep_mask + i) & 3) == 0) logged[i] = 0;
        }
      }
      uint32_t nr = 0;
      for (uint32_t i = 0; i < nn; i++) {
        if (h->nodes[i].traced != h->nodes[i].reach)
          ufail("object %u of %u traced %u times, expected %d", i, nn, h->nodes[i].traced, h->nodes[i].reach);
        nr += h->nodes[i].reach;
      }
      free(stack);
      USTAT(0, nr); USTAT(1, atomic_load(&h->workers_used) > 1 + two);
#ifndef FZ_SERIAL
      if (nr > 300 && atomic_load(&h->workers_used) > (unsigned)(1 + two)) NONTRIVIAL();
#else
      if (nr > 300) NONTRIVIAL();
#endif
      // A full collection forgets the remembered set.
      if (!minor && rn(&r, 2)) {
        gc_field_set_clear(&h->rset, forget, h);
        for (size_t i = 0; i < h->nrem; i++) if (logged[i]) ufail("clearing the remembered set misses an edge");
      }
      break;
    }
    case LOG_: {
      // Several mutators log distinct new edges.
      size_t k = 1 + op->b % 1400, nt = 1 + op->c % 4;
      if (h->nrem + k * nt > MAXREM) break;
      struct logger l[4]; pthread_t th[4];
      for (size_t i = 0; i < k * nt; i++) { h->slots[h->nrem + i] = rnd(&r); logged[h->nrem + i] = 1; h->edge_visits[h->nrem + i] = 0; }
      for (size_t t = 0; t < nt; t++) l[t] = (struct logger){ h, h->nrem + t * k, h->nrem + (t + 1) * k, op->d % 4 ? 0 : 1 + op->d % 700 };
      h->nrem += k * nt;
      if (nt == 1) log_thread(&l[0]);
      else {
        for (size_t t = 0; t < nt; t++) pthread_create(&th[t], NULL, log_thread, &l[t]);
        for (size_t t = 0; t < nt; t++) pthread_join(th[t], NULL);
      }
      USTAT(2, k * nt);
      break;
    }
    case SIMPLE: {
      struct simple_worklist q; if (!simple_worklist_init(&q)) ufail("init");
      size_t total = op->b % 5000 + 1, in = 0, out = 0;
      uint8_t *seen = calloc(total, 1);
      while (out < total) {
        int x = rn(&r, 3);
        if (x == 0 && in < total) simple_worklist_push(&q, gc_ref((++in) * 8));
        else if (x == 1 && in < total) {
          struct gc_ref v[900]; size_t k = rn(&r, 900); if (k > total - in) k = total - in;
          for (size_t i = 0; i < k; i++) v[i] = gc_ref((++in) * 8);
          simple_worklist_push_many(&q, v, k);
        } else for (size_t k = rn(&r, 700); k; k--) {
          struct gc_ref x = simple_worklist_pop(&q);
          if (gc_ref_is_null(x)) { if (out != in) ufail("worklist claims to be empty with %zu items", in - out); break; }
          size_t i = gc_ref_value(x) / 8 - 1;
          if (i >= in || seen[i]++) ufail("worklist yielded a wrong item");
          out++;
        }
      }
      simple_worklist_release(&q); simple_worklist_destroy(&q); free(seen);
      break;
    }
    case LOCAL: {
      static struct local_worklist q; local_worklist_init(&q);
      size_t total = op->b % 9000 + 1, in = 0, out = 0;
      uint8_t *seen = calloc(total, 1);
      while (out < total) {
        if (local_worklist_size(&q) != in - out) ufail("local worklist size");
        if (!!local_worklist_empty(&q) != (in == out)) ufail("local worklist empty");
        int x = rn(&r, 4);
        if (x < 2) for (size_t k = rn(&r, 900); k && in < total && !local_worklist_full(&q); k--)
          local_worklist_push(&q, gc_ref((++in) * 8));
        else if (x == 2) for (size_t k = rn(&r, 300); k && !local_worklist_empty(&q); k--) {
          size_t i = gc_ref_value(local_worklist_pop(&q)) / 8 - 1;
          if (i >= in || seen[i]++) ufail("local worklist yielded a wrong item");
          out++;
        } else {
          struct gc_ref *v; size_t lim = rn(&r, 1100), k = local_worklist_pop_many(&q, &v, lim);
          if (k > lim || k > in - out || (!k && lim && in != out)) ufail("pop_many count");
          for (size_t j = 0; j < k; j++) {
            size_t i = gc_ref_value(v[j]) / 8 - 1;
            if (i >= in || seen[i]++) ufail("pop_many yielded a wrong item");
          }
          out += k;
        }
      }
      free(seen);
      break;
    }
    case DEQUE: {
      struct deq *d = calloc(1, sizeof *d);
      if (!shared_worklist_init(&d->q)) ufail("init");
      d->n = 1 + op->b % 20000;
      d->seen = calloc(d->n, sizeof *d->seen);
      int nt = op->c % 4; pthread_t th[4];
      for (int t = 0; t < nt; t++) pthread_create(&th[t], NULL, thief, d);
      size_t in = 0;
      int style = rn(&r, 3);
      while (in < d->n) {
        int x = rn(&r, 4);
        if (x == 0) for (size_t k = rn(&r, 300); k && in < d->n; k--) shared_worklist_push(&d->q, gc_ref((++in) * 8));
        else if (x == 1) {
          struct gc_ref v[800]; size_t k = 1 + rn(&r, 799); if (k > d->n - in) k = d->n - in;
          for (size_t i = 0; i < k; i++) v[i] = gc_ref((++in) * 8);
          shared_worklist_push_many(&d->q, v, k);
        } else if (x == 2 && style) for (size_t k = rn(&r, style == 1 ? 900 : 4); k; k--) {
          struct gc_ref y = shared_worklist_try_pop(&d->q);
          if (gc_ref_is_null(y)) { if (!nt && shared_worklist_size(&d->q) > 0) ufail("pop fails on nonempty deque"); break; }
          take(d, y);
        } else if (!nt) {
          struct gc_ref y = shared_worklist_steal(&d->q);
          if (!gc_ref_is_null(y)) take(d, y);
          else if (shared_worklist_can_steal(&d->q)) ufail("steal fails on nonempty deque");
        }
      }
      while (1) {
        struct gc_ref y = shared_worklist_try_pop(&d->q);
        if (gc_ref_is_null(y)) { if (shared_worklist_size(&d->q) > 0) continue; break; }
        take(d, y);
      }
      atomic_store(&d->done, 1);
      for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
      for (size_t i = 0; i < d->n; i++) if (d->seen[i] != 1) ufail("deque item %zu yielded %u times", i, d->seen[i]);
      shared_worklist_release(&d->q); shared_worklist_destroy(&d->q); free(d->seen); free(d);
      USTAT(3, 1);
      break;
    }
    case ROOTS: {
      struct root_worklist q; root_worklist_init(&q);
      for (int round = 0; round < 3; round++) {
        size_t k = rn(&r, 200);
        for (size_t i = 0; i < k; i++) root_worklist_push(&q, gc_root_edge(gc_edge((void*)(i + 1))));
        if (root_worklist_size(&q) != k) ufail("root worklist size");
        size_t got = 0; uint8_t seen[201] = {0};
        while (1) {
          struct gc_root x = root_worklist_pop(&q);
          if (x.kind == GC_ROOT_KIND_NONE) break;
          size_t i = (size_t)gc_edge_address(x.edge);
          if (!i || i > k || seen[i]++) ufail("root worklist yielded a wrong root");
          got++;
        }
        if (got != k) ufail("root worklist yielded %zu of %zu roots", got, k);
        root_worklist_reset(&q);
      }
      root_worklist_destroy(&q);
      break;
    }
    }
  }
  free(h->nodes); free(h->edges); h->nodes = NULL; h->edges = NULL;
}
