// The finalizer table under a small tracer of ours, marking in place or
// evacuating, with any number of threads that attach and pop.  The oracle is a
// fixpoint over a model heap: a finalizer fires in the cycle in which its object
// is reachable neither from the roots, nor from what finalizers hold, nor from
// the objects of finalizers of earlier priority that fire; it is popped once.
#include "unit.h"
#include <assert.h>
#include <sched.h>
#define GC_IMPL 1
#include "gc-config.h"
#include "gc-ref.h"
#include "gc-edge.h"
#include "gc-assert.h"
#include "gc-finalizer.h"
#include "gc-ephemeron.h"
#include "gc-ephemeron-internal.h"
#include "gc-finalizer-internal.h"

enum { N = 1500, SLOT = 96, NROOTS = 16, MAXW = 6, NF = 4 };
enum { FREE, PLAIN, FIN };
enum { IDLE, ATTACHED, EXTERNAL, FIRED, POPPED };
struct plain { uintptr_t tag; uintptr_t f[NF]; };
struct gc_heap { int moving; };
static struct gc_heap heap;
static struct gc_finalizer_state *state;
static char *space[2];
static int cur, P;
static uint8_t mark[N], fwd[N];
static uintptr_t stack[N * 8]; static size_t sp_;
static uintptr_t roots[NROOTS];
static struct { uint8_t kind, st, prio, reach; int16_t f[NF], obj, clo; } m[N];
static int16_t mroot[NROOTS];
static size_t notified, notices; static struct gc_heap *notified_heap;

static char *addr_in(int sp, int i) { return space[sp] + (size_t)i * SLOT; }
static uintptr_t addr(int i) { return i < 0 ? 0 : (uintptr_t)addr_in(cur, i); }
static struct gc_finalizer *fin(int i) { return (struct gc_finalizer*)addr(i); }
static int slot_of(uintptr_t v, int *sp) {
  for (int s = 0; s < 2; s++) {
    size_t off = v - (uintptr_t)space[s];
    if (off < (size_t)N * SLOT && off % SLOT == 0) { *sp = s; return off / SLOT; }
  }
  return -1;
}
int gc_visit_ephemeron_key(struct gc_edge edge, struct gc_heap *h) {
  uintptr_t v = gc_ref_value(gc_edge_ref(edge));
  int sp, i = slot_of(v, &sp);
  if (i < 0) ufail("asked about an object %zx that is none", (size_t)v);
  if (!h->moving) return mark[i];
  if (sp != cur) return 1;
  if (!fwd[i]) return 0;
  gc_edge_update(edge, gc_ref((uintptr_t)addr_in(!cur, i)));
  return 1;
}
static void visit(struct gc_edge edge, struct gc_heap *h, void *data) {
  uintptr_t v = gc_ref_value(gc_edge_ref(edge)), to = v;
  if (!v) return;
  int sp, i = slot_of(v, &sp);
  if (i < 0) ufail("visit of an edge holding %zx, which is no object", (size_t)v);
  if (data != &heap) ufail("visited with other data");
  if (!h->moving) {
    if (mark[i]) return;
    mark[i] = 1;
  } else {
    if (sp != cur) return;
    to = (uintptr_t)addr_in(!cur, i);
    if (!fwd[i]) memcpy((void*)to, (void*)v, SLOT);
    gc_edge_update(edge, gc_ref(to));
    if (fwd[i]) return;
    fwd[i] = 1;
  }
  stack[sp_++] = to;
}
static void trace(struct gc_heap *h) {
  while (sp_) {
    uintptr_t v = stack[--sp_];
    int sp, i = slot_of(v, &sp);
    if (m[i].kind == FIN) gc_trace_finalizer((struct gc_finalizer*)v, visit, h, h);
    else if (m[i].kind == PLAIN)
      for (int k = 0; k < NF; k++) visit(gc_edge((void*)&((struct plain*)v)->f[k]), h, h);
    else ufail("traced free slot %d", i);
  }
}
static void callback(struct gc_heap *h, size_t n) { notified += n; notices++; notified_heap = h; }

static int reach1(int i) { if (i < 0 || m[i].reach) return 0; return m[i].reach = 1; }
static void fixpoint(void) {
  int more = 1;
  while (more) {
    more = 0;
    for (int i = 0; i < N; i++) {
      if (m[i].kind == FREE || !m[i].reach) continue;
      if (m[i].kind == PLAIN) for (int k = 0; k < NF; k++) more |= reach1(m[i].f[k]);
      else {
        more |= reach1(m[i].clo);
        if (m[i].st == FIRED || m[i].st == POPPED || m[i].st == IDLE) more |= reach1(m[i].obj);
      }
    }
  }
}
// Does tracing the finalizer visit its object?
struct probe { int obj, clo, others; uintptr_t o, c; };
static void probe_visit(struct gc_edge e, struct gc_heap *h, void *data) {
  struct probe *p = data;
  uintptr_t v = gc_ref_value(gc_edge_ref(e));
  if (!v) return;
  // Object and closure are never the same object here.
  if (v == p->o) p->obj++; else if (v == p->c) p->clo++; else p->others++;
}
static int holds_object(int i) {
  struct probe p = { 0, 0, 0, gc_ref_value(gc_finalizer_object(fin(i))), gc_ref_value(gc_finalizer_closure(fin(i))) };
  gc_trace_finalizer(fin(i), probe_visit, &heap, &p);
  if (p.clo != (p.c ? 1 : 0)) ufail("tracing finalizer %d visits its closure %d times", i, p.clo);
  if (p.obj > 1) ufail("tracing finalizer %d visits its object %d times", i, p.obj);
  return p.obj;
}
static size_t nfired, nkept, npopped;
static void check_fin(int i) {
  if (m[i].st == IDLE) return;
  uintptr_t o = gc_ref_value(gc_finalizer_object(fin(i))), c = gc_ref_value(gc_finalizer_closure(fin(i)));
  if (o != addr(m[i].obj) || c != addr(m[i].clo))
    ufail("finalizer %d: object %zx, closure %zx, expected %zx and %zx", i, (size_t)o, (size_t)c,
          (size_t)addr(m[i].obj), (size_t)addr(m[i].clo));
  int strong = holds_object(i), want = m[i].st == FIRED || m[i].st == POPPED;
  if (strong != want) ufail("finalizer %d %s its object", i, strong ? "holds" : "does not hold");
}
static void check_all(void) {
  for (int i = 0; i < N; i++) {
    if (m[i].kind == PLAIN) {
      struct plain *p = (struct plain*)addr(i);
      for (int k = 0; k < NF; k++)
        if (p->f[k] != addr(m[i].f[k])) ufail("field %d of object %d does not point to %d", k, i, m[i].f[k]);
    } else if (m[i].kind == FIN) check_fin(i);
  }
  for (int i = 0; i < NROOTS; i++)
    if (roots[i] != addr(mroot[i])) ufail("root %d does not point to %d", i, mroot[i]);
}
static uint16_t seen[N];
static void edge_visit(struct gc_edge e, struct gc_heap *h, void *data) {
  uintptr_t v = gc_ref_value(gc_edge_ref(e));
  int sp, i = v ? slot_of(v, &sp) : -1;
  if (v && i < 0) ufail("finalizer edge to %zx, no object", (size_t)v);
  if (i >= 0) seen[i]++;
}
static void check_edges(void) {
  uint16_t want[N];
  memset(want, 0, sizeof want); memset(seen, 0, sizeof seen);
  for (int i = 0; i < N; i++) {
    if (m[i].kind != FIN || (m[i].st != ATTACHED && m[i].st != FIRED)) continue;
    if (m[i].clo >= 0) want[m[i].clo]++;
    if (m[i].st == FIRED && m[i].obj >= 0) want[m[i].obj]++;
  }
  gc_visit_finalizer_edges(state, edge_visit, &heap, &heap);
  for (int i = 0; i < N; i++) {
    int link = m[i].kind == FIN && (m[i].st == ATTACHED || m[i].st == FIRED);
    if (seen[i] < want[i] || seen[i] > want[i] + link)
      ufail("of the %d edges of finalizers to %d, %d are visited", want[i], i, seen[i]);
  }
}
static void collect(int moving, int order, int cb) {
  struct gc_heap *h = &heap;
  check_edges();
  for (int i = 0; i < N; i++) m[i].reach = 0;
  for (int i = 0; i < NROOTS; i++) reach1(mroot[i]);
  size_t nattached = 0;
  for (int i = 0; i < N; i++)
    if (m[i].kind == FIN && (m[i].st == ATTACHED || m[i].st == FIRED || m[i].st == EXTERNAL)) {
      if (m[i].st == ATTACHED) nattached++;
      reach1(i);
      // Whoever keeps finalizers elsewhere keeps track of their objects.
      if (m[i].st == EXTERNAL) { moving = 0; reach1(m[i].obj); }
    }
  fixpoint();
  h->moving = moving;
  memset(mark, 0, sizeof mark); memset(fwd, 0, sizeof fwd);
  uintptr_t ext[N], exto[N];
  for (int i = 0; i < N; i++) ext[i] = m[i].kind == FIN && m[i].st == EXTERNAL ? addr(i) : 0, exto[i] = ext[i] ? addr(m[i].obj) : 0;
  size_t n = 0;
  if (order & 1) n = gc_visit_finalizer_roots(state, visit, h, h);
  for (int i = 0; i < NROOTS; i++) visit(gc_edge((void*)&roots[(i + order) % NROOTS]), h, h);
  for (int i = 0; i < N; i++) visit(gc_edge((void*)&ext[i]), h, h), visit(gc_edge((void*)&exto[i]), h, h);
  if (!(order & 1)) n = gc_visit_finalizer_roots(state, visit, h, h);
  if (n != nattached) ufail("%zu finalizers counted as roots, %zu are attached", n, nattached);
  trace(h);
  notified = notices = 0;
  size_t total = 0, slack = 0;
  for (int p = 0; p < P; p++) {
    uint8_t cand[N];
    size_t must = 0, may = 0;
    for (int i = 0; i < N; i++) {
      cand[i] = m[i].kind == FIN && m[i].st == ATTACHED && m[i].prio == p && !m[m[i].obj].reach;
      may += cand[i];
      if (cand[i]) {
        int first = 1;
        for (int j = 0; j < i; j++) if (cand[j] && m[j].obj == m[i].obj) first = 0;
        must += first;
      }
    }
    size_t got = gc_resolve_finalizers(state, p, visit, h, h);
    if (got < must || got > may)
      ufail("%zu finalizers of priority %d fire, for %zu of %zu the object has become unreachable", got, p, must, may);
    total += got; slack |= must != may;
    for (int i = 0; i < N; i++) if (cand[i]) reach1(m[i].obj);
    fixpoint();
    trace(h);
  }
  gc_notify_finalizers(state, h);
  if (cb && (notified != total || notices != (total != 0) || (total && notified_heap != h)))
    ufail("%zu notices of %zu finalizers, when %zu fired", notices, notified, total);
  if (!cb && notices) ufail("notified without a callback");
  int old = cur;
  if (moving) cur = !cur;
  for (int i = 0; i < N; i++) {
    if (m[i].kind == FREE) continue;
    int live = moving ? fwd[i] : mark[i];
    if (m[i].reach != live) ufail("%s %d is %sreachable but was %smarked", m[i].kind == FIN ? "finalizer" : "object",
                                 i, m[i].reach ? "" : "not ", live ? "" : "not ");
  }
  // Which ones fired?
  uint8_t sure[N];
  memset(sure, 0, sizeof sure);
  size_t fired = 0;
  for (int i = 0; i < N; i++) {
    if (m[i].kind != FIN || m[i].st != ATTACHED) continue;
    if (holds_object(i)) { m[i].st = FIRED; fired++; } else nkept++;
  }
  nfired += fired;
  if (fired != total) ufail("%zu finalizers fired, %zu are said to have", fired, total);
  for (int i = 0; i < N; i++) {
    if (m[i].kind != FREE && !m[i].reach) { m[i].kind = FREE; memset(addr_in(cur, i), 0xdb, SLOT); }
    if (moving) memset(addr_in(old, i), 0xdb, SLOT);
  }
  check_all();
  check_edges();
}
static int fresh(int kind) {
  static unsigned hint;
  for (int k = 0; k < N; k++) {
    int i = (hint + k) % N;
    if (m[i].kind == FREE) {
      hint = i + 1;
      memset(&m[i], 0, sizeof m[i]);
      m[i].kind = kind; m[i].obj = m[i].clo = -1;
      for (int j = 0; j < NF; j++) m[i].f[j] = -1;
      memset(addr_in(cur, i), 0, SLOT);
      return i;
    }
  }
  return -1;
}
static int pick(uint64_t x) {       // a plain object that the mutator can name
  for (int i = 0; i < N; i++) m[i].reach = 0;
  for (int i = 0; i < NROOTS; i++) reach1(mroot[i]);
  fixpoint();
  int cnt = 0;
  for (int i = 0; i < N; i++) cnt += m[i].kind == PLAIN && m[i].reach;
  if (!cnt) return -1;
  cnt = x % cnt;
  for (int i = 0; i < N; i++) if (m[i].kind == PLAIN && m[i].reach && !cnt--) return i;
  return -1;
}
static void setroot(int r, int i) { mroot[r] = i; roots[r] = addr(i); }
static void setf(int o, int k, int v) { m[o].f[k] = v; ((struct plain*)addr(o))->f[k] = addr(v); }
static int newfin(int o, int c, int p) {
  if (o == c) c = -1;
  int i = fresh(FIN);
  if (i < 0) return -1;
  m[i].obj = o; m[i].clo = c; m[i].prio = p; m[i].st = ATTACHED;
  gc_finalizer_init_internal(fin(i), gc_ref(addr(o)), gc_ref(addr(c)));
  return i;
}
static int popped(struct gc_finalizer *f) {
  int sp, i = slot_of((uintptr_t)f, &sp);
  if (i < 0 || m[i].kind != FIN || m[i].st != FIRED) ufail("popped %p, which is no fired finalizer", (void*)f);
  m[i].st = POPPED; npopped++;
  check_fin(i);
  return i;
}

// Threads that attach and pop all at once.
static struct { int16_t push[40]; int npush, npop, n; struct gc_finalizer *got[400]; } cw[MAXW + 1];
static int nw;
static atomic_uint phase, left; static atomic_int quit;
static void spin(unsigned *k) { if (++*k % 64 == 0) sched_yield(); else __builtin_ia32_pause(); }
static void conc(int id) {
  int p = 0, k = 0;
  while (p < cw[id].npush || k < cw[id].npop) {
    if (p < cw[id].npush) { int i = cw[id].push[p++]; gc_finalizer_attach_internal(state, fin(i), m[i].prio); }
    if (k < cw[id].npop) {
      k++;
      struct gc_finalizer *f = gc_finalizer_state_pop(state);
      if (f) cw[id].got[cw[id].n++] = f;
    }
  }
}
// Bursts: every thread attaches many finalizers at once, or has them fire from
// outside the collector and pops them, on a state of its own.
enum { BMAX = 800 };
struct bslot { struct gc_finalizer *f; atomic_uchar seen; };
static struct { struct gc_finalizer_state *st; char *mem; struct bslot s[(MAXW + 1) * BMAX]; unsigned per, prios, fire, on; } burst;
static atomic_uint ready;
static void seen_burst(uintptr_t id, const char *how) {
  if (!id || id > (MAXW + 1) * BMAX) ufail("%s a corrupt finalizer with closure %zx", how, (size_t)id);
  if (atomic_fetch_add(&burst.s[id - 1].seen, 1)) ufail("%s finalizer %zu twice", how, (size_t)id);
}
static void do_burst(int id) {
  unsigned k = 0;
  atomic_fetch_sub(&ready, 1);
  while (atomic_load(&ready)) spin(&k);
  for (unsigned i = 0; i < burst.per; i++) {
    struct gc_finalizer *f = burst.s[id * BMAX + i].f;
    if (!burst.fire) gc_finalizer_attach_internal(burst.st, f, i % burst.prios);
    else {
      gc_finalizer_externally_activated(f);
      gc_finalizer_externally_fired(burst.st, f);
      if (burst.fire > 1 && i % burst.fire == 0) {
        f = gc_finalizer_state_pop(burst.st);
        if (f) seen_burst(gc_ref_value(gc_finalizer_closure(f)), "popped");
      }
    }
  }
}
static void see_closure(struct gc_edge e, struct gc_heap *h, void *data) {
  uintptr_t v = gc_ref_value(gc_edge_ref(e));
  if (v && v <= (MAXW + 1) * BMAX) seen_burst(v, "visited");
}
static void no_visit(struct gc_edge e, struct gc_heap *h, void *data) { }
static void conc_or_burst(int id) { if (burst.on) do_burst(id); else conc(id); }
static void run_burst(uint32_t a, uint32_t b, uint32_t c) {
  burst.per = 1 + a % BMAX; burst.prios = b % 3 ? 1 : P; burst.fire = c % 6;
  if (burst.fire) burst.fire--;
  burst.st = gc_make_finalizer_state();
  unsigned n = (nw + 1) * BMAX;
  size_t sz = gc_finalizer_size();
  burst.mem = calloc(n, sz);
  for (unsigned i = 0; i < n; i++) {
    burst.s[i].f = (struct gc_finalizer*)(burst.mem + i * sz);
    atomic_store(&burst.s[i].seen, 0);
    if (i % BMAX < burst.per)
      gc_finalizer_init_internal(burst.s[i].f, gc_ref((uintptr_t)burst.mem), gc_ref(i + 1));
  }
  burst.on = 1;
  atomic_store(&ready, nw + 1);
  atomic_store(&left, nw);
  atomic_fetch_add(&phase, 1);
  do_burst(nw);
  unsigned k = 0;
  while (atomic_load(&left)) spin(&k);
  burst.on = 0;
  size_t want = burst.fire ? 0 : (size_t)(nw + 1) * burst.per;
  size_t got = gc_visit_finalizer_roots(burst.st, no_visit, &heap, &heap);
  if (got != want) ufail("%zu finalizers attached, %zu found", want, got);
  if (c & 64 || !burst.fire) gc_visit_finalizer_edges(burst.st, see_closure, &heap, &heap);
  else {
    struct gc_finalizer *f;
    while ((f = gc_finalizer_state_pop(burst.st))) seen_burst(gc_ref_value(gc_finalizer_closure(f)), "popped");
  }
  for (unsigned i = 0; i < n; i++)
    if (i % BMAX < burst.per && !atomic_load(&burst.s[i].seen))
      ufail("finalizer %u of %u is lost after threads %s it", i, n, burst.fire ? "fired" : "attached");
  free(burst.mem); free(burst.st);
  USTAT(4, 1);
}
static void *worker(void *data) {
  unsigned seen = 0;
  while (1) {
    unsigned k = 0;
    while (atomic_load(&phase) == seen) spin(&k);
    seen++;
    if (atomic_load(&quit)) return NULL;
    conc_or_burst((intptr_t)data);
    atomic_fetch_sub(&left, 1);
  }
}
enum { NEW, EDGE, ATTACH, POP, ROOT, GC, CONC, EXT, EXTFIRE, BATCH, BURST, NOPS };
static const char *uop_names[] = { "NEW", "EDGE", "ATTACH", "POP", "ROOT", "GC", "CONC", "EXT", "EXTFIRE", "BATCH", "BURST" };
static const size_t uop_count = NOPS;
static void ugen(struct rng *r, struct ucase *c) {
  static const int w[NOPS] = { 6, 8, 10, 3, 6, 7, 4, 1, 1, 4, 2 };
  int sum = 0;
  for (int i = 0; i < NOPS; i++) sum += w[i];
  c->p[0] = rn(r, 3) ? rn(r, 4) : rn(r, MAXW + 1);
  c->p[1] = rn(r, 3);      // callback?
  size_t n = 10 + rn(r, 100);
  for (size_t i = 0; i < n; i++) {
    int x = rn(r, sum), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rnd(r), rnd(r));
    // Pops that race need something to pop.
    if (k == BATCH && rn(r, 2)) { uadd(c, GC, rnd(r), rnd(r), 0, 0); uadd(c, CONC, rnd(r), rnd(r), rnd(r), rnd(r)); }
  }
}
static void urun(struct ucase *c) {
  if (!space[0])
    for (int s = 0; s < 2; s++) {
      space[s] = mmap(NULL, (size_t)N * SLOT, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
      if (gc_finalizer_size() > SLOT) ufail("finalizers of %zu bytes", gc_finalizer_size());
    }
  P = FZ_PRIORITIES;
  memset(m, 0, sizeof m); memset(roots, 0, sizeof roots); memset(mroot, -1, sizeof mroot);
  cur = 0; nfired = nkept = npopped = 0;
  state = gc_make_finalizer_state();
  if (!state) ufail("no finalizer state");
  int cb = c->p[1] % 3 != 0;
  if (cb) gc_finalizer_state_set_callback(state, callback);
  nw = c->p[0] % (MAXW + 1);
  atomic_store(&phase, 0); atomic_store(&quit, 0);
  pthread_t th[MAXW];
  for (int i = 0; i < nw; i++) pthread_create(&th[i], NULL, worker, (void*)(intptr_t)i);
  for (size_t oi = 0; oi < c->n; oi++) {
    struct uop *op = &c->ops[oi];
    struct rng r = { op->d };
    switch (op->code) {
    case NEW: {
      int i = fresh(PLAIN), o = pick(op->a);
      if (i < 0) break;
      if (o >= 0 && op->b % 3) setf(o, op->c % NF, i); else setroot(op->c % NROOTS, i);
      break;
    }
    case EDGE: {
      int o = pick(op->a);
      if (o >= 0) setf(o, op->c % NF, op->b % 5 ? pick(op->b) : -1);
      break;
    }
    case ATTACH: {
      int o = op->d & 1 ? fresh(PLAIN) : pick(op->a), cl = op->c & 3 ? op->c & 4 ? fresh(PLAIN) : pick(op->b) : -1;
      if (o < 0) break;
      if (cl >= 0 && (op->c & 8)) setf(cl, 0, o);             // held by its own finalizer's closure
      if (cl >= 0 && (op->c & 16) && o != cl) setf(o, 1, cl);
      if (op->c & 32) setf(o, 2, pick(op->c >> 8));
      int i = newfin(o, cl, op->b % P);
      if (i < 0) break;
      gc_finalizer_attach_internal(state, fin(i), m[i].prio);
      break;
    }
    case BATCH: {
      // A chain of objects about to die, with finalizers here and there.
      int prev = -1, n = 1 + op->a % 80;
      for (int k = 0; k < n; k++) {
        int o = fresh(PLAIN);
        if (o < 0) break;
        if (prev >= 0) setf(o, rn(&r, NF), prev);
        int i = newfin(o, rn(&r, 3) ? -1 : pick(rnd(&r)), op->b & 1 ? (int)rn(&r, P) : op->b / 2 % P);
        if (i < 0) break;
        gc_finalizer_attach_internal(state, fin(i), m[i].prio);
        prev = rn(&r, 3) ? o : -1;
      }
      break;
    }
    case POP: {
      int n = op->a & 1 ? (int)(op->a / 2 % 8) : N;
      for (int k = 0; k < n; k++) {
        struct gc_finalizer *f = gc_finalizer_state_pop(state);
        if (!f) {
          for (int i = 0; i < N; i++)
            if (m[i].kind == FIN && m[i].st == FIRED) ufail("nothing to pop, yet finalizer %d has fired", i);
          break;
        }
        int i = popped(f);
        if (rn(&r, 2)) setroot(rn(&r, NROOTS), rn(&r, 2) ? i : m[i].obj);
      }
      break;
    }
    case ROOT: setroot(op->a % NROOTS, op->c & 1 ? -1 : pick(op->b)); break;
    case GC: collect(op->a >> 3 & 1, op->b % NROOTS, cb); break;
    case EXT: {
      int o = pick(op->a), i = o < 0 ? -1 : newfin(o, pick(op->b), 0);
      if (i < 0) break;
      gc_finalizer_externally_activated(fin(i));
      m[i].st = EXTERNAL;
      setroot(op->c % NROOTS, o);
      break;
    }
    case EXTFIRE:
      for (int i = 0; i < N; i++)
        if (m[i].kind == FIN && m[i].st == EXTERNAL) {
          gc_finalizer_externally_fired(state, fin(i));
          m[i].st = FIRED;
          break;
        }
      break;
    case BURST: run_burst(op->a, op->b, op->c); break;
    case CONC: {
      memset(cw, 0, sizeof cw);
      size_t fired = 0, got = 0;
      for (int i = 0; i < N; i++) fired += m[i].kind == FIN && m[i].st == FIRED;
      int style = op->a % 3;
      for (int t = 0; t <= nw; t++) {
        int np = style == 0 ? 0 : rn(&r, 40), pr = rn(&r, P);
        for (int k = 0; k < np; k++) {
          int o = rn(&r, 2) ? fresh(PLAIN) : pick(rnd(&r)), i = o < 0 ? -1 : newfin(o, -1, rn(&r, 4) ? pr : (int)rn(&r, P));
          if (i < 0) break;
          cw[t].push[cw[t].npush++] = i;
        }
        cw[t].npop = style == 1 ? 0 : rn(&r, 60);
      }
      size_t want = 0;
      for (int t = 0; t <= nw; t++) want += cw[t].npop;
      atomic_store(&left, nw);
      atomic_fetch_add(&phase, 1);
      conc(nw);
      unsigned k = 0;
      while (atomic_load(&left)) spin(&k);
      for (int t = 0; t <= nw; t++)
        for (int j = 0; j < cw[t].n; j++, got++) popped(cw[t].got[j]);
      if (got != (want < fired ? want : fired)) ufail("%zu finalizers had fired, %zu pops got %zu", fired, want, got);
      USTAT(3, 1);
      break;
    }
    }
  }
  collect(c->seed & 1, c->seed >> 1 & 7, cb);
  struct gc_finalizer *f;
  while ((f = gc_finalizer_state_pop(state))) popped(f);
  for (int i = 0; i < N; i++) if (m[i].kind == FIN && m[i].st == FIRED) ufail("nothing to pop, yet finalizer %d has fired", i);
  atomic_store(&quit, 1);
  atomic_fetch_add(&phase, 1);
  for (int i = 0; i < nw; i++) pthread_join(th[i], NULL);
  free(state);
  USTAT(0, npopped); USTAT(1, nkept); USTAT(2, nfired);
  if (npopped >= 5 && nkept >= 5) NONTRIVIAL();
}
