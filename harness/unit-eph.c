// The ephemeron machinery under a small parallel tracer of ours: marking in
// place or evacuating, any number of workers.  The oracle is the least fixpoint
// of "an ephemeron and its key keep the value alive"; chains and explicit kills
// are run concurrently against what each thread knows.
#include "unit.h"
#include <assert.h>
#include <sched.h>
#define GC_IMPL 1
#include "gc-config.h"
#include "gc-ref.h"
#include "gc-edge.h"
#include "gc-assert.h"
#include "gc-ephemeron.h"
#include "gc-ephemeron-internal.h"

enum { N = 1024, SLOT = 128, NROOTS = 16, NCHAINS = 4, MAXW = 6, QMAX = 16 * N, NF = 6 };
enum { FREE, PLAIN, EPH };
struct plain { uintptr_t tag; uintptr_t f[NF]; };
static char *space[2];            // semispaces
static int cur;                   // the one in use
static atomic_uchar mark[N];      // in place
static atomic_uchar fwd[N];       // 0, 1 busy, 2 done
struct gc_heap {
  struct gc_pending_ephemerons *pending; unsigned epoch; uint8_t mk; int check, moving; unsigned dup;
  atomic_uintptr_t q[QMAX]; atomic_uint head, tail, active; atomic_int bad;
};
static struct gc_heap heap;
static uintptr_t roots[NROOTS], chains[NCHAINS];

// The model.
static struct { uint8_t kind, dead, kid, reach, may, pushed; int16_t f[NF], key, val, next; } m[N];
static int16_t mroot[NROOTS], mchain[NCHAINS];

static char *addr_in(int sp, int i) { return space[sp] + (size_t)i * SLOT; }
static int slot_of(uintptr_t v, int *sp) {
  for (int s = 0; s < 2; s++) {
    size_t off = v - (uintptr_t)space[s];
    if (off < (size_t)N * SLOT && off % SLOT == 0) { *sp = s; return off / SLOT; }
  }
  return -1;
}
static struct gc_heap_object *obj(uintptr_t v) { return (struct gc_heap_object*)v; }
static uintptr_t addr(int i) { return i < 0 ? 0 : (uintptr_t)addr_in(cur, i); }
static struct gc_ephemeron *eph(int i) { return (struct gc_ephemeron*)addr(i); }

struct gc_pending_ephemerons *gc_heap_pending_ephemerons(struct gc_heap *h) { return h->pending; }
unsigned gc_heap_ephemeron_trace_epoch(struct gc_heap *h) { return h->epoch; }

static void spin(unsigned *k) { if (++*k % 64 == 0) sched_yield(); else __builtin_ia32_pause(); }
static void await(int i) {
  unsigned k = 0;
  while (atomic_load_explicit(&fwd[i], memory_order_acquire) != 2) spin(&k);
}
int gc_visit_ephemeron_key(struct gc_edge edge, struct gc_heap *h) {
  uintptr_t v = gc_ref_value(gc_edge_ref(edge));
  int sp, i = slot_of(v, &sp);
  if (i < 0) ufail("asked about a key %zx that is no object", (size_t)v);
  if (!h->moving) return atomic_load_explicit(&mark[i], memory_order_relaxed) == h->mk;
  if (sp != cur) return 1;
  if (!atomic_load_explicit(&fwd[i], memory_order_acquire)) return 0;
  await(i);
  gc_edge_update(edge, gc_ref((uintptr_t)addr_in(!cur, i)));
  return 1;
}
static void enqueue(struct gc_heap *h, uintptr_t v) {
  atomic_fetch_add(&h->active, 1);
  unsigned t = atomic_fetch_add(&h->tail, 1);
  if (t >= QMAX) ufail("more than %d objects to trace", QMAX);
  atomic_store(&h->q[t], v);
}
static void visit(struct gc_edge edge, struct gc_heap *h, void *data) {
  uintptr_t v = gc_ref_value(gc_edge_ref(edge)), to = v;
  if (!v) return;
  int sp, i = slot_of(v, &sp);
  if (i < 0) ufail("visit of an edge holding %zx, which is no object", (size_t)v);
  if (!h->moving) {
    if (atomic_load_explicit(&mark[i], memory_order_relaxed) == h->mk) return;
    atomic_store_explicit(&mark[i], h->mk, memory_order_relaxed);
  } else {
    if (sp != cur) return;
    to = (uintptr_t)addr_in(!cur, i);
    unsigned char z = 0;
    if (!atomic_compare_exchange_strong(&fwd[i], &z, 1)) {
      await(i);
      gc_edge_update(edge, gc_ref(to));
      return;
    }
    memcpy((void*)to, (void*)v, SLOT);
    atomic_store_explicit(&fwd[i], 2, memory_order_release);
    gc_edge_update(edge, gc_ref(to));
  }
  if (h->check) gc_resolve_pending_ephemerons(gc_ref(v), h);
  enqueue(h, to);
  // Marking in place is not atomic: two threads may both queue an object.
  if (!h->moving && h->dup && (i * 2654435761u ^ h->dup) % 4 == 0) enqueue(h, to);
}
static void trace_one(struct gc_heap *h, uintptr_t v) {
  if (v & 1) {
    gc_trace_resolved_ephemerons((struct gc_ephemeron*)(v - 1), visit, h, NULL);
    return;
  }
  int sp, i = slot_of(v, &sp);
  if (m[i].kind == EPH)
    gc_trace_ephemeron((struct gc_ephemeron*)v, visit, h, NULL);
  else if (m[i].kind == PLAIN) {
    struct plain *p = (struct plain*)v;
    for (int k = 0; k < NF; k++) visit(gc_edge((void*)&p->f[k]), h, NULL);
  } else
    ufail("traced free slot %d", i);
}
static void work(struct gc_heap *h) {
  unsigned k = 0;
  while (1) {
    unsigned hd = atomic_load(&h->head);
    if (hd < atomic_load(&h->tail)) {
      uintptr_t v = atomic_load(&h->q[hd]);
      if (v && atomic_compare_exchange_strong(&h->head, &hd, hd + 1)) {
        trace_one(h, v);
        atomic_fetch_sub(&h->active, 1);
        continue;
      }
    } else if (!atomic_load(&h->active))
      return;
    spin(&k);
  }
}
// A pool of workers that spin from one phase to the next.
static atomic_uint phase, left;
static atomic_int mode;            // 0 trace, 1 chains, 2 quit
static int nw;
static void chain_work(int id);
static void duel_work(int id);
static void *worker(void *data) {
  int id = (intptr_t)data;
  unsigned seen = 0;
  while (1) {
    unsigned k = 0;
    while (atomic_load(&phase) == seen) spin(&k);
    seen++;
    if (atomic_load(&mode) == 2) return NULL;
    if (atomic_load(&mode) == 1) chain_work(id);
    else if (atomic_load(&mode) == 3) duel_work(id);
    else work(&heap);
    atomic_fetch_sub(&left, 1);
  }
}
static void go(int what) {
  atomic_store(&mode, what);
  atomic_store(&left, nw);
  atomic_fetch_add(&phase, 1);
  if (what == 2) return;
  if (what == 1) chain_work(nw); else if (what == 3) duel_work(nw); else work(&heap);
  unsigned k = 0;
  while (atomic_load(&left)) spin(&k);
}
static void reset_queue(struct gc_heap *h) {
  unsigned t = atomic_load(&h->tail);
  for (unsigned i = 0; i < t; i++) atomic_store_explicit(&h->q[i], 0, memory_order_relaxed);
  atomic_store(&h->head, 0); atomic_store(&h->tail, 0);
}

static int reach1(int i, int may) {
  if (i < 0) return 0;
  uint8_t *r = may ? &m[i].may : &m[i].reach;
  if (*r) return 0;
  return *r = 1;
}
static int live_next(int i) { while (i >= 0 && m[i].dead) i = m[i].next; return i; }
static void fixpoint(int may) {
  for (int i = 0; i < NROOTS; i++) reach1(mroot[i], may);
  for (int i = 0; i < NCHAINS; i++)
    for (int e = mchain[i]; e >= 0; e = m[e].next) if (may || !m[e].dead) { reach1(e, may); if (!may) break; }
  int more = 1;
  while (more) {
    more = 0;
    for (int i = 0; i < N; i++) {
      if (!(may ? m[i].may : m[i].reach)) continue;
      if (m[i].kind == PLAIN) for (int k = 0; k < NF; k++) more |= reach1(m[i].f[k], may);
      if (m[i].kind == EPH) {
        more |= reach1(live_next(m[i].next), may);
        if (!m[i].dead && (m[i].key < 0 || (may ? m[m[i].key].may : m[m[i].key].reach)))
          more |= reach1(m[i].val, may);
      }
    }
  }
}
static size_t nlive, ndied, nlazy;
static void check_eph(int i) {
  struct gc_ephemeron *e = eph(i);
  uintptr_t k = gc_ref_value(gc_ephemeron_key(e)), v = gc_ref_value(gc_ephemeron_value(e));
  if (m[i].dead) {
    if (k || v) ufail("dead ephemeron %d yields key %zx, value %zx", i, (size_t)k, (size_t)v);
  } else if (k != addr(m[i].key) || v != addr(m[i].val))
    ufail("ephemeron %d: key %zx, value %zx, expected %zx and %zx", i, (size_t)k, (size_t)v,
          (size_t)addr(m[i].key), (size_t)addr(m[i].val));
}
static void check_all(void) {
  for (int i = 0; i < N; i++) {
    if (m[i].kind == PLAIN) {
      struct plain *p = (struct plain*)addr(i);
      for (int k = 0; k < NF; k++)
        if (p->f[k] != addr(m[i].f[k])) ufail("field %d of object %d does not point to %d", k, i, m[i].f[k]);
    } else if (m[i].kind == EPH) check_eph(i);
  }
  for (int i = 0; i < NROOTS; i++)
    if (roots[i] != addr(mroot[i])) ufail("root %d does not point to %d", i, mroot[i]);
}
static void walk_check(int c) {
  int want = live_next(mchain[c]);
  for (struct gc_ephemeron *e = gc_ephemeron_chain_head((struct gc_ephemeron**)&chains[c]); ;
       e = gc_ephemeron_chain_next(e)) {
    if ((uintptr_t)e != addr(want))
      ufail("chain %d: found %p where ephemeron %d is next", c, (void*)e, want);
    if (!e) break;
    want = live_next(m[want].next);
  }
}
static void collect(int moving, unsigned target, int slop, int order, int shards, unsigned dup) {
  heap.dup = dup;
  struct gc_heap *h = &heap;
  for (int i = 0; i < N; i++) m[i].reach = m[i].may = 0;
  fixpoint(0); fixpoint(1);
  h->moving = moving; h->epoch++; h->mk = 1;
  memset((void*)mark, 0, sizeof mark);
  if (moving) for (int i = 0; i < N; i++) atomic_store_explicit(&fwd[i], 0, memory_order_relaxed);
  reset_queue(h);
  h->pending = gc_prepare_pending_ephemerons(h->pending, target, slop / 8.0);
  if (!h->pending) ufail("no table of pending ephemerons");
  h->check = 0;
  for (int i = 0; i < NROOTS; i++) visit(gc_edge((void*)&roots[(i + order) % NROOTS]), h, NULL);
  for (int i = 0; i < NCHAINS; i++) visit(gc_edge((void*)&chains[i]), h, NULL);
  go(0);
  nlazy++;
  h->check = 1;
  for (int s = 0; s < shards; s++) gc_scan_pending_ephemerons(h->pending, h, (s + order) % shards, shards);
  for (struct gc_ephemeron *r; (r = gc_pop_resolved_ephemerons(h));) {
    reset_queue(h);
    enqueue(h, (uintptr_t)r | 1);
    go(0);
  }
  for (int s = 0; s < shards; s++) gc_sweep_pending_ephemerons(h->pending, s, shards);
  if (gc_pop_resolved_ephemerons(h)) ufail("ephemerons resolved by the sweep");
  int old = cur;
  if (moving) cur = !cur;
  uint8_t live[N];
  for (int i = 0; i < N; i++) {
    if (m[i].kind == FREE) { live[i] = 0; continue; }
    live[i] = moving ? atomic_load(&fwd[i]) == 2 : atomic_load(&mark[i]) == h->mk;
    if (m[i].reach && !live[i]) ufail("%s %d is reachable but was not marked", m[i].kind == EPH ? "ephemeron" : "object", i);
    if (!m[i].may && live[i]) ufail("%s %d is not reachable but was marked", m[i].kind == EPH ? "ephemeron" : "object", i);
  }
  for (int i = 0; i < N; i++)
    if (live[i] && m[i].kind == EPH && !m[i].dead) {
      // Only marked because a dead link of a chain led to it: may have gone either way.
      if (m[i].key >= 0 && !live[m[i].key]) { m[i].dead = 1; ndied++; }
      else nlive++;
    }
  for (int i = 0; i < N; i++)
    if (live[i] && m[i].kind == EPH)
      while (m[i].next >= 0 && !live[m[i].next]) m[i].next = m[m[i].next].next;
  for (int c = 0; c < NCHAINS; c++)
    while (mchain[c] >= 0 && !live[mchain[c]]) mchain[c] = m[mchain[c]].next;
  for (int i = 0; i < N; i++) {
    if (m[i].kind != FREE && !live[i]) { m[i].kind = FREE; memset(addr_in(cur, i), 0xdb, SLOT); }
    if (moving) memset(addr_in(old, i), 0xdb, SLOT);
  }
  check_all();
}

// Chains under concurrent pushes, kills and walks.
static struct { int16_t push[16], kill[16]; int npush, nkill, chain; } cw[MAXW + 1];
static uint8_t in_chain[N];        // was in the chain, alive, before; and nobody kills it now
static int cw_chain;
static void cw_walk(int id, int pushed) {
  uint8_t seen[N];
  memset(seen, 0, sizeof seen);
  size_t n = 0;
  for (struct gc_ephemeron *e = gc_ephemeron_chain_head((struct gc_ephemeron**)&chains[cw_chain]); e;
       e = gc_ephemeron_chain_next(e)) {
    int sp, i = slot_of((uintptr_t)e, &sp);
    if (i < 0 || m[i].kind != EPH) ufail("walk of a chain returns %p, no ephemeron", (void*)e);
    if (seen[i]++) ufail("walk of a chain meets ephemeron %d twice", i);
    if (m[i].dead && m[i].dead != 2) ufail("walk of a chain returns ephemeron %d, dead long since", i);
    n++;
  }
  for (int i = 0; i < N; i++)
    if (in_chain[i] && !seen[i]) ufail("walk of a chain of %zu misses live ephemeron %d", n, i);
  for (int i = 0; i < pushed; i++)
    if (!m[cw[id].push[i]].dead && !seen[cw[id].push[i]])
      ufail("walk of a chain misses ephemeron %d, which this thread pushed", cw[id].push[i]);
}
static void chain_work(int id) {
  int p = 0, k = 0;
  while (p < cw[id].npush || k < cw[id].nkill) {
    if (p < cw[id].npush)
      gc_ephemeron_chain_push((struct gc_ephemeron**)&chains[cw_chain], eph(cw[id].push[p++]));
    if (k < cw[id].nkill) {
      gc_ephemeron_mark_dead(eph(cw[id].kill[k++]));
      if (gc_ref_value(gc_ephemeron_key(eph(cw[id].kill[k - 1])))) ufail("ephemeron alive after it was marked dead");
    }
    if ((p + k) % 3 == 0) cw_walk(id, p);
  }
  cw_walk(id, p);
}
static int fresh(int kind) {
  static unsigned hint;
  for (int k = 0; k < N; k++) {
    int i = (hint + k) % N;
    if (m[i].kind == FREE) {
      hint = i + 1;
      memset(&m[i], 0, sizeof m[i]);
      m[i].kind = kind; m[i].key = m[i].val = m[i].next = -1;
      for (int j = 0; j < NF; j++) m[i].f[j] = -1;
      memset(addr_in(cur, i), kind == EPH ? 0xa5 : 0, SLOT);
      return i;
    }
  }
  return -1;
}
static int pick(uint64_t x) {       // an object that the mutator can name
  fixpoint(0);
  int cnt = 0;
  for (int i = 0; i < N; i++) cnt += m[i].kind != FREE && m[i].reach;
  if (!cnt) return -1;
  cnt = x % cnt;
  for (int i = 0; i < N; i++) if (m[i].kind != FREE && m[i].reach && !cnt--) return i;
  return -1;
}
static void setroot(int r, int i) { mroot[r] = i; roots[r] = addr(i); }
static int new_plain(void) { return fresh(PLAIN); }
static int new_eph(int key, int val) {
  int i = fresh(EPH);
  if (i < 0) return -1;
  m[i].key = key; m[i].val = val;
  gc_ephemeron_init_internal(&heap, eph(i), gc_ref(addr(key)), gc_ref(addr(val)));
  return i;
}
static void setf(int o, int k, int v) {
  m[o].f[k] = v; ((struct plain*)addr(o))->f[k] = addr(v);
}

// One thread comes upon ephemerons as another comes upon their keys.
enum { PAIRS = 300 };
static int16_t dk[PAIRS], de[PAIRS];
static uintptr_t dslot[PAIRS];
static int npairs;
static unsigned dskew;
static atomic_uint dstep;
static void duel_work(int id) {
  if (id != 0 && id != nw) return;
  for (int i = 0; i < npairs; i++) {
    unsigned n = atomic_fetch_add(&dstep, 1), k = 0;
    while (atomic_load(&dstep) < 2u * (i + 1)) if (++k > 500) sched_yield();
    (void)n;
    for (unsigned z = id ? i * 11u % 37 : (i * 7u + dskew) % 40; z; z--) __builtin_ia32_pause();
    if (id) visit(gc_edge(&dslot[i]), &heap, NULL);
    else gc_trace_ephemeron(eph(de[i]), visit, &heap, NULL);
  }
}
static void duel(int rounds, uint64_t skew) {
  struct gc_heap *h = &heap;
  for (int round = 0; round < rounds; round++) {
    npairs = 0;
    for (; npairs < PAIRS; npairs++) {
      int k = new_plain(), e = k < 0 ? -1 : new_eph(k, -1);
      if (e < 0) { if (k >= 0) m[k].kind = FREE; break; }
      dk[npairs] = k; de[npairs] = e; dslot[npairs] = addr(k);
    }
    h->moving = 0; h->epoch++; h->check = 1; h->mk = 1;
    memset((void*)mark, 0, sizeof mark);
    reset_queue(h);
    if (!h->pending) h->pending = gc_prepare_pending_ephemerons(h->pending, 4096, 0.5);
    dskew = mix64(skew + round) % 40;
    atomic_store(&dstep, 0);
    go(3);
    for (struct gc_ephemeron *r; (r = gc_pop_resolved_ephemerons(h));)
      gc_trace_resolved_ephemerons(r, visit, h, NULL);
    gc_sweep_pending_ephemerons(h->pending, 0, 1);
    reset_queue(h); atomic_store(&h->active, 0);
    for (int i = 0; i < npairs; i++) {
      if (gc_ref_value(gc_ephemeron_key(eph(de[i]))) != addr(dk[i]))
        ufail("an ephemeron was traced while its key was marked, and nobody resolved it");
      m[de[i]].kind = m[dk[i]].kind = FREE;
    }
    USTAT(4, npairs);
  }
}

static const char *uop_names[] = { "GADGET", "EDGE", "EPH", "PUSH", "KILL", "WALK", "ROOT", "GC", "CONC", "MESH", "DUEL" };
enum { GADGET, EDGE, EPHM, PUSH, KILL, WALK, ROOT, GC, CONC, MESH, DUEL, NOPS };
static const size_t uop_count = NOPS;
static void ugen(struct rng *r, struct ucase *c) {
  static const int w[] = { 8, 6, 6, 4, 2, 3, 3, 6, 4, 8, 1 };
  int sum = 0;
  for (int i = 0; i < NOPS; i++) sum += w[i];
  c->p[0] = rn(r, 3) ? 1 + rn(r, 3) : rn(r, MAXW);   // extra workers
  c->p[1] = rn(r, 3);
  c->p[2] = rn(r, 5);
  size_t n = 5 + rn(r, 60);
  for (size_t i = 0; i < n; i++) {
    int x = rn(r, sum), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rnd(r), rnd(r));
    if (k == MESH) uadd(c, GC, rnd(r), rnd(r), rnd(r), rnd(r));
  }
}
static void urun(struct ucase *c) {
  if (!space[0])
    for (int s = 0; s < 2; s++) {
      space[s] = mmap(NULL, (size_t)N * SLOT, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
      if (gc_ephemeron_size() > SLOT) ufail("ephemerons of %zu bytes", gc_ephemeron_size());
    }
  memset(m, 0, sizeof m);
  memset(roots, 0, sizeof roots); memset(chains, 0, sizeof chains);
  memset(mroot, -1, sizeof mroot); memset(mchain, -1, sizeof mchain);
  memset((void*)mark, 0, sizeof mark);
  cur = 0; nlive = ndied = 0; heap.pending = NULL; heap.mk = 0;
  heap.epoch = c->p[1] == 1 ? (unsigned)-3 : c->p[1] == 2 ? c->seed : 0;
  nw = c->p[0] % (MAXW + 1);
  atomic_store(&phase, 0);
  pthread_t th[MAXW];
  for (int i = 0; i < nw; i++) pthread_create(&th[i], NULL, worker, (void*)(intptr_t)i);
  for (size_t oi = 0; oi <= c->n; oi++) {
    struct uop last = { GC, c->seed, c->seed >> 5, c->seed >> 9, c->seed >> 13 };
    struct uop *op = oi < c->n ? &c->ops[oi] : &last;
    struct rng r = { op->d };
    for (int i = 0; i < N; i++) m[i].reach = 0;
    switch (op->code) {
    case GADGET: {
      // Values that hold the keys of other ephemerons, so that keys and
      // ephemerons turn up while ephemerons are being resolved.
      int n = 1 + op->a % 12, holder = new_plain(), prevval = -1;
      if (holder < 0) break;
      setroot(op->b % NROOTS, holder);
      int k0 = new_plain();
      if (k0 < 0) break;
      if (op->c & 1) setf(holder, 0, k0);
      int key = k0;
      for (int i = 0; i < n; i++) {
        int val = new_plain();
        if (val < 0) break;
        int e = new_eph(key, val);
        if (e < 0) break;
        // The ephemeron is reachable from the root, from a former value, or both.
        if (prevval < 0 || rn(&r, 2)) setf(holder, 1 + i % (NF - 1), e); else setf(prevval, 2, e);
        int nk = new_plain();
        if (nk < 0) break;
        setf(val, 0, nk);
        key = rn(&r, 8) ? nk : key;
        prevval = val;
      }
      break;
    }
    case MESH: {
      // One live ephemeron whose value leads, by separate paths of about the
      // same length, to many keys and to the ephemerons for them.
      int holder = new_plain(), k0 = new_plain(), hub = new_plain();
      if (hub < 0) break;
      setroot(op->b % NROOTS, holder);
      setf(holder, 0, k0);
      int e0 = new_eph(k0, hub);
      if (e0 < 0) break;
      setf(holder, 1, e0);
      int fan = 1 + op->a % NF, leafs = 1 + op->c % (NF / 2);
      for (int i = 0; i < fan; i++) {
        int ka = new_plain(), ea = new_plain();
        if (ea < 0) break;
        int mid = new_plain();
        if (mid < 0) break;
        setf(hub, i, mid);
        setf(mid, rn(&r, 2), ka);
        setf(mid, 2 + rn(&r, 2), ea);
        for (int l = 0; l < leafs; l++) {
          int key = new_plain(), val = new_plain();
          int e = val < 0 ? -1 : new_eph(key, val);
          if (e < 0) break;
          setf(ka, l * 2, key);
          setf(ea, (l * 2 + (int)rn(&r, 2)) % NF, e);
        }
      }
      break;
    }
    case EDGE: {
      int a = pick(op->a), b = op->c % 5 ? pick(op->b) : -1;
      if (a >= 0 && m[a].kind == PLAIN) setf(a, op->d % NF, b);
      break;
    }
    case EPHM: {
      int k = pick(op->a), v = pick(op->b), o = pick(op->c);
      if (k < 0 || v < 0) break;
      if (op->d % 4 == 0) { int f = new_plain(); if (f >= 0) v = f; }
      int e = new_eph(k, v);
      if (e < 0) break;
      if (op->d % 3 && m[o].kind == PLAIN) setf(o, op->d % NF, e); else setroot(op->d % NROOTS, e);
      break;
    }
    case PUSH: {
      int k = pick(op->a), v = pick(op->b), ch = op->c % NCHAINS;
      if (k < 0) break;
      int e = new_eph(k, v);
      if (e < 0) break;
      gc_ephemeron_chain_push((struct gc_ephemeron**)&chains[ch], eph(e));
      m[e].pushed = 1; m[e].next = mchain[ch]; mchain[ch] = e;
      break;
    }
    case KILL: {
      int e = pick(op->a);
      for (int k = 0; k < N && e >= 0 && m[e].kind != EPH; k++) e = pick(op->a + k);
      if (e < 0 || m[e].kind != EPH) break;
      gc_ephemeron_mark_dead(eph(e));
      m[e].dead = 1;
      check_eph(e);
      break;
    }
    case WALK: walk_check(op->a % NCHAINS); break;
    case ROOT: setroot(op->a % NROOTS, op->c & 1 ? -1 : pick(op->b)); break;
    case GC: {
      static const int th[] = { 0, 256, 300, 4096, 100000 };
      collect((op->a >> 3) & 1, th[op->b % 4 ? c->p[2] % 5 : op->b / 4 % 5], op->c % 9, op->d % NROOTS, 1 + op->c / 16 % 4,
              op->c & 1 ? op->c : 0);
      break;
    }
    case DUEL: if (nw) duel(1 + op->a % 4, op->b); break;
    case CONC: {
      memset(cw, 0, sizeof cw); memset(in_chain, 0, sizeof in_chain);
      cw_chain = op->a % NCHAINS;
      int victims[N], nv = 0, npushed = 0;
      for (int e = live_next(mchain[cw_chain]); e >= 0; e = live_next(m[e].next)) {
        in_chain[e] = 1; victims[nv++] = e;
      }
      for (int t = 0; t <= nw; t++) {
        int np = rn(&r, 12), nk = rn(&r, 6);
        for (int i = 0; i < np; i++) {
          int k = pick(rnd(&r));
          int e = k < 0 ? -1 : new_eph(k, -1);
          if (e < 0) break;
          cw[t].push[cw[t].npush++] = e; npushed++;
        }
        for (int i = 0; i < nk && nv; i++) {
          int e = victims[rn(&r, nv)];
          if (m[e].dead) continue;
          m[e].dead = 2; in_chain[e] = 0;
          cw[t].kill[cw[t].nkill++] = e;
        }
      }
      go(1);
      // Read the order of the pushes off the chain; everything else must be as before.
      int at[MAXW + 1], want = live_next(mchain[cw_chain]), got = 0, prev = -1;
      for (int t = 0; t <= nw; t++) at[t] = cw[t].npush;
      for (int i = 0; i < N; i++) if (m[i].dead == 2) m[i].dead = 1;
      want = live_next(mchain[cw_chain]);
      int first = -1;
      struct gc_ephemeron *e = gc_ephemeron_chain_head((struct gc_ephemeron**)&chains[cw_chain]);
      for (; got < npushed; e = gc_ephemeron_chain_next(e), got++) {
        int sp, i = e ? slot_of((uintptr_t)e, &sp) : -1, t = 0;
        for (; t <= nw; t++) if (at[t] && cw[t].push[at[t] - 1] == i) break;
        if (t > nw) ufail("after concurrent pushes, ephemeron %d is not where one was pushed", i);
        at[t]--;
        if (prev >= 0) m[prev].next = i; else first = i;
        prev = i; m[i].pushed = 1;
      }
      if (prev >= 0) { m[prev].next = want; mchain[cw_chain] = first; }
      walk_check(cw_chain);
      USTAT(3, 1);
      break;
    }
    }
  }
  check_all();
  go(2);
  for (int i = 0; i < nw; i++) pthread_join(th[i], NULL);
  free(heap.pending);
  USTAT(0, nlive); USTAT(1, ndied);
  if (ndied >= 2 && nlive >= 20) NONTRIVIAL();
}
