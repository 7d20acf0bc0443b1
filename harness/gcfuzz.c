// Model-based fuzzer for the Whippet API.
//
//   gcfuzz fuzz PROFILE SEED COUNT OUTDIR TIMEOUT   run COUNT generated cases
//   gcfuzz gen PROFILE SEED                         print one case
//   gcfuzz run FILE TIMEOUT                         run one case
//
// A case is a configuration line and a list of operations.  Every operation
// applies to the real heap and to a malloc'd shadow model; the oracle compares
// them.  Operation arguments are taken modulo whatever is valid, so that any
// subsequence of a case is also a case, which is what makes shrinking work.

#define _GNU_SOURCE
#include <errno.h>
#include <inttypes.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "gc-basic-stats.h"
#include "gc-event-listener-chain.h"
#include "fz-embedder.h"

#ifdef FZ_SEMI
#define IS_SEMI 1
#else
#define IS_SEMI 0
#endif
#ifdef FZ_MMC
#define IS_MMC 1
#else
#define IS_MMC 0
#endif
#ifdef FZ_PCC
#define IS_PCC 1
#else
#define IS_PCC 0
#endif
#ifdef FZ_BDW
#define IS_BDW 1
#else
#define IS_BDW 0
#endif
// The collector knows exactly which objects are live.
#define PRECISE (!GC_CONSERVATIVE_ROOTS && !GC_CONSERVATIVE_TRACE)

static const char *VARIANT = FZ_VARIANT;

// ---------------------------------------------------------------- statistics
// Shared with the parent process.
enum {
  ST_OPS, ST_ALLOCS, ST_BYTES, ST_LARGE, ST_GCS, ST_MINOR, ST_MAJOR, ST_COMPACT,
  ST_VERIFIED, ST_MOVED, ST_EPH_NEW, ST_EPH_DEAD, ST_EPH_LIVECHK, ST_FIN_NEW,
  ST_FIN_POP, ST_FIN_DEF, ST_BARRIER, ST_OLD2YOUNG, ST_PIN, ST_PINCHK, ST_FRAME,
  ST_FRAMECHK, ST_EXT, ST_EXTCHK, ST_THREADS, ST_SHARED, ST_RESIZE, ST_NOGC,
  ST_CHAINWALK, ST_ZEROCHK, ST_INTERIOR, ST_UNTAGGED, ST_EVENTS, ST_LARGECHK,
  ST_RECLAIMCHK, ST_PAUSED, ST_TICK, ST_FOOTCHK, ST_FOOTKB, ST_OOM, ST_HOARDED,
  ST_HOARDPCT, ST_BRINK, ST_N
};
static const char *st_names[] = {
  "ops", "allocs", "bytes", "large", "gcs", "minor", "major", "compact",
  "verified", "moved", "eph_new", "eph_dead", "eph_livechk", "fin_new",
  "fin_pop", "fin_def", "barrier", "old2young", "pin", "pinchk", "frame",
  "framechk", "ext", "extchk", "threads", "shared", "resize", "nogc",
  "chainwalk", "zerochk", "interior", "untagged", "events", "largechk",
  "reclaimchk", "paused", "tick", "footchk", "footkb", "oom", "hoarded", "hoardpct", "brink",
};
static uint64_t *stats;
static int stats_fd_dummy;
#define STAT(x, n) __atomic_fetch_add(&stats[x], (n), __ATOMIC_RELAXED)

// ----------------------------------------------------------------------- rng
static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct rng { uint64_t s; };
static inline uint64_t rnd(struct rng *r) { return mix64(r->s++); }
static inline uint32_t rn(struct rng *r, uint32_t n) {
  return n ? (uint32_t)((rnd(r) >> 16) % n) : 0;
}

// ------------------------------------------------------------------- failing
static int trace_ops;
static void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void fail(const char *fmt, ...) {
  va_list ap;
  char buf[1024];
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fprintf(stderr, "\nFZFAIL: %s\n", buf);
  fflush(stderr);
  _exit(77);
}

// ----------------------------------------------------------------------- ops
#define FOR_EACH_OP(M)                                                  \
  M(ALLOC) M(SET) M(SETNULL) M(SETIMM) M(GET) M(DROP) M(MOVE) M(COLLECT) \
  M(GARBAGE) M(PAYLOAD) M(EPH) M(EPHPUSH) M(EPHKEY) M(EPHVAL) M(EPHDEAD) \
  M(EPHWALK) M(FIN) M(POPFIN) M(PIN) M(EXT) M(HRSET) M(HRGET) M(VERIFY) \
  M(LIST) M(WIDE) M(TREE) M(FILLYOUNG) M(SAFEPOINT) M(NOGC) M(FRAMEPUSH) \
  M(FRAMEPOP) M(UNTAGGED) M(EPHMANY) M(FINMANY) M(SHSET) M(SHGET) M(SPAWN) \
  M(JOIN) M(FINLEAF) M(POPLEAF) M(GSET) M(DROPMANY) M(OLDYOUNG) M(CHURN) \
  M(LARGE) M(LARGEGARBAGE) M(YIELD) M(STRESS) M(RAGGED) M(CBSET) M(EPHTAB) \
  M(SHARR) M(SHFILL) M(EPHGRAPH) M(ACTR) M(TICK) M(FOOT) M(LGSWAP) M(HOARD) \
  M(REGS) M(STORM)
enum {
#define M(x) OP_##x,
  FOR_EACH_OP(M)
#undef M
  OP_N
};
static const char *op_names[] = {
#define M(x) #x,
  FOR_EACH_OP(M)
#undef M
};
struct op { uint8_t code; uint8_t thread; uint32_t a, b, c, d; };

struct cas {
  char opts[256];
  char profile[32];
  uint64_t seed;
  size_t live;          // cap on model-reachable bytes per thread
  int nthreads;
  int evcheck;
  int hrcount;
  size_t nops;
  struct op *ops;
};

// --------------------------------------------------------------------- model
enum { T_NODE = 1, T_EPH, T_EXT };
enum { S_ALIVE = 0, S_MAYBE, S_DEAD };
struct mobj {
  uint8_t type;
  uint8_t frozen;       // immutable leaf shared between threads
  uint8_t untagged;
  uint8_t pinned;
  uint8_t large;
  uint8_t status;       // ephemerons
  uint8_t tiny;         // no room for the id word
  uint8_t is_chain;     // node has chain fields: see fchain
  uint32_t ver;
  uint32_t nf;
  uint64_t gid;
  size_t size;
  uintptr_t addr;       // if it may not move
  uint32_t *f;          // model ids; immediates are odd values with high bit
  uint32_t key, val, chain; // ephemerons
  uint32_t rmin, rmax, rkeep, vst;
  uintptr_t vaddr;
  uint32_t age;         // gc count at creation
};
#define IMMBIT 0x80000000u
struct mfin { uint32_t obj, clo; uint8_t prio, status, popped; uint32_t id;
              uint64_t attached, maybe_since; };
enum { F_ACTIVE, F_MAYBE, F_FIRED };

#define NH 48
#define NTMP 40
#define NROOT (NH + NTMP)
#define NHR 16
#define NFRAME 8
#define MAXFRAMES 6

struct frame { uint32_t id[NFRAME]; uintptr_t addr[NFRAME]; int n; struct frame *prev; };

struct thr {
  int idx;
  int tid;              // unique across spawned threads
  struct gc_mutator *mut;
  uint64_t last_counter; // of gc_allocation_counter
  struct gc_mutator_roots roots;
  struct gc_ref *h;     // NROOT real references (malloc'd)
  uint32_t mh[NROOT];   // model ids
  struct mobj **obj;
  uint32_t nobj, cobj;
  uint32_t live_objs;
  uint64_t nextgid;
  uint32_t stamp;
  struct mfin *fins;
  size_t nfins, cfins;
  struct frame *frames;
  int nframes;
  size_t alloc_since;   // bytes of model objects since last measure
  size_t live_bytes;
  uint32_t *stack; size_t cstack;
  struct { uintptr_t addr; size_t size; uint32_t id; } *ext_list; size_t cext_list;
  int *my_join; 
  const struct cas *c;
  int first_op;
  pthread_t pt;
  void *ev;             // event-listener mutator data
  uint64_t last_gc_seen;
  int in_nogc;
  struct gc_heap *heap;
  struct thr *next_all;
  uint64_t op_index;
};

static struct gc_heap *the_heap;
static struct gc_heap_roots the_heap_roots;
static uint32_t hr_model[NHR]; // model ids, owned by thread 0
static struct gc_extern_space *ext;
static uint32_t ext_model[FZ_EXT_MAX];
static uint32_t ext_next;
static pthread_mutex_t all_lock = PTHREAD_MUTEX_INITIALIZER;
static struct thr *all_threads;
static int next_tid;
static struct thr *thread0;
static volatile int multi; // more than one mutator

// Roots in the data segment, for collectors with conservative roots.
#define NGLOBAL 8
static volatile uintptr_t fz_globals[NGLOBAL];
static uint32_t fz_globals_model[NGLOBAL];

// Shared cells: an array object reachable from the heap roots whose fields are
// written by all threads under a lock per cell.
#define SH_MAX 2048
static uint32_t sh_count;
static pthread_mutex_t sh_lock[64];
static struct { uint64_t gid; uint32_t size; } sh_model[SH_MAX];
static size_t sh_size;
static struct gc_ref sh_ref; // as last seen: in heap roots slot NHR

// Leaf finalizers in multi-threaded cases.
#define LEAF_MAX 65536
static uint8_t leaf_state[LEAF_MAX]; // 1 attached, 2 popped
static uint32_t leaf_next;
static uint32_t leaf_popped;

static uint64_t gc_count;          // completed collections
static uint64_t gc_full_count;
static enum gc_collection_kind cur_kind;
static uint64_t kind_seen[4];      // number of collections of at least that kind
static int have_callback;
static size_t callback_count;
static int evcheck;
static size_t heap_size_now, heap_size_initial;
static uint64_t last_live_size; static int have_live_size;
static size_t max_resized; static int resize_policy;

// Running out of memory: see OP_HOARD.
static _Atomic int hoarding;
static _Atomic size_t hoard_live;    // bytes of objects that are surely live
static _Atomic uint64_t hoard_gcs;   // collections since the last allocation
static _Atomic size_t hoard_want;    // bytes being allocated
static char stderr_buf[1 << 16];
static uint64_t brink;               // objects that fit, once known
static int brink_released;           // ... and were then dropped

static inline struct mobj* M(struct thr *t, uint32_t id) {
  if (!id || id >= t->nobj || !t->obj[id]) fail("harness: bad model id %u", id);
  return t->obj[id];
}

static uint32_t mnew(struct thr *t, int type, size_t size, uint32_t nf) {
  if (t->nobj == t->cobj) {
    t->cobj = t->cobj ? t->cobj * 2 : 1024;
    t->obj = realloc(t->obj, t->cobj * sizeof(*t->obj));
  }
  struct mobj *o = calloc(1, sizeof *o);
  o->type = type; o->size = size; o->nf = nf;
  if (nf) o->f = calloc(nf, sizeof(uint32_t));
  o->gid = ((uint64_t)(t->tid + 1) << 40) | ++t->nextgid;
  o->age = gc_count;
  t->obj[t->nobj] = o;
  t->live_objs++;
  t->alloc_since += size;
  return t->nobj++;
}
static void mfree(struct thr *t, uint32_t id) {
  struct mobj *o = t->obj[id];
  if (o->type == T_EXT) return;
  free(o->f);
  free(o);
  t->obj[id] = NULL;
  t->live_objs--;
}

// ------------------------------------------------------ object representation
static inline uint64_t gid_hash(uint64_t gid) { return mix64(gid) & 0x3fff; }
static inline uint64_t payload_word(uint64_t gid, uint32_t ver, size_t i) {
  return mix64(gid * 0x10001 + ver * 0x9e3779b9ULL + i * 0xd1342543de82ef95ULL);
}
static inline uintptr_t expected_tag(struct mobj *o) {
  if (o->untagged) return payload_word(o->gid, 0, -1) | (uintptr_t)1 << 50; // id first
  return fz_tag(FZ_NODE, o->nf, o->size, gid_hash(o->gid));
}
// Ephemerons and finalizers have no fields of ours, so the tag has room for the id.
static inline uintptr_t eph_tag(uint64_t gid) { return 1 | (FZ_EPH << 1) | (gid << 4); }
static uint32_t next_fin_id;
static inline uintptr_t fin_tag(uint32_t id) {
  return 1 | (FZ_FIN << 1) | ((uintptr_t)id << 4);
}
static void write_payload(uintptr_t addr, struct mobj *o) {
  if (o->tiny) return;
  size_t start = 16 + (size_t)o->nf * 8;
  size_t i = 0;
  char *p = (char*)addr;
  for (size_t off = start; off + 8 <= o->size; off += 8, i++) {
    uint64_t w = payload_word(o->gid, o->ver, i);
    memcpy(p + off, &w, 8);
  }
  size_t tail = start + i * 8;
  if (tail < o->size) {
    uint64_t w = payload_word(o->gid, o->ver, i);
    memcpy(p + tail, &w, o->size - tail);
  }
}
static void check_payload(uintptr_t addr, struct mobj *o, const char *why) {
  if (o->tiny) return;
  size_t start = 16 + (size_t)o->nf * 8;
  size_t i = 0;
  char *p = (char*)addr;
  for (size_t off = start; off + 8 <= o->size; off += 8, i++) {
    uint64_t w;
    memcpy(&w, p + off, 8);
    uint64_t e = payload_word(o->gid, o->ver, i);
    if (w != e)
      fail("%s: object %" PRIx64 " at %zx size %zu: payload at offset %zu is %"
           PRIx64 ", expected %" PRIx64, why, o->gid, (size_t)addr, o->size, off, w, e);
  }
  size_t tail = start + i * 8;
  if (tail < o->size) {
    uint64_t e = payload_word(o->gid, o->ver, i);
    if (memcmp(p + tail, &e, o->size - tail))
      fail("%s: object %" PRIx64 " size %zu: payload tail corrupted", why,
           o->gid, o->size);
  }
}
static void init_header(uintptr_t addr, struct mobj *o) {
  ((uintptr_t*)addr)[0] = expected_tag(o);
  if (!o->tiny) *fz_id_word(addr) = o->gid;
}
static void check_header(uintptr_t addr, struct mobj *o, const char *why) {
  uintptr_t tag = ((uintptr_t*)addr)[0];
  if (tag != expected_tag(o))
    fail("%s: object %" PRIx64 " at %zx (size %zu): tag %zx, expected %zx", why,
         o->gid, (size_t)addr, o->size, (size_t)tag, (size_t)expected_tag(o));
  if (!o->tiny && *fz_id_word(addr) != o->gid)
    fail("%s: object %" PRIx64 " has id %zx", why, o->gid,
         (size_t)*fz_id_word(addr));
}
static inline uintptr_t imm_value(uint32_t m) {
  return ((uintptr_t)(m & ~IMMBIT) << 3) | 5;
}

// ------------------------------------------------------------ reachability
// mode 0: rmin, 1: rmax, 2: rkeep
struct reach { struct thr *t; int mode; uint32_t stamp; size_t sp; int resumed; };

static inline uint32_t* mark_loc(struct mobj *o, int mode) {
  return mode == 0 ? &o->rmin : mode == 1 ? &o->rmax : &o->rkeep;
}
static void reach_push(struct reach *r, uint32_t id) {
  if (!id || (id & IMMBIT)) return;
  struct mobj *o = M(r->t, id);
  uint32_t *m = mark_loc(o, r->mode);
  if (*m == r->stamp) return;
  *m = r->stamp;
  struct thr *t = r->t;
  if (r->sp == t->cstack) {
    t->cstack = t->cstack ? t->cstack * 2 : 1024;
    t->stack = realloc(t->stack, t->cstack * sizeof(uint32_t));
  }
  t->stack[r->sp++] = id;
}
static inline int is_marked(struct thr *t, uint32_t id, int mode, uint32_t stamp) {
  return *mark_loc(M(t, id), mode) == stamp;
}
static void reach_drain(struct reach *r) {
  struct thr *t = r->t;
  // Ephemerons whose key is not reached yet are revisited until fixpoint.
  uint32_t *pend = NULL; size_t npend = 0, cpend = 0;
  int progress = 1;
  if (r->resumed && r->sp) {
    // Ephemerons that were left pending by the previous drain.
    for (uint32_t i = 1; i < t->nobj; i++) {
      struct mobj *o = t->obj[i];
      if (!o || o->type != T_EPH || o->status == S_DEAD) continue;
      if (*mark_loc(o, r->mode) != r->stamp) continue;
      if (r->mode == 0 && o->status != S_ALIVE) continue;
      if (is_marked(t, o->key, r->mode, r->stamp)) {
        reach_push(r, o->val);
        continue;
      }
      if (npend == cpend) {
        cpend = cpend ? cpend * 2 : 64;
        pend = realloc(pend, cpend * sizeof *pend);
      }
      pend[npend++] = i;
    }
  }
  while (progress) {
    progress = 0;
    while (r->sp) {
      uint32_t id = t->stack[--r->sp];
      struct mobj *o = M(t, id);
      if (o->type == T_EPH) {
        reach_push(r, o->chain);
        if (o->status == S_DEAD) continue;
        if (r->mode == 0 && o->status != S_ALIVE) continue;
        if (r->mode == 2) {
          // The model keeps whatever it may need to name.
          reach_push(r, o->key);
          reach_push(r, o->val);
          continue;
        }
        // Other threads may keep a frozen key alive.
        if (is_marked(t, o->key, r->mode, r->stamp) ||
            (r->mode == 1 && M(t, o->key)->frozen)) {
          reach_push(r, o->val);
        } else {
          if (npend == cpend) {
            cpend = cpend ? cpend * 2 : 64;
            pend = realloc(pend, cpend * sizeof *pend);
          }
          pend[npend++] = id;
        }
      } else {
        for (uint32_t i = 0; i < o->nf; i++) reach_push(r, o->f[i]);
      }
    }
    size_t j = 0;
    for (size_t i = 0; i < npend; i++) {
      struct mobj *o = M(t, pend[i]);
      if (is_marked(t, o->key, r->mode, r->stamp)) {
        reach_push(r, o->val);
        progress = 1;
      } else pend[j++] = pend[i];
    }
    npend = j;
    if (r->sp) progress = 1;
  }
  free(pend);
}
static void reach_roots(struct reach *r) {
  struct thr *t = r->t;
  for (int i = 0; i < NROOT; i++) reach_push(r, t->mh[i]);
  for (struct frame *f = t->frames; f; f = f->prev)
    for (int i = 0; i < f->n; i++) reach_push(r, f->id[i]);
  if (t == thread0) {
    for (int i = 0; i < NHR; i++) reach_push(r, hr_model[i]);
    for (int i = 0; i < NGLOBAL; i++) reach_push(r, fz_globals_model[i]);
  }
  for (size_t i = 0; i < t->nfins; i++) {
    struct mfin *f = &t->fins[i];
    if (f->popped) continue;
    reach_push(r, f->clo);
    if (f->status == F_FIRED) reach_push(r, f->obj);
    if (f->status == F_MAYBE && r->mode != 0) reach_push(r, f->obj);
    if (r->mode == 2) reach_push(r, f->obj);
  }
  if (r->mode == 1 || r->mode == 2) {
    // Frozen objects may be kept alive by other threads, as may tiny.
    // They are leaves.
  }
}
static uint32_t compute_reach(struct thr *t, int mode) {
  struct reach r = { t, mode, ++t->stamp, 0, 0 };
  reach_roots(&r);
  reach_drain(&r);
  return r.stamp;
}
static size_t measure_live(struct thr *t) {
  uint32_t st = compute_reach(t, 2);
  size_t bytes = 0;
  for (uint32_t i = 1; i < t->nobj; i++)
    if (t->obj[i] && t->obj[i]->rkeep == st) bytes += t->obj[i]->size;
  t->live_bytes = bytes;
  t->alloc_since = 0;
  return bytes;
}
static void model_reclaim(struct thr *t) {
  uint32_t st = compute_reach(t, 2);
  for (uint32_t i = 1; i < t->nobj; i++)
    if (t->obj[i] && t->obj[i]->rkeep != st && t->obj[i]->type != T_EXT) mfree(t, i);
  // Compact the finalizer table.
  size_t j = 0;
  for (size_t i = 0; i < t->nfins; i++)
    if (!t->fins[i].popped) t->fins[j++] = t->fins[i];
  t->nfins = j;
}

// What one collection does to the model of a thread.  Runs in the pause.
static size_t fin_def, fin_maybe; // this cycle, over all threads
static size_t fin_unreported;
static void model_gc(struct thr *t, int full) {
  int exact = full && PRECISE && !IS_BDW;
  uint32_t smin = compute_reach(t, 0);
  uint32_t smax = exact ? compute_reach(t, 1) : 0;
  for (unsigned prio = 0; prio < gc_finalizer_priority_count(); prio++) {
    struct reach rmin = { t, 0, smin, 0, 1 }, rmax = { t, 1, smax, 0, 1 };
    size_t fired_now = 0, large_now = 0, nnew = 0;
    for (size_t i = 0; i < t->nfins; i++) {
      struct mfin *f = &t->fins[i];
      if (f->popped || f->status != F_ACTIVE || f->prio != prio) continue;
      if (is_marked(t, f->obj, 0, smin)) continue;
      f->maybe_since = gc_count;
      nnew++;
      struct mobj *fo = M(t, f->obj);
      if (!fo || fo->type == T_EXT || fo->size > gc_allocator_large_threshold())
        large_now = 1;
      if (exact && !M(t, f->obj)->frozen && !is_marked(t, f->obj, 1, smax)) {
        // Another finalizer of the same priority on the same object?  Then it's
        // unspecified whether one or all fire in this cycle.
        int dup = 0;
        for (size_t j = 0; j < t->nfins; j++)
          if (j != i && !t->fins[j].popped && t->fins[j].prio == prio &&
              t->fins[j].obj == f->obj && t->fins[j].status != F_FIRED)
            dup = 1;
        if (dup) f->status = F_MAYBE;
        else { f->status = F_FIRED; fired_now++; STAT(ST_FIN_DEF, 1); }
      } else {
        f->status = F_MAYBE;
      }
    }
    if (IS_SEMI && large_now && nnew > 1 && fired_now) {
      // The semi-space collector traces large and extern objects as soon as
      // they are visited, so other finalizers of this priority might find
      // their objects to be live already; they then have to wait for the next
      // cycle.
      for (size_t i = 0; i < t->nfins; i++) {
        struct mfin *f = &t->fins[i];
        if (!f->popped && f->status == F_FIRED && f->prio == prio &&
            f->maybe_since == gc_count) f->status = F_MAYBE;
      }
      fired_now = 0;
    }
    fin_def += fired_now;
    // Second pass, now that all of the priority's statuses are known.
    for (size_t i = 0; i < t->nfins; i++) {
      struct mfin *f = &t->fins[i];
      if (f->popped || f->prio != prio) continue;
      if (f->status == F_FIRED) {
        reach_push(&rmin, f->obj);
        reach_drain(&rmin);
      }
      if (f->status != F_ACTIVE && exact) {
        reach_push(&rmax, f->obj);
        reach_drain(&rmax);
      }
    }
  }
  for (size_t i = 0; i < t->nfins; i++)
    if (!t->fins[i].popped && t->fins[i].status == F_MAYBE) fin_maybe++;
  for (uint32_t i = 1; i < t->nobj; i++) {
    struct mobj *o = t->obj[i];
    if (!o || o->type != T_EPH || o->status == S_DEAD) continue;
    if (is_marked(t, o->key, 0, smin)) continue;
    struct mobj *k = M(t, o->key);
    if (exact && !k->frozen && !is_marked(t, o->key, 1, smax)) {
      o->status = S_DEAD;
      STAT(ST_EPH_DEAD, 1);
    } else
      o->status = S_MAYBE;
  }
  if (!multi) {
    // Extern objects.
    for (uint32_t i = 0; i < ext_next; i++) {
      uint32_t id = ext_model[i];
      if (!full) continue;
      if (is_marked(t, id, 0, smin)) {
        STAT(ST_EXTCHK, 1);
        if (!ext->mark[i])
          fail("reachable extern object %u not visited by full collection", i);
      } else if (exact && !is_marked(t, id, 1, smax) && ext->mark[i])
        fail("unreachable extern object %u was visited by full collection", i);
    }
  }
}

// --------------------------------------------------------------- event checks
enum { EV_NONE, EV_IDLE, EV_REQ, EV_WAIT, EV_STOPPED, EV_PREP, EV_ROOTS, EV_HEAP,
       EV_EPH, EV_FIN };
static const char *ev_names[] = { "uninitialized", "idle", "requesting_stop",
  "waiting_for_stop", "mutators_stopped", "prepare_gc", "roots_traced",
  "heap_traced", "ephemerons_traced", "finalizers_traced" };
static _Atomic int ev_state;
static _Atomic int ev_causer; // tid+1 of mutator that caused gc
static _Atomic int ev_mutators;
static uint64_t ev_restarts, ev_causes;
struct evmut { int tid; _Atomic int state; _Atomic int removed; int pausing; struct evmut *next; };
static struct evmut *evmuts;
static pthread_mutex_t evmuts_lock = PTHREAD_MUTEX_INITIALIZER;
static __thread struct thr *cur_thr;
static _Atomic int ev_in_pause;

static void ev_step(int from, int to) {
  int s = ev_state;
  STAT(ST_EVENTS, 1);
  if (evcheck && s != from)
    fail("event %s while in state %s", ev_names[to], ev_names[s]);
  ev_state = to;
}
static void ev_init(void *d, size_t size) {
  ev_step(EV_NONE, EV_IDLE);
  heap_size_now = heap_size_initial = max_resized = size;
}
static void ev_requesting_stop(void *d) {
  if (evcheck && !IS_SEMI && !IS_BDW && ev_causes != ev_restarts + 1)
    fail("requesting_stop: %" PRIu64 " mutator_cause_gc events for %" PRIu64
         " completed collections", ev_causes, ev_restarts);
  ev_step(EV_IDLE, EV_REQ);
}
static void ev_waiting_for_stop(void *d) { ev_step(EV_REQ, EV_WAIT); }
static void ev_mutators_stopped(void *d) {
  ev_step(EV_WAIT, EV_STOPPED);
  ev_in_pause = 1;
  if (evcheck && !IS_BDW) {
    int self = cur_thr ? cur_thr->tid : -1;
    for (struct thr *t = all_threads; t; t = t->next_all) {
      if (t->tid == self || !t->ev || t->in_nogc) continue;
      struct evmut *m = t->ev;
      if (!m->removed && m->state != 1)
        fail("mutators_stopped: mutator %d was not stopped", t->tid);
    }
  }
}
static void ev_prepare_gc(void *d, enum gc_collection_kind kind) {
  ev_step(EV_STOPPED, EV_PREP);
  if (evcheck) {
    if (kind != GC_COLLECTION_MINOR && kind != GC_COLLECTION_MAJOR &&
        kind != GC_COLLECTION_COMPACTING)
      fail("prepare_gc with collection kind %d", (int)kind);
    if (kind == GC_COLLECTION_MINOR && !GC_GENERATIONAL)
      fail("minor collection in non-generational collector");
  }
  cur_kind = kind;
}
static void ev_roots_traced(void *d) { ev_step(EV_PREP, EV_ROOTS); }
static void ev_heap_traced(void *d) { ev_step(EV_ROOTS, EV_HEAP); }
static void ev_ephemerons_traced(void *d) { ev_step(EV_HEAP, EV_EPH); }
static void ev_finalizers_traced(void *d) { ev_step(EV_EPH, EV_FIN); }
static void ev_restarting_mutators(void *d) {
  ev_step(EV_FIN, EV_IDLE);
  ev_in_pause = 0;
  ev_restarts++;
  int full = IS_SEMI || cur_kind != GC_COLLECTION_MINOR;
  STAT(ST_GCS, 1);
  STAT(cur_kind == GC_COLLECTION_MINOR ? ST_MINOR :
       cur_kind == GC_COLLECTION_COMPACTING ? ST_COMPACT : ST_MAJOR, 1);
  if (evcheck && ext->in_gc) fail("extern space not finished at restart");
  if (!evcheck || IS_BDW || ext->minor == !full) ; else
    fail("extern space told of a %s collection", ext->minor ? "minor" : "full");
  if (ext->protocol_error) fail("extern space protocol error %d", ext->protocol_error);
  if (ext->bad && PRECISE) fail("collector visited %u references to no known object", ext->bad);
  fin_def = fin_maybe = 0;
  for (struct thr *t = all_threads; t; t = t->next_all)
    model_gc(t, full);
  if (!multi && have_callback && !IS_BDW) {
    // Finalizers that fired before there was a callback may also be counted.
    if (callback_count < fin_def || callback_count > fin_def + fin_maybe + fin_unreported)
      fail("finalizer callback reported %zu finalizers; expected between %zu and %zu",
           callback_count, fin_def, fin_def + fin_maybe + fin_unreported);
  }
  if (hoarding && ++hoard_gcs > 200)
    fail("%" PRIu64 " collections in a row without an allocation in between, with %zu bytes live "
         "in a heap of %zu", (uint64_t)hoard_gcs, (size_t)hoard_live, heap_size_now);
  fin_unreported = callback_count ? 0 : fin_unreported + fin_def + fin_maybe;
  callback_count = 0;
  gc_count++;
  if (full) gc_full_count++;
  for (int k = 0; k <= (int)cur_kind && k < 4; k++) kind_seen[k]++;
}
static void* ev_mutator_added(void *d) {
  struct evmut *m = calloc(1, sizeof *m);
  m->tid = cur_thr ? cur_thr->tid : -2;
  if (cur_thr) cur_thr->ev = m;
  ev_mutators++;
  return m;
}
static void ev_mutator_cause_gc(void *d) {
  struct evmut *m = d;
  STAT(ST_EVENTS, 1);
  if (evcheck && cur_thr && m->tid != cur_thr->tid)
    fail("mutator_cause_gc delivered to mutator %d on thread %d", m->tid, cur_thr->tid);
  if (evcheck && ev_state != EV_IDLE)
    fail("mutator_cause_gc while in state %s", ev_names[ev_state]);
  ev_causes++;
}
static void ev_mutator_stopping(void *d) {
  struct evmut *m = d;
  STAT(ST_EVENTS, 1);
  if (evcheck) {
    if (cur_thr && m->tid != cur_thr->tid)
      fail("mutator_stopping delivered to mutator %d on thread %d", m->tid, cur_thr->tid);
    if (m->pausing || m->state) fail("mutator_stopping: mutator already stopping");
    if (ev_in_pause && !IS_BDW) fail("mutator_stopping while mutators are stopped");
  }
  m->pausing = 1;
}
static void ev_mutator_stopped(void *d) {
  struct evmut *m = d;
  STAT(ST_EVENTS, 1);
  STAT(ST_PAUSED, 1);
  if (evcheck) {
    if (!m->pausing) fail("mutator_stopped without mutator_stopping");
    if (m->state) fail("mutator_stopped twice");
    if (ev_in_pause && !IS_BDW) fail("mutator_stopped after mutators_stopped");
  }
  m->state = 1;
}
static void ev_mutator_restarted(void *d) {
  struct evmut *m = d;
  STAT(ST_EVENTS, 1);
  if (evcheck) {
    if (m->state != 1) fail("mutator_restarted without mutator_stopped");
    if (ev_in_pause && !IS_BDW) fail("mutator_restarted during pause");
  }
  m->state = 0; m->pausing = 0;
}
static void ev_mutator_removed(void *d) {
  struct evmut *m = d;
  STAT(ST_EVENTS, 1);
  if (evcheck) {
    if (m->removed) fail("mutator_removed twice");
    if (m->state && !IS_BDW) fail("mutator_removed while stopped");
    if (ev_in_pause && !IS_BDW) fail("mutator_removed during pause");
  }
  m->removed = 1;
  ev_mutators--;
}
static void ev_heap_resized(void *d, size_t size) {
  STAT(ST_EVENTS, 1);
  STAT(ST_RESIZE, 1);
  if (evcheck) {
    if (ev_state == EV_NONE) fail("heap_resized before init");
    if (resize_policy == GC_HEAP_SIZE_FIXED)
      fail("heap_resized to %zu with fixed heap size policy", size);
    if (resize_policy == GC_HEAP_SIZE_GROWABLE && size <= heap_size_now)
      fail("heap_resized from %zu to %zu with growable policy", heap_size_now, size);
  }
  heap_size_now = size;
  if (size > max_resized) max_resized = size;
}
static void ev_live_data_size(void *d, size_t size) {
  STAT(ST_EVENTS, 1);
  last_live_size = size; have_live_size = 1;
}
#define FZ_LISTENER ((struct gc_event_listener) {                       \
  ev_init, ev_requesting_stop, ev_waiting_for_stop, ev_mutators_stopped, \
  ev_prepare_gc, ev_roots_traced, ev_heap_traced, ev_ephemerons_traced, \
  ev_finalizers_traced, ev_restarting_mutators, ev_mutator_added,       \
  ev_mutator_cause_gc, ev_mutator_stopping, ev_mutator_stopped,         \
  ev_mutator_restarted, ev_mutator_removed, ev_heap_resized,            \
  ev_live_data_size })

static void finalizer_callback(struct gc_heap *heap, size_t count) {
  if (heap != the_heap) fail("finalizer callback for unknown heap");
  if (!count) fail("finalizer callback with count 0");
  callback_count += count;
}

// ---------------------------------------------------------------- allocation
static void check_fresh(void *p, size_t size, int pointerless) {
  if (!p) fail("allocation of %zu bytes returned NULL", size);
  if ((uintptr_t)p & 7) fail("allocation of %zu bytes is misaligned: %p", size, p);
  if ((uintptr_t)p & (gc_allocator_small_granule_size() - 1))
    fail("allocation of %zu bytes not granule-aligned: %p", size, p);
  const uint64_t *w = p;
  size_t n = size / 8;
  // The allocators of libgc leave a link in the first word, and do not zero
  // pointerless objects.
  for (size_t i = IS_BDW ? (pointerless ? n : 1) : 0; i < n; i++)
    if (w[i]) fail("allocation of %zu bytes at %p: word at offset %zu is %" PRIx64
                   ", not zero", size, p, i * 8, w[i]);
  for (size_t i = IS_BDW ? size : n * 8; i < size; i++)
    if (((char*)p)[i]) fail("allocation of %zu bytes: byte %zu not zero", size, i);
  STAT(ST_ZEROCHK, 1);
}
static uint64_t requested_bytes;
static uintptr_t raw_alloc(struct thr *t, size_t size, enum gc_allocation_kind kind) {
  void *p = gc_allocate(t->mut, size, kind);
  if (hoarding) hoard_gcs = 0;
  STAT(ST_ALLOCS, 1);
  STAT(ST_BYTES, size);
  __atomic_fetch_add(&requested_bytes, size, __ATOMIC_RELAXED);
  if (size > gc_allocator_large_threshold()) STAT(ST_LARGE, 1);
  check_fresh(p, size, kind == GC_ALLOCATION_TAGGED_POINTERLESS ||
              kind == GC_ALLOCATION_UNTAGGED_POINTERLESS);
  return (uintptr_t)p;
}

// Allocate a node; the caller stores it to a root and fills in fields before
// the next safepoint.  Returns model id.
static uint32_t alloc_node(struct thr *t, size_t size, uint32_t nf, int pointerless,
                           struct gc_ref *out) {
  if (size < 16) { nf = 0; if (size < 8) size = 8; }
  if (size < 16 + (size_t)nf * 8 && nf) size = 16 + (size_t)nf * 8;
  if (pointerless) nf = 0;
  if (size > 8 && size < 16) size = 16;
  uintptr_t addr = raw_alloc(t, size, pointerless ? GC_ALLOCATION_TAGGED_POINTERLESS
                             : GC_ALLOCATION_TAGGED);
  uint32_t id = mnew(t, T_NODE, size, nf);
  struct mobj *o = M(t, id);
  o->tiny = size < 16;
  if (size > gc_allocator_large_threshold() && !IS_BDW) { o->large = 1; o->addr = addr; }
  init_header(addr, o);
  write_payload(addr, o);
  *out = gc_ref(addr);
  return id;
}
static void set_root(struct thr *t, unsigned slot, struct gc_ref ref, uint32_t id) {
  t->h[slot] = ref;
  t->mh[slot] = id;
}
static void clear_root(struct thr *t, unsigned slot) {
  t->h[slot] = gc_ref_null();
  t->mh[slot] = 0;
}

// Store REF (model id VAL) to field I of the object in SLOT.
static void store_field_raw(struct thr *t, struct gc_ref obj, size_t size, uint32_t i,
                            struct gc_ref val) {
  struct gc_edge e = gc_edge(&fz_fields(obj)[i]);
  gc_write_barrier(t->mut, obj, size, e, val);
  gc_edge_update(e, val);
  STAT(ST_BARRIER, 1);
}

// ------------------------------------------------------------- verification
static void ext_add(struct thr *t, size_t *n, uintptr_t addr, size_t size, uint32_t id) {
  if (*n == t->cext_list) {
    t->cext_list = t->cext_list ? t->cext_list * 2 : 1024;
    t->ext_list = realloc(t->ext_list, t->cext_list * sizeof(*t->ext_list));
  }
  t->ext_list[*n].addr = addr;
  t->ext_list[*n].size = size;
  t->ext_list[*n].id = id;
  (*n)++;
}
static int cmp_ext(const void *a, const void *b) {
  uintptr_t x = *(const uintptr_t*)a, y = *(const uintptr_t*)b;
  return x < y ? -1 : x > y;
}
struct vitem { uint32_t id; uintptr_t addr; };
struct vstate {
  struct thr *t; uint32_t stamp, smin; struct vitem *st; size_t sp, cap; size_t nlist;
  const char *why;
};
static void vpush(struct vstate *v, uint32_t id, uintptr_t addr) {
  struct mobj *o = M(v->t, id);
  if (o->vst == v->stamp) {
    if (o->vaddr != addr)
      fail("%s: object %" PRIx64 " found at both %zx and %zx: identity lost", v->why,
           o->gid, (size_t)o->vaddr, (size_t)addr);
    return;
  }
  o->vst = v->stamp;
  o->vaddr = addr;
  if (v->sp == v->cap) {
    v->cap = v->cap ? v->cap * 2 : 1024;
    v->st = realloc(v->st, v->cap * sizeof *v->st);
  }
  v->st[v->sp++] = (struct vitem){ id, addr };
}
static void check_ref_plausible(struct vstate *v, uintptr_t addr, uint32_t id) {
  if (!addr || (addr & 7))
    fail("%s: reference to object %" PRIx64 " is %zx", v->why, M(v->t, id)->gid,
         (size_t)addr);
}
// Check the ephemeron at ADDR against the model; resolves uncertainty.
static void verify_eph(struct vstate *v, uint32_t id, uintptr_t addr) {
  struct thr *t = v->t;
  struct mobj *o = M(t, id);
  struct gc_ephemeron *e = (struct gc_ephemeron*)addr;
  uintptr_t tag = *(uintptr_t*)addr;
  if (!(tag & 1) || fz_tag_kind(tag) != FZ_EPH)
    fail("%s: ephemeron %" PRIx64 " has tag %zx", v->why, o->gid, (size_t)tag);
  if (tag != eph_tag(o->gid))
    fail("%s: ephemeron %" PRIx64 " is some other ephemeron", v->why, o->gid);
  struct gc_ref k = gc_ephemeron_key(e);
  struct gc_ref val = gc_ephemeron_value(e);
  STAT(ST_EPH_LIVECHK, 1);
  if (o->status == S_DEAD) {
    if (!gc_ref_is_null(k))
      fail("%s: ephemeron %" PRIx64 " has key although it is dead", v->why, o->gid);
    if (!gc_ref_is_null(val))
      fail("%s: dead ephemeron %" PRIx64 " has a value", v->why, o->gid);
    return;
  }
  if (gc_ref_is_null(k)) {
    if (!gc_ref_is_null(val))
      fail("%s: ephemeron %" PRIx64 " has a value but no key", v->why, o->gid);
    if (o->status == S_ALIVE)
      fail("%s: ephemeron %" PRIx64 " lost its key %" PRIx64, v->why, o->gid,
           M(t, o->key)->gid);
    o->status = S_DEAD;
    return;
  }
  o->status = S_ALIVE;
  check_ref_plausible(v, gc_ref_value(k), o->key);
  vpush(v, o->key, gc_ref_value(k));
  if (o->val & IMMBIT) {
    if (gc_ref_value(val) != imm_value(o->val))
      fail("%s: ephemeron %" PRIx64 " immediate value changed", v->why, o->gid);
  } else if (o->val) {
    if (gc_ref_is_null(val))
      fail("%s: ephemeron %" PRIx64 " lost its value", v->why, o->gid);
    check_ref_plausible(v, gc_ref_value(val), o->val);
    vpush(v, o->val, gc_ref_value(val));
  } else if (!gc_ref_is_null(val))
    fail("%s: ephemeron %" PRIx64 " gained a value", v->why, o->gid);
}
// Walk a chain starting from the model ephemeron ID (0 if empty); NEXT is the
// first live real one.
static void verify_chain(struct vstate *v, uint32_t id, struct gc_ephemeron *real) {
  struct thr *t = v->t;
  STAT(ST_CHAINWALK, 1);
  while (1) {
    // Skip model ephemerons that are dead.
    while (id && M(t, id)->status == S_DEAD) id = M(t, id)->chain;
    if (!real) {
      // All the rest must be dead.
      for (; id; id = M(t, id)->chain) {
        if (M(t, id)->status == S_ALIVE)
          fail("%s: chain ended before live ephemeron %" PRIx64, v->why,
               M(t, id)->gid);
        M(t, id)->status = S_DEAD;
      }
      return;
    }
    uintptr_t tag = *(uintptr_t*)real;
    if (!(tag & 1) || fz_tag_kind(tag) != FZ_EPH)
      fail("%s: chain leads to non-ephemeron with tag %zx", v->why, (size_t)tag);
    while (id && eph_tag(M(t, id)->gid) != tag) {
      struct mobj *o = M(t, id);
      if (o->status == S_ALIVE)
        fail("%s: live ephemeron %" PRIx64 " missing from chain", v->why, o->gid);
      o->status = S_DEAD;
      id = o->chain;
      while (id && M(t, id)->status == S_DEAD) id = M(t, id)->chain;
    }
    if (!id) fail("%s: unexpected ephemeron in chain", v->why);
    vpush(v, id, (uintptr_t)real);
    if (M(t, id)->status == S_DEAD)
      fail("%s: dead ephemeron %" PRIx64 " yielded by chain", v->why, M(t, id)->gid);
    id = M(t, id)->chain;
    real = gc_ephemeron_chain_next(real);
  }
}
static inline int is_chain_head(struct thr *t, uint32_t fid) {
  return fid && !(fid & IMMBIT) && M(t, fid)->type == T_EPH && M(t, fid)->is_chain;
}
static void verify_object(struct vstate *v, uint32_t id, uintptr_t addr) {
  struct thr *t = v->t;
  struct mobj *o = M(t, id);
  STAT(ST_VERIFIED, 1);
  if (o->type == T_EPH) {
    verify_eph(v, id, addr);
    // An ephemeron that is in a chain has successors.
    verify_chain(v, o->chain, gc_ephemeron_chain_next((struct gc_ephemeron*)addr));
    if (!o->frozen) ext_add(t, &v->nlist, addr, gc_ephemeron_size(), id);
    return;
  }
  if (o->addr && o->addr != addr)
    fail("%s: %s object %" PRIx64 " (size %zu) moved from %zx to %zx", v->why,
         o->pinned ? "pinned" : o->type == T_EXT ? "extern" : "large", o->gid, o->size,
         (size_t)o->addr, (size_t)addr);
  if (o->addr) {
    if (o->pinned) STAT(ST_PINCHK, 1);
    if (o->large) STAT(ST_LARGECHK, 1);
  }
  check_header(addr, o, v->why);
  check_payload(addr, o, v->why);
  struct gc_ref *f = fz_fields(gc_ref(addr));
  for (uint32_t i = 0; i < o->nf; i++) {
    uint32_t m = o->f[i];
    uintptr_t val = gc_ref_value(f[i]);
    if (!m) {
      if (val) fail("%s: object %" PRIx64 " field %u is %zx, expected null", v->why,
                    o->gid, i, (size_t)val);
    } else if (m & IMMBIT) {
      if (val != imm_value(m))
        fail("%s: object %" PRIx64 " field %u is %zx, expected immediate %zx", v->why,
             o->gid, i, (size_t)val, (size_t)imm_value(m));
    } else if (is_chain_head(t, m)) {
      verify_chain(v, m, gc_ephemeron_chain_head((struct gc_ephemeron**)&f[i]));
    } else {
      check_ref_plausible(v, val, m);
      vpush(v, m, val);
    }
  }
  if (o->type != T_EXT && !o->frozen)
    ext_add(t, &v->nlist, addr, o->size, id);
}
static void verify(struct thr *t, const char *why) {
  struct vstate v = { t, ++t->stamp, 0, NULL, 0, 0, 0, why };
  for (int i = 0; i < NROOT; i++) {
    if (t->mh[i]) {
      check_ref_plausible(&v, gc_ref_value(t->h[i]), t->mh[i]);
      vpush(&v, t->mh[i], gc_ref_value(t->h[i]));
    } else if (!gc_ref_is_null(t->h[i]))
      fail("harness: root %d", i);
  }
  for (struct frame *f = t->frames; f; f = f->prev)
    for (int i = 0; i < f->n; i++) {
      vpush(&v, f->id[i], f->addr[i] ^ 0x5555555555555555ULL);
      STAT(ST_FRAMECHK, 1);
    }
  if (t == thread0) {
    for (int i = 0; i < NHR; i++)
      if (hr_model[i]) vpush(&v, hr_model[i], gc_ref_value(the_heap_roots.refs[i]));
    for (int i = 0; i < NGLOBAL; i++)
      if (fz_globals_model[i]) {
        vpush(&v, fz_globals_model[i], fz_globals[i]);
        STAT(ST_FRAMECHK, 1);
      }
  }
  while (v.sp) {
    struct vitem it = v.st[--v.sp];
    verify_object(&v, it.id, it.addr);
  }
  free(v.st);
  // No two live objects overlap.
  if (v.nlist) qsort(t->ext_list, v.nlist, sizeof(*t->ext_list), cmp_ext);
  for (size_t i = 1; i < v.nlist; i++)
    if (t->ext_list[i-1].addr + t->ext_list[i-1].size > t->ext_list[i].addr)
      fail("%s: objects overlap: %zx+%zu (%" PRIx64 ") and %zx+%zu (%" PRIx64 ")", why,
           (size_t)t->ext_list[i-1].addr, t->ext_list[i-1].size,
           M(t, t->ext_list[i-1].id)->gid, (size_t)t->ext_list[i].addr,
           t->ext_list[i].size, M(t, t->ext_list[i].id)->gid);
}

// ------------------------------------------------------------------ helpers
static void maybe_trim(struct thr *t, size_t want) {
  size_t cap = t->c->live;
  if (t->live_bytes + t->alloc_since + want < cap) return;
  size_t live = measure_live(t);
  for (int round = 0; round < 12 && live + want > cap * 3 / 4; round++) {
    for (int i = 0; i < NH; i++)
      if (t->mh[i] && (round > 3 || mix64(t->stamp * 131 + i) % 2)) clear_root(t, i);
    if (t == thread0) {
      for (int i = 0; i < NHR; i++)
        if (round > 1) {
          hr_model[i] = 0;
          the_heap_roots.refs[i] = gc_ref_null();
        }
      if (round > 5)
        for (int i = 0; i < NGLOBAL; i++) { fz_globals[i] = 0; fz_globals_model[i] = 0; }
    }
    if (round > 6) {
      // Pop finalizers, whose objects we count as live.
      struct gc_finalizer *f;
      if (!multi)
        while ((f = gc_pop_finalizable(t->mut))) {
          // Identify and retire.
          for (size_t i = 0; i < t->nfins; i++)
            if (fin_tag(t->fins[i].id) == *(uintptr_t*)f) t->fins[i].popped = 1;
        }
    }
    live = measure_live(t);
  }
  if (t->live_objs > 4 * 20000 || t->nobj > 200000) model_reclaim(t);
}

static size_t size_from(uint32_t b, size_t cap) {
  uint32_t cls = b % 100;
  uint64_t r = mix64(b);
  size_t thr = gc_allocator_large_threshold();
  size_t s;
  if (cls < 50) s = 8 + (r % 15) * 8;
  else if (cls < 65) s = 128 + (r % 112) * 8;
  else if (cls < 72) s = thr - 40 + (r % 81);         // around the threshold
  else if (cls < 82) s = 1024 + (r % 896) * 8;
  else if (cls < 88) s = 16 + (r % 300);              // odd sizes
  else if (cls < 95) s = thr + 1 + (r % (7 * 8192));
  else if (cls < 97) s = (1 + r % 12) * 4096 * (1 + (r >> 20) % 3); // page multiples
  else s = 65536 + r % (400 * 1024);
  if (s > cap / 8) s = 16 + r % 512;
  return s;
}
static uint32_t nf_from(uint32_t b, size_t size) {
  if (size < 24) return 0;
  size_t max = (size - 16) / 8;
  uint64_t r = mix64(b ^ 0x5a5a5a);
  switch (r % 4) {
    case 0: return max;
    case 1: return max < 4 ? max : 1 + (r >> 8) % 4;
    case 2: return (r >> 8) % (max + 1);
    default: return max < 2 ? max : 2;
  }
}

static struct gc_ref real_of(struct thr *t, unsigned slot) { return t->h[slot]; }

// Init field I of a fresh object from slots.
static void init_fields(struct thr *t, uint32_t id, struct gc_ref ref, uint32_t d) {
  struct mobj *o = M(t, id);
  struct gc_ref *f = fz_fields(ref);
  uint32_t n = o->nf < 64 ? o->nf : 64;
  for (uint32_t j = 0; j < n; j++) {
    uint32_t i = o->nf <= 64 ? j : mix64(d + j) % o->nf;
    uint64_t r = mix64(((uint64_t)d << 8) + j);
    unsigned slot = (r >> 8) % NH;
    switch (r % 8) {
      case 0: break;
      case 1:
        o->f[i] = IMMBIT | ((r >> 20) & 0xffffff);
        f[i] = gc_ref(imm_value(o->f[i]));
        break;
      default:
        if (t->mh[slot]) {
          o->f[i] = t->mh[slot];
          f[i] = t->h[slot];
          if (M(t, t->mh[slot])->type == T_EPH && M(t, t->mh[slot])->is_chain) {
            // Only chain operations may put chained ephemerons in fields.
            o->f[i] = 0;
            f[i] = gc_ref_null();
          }
        }
    }
  }
}
static int slot_is_node(struct thr *t, unsigned slot) {
  return t->mh[slot] && M(t, t->mh[slot])->type == T_NODE;
}
// Find a slot holding a mutable node with at least one field, from A on.
static int find_node(struct thr *t, uint32_t a) {
  for (int i = 0; i < NH; i++) {
    unsigned s = (a + i) % NH;
    if (slot_is_node(t, s) && M(t, t->mh[s])->nf && !M(t, t->mh[s])->frozen) return s;
  }
  return -1;
}
static int find_any_node(struct thr *t, uint32_t a) {
  for (int i = 0; i < NH; i++) {
    unsigned s = (a + i) % NH;
    if (slot_is_node(t, s)) return s;
  }
  return -1;
}
static int find_obj(struct thr *t, uint32_t a) {
  for (int i = 0; i < NH; i++) {
    unsigned s = (a + i) % NH;
    if (t->mh[s]) return s;
  }
  return -1;
}
static int find_eph(struct thr *t, uint32_t a) {
  for (int i = 0; i < NH; i++) {
    unsigned s = (a + i) % NH;
    if (t->mh[s] && M(t, t->mh[s])->type == T_EPH) return s;
  }
  return -1;
}

static struct gc_ephemeron* new_eph(struct thr *t, uint32_t *idp, int kslot, int vslot,
                                    uint32_t imm) {
  struct gc_ephemeron *e = gc_allocate_ephemeron(t->mut);
  STAT(ST_ALLOCS, 1);
  STAT(ST_EPH_NEW, 1);
  check_fresh(e, gc_ephemeron_size(), 0);
  uint32_t id = mnew(t, T_EPH, gc_ephemeron_size(), 0);
  struct mobj *o = M(t, id);
  *(uintptr_t*)e = eph_tag(o->gid);
  struct gc_ref val = vslot < 0 ? gc_ref_null() : t->h[vslot];
  o->key = t->mh[kslot];
  o->val = vslot < 0 ? 0 : t->mh[vslot];
  if (imm) { o->val = IMMBIT | imm; val = gc_ref(imm_value(o->val)); }
  gc_ephemeron_init(t->mut, e, t->h[kslot], val);
  *idp = id;
  return e;
}
static int slot_is_ext(struct thr *t, unsigned s) {
  return t->mh[s] && M(t, t->mh[s])->type == T_EXT;
}

static void check_allocation_counter(struct thr *t, uint64_t at_least) {
  if (IS_BDW) return;
  uint64_t x = gc_allocation_counter(the_heap);
  if (x < t->last_counter)
    fail("allocation counter went from %" PRIu64 " to %" PRIu64, t->last_counter, x);
  if (x < at_least)
    fail("allocation counter is %" PRIu64 " after a collection, but %" PRIu64 " bytes were allocated before",
         x, at_least);
  t->last_counter = x;
}
static void collect(struct thr *t, uint32_t kind) {
  uint64_t before = __atomic_load_n(&gc_count, __ATOMIC_RELAXED);
  enum gc_collection_kind k = kind % 4;
  if (k == GC_COLLECTION_MINOR && !GC_GENERATIONAL) k = GC_COLLECTION_MAJOR;
  // A compacting collection is a request only.
  int min_kind = k == GC_COLLECTION_COMPACTING ? GC_COLLECTION_MAJOR : k;
  uint64_t kb = __atomic_load_n(&kind_seen[min_kind], __ATOMIC_RELAXED);
  // Whatever was allocated before an explicit collection is counted after it.
  uint64_t requested = __atomic_load_n(&requested_bytes, __ATOMIC_RELAXED);
  check_allocation_counter(t, 0);
  gc_collect(t->mut, k);
  if (IS_BDW) return;
  check_allocation_counter(t, multi ? 0 : requested);
  uint64_t after = __atomic_load_n(&gc_count, __ATOMIC_RELAXED);
  if (after == before) fail("gc_collect did not collect");
  if (evcheck && !IS_SEMI && __atomic_load_n(&kind_seen[min_kind], __ATOMIC_RELAXED) == kb)
    fail("gc_collect(%d): no collection of that kind happened", (int)k);
}

static void* nogc_fn(void *data) {
  struct thr *t = data;
  struct timespec ts = { 0, 20000 + (t->op_index % 7) * 30000 };
  nanosleep(&ts, NULL);
  return data;
}

static void* nop_fn(void *data) { return data; }

static void add_fin(struct thr *t, uint32_t obj, uint32_t clo, unsigned prio, uint32_t id) {
  if (t->nfins == t->cfins) {
    t->cfins = t->cfins ? t->cfins * 2 : 64;
    t->fins = realloc(t->fins, t->cfins * sizeof *t->fins);
  }
  t->fins[t->nfins++] = (struct mfin){ obj, clo, prio, F_ACTIVE, 0, id, gc_count, 0 };
}
static int fin_ok_node(struct thr *t, int s) {
  return s >= 0 && slot_is_node(t, s) && !M(t, t->mh[s])->tiny
    && !M(t, t->mh[s])->untagged && !M(t, t->mh[s])->frozen;
}
static void do_fin(struct thr *t, int os, int cs, unsigned prio) {
  // BDW supports one finalizer per object only.
  if (IS_BDW)
    for (size_t i = 0; i < t->nfins; i++)
      if (t->fins[i].obj == t->mh[os]) return;
  struct gc_finalizer *f = gc_allocate_finalizer(t->mut);
  STAT(ST_ALLOCS, 1);
  STAT(ST_FIN_NEW, 1);
  check_fresh(f, gc_finalizer_size(), 0);
  uint32_t id = ++next_fin_id;
  *(uintptr_t*)f = fin_tag(id);
  gc_finalizer_attach(t->mut, f, prio, t->h[os], t->h[cs]);
  add_fin(t, t->mh[os], t->mh[cs], prio, id);
}
// Pop one finalizable; store object to slot.  Returns 0 if none.
static int do_pop(struct thr *t, unsigned slot) {
  struct gc_finalizer *f = gc_pop_finalizable(t->mut);
  if (!f) {
    if (!IS_BDW)
      for (size_t i = 0; i < t->nfins; i++)
        if (!t->fins[i].popped && t->fins[i].status == F_FIRED)
          fail("finalizer of unreachable object %" PRIx64
               " did not become available after a full collection",
               M(t, t->fins[i].obj)->gid);
    // The queue is empty, so whatever was not popped has not fired.
    for (size_t i = 0; i < t->nfins; i++)
      if (!t->fins[i].popped && t->fins[i].status == F_MAYBE)
        t->fins[i].status = F_ACTIVE;
    return 0;
  }
  STAT(ST_FIN_POP, 1);
  if (fz_tag_kind(*(uintptr_t*)f) != FZ_FIN || !(*(uintptr_t*)f & 1))
    fail("popped finalizer is corrupt: tag %zx", (size_t)*(uintptr_t*)f);
  struct gc_ref o = gc_finalizer_object(f), c = gc_finalizer_closure(f);
  if (gc_ref_is_null(o) || gc_ref_is_null(c) || (gc_ref_value(o) & 7) || (gc_ref_value(c) & 7))
    fail("popped finalizer has object %zx, closure %zx", (size_t)gc_ref_value(o),
         (size_t)gc_ref_value(c));
  uint64_t og = *fz_id_word(gc_ref_value(o)), cg = *fz_id_word(gc_ref_value(c));
  struct mfin *best = NULL;
  for (size_t i = 0; i < t->nfins; i++)
    if (fin_tag(t->fins[i].id) == *(uintptr_t*)f) best = &t->fins[i];
  if (!best || best->popped)
    fail("finalizer with object %" PRIx64 " closure %" PRIx64 " popped twice", og, cg);
  if (M(t, best->obj)->gid != og || M(t, best->clo)->gid != cg)
    fail("finalizer for object %" PRIx64 " closure %" PRIx64 " popped with object %" PRIx64
         " closure %" PRIx64, M(t, best->obj)->gid, M(t, best->clo)->gid, og, cg);
  if (best->status == F_ACTIVE && !IS_BDW)
    fail("finalizer fired although its object %" PRIx64 " was always reachable", og);
  best->popped = 1;
  set_root(t, slot, o, best->obj);
  // A lower-numbered priority takes precedence: whether it had fired or not, it
  // would have kept the object alive.
  for (size_t i = 0; i < t->nfins && !IS_BDW; i++) {
    struct mfin *m = &t->fins[i];
    if (!m->popped && m->obj == best->obj && m->prio < best->prio
        && m->attached <= best->maybe_since)
      fail("finalizer of priority %u fired before outstanding one of priority %u",
           best->prio, m->prio);
  }
  // Check closure and object right away.
  set_root(t, NH + NTMP - 1, c, best->clo);
  verify(t, "after popping finalizer");
  clear_root(t, NH + NTMP - 1);
  return 1;
}

static uint32_t shared_leaf_size(uint64_t gid) { return 16 + mix64(gid) % 30 * 8; }

// Allocate a frozen leaf whose contents are a function of its gid.
static uint32_t alloc_leaf(struct thr *t, struct gc_ref *out, size_t size) {
  uint32_t id = alloc_node(t, size, 0, mix64(size) & 1, out);
  M(t, id)->frozen = 1;
  return id;
}

// ---------------------------------------------------------------- interpreter
struct ctx { struct thr *t; size_t pc; };
static void* spawned_thread(void *arg);
static size_t run_ops(struct thr *t, size_t pc, int depth);

static size_t __attribute__((noinline)) run_frame(struct thr *t, size_t pc, int depth,
                                                  uint32_t a) {
  volatile uintptr_t slots[NFRAME + 2];
  struct frame f = { .n = 0, .prev = t->frames };
  for (int i = 0; i < NFRAME + 2; i++) slots[i] = 0;
  for (int i = 0; i < NFRAME; i++) {
    unsigned s = (a + i * 7) % NH;
    if (!t->mh[s]) continue;
    struct mobj *o = M(t, t->mh[s]);
    if (o->type == T_EXT) continue;
    uintptr_t addr = gc_ref_value(t->h[s]);
    uint64_t r = mix64(((uint64_t)a << 4) + i);
    uintptr_t off = 0;
    // Stack references may be interior, and tagged.
    if (r % 3 == 0 && (IS_MMC || IS_BDW) && o->size > 16) { off = (r >> 8) % o->size; STAT(ST_INTERIOR, 1); }
    else if (r % 3 == 1 && o->size >= 8) off = 3;
    slots[i] = addr + off;
    f.id[f.n] = t->mh[s];
    f.addr[f.n++] = addr ^ 0x5555555555555555ULL;
    clear_root(t, s);
  }
  t->frames = &f;
  t->nframes++;
  STAT(ST_FRAME, f.n);
  size_t ret = run_ops(t, pc, depth + 1);
  verify(t, "at end of frame");
  // Store back to handles.
  for (int i = 0; i < f.n; i++) {
    unsigned s = (a + i * 11) % NH;
    set_root(t, s, gc_ref(f.addr[i] ^ 0x5555555555555555ULL), f.id[i]);
  }
  t->frames = f.prev;
  t->nframes--;
  __asm__ volatile ("" : : "r"(slots), "m"(slots) : "memory");
  return ret;
}
// Clobber the part of the stack below us, so that stale references to dead
// objects do not hide missing roots.
static void __attribute__((noinline)) clear_stack(void) {
  volatile char buf[4096];
  memset((char*)buf, 0, sizeof buf);
  __asm__ volatile ("" : : "r"(buf) : "memory");
}

// A reference that is held only in a callee-saved register of the mutator.
#if GC_CONSERVATIVE_ROOTS && defined(__x86_64__)
#define HAVE_REGS 1
uintptr_t fz_call_with_reg(void (*f)(void*), void *arg, uintptr_t enc, uintptr_t reg);
__asm__ (
  ".text\n.globl fz_call_with_reg\n.hidden fz_call_with_reg\n"
  ".type fz_call_with_reg,@function\nfz_call_with_reg:\n"
  "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\nsub $8, %rsp\n"
  "mov %rcx, (%rsp)\nmov %rdi, %rax\nmov %rsi, %rdi\n"
  "xor %ebx, %ebx\nxor %ebp, %ebp\nxor %r12d, %r12d\nxor %r13d, %r13d\n"
  "xor %r14d, %r14d\nxor %r15d, %r15d\n"
  "not %rdx\n"
  "cmp $0, %rcx\ncmove %rdx, %rbx\ncmp $1, %rcx\ncmove %rdx, %rbp\n"
  "cmp $2, %rcx\ncmove %rdx, %r12\ncmp $3, %rcx\ncmove %rdx, %r13\n"
  "cmp $4, %rcx\ncmove %rdx, %r14\ncmp $5, %rcx\ncmove %rdx, %r15\n"
  "xor %edx, %edx\nxor %ecx, %ecx\nxor %esi, %esi\nxor %r8d, %r8d\nxor %r9d, %r9d\n"
  "xor %r10d, %r10d\nxor %r11d, %r11d\n"
  "call *%rax\n"
  "mov (%rsp), %rcx\nmov %rbx, %rax\n"
  "cmp $1, %rcx\ncmove %rbp, %rax\ncmp $2, %rcx\ncmove %r12, %rax\n"
  "cmp $3, %rcx\ncmove %r13, %rax\ncmp $4, %rcx\ncmove %r14, %rax\n"
  "cmp $5, %rcx\ncmove %r15, %rax\n"
  "not %rax\n"
  "add $8, %rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
  ".size fz_call_with_reg,.-fz_call_with_reg\n");

struct regs_call { struct thr *t; uint32_t what, kind; };
static void regs_call(void *data) {
  struct regs_call *r = data;
  struct thr *t = r->t;
  switch (r->what) {
    case 0: collect(t, r->kind); break;
    case 1: {
      uint64_t n = 1 + r->kind % 2000;
      for (uint64_t i = 0; i < n; i++) {
        struct gc_ref ref;
        alloc_node(t, 16 + (mix64(i + r->kind) % 6) * 8, 0, 0, &ref);
      }
      break;
    }
    case 2: {
      t->in_nogc = 1;
      void *ret = gc_call_without_gc(t->mut, nogc_fn, t);
      t->in_nogc = 0;
      if (ret != t) fail("gc_call_without_gc returned the wrong value");
      break;
    }
    default:
      for (int i = 0; i < 20; i++) { sched_yield(); gc_safepoint(t->mut); }
  }
}
static uintptr_t __attribute__((noinline)) take_encoded(struct thr *t, unsigned s) {
  uintptr_t enc = ~gc_ref_value(t->h[s]);
  clear_root(t, s);
  return enc;
}
static void __attribute__((noinline)) do_regs(struct thr *t, uint32_t a, uint32_t b,
                                              uint32_t c, uint32_t d) {
  int s = find_obj(t, a);
  if (s < 0 || slot_is_ext(t, s)) return;
  if (d % 4 == 1) maybe_trim(t, 2000 * 64);
  if (!t->mh[s]) return;
  struct frame f = { .n = 1, .prev = t->frames };
  f.id[0] = t->mh[s];
  volatile uintptr_t enc = take_encoded(t, s);
  f.addr[0] = ~enc ^ 0x5555555555555555ULL;
  t->frames = &f;
  clear_stack();
  struct regs_call call = { t, d % 4, c };
  uintptr_t ret = fz_call_with_reg(regs_call, &call, enc, b % 6);
  if (ret != enc) fail("register changed");
  verify(t, "after call with a reference in a register");
  set_root(t, s, gc_ref(~ret), f.id[0]);
  t->frames = f.prev;
  STAT(ST_FRAME, 1);
}
#endif

static uint32_t make_tree(struct thr *t, int depth, unsigned tmp, uint32_t seed,
                          struct gc_ref *out) {
  if (depth > 0 && tmp + 2 < NTMP - 2) {
    struct gc_ref r;
    uint32_t l = make_tree(t, depth - 1, tmp, seed * 2 + 1, &r);
    set_root(t, NH + tmp, r, l);
    uint32_t rr = make_tree(t, depth - 1, tmp + 1, seed * 2 + 2, &r);
    set_root(t, NH + tmp + 1, r, rr);
  }
  uint32_t id = alloc_node(t, 16 + 16 + (mix64(seed) % 4) * 8, 2, 0, out);
  if (depth > 0 && tmp + 2 < NTMP - 2) {
    struct mobj *o = M(t, id);
    for (int i = 0; i < 2; i++) {
      fz_fields(*out)[i] = t->h[NH + tmp + i];
      o->f[i] = t->mh[NH + tmp + i];
      clear_root(t, NH + tmp + i);
    }
  }
  return id;
}

static void push_chain(struct thr *t, unsigned node_slot, uint32_t fi, uint32_t eid,
                       struct gc_ephemeron *e) {
  struct mobj *n = M(t, t->mh[node_slot]);
  struct gc_ref obj = t->h[node_slot];
  struct gc_edge edge = gc_edge(&fz_fields(obj)[fi]);
  gc_write_barrier(t->mut, obj, n->size, edge, gc_ref_from_heap_object(e));
  gc_ephemeron_chain_push((struct gc_ephemeron**)gc_edge_loc(edge), e);
  M(t, eid)->chain = n->f[fi];
  M(t, eid)->is_chain = 1;
  n->f[fi] = eid;
}
// Find a field in node that is empty or a chain.
static int chain_field(struct thr *t, unsigned slot, uint32_t b) {
  struct mobj *n = M(t, t->mh[slot]);
  for (uint32_t i = 0; i < n->nf && i < 64; i++) {
    uint32_t fi = (b + i) % n->nf;
    if (!n->f[fi] || is_chain_head(t, n->f[fi])) return fi;
  }
  return -1;
}

static size_t leaf_size_for(uint64_t seed) { return 16 + (mix64(seed) % 20) * 8; }

static void do_shset(struct thr *t, uint32_t cell, uint32_t seed) {
  size_t size = leaf_size_for(seed);
  struct gc_ref leaf;
  uint32_t id = alloc_leaf(t, &leaf, size);
  struct mobj *o = M(t, id);
  pthread_mutex_lock(&sh_lock[cell % 64]);
  struct gc_ref arr = the_heap_roots.refs[NHR];
  store_field_raw(t, arr, sh_size, cell, leaf);
  sh_model[cell].gid = o->gid;
  sh_model[cell].size = size;
  pthread_mutex_unlock(&sh_lock[cell % 64]);
  STAT(ST_SHARED, 1);
}
static void check_cell(struct gc_ref arr, uint32_t cell, const char *why) {
  struct gc_ref v = fz_fields(arr)[cell];
  if (!sh_model[cell].gid) {
    if (!gc_ref_is_null(v)) fail("%s: shared cell %u not null", why, cell);
    return;
  }
  if (gc_ref_is_null(v)) fail("%s: shared cell %u is null", why, cell);
  struct mobj o = { .type = T_NODE, .frozen = 1, .size = sh_model[cell].size,
    .gid = sh_model[cell].gid, };
  check_header(gc_ref_value(v), &o, why);
  check_payload(gc_ref_value(v), &o, why);
}
static void do_shget(struct thr *t, uint32_t cell, unsigned slot) {
  pthread_mutex_lock(&sh_lock[cell % 64]);
  struct gc_ref arr = the_heap_roots.refs[NHR];
  check_cell(arr, cell, "shared cell");
  struct gc_ref v = fz_fields(arr)[cell];
  if (!gc_ref_is_null(v)) {
    uint32_t id = mnew(t, T_NODE, sh_model[cell].size, 0);
    M(t, id)->gid = sh_model[cell].gid;
    M(t, id)->frozen = 1;
    set_root(t, slot, v, id);
  }
  pthread_mutex_unlock(&sh_lock[cell % 64]);
  STAT(ST_SHARED, 1);
}
static void check_all_cells(const char *why) {
  struct gc_ref arr = the_heap_roots.refs[NHR];
  uintptr_t tag = *fz_tag_word(arr);
  if (tag != fz_tag(FZ_NODE, sh_count, sh_size, 0x1234))
    fail("%s: shared array has tag %zx", why, (size_t)tag);
  for (uint32_t i = 0; i < sh_count; i++) check_cell(arr, i, why);
}

static void do_finleaf(struct thr *t, uint32_t seed, unsigned prio) {
  uint32_t n = __atomic_fetch_add(&leaf_next, 1, __ATOMIC_RELAXED);
  if (n >= LEAF_MAX) return;
  // Two leaves: object and closure, with ids that identify the finalizer.
  struct gc_ref o, c;
  uint32_t oid = alloc_leaf(t, &o, leaf_size_for(n * 2));
  set_root(t, NH + NTMP - 1, o, oid);
  uint32_t cid = alloc_leaf(t, &c, leaf_size_for(n * 2 + 1));
  set_root(t, NH + NTMP - 2, c, cid);
  // Overwrite ids with process-global ones.
  for (int i = 0; i < 2; i++) {
    struct mobj *m = M(t, i ? cid : oid);
    m->gid = (0xf00ULL << 32) + n * 2 + i;
    struct gc_ref r = t->h[NH + NTMP - 1 - i];
    init_header(gc_ref_value(r), m);
    write_payload(gc_ref_value(r), m);
  }
  struct gc_finalizer *f = gc_allocate_finalizer(t->mut);
  check_fresh(f, gc_finalizer_size(), 0);
  *(uintptr_t*)f = fz_tag(FZ_FIN, 0, 0, 0);
  __atomic_store_n(&leaf_state[n], 1, __ATOMIC_SEQ_CST);
  gc_finalizer_attach(t->mut, f, prio % gc_finalizer_priority_count(),
                      t->h[NH + NTMP - 1], t->h[NH + NTMP - 2]);
  clear_root(t, NH + NTMP - 1);
  clear_root(t, NH + NTMP - 2);
  STAT(ST_FIN_NEW, 1);
}
static int do_popleaf(struct thr *t) {
  struct gc_finalizer *f = gc_pop_finalizable(t->mut);
  if (!f) return 0;
  STAT(ST_FIN_POP, 1);
  if (fz_tag_kind(*(uintptr_t*)f) != FZ_FIN || !(*(uintptr_t*)f & 1))
    fail("popped finalizer is corrupt: tag %zx", (size_t)*(uintptr_t*)f);
  struct gc_ref o = gc_finalizer_object(f), c = gc_finalizer_closure(f);
  if (gc_ref_is_null(o) || gc_ref_is_null(c)) fail("popped finalizer has null parts");
  uint64_t og = *fz_id_word(gc_ref_value(o));
  uint64_t n = (og - (0xf00ULL << 32)) / 2;
  if (n >= LEAF_MAX) fail("popped finalizer has corrupt object with id %" PRIx64, og);
  for (int i = 0; i < 2; i++) {
    struct mobj m = { .type = T_NODE, .size = leaf_size_for(n * 2 + i),
      .gid = (0xf00ULL << 32) + n * 2 + i };
    check_header(gc_ref_value(i ? c : o), &m, "popped finalizer");
    check_payload(gc_ref_value(i ? c : o), &m, "popped finalizer");
  }
  uint8_t prev = __atomic_exchange_n(&leaf_state[n], 2, __ATOMIC_SEQ_CST);
  if (prev != 1) fail("finalizer %" PRIu64 " popped in state %d: fired twice", n, prev);
  __atomic_fetch_add(&leaf_popped, 1, __ATOMIC_RELAXED);
  return 1;
}

static void register_thread(struct thr *t) {
  pthread_mutex_lock(&all_lock);
  t->next_all = all_threads;
  all_threads = t;
  pthread_mutex_unlock(&all_lock);
}
static void unregister_thread(struct thr *t) {
  pthread_mutex_lock(&all_lock);
  for (struct thr **p = &all_threads; *p; p = &(*p)->next_all)
    if (*p == t) { *p = t->next_all; break; }
  pthread_mutex_unlock(&all_lock);
}
// The list of threads is walked during the pause, possibly while a thread that
// is not a mutator registers; so registration of T happens while T's creator
// is a mutator (not stopped), and unregistration while T is one.
static struct thr* make_thr(const struct cas *c, int idx) {
  struct thr *t = calloc(1, sizeof *t);
  t->idx = idx;
  t->tid = __atomic_fetch_add(&next_tid, 1, __ATOMIC_RELAXED);
  t->c = c;
  t->h = calloc(NROOT, sizeof(struct gc_ref));
  t->roots.count = NROOT;
  t->roots.refs = t->h;
  t->obj = NULL; t->nobj = 0;
  t->cobj = 0;
  // id 0 is null
  mnew(t, T_NODE, 0, 0);
  free(t->obj[0]); t->obj[0] = NULL;
  t->heap = the_heap;
  return t;
}
static void free_thr(struct thr *t) {
  for (uint32_t i = 1; i < t->nobj; i++) if (t->obj[i]) { free(t->obj[i]->f); free(t->obj[i]); }
  free(t->obj); free(t->fins); free(t->stack); free(t->ext_list); free(t->h); free(t);
}

struct spawn { struct thr *t; uint32_t n, seed; };
static _Atomic int spawned_live;
static pthread_t spawned_pt[4096];
static int nspawned, njoined;

static void* join_fn(void *data) {
  pthread_t *pt = data;
  pthread_join(*pt, NULL);
  return NULL;
}
static void join_spawned(struct thr *t) {
  while (njoined < nspawned) {
    t->in_nogc = 1;
    gc_call_without_gc(t->mut, join_fn, &spawned_pt[njoined]);
    t->in_nogc = 0;
    njoined++;
  }
}

static void exec_op(struct thr *t, const struct op *op);

// ------------------------------------------- background work and footprint
// The collectors do housekeeping (aging and paging out unused blocks, giving
// dead large objects back) from a thread which wakes up every second.  We own
// its clock: a second passes when an operation says so.
static pthread_mutex_t tick_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t tick_cond = PTHREAD_COND_INITIALIZER;
static uint64_t ticks_wanted, ticks_done;
static int bg_present, bg_working;
int pthread_cond_timedwait(pthread_cond_t *cond, pthread_mutex_t *mutex,
                           const struct timespec *ts) {
  pthread_mutex_lock(&tick_lock);
  bg_present = 1;
  if (bg_working) { bg_working = 0; ticks_done++; }
  pthread_cond_broadcast(&tick_cond);
  pthread_mutex_unlock(mutex);
  while (ticks_wanted == ticks_done) pthread_cond_wait(&tick_cond, &tick_lock);
  bg_working = 1;
  pthread_mutex_unlock(&tick_lock);
  pthread_mutex_lock(mutex);
  return ETIMEDOUT;
}
// Real time, in case the housekeeping does not come by.
static int tick_wait(int (*done)(uint64_t), uint64_t data) {
  for (int i = 0; i < 20000; i++) {
    pthread_mutex_lock(&tick_lock);
    int ret = done(data);
    pthread_mutex_unlock(&tick_lock);
    if (ret) return 1;
    usleep(i < 50 ? 20 : 200);
  }
  return 0;
}
static int tick_present(uint64_t x) { return bg_present; }
static int tick_reached(uint64_t x) { return ticks_done >= x; }
struct tick { int n, sync, ok; };
static void* do_ticks(void *data) {
  struct tick *k = data;
  k->ok = 0;
  if (IS_SEMI || IS_BDW) { k->ok = 1; return data; }
  if (!tick_wait(tick_present, 0)) return data;
  for (int i = 0; i < k->n; i++) {
    pthread_mutex_lock(&tick_lock);
    uint64_t x = ++ticks_wanted;
    pthread_cond_broadcast(&tick_cond);
    pthread_mutex_unlock(&tick_lock);
    STAT(ST_TICK, 1);
    if (k->sync && !tick_wait(tick_reached, x)) return data;
  }
  k->ok = 1;
  return data;
}
static int ticks(struct thr *t, int n, int sync) {
  struct tick k = { n, sync, 0 };
  t->in_nogc = 1;
  gc_call_without_gc(t->mut, do_ticks, &k);
  t->in_nogc = 0;
  return k.ok;
}

// Memory that the collector got from the system.
struct map { uintptr_t lo, hi; };
static struct map *maps;
static size_t nmaps, cmaps;
static int maps_on;
static pthread_mutex_t maps_lock = PTHREAD_MUTEX_INITIALIZER;
static void maps_remove(uintptr_t lo, uintptr_t hi) {
  for (size_t i = 0; i < nmaps; i++) {
    struct map m = maps[i];
    if (m.hi <= lo || m.lo >= hi) continue;
    maps[i--] = maps[--nmaps];
    if (nmaps + 2 > cmaps) {
      cmaps = cmaps * 2 + 64;
      maps = realloc(maps, cmaps * sizeof *maps);
    }
    if (m.lo < lo) maps[nmaps++] = (struct map){ m.lo, lo };
    if (m.hi > hi) maps[nmaps++] = (struct map){ hi, m.hi };
    if (m.lo < lo || m.hi > hi) i = -1; // rescan
  }
}
#ifndef __SANITIZE_ADDRESS__
void* mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  void *ret = (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
  if (ret != MAP_FAILED && __atomic_load_n(&maps_on, __ATOMIC_ACQUIRE)) {
    pthread_mutex_lock(&maps_lock);
    uintptr_t lo = (uintptr_t)ret;
    maps_remove(lo, lo + len);
    if (nmaps + 2 > cmaps) {
      cmaps = cmaps * 2 + 64;
      maps = realloc(maps, cmaps * sizeof *maps);
    }
    maps[nmaps++] = (struct map){ lo, lo + len };
    pthread_mutex_unlock(&maps_lock);
  }
  return ret;
}
int munmap(void *addr, size_t len) {
  int ret = syscall(SYS_munmap, addr, len);
  if (ret == 0 && __atomic_load_n(&maps_on, __ATOMIC_ACQUIRE)) {
    pthread_mutex_lock(&maps_lock);
    maps_remove((uintptr_t)addr, (uintptr_t)addr + len);
    pthread_mutex_unlock(&maps_lock);
  }
  return ret;
}
#endif
static size_t resident_bytes(void) {
  static unsigned char vec[65536];
  size_t pages = 0, page = getpagesize();
  pthread_mutex_lock(&maps_lock);
  for (size_t i = 0; i < nmaps; i++)
    for (uintptr_t a = maps[i].lo; a < maps[i].hi; ) {
      size_t n = (maps[i].hi - a + page - 1) / page;
      if (n > sizeof vec) n = sizeof vec;
      if (mincore((void*)a, n * page, vec) == 0)
        for (size_t j = 0; j < n; j++) pages += vec[j] & 1;
      a += n * page;
    }
  pthread_mutex_unlock(&maps_lock);
  return pages * page;
}
static void check_footprint(struct thr *t) {
  if (IS_BDW || multi) return;
  if (!ticks(t, 6, 1)) return;
  size_t resident = resident_bytes();
  // Side tables of the collectors, mark queues, and what a generational copying
  // collector keeps for its nursery.
  size_t bound = heap_size_now + heap_size_now / 16 + (1u << 20);
  if (IS_SEMI) bound += heap_size_now;
  if (IS_PCC && GC_GENERATIONAL) bound += 4u << 20;
  STAT(ST_FOOTCHK, 1);
  uint64_t kb = resident >> 10;
  if (kb > stats[ST_FOOTKB]) stats[ST_FOOTKB] = kb;
  if (resident > bound)
    fail("%zu bytes resident seconds after the last allocation, with a heap size of %zu",
         resident, heap_size_now);
}

// The collectors announce that they are out of memory on stderr and trap.
static void on_trap(int sig) {
  size_t live = hoard_live, want = hoard_want;
  const char *m = strstr(stderr_buf, "ran out of space, heap size ");
  signal(SIGILL, SIG_DFL);
  if (!m && !strstr(stderr_buf, "Out of memory")) {
    fprintf(stderr, "\nFZFAIL: crash in a heap of %zu with %zu bytes live\n", heap_size_now, live);
    fflush(stderr);
    raise(SIGILL);
    return;
  }
  if (resize_policy != GC_HEAP_SIZE_FIXED)
    fail("out of memory with growable heap of %zu, %zu bytes live", heap_size_now, live);
  if (m && strtoull(m + 28, NULL, 10) != heap_size_now)
    fail("wrong heap size, expected %zu", heap_size_now);
  if (brink_released)
    fail("out of memory in a heap of %zu after everything but %zu bytes was dropped", heap_size_now, live);
  // Whatever is reserved for copying or lost to fragmentation, it is no excuse
  // for giving up with most of the heap free.  (The data of other threads that
  // aren't hoarding isn't known here.)
  if (!multi && (live + want) < heap_size_now / 4)
    fail("out of memory in a heap of %zu with %zu bytes live, allocating %zu", heap_size_now, live, want);
  STAT(ST_OOM, 1);
  STAT(ST_HOARDPCT, (live + want) * 100 / heap_size_now);
  _exit(0);
}

static void do_hoard(struct thr *t, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
  int fixed = resize_policy == GC_HEAP_SIZE_FIXED;
  if (IS_BDW) return;
  static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
  static int installed;
  size_t base = measure_live(t);
  hoard_live += base;
  pthread_mutex_lock(&lock);
  if (!installed) {
    installed = 1;
    setvbuf(stderr, stderr_buf, _IOFBF, sizeof stderr_buf);
    signal(SIGILL, on_trap);
  }
  pthread_mutex_unlock(&lock);
  hoarding++;
  static const uint32_t mbs[] = { 4, 8, 16, 24, 32, 48, 64, 96 };
  size_t until = (size_t)mbs[c % 8] << 20, mine = 0;
  // Tracing all words of everything that there is takes too long.
  if (GC_CONSERVATIVE_TRACE && until > (16u << 20)) until = 16u << 20;
  size_t thr = gc_allocator_large_threshold();
  unsigned nheads = 1 + d % 8, mode = b % 8;
  uint64_t gcs = gc_count, next_verify = 1;
  for (int i = 0; i < NH; i++) if (i < nheads) clear_root(t, i);
  for (uint64_t i = 0; ; i++) {
    uint64_t r = mix64(a * 7919ull + i);
    size_t size;
    switch (mode) {
      case 0: size = 24 + r % 3 * 8; break;
      case 1: size = 24 + r % 60 * 8; break;
      case 2: size = size_from(r, 1 << 20); break;
      case 3: size = thr + 1 + r % (8 * thr); break;
      case 4: size = 200000 + r % (1 << 20); break;
      case 5: size = i % 1000 < 999 ? 24 + r % 30 * 8 : thr + 1 + r % 200000; break;
      case 6: size = thr / 2 + r % (thr / 2); break;
      default: size = 24 + r % 200 * 8;
    }
    // Limit the number of objects, which is what the shadow heap's time depends on.
    size_t least = (fixed ? heap_size_now : until) / 50000;
    if (size < least && r % 8) size += least;
    if (size < 24) size = 24;
    if (fixed && d / 8 % 5 == 0 && i % 500 == 499) size = heap_size_now / 2 + r % heap_size_now;
    if (d / 64 % 3 == 0) // some garbage in between
      for (uint64_t k = 0; k < r % 4; k++) {
        size_t s = 16 + mix64(r + k) % 40 * 8;
        uintptr_t g = raw_alloc(t, s, GC_ALLOCATION_TAGGED);
        *(uintptr_t*)g = fz_tag(FZ_NODE, 0, s, 0);
      }
    struct gc_ref ref;
    hoard_want += size;
    uint32_t id = alloc_node(t, size, 1, 0, &ref);
    hoard_want -= size;
    mine += size;
    size_t live = hoard_live += size;
    STAT(ST_HOARDED, 1);
    unsigned s = r / 1024 % nheads;
    if (t->mh[s]) {
      M(t, id)->f[0] = t->mh[s];
      fz_fields(ref)[0] = t->h[s];
    }
    set_root(t, s, ref, id);
    if (fixed && live > heap_size_now + heap_size_now / 4)
      fail("heap of %zu bytes holds %zu bytes of live objects", heap_size_now, live);
    if (gc_count - gcs >= next_verify) {
      verify(t, "hoarding");
      next_verify *= 2;
    }
    if (fixed ? live > 2 * heap_size_now : mine >= until) break;
    if (brink && i + 1 + mix64(t->c->seed) % 3 >= brink) break;
  }
  if (fixed && brink) {
    // The heap is as full as can be.  Drop it all, and it should be as good as new.
    verify(t, "at the brink");
    hoarding = 0;
    if (d / 256 % 2) collect(t, d / 512);
    if (d / 2048 % 2) verify(t, "at the brink after collection");
    for (int i = 0; i < NROOT; i++) clear_root(t, i);
    clear_stack();
    hoard_live = measure_live(t);
    brink_released = 1;
    hoarding = 1;
    // Either all garbage, or part of it lives for a while.
    int keep = d / 4096 % 3;
    size_t kept = 0;
    for (size_t done = 0; done < (keep ? 3 : 1) * heap_size_now; ) {
      uint64_t r = mix64(a * 104729ull + done);
      size_t size = mode == 3 ? thr + 1 + r % (8 * thr) : mode == 6 ? thr / 2 + r % (thr / 2) : 64 + r % 200 * 8;
      if (keep && size < heap_size_now / 64) {
        struct gc_ref ref;
        if (kept + size > heap_size_now / 8) {
          clear_root(t, 0);
          kept = 0;
        }
        uint32_t id = alloc_node(t, size, 1, 0, &ref);
        if (t->mh[0]) {
          M(t, id)->f[0] = t->mh[0];
          fz_fields(ref)[0] = t->h[0];
        }
        set_root(t, 0, ref, id);
        kept += size;
      } else {
        uintptr_t g = raw_alloc(t, size, GC_ALLOCATION_TAGGED);
        *(uintptr_t*)g = fz_tag(FZ_NODE, 0, size, 0);
      }
      done += size;
    }
    hoarding = brink_released = 0;
    model_reclaim(t);
    verify(t, "after the brink");
    STAT(ST_BRINK, 1);
    return;
  }
  if (fixed) fail("heap of %zu bytes holds %zu bytes of live objects", heap_size_now, (size_t)hoard_live);
  hoarding--;
  verify(t, "hoarded");
  for (int i = 0; i < nheads; i++) clear_root(t, i);
  hoard_live -= base + mine;
  measure_live(t);
  model_reclaim(t);
  collect(t, b / 8);
}

static void* mt_body(struct gc_stack_addr base, void *arg) {
  struct spawn *s = arg;
  struct thr *t = s->t;
  cur_thr = t;
  t->mut = gc_init_for_thread(base, the_heap);
  gc_mutator_set_roots(t->mut, &t->roots);
  register_thread(t);
  STAT(ST_THREADS, 1);
  if (t->idx >= 0) {
    run_ops(t, 0, 0);
  } else {
    // Short-lived thread: a few operations derived from the seed.
    struct rng r = { s->seed };
    static const uint8_t codes[] = { OP_ALLOC, OP_ALLOC, OP_ALLOC, OP_SET, OP_SET,
      OP_GARBAGE, OP_LIST, OP_SHSET, OP_SHSET, OP_SHGET, OP_DROP, OP_WIDE, OP_VERIFY,
      OP_NOGC, OP_EPH, OP_FINLEAF, OP_POPLEAF, OP_SAFEPOINT, OP_LARGE };
    for (uint32_t i = 0; i < s->n; i++) {
      struct op op = { codes[rn(&r, sizeof codes)], 0, rn(&r, 1 << 20), rn(&r, 1 << 20),
        rn(&r, 1 << 20), rn(&r, 1 << 20) };
      exec_op(t, &op);
    }
  }
  verify(t, "before thread exit");
  // Become a non-mutator only after unregistering, so that a pause never sees a
  // freed thread.  No safepoint in between.
  for (int i = 0; i < NROOT; i++) clear_root(t, i);
  unregister_thread(t);
  t->ev = NULL;
  gc_finish_for_thread(t->mut);
  cur_thr = NULL;
  free_thr(t);
  free(s);
  return NULL;
}
static void* spawned_thread(void *arg) {
  return gc_call_with_stack_addr(mt_body, arg);
}

static void old_young(struct thr *t, uint32_t a, uint32_t b, uint32_t c) {
  // Make an array, tenure it, then store many young objects to it, and check
  // that they survive a minor collection.
  uint32_t n = 1 + b % 1500;
  maybe_trim(t, n * 40 + 16);
  struct gc_ref arr;
  unsigned slot = a % NH;
  uint32_t id = alloc_node(t, 16 + n * 8, n, 0, &arr);
  set_root(t, slot, arr, id);
  for (uint32_t k = 0; k < 1 + c % 2; k++)
    collect(t, c & 4 ? GC_COLLECTION_MAJOR : GC_COLLECTION_MINOR);
  uint32_t step = 1 + (c >> 8) % 3;
  for (uint32_t i = 0; i < n; i += step) {
    struct gc_ref v;
    uint32_t vid = alloc_node(t, 16 + (mix64(c + i) % 6) * 8, 0, 0, &v);
    store_field_raw(t, t->h[slot], M(t, id)->size, i, v);
    M(t, id)->f[i] = vid;
    STAT(ST_OLD2YOUNG, 1);
  }
  if (c & 8) collect(t, GC_COLLECTION_MINOR);
}

static void exec_op(struct thr *t, const struct op *op) {
  uint32_t a = op->a, b = op->b, c = op->c, d = op->d;
  size_t cap = t->c->live;
  STAT(ST_OPS, 1);
  t->op_index++;
  if (trace_ops)
    fprintf(stderr, "[%d] %s %u %u %u %u\n", t->tid, op_names[op->code], a, b, c, d);
  switch (op->code) {
    case OP_ALLOC: {
      size_t size = size_from(b, cap);
      maybe_trim(t, size);
      struct gc_ref ref;
      uint32_t nf = nf_from(b, size);
      uint32_t id = alloc_node(t, size, nf, c % 4 == 0, &ref);
      init_fields(t, id, ref, d);
      set_root(t, a % NH, ref, id);
      break;
    }
    case OP_LARGE: {
      size_t size = gc_allocator_large_threshold() + 1 + mix64(b) % (cap / 8);
      if (b % 3 == 0) size = (size / 4096 + 1) * 4096;
      maybe_trim(t, size);
      struct gc_ref ref;
      uint32_t nf = b & 1 ? (size - 16) / 8 : b & 2 ? 3 : 0;
      if (nf > 4000) nf = 4000;
      uint32_t id = alloc_node(t, size, nf, c % 3 == 0, &ref);
      init_fields(t, id, ref, d);
      set_root(t, a % NH, ref, id);
      break;
    }
    case OP_UNTAGGED: {
      if (!IS_MMC && !IS_BDW) break;
      size_t size = size_from(b, cap);
      if (size < 16) size = 16;
      int conservative = GC_CONSERVATIVE_TRACE && c % 2;
      maybe_trim(t, size);
      uint32_t nf = conservative ? nf_from(b, size) : 0;
      uintptr_t addr = raw_alloc(t, size, conservative ? GC_ALLOCATION_UNTAGGED_CONSERVATIVE
                                 : GC_ALLOCATION_UNTAGGED_POINTERLESS);
      uint32_t id = mnew(t, T_NODE, size, nf);
      struct mobj *o = M(t, id);
      o->untagged = 1;
      o->pinned = 1;
      o->addr = addr;
      init_header(addr, o);
      write_payload(addr, o);
      init_fields(t, id, gc_ref(addr), d);
      set_root(t, a % NH, gc_ref(addr), id);
      STAT(ST_UNTAGGED, 1);
      break;
    }
    case OP_SET: {
      int s = find_node(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      int vs = find_obj(t, c);
      if (vs < 0) break;
      if (M(t, t->mh[vs])->type == T_EPH && M(t, t->mh[vs])->is_chain) break;
      uint32_t fi = b % o->nf;
      store_field_raw(t, t->h[s], o->size, fi, t->h[vs]);
      o->f[fi] = t->mh[vs];
      break;
    }
    case OP_SETNULL: {
      int s = find_node(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      fz_fields(t->h[s])[b % o->nf] = gc_ref_null();
      o->f[b % o->nf] = 0;
      break;
    }
    case OP_SETIMM: {
      int s = find_node(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      o->f[b % o->nf] = IMMBIT | (c & 0xffffff);
      fz_fields(t->h[s])[b % o->nf] = gc_ref(imm_value(o->f[b % o->nf]));
      break;
    }
    case OP_GET: {
      int s = find_node(t, b);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      uint32_t m = o->f[c % o->nf];
      if (!m || (m & IMMBIT)) break;
      if (is_chain_head(t, m)) break;
      set_root(t, a % NH, fz_fields(t->h[s])[c % o->nf], m);
      break;
    }
    case OP_DROP: clear_root(t, a % NH); break;
    case OP_DROPMANY:
      for (int i = 0; i < NH; i++)
        if (mix64(a * 64 + i) % 100 < b % 101) clear_root(t, i);
      break;
    case OP_MOVE: {
      int s = find_obj(t, b);
      if (s < 0) break;
      set_root(t, a % NH, t->h[s], t->mh[s]);
      break;
    }
    case OP_COLLECT: {
      clear_stack();
      collect(t, a);
      if (b % 2) verify(t, "after collection");
      break;
    }
    case OP_GARBAGE: {
      struct rng r = { b };
      uint32_t n = a % 400;
      size_t bytes = 0;
      for (uint32_t i = 0; i < n && bytes < 2 * cap + 65536; i++) {
        uint32_t sb = rn(&r, 1 << 24);
        size_t size = size_from(c & 1 ? sb % 50 + (sb / 100) * 100 : sb, cap);
        if (size < 8) size = 8;
        uintptr_t p = raw_alloc(t, size, GC_ALLOCATION_TAGGED_POINTERLESS);
        *(uintptr_t*)p = fz_tag(FZ_NODE, 0, size < 16 ? 8 : size, 0);
        memset((char*)p + 8, 0xdb, size - 8);
        bytes += size;
      }
      break;
    }
    case OP_LARGEGARBAGE: {
      struct rng r = { b };
      uint32_t n = a % 40;
      for (uint32_t i = 0; i < n; i++) {
        size_t size = gc_allocator_large_threshold() + 1 + rnd(&r) % (cap / 6);
        uintptr_t p = raw_alloc(t, size, GC_ALLOCATION_TAGGED_POINTERLESS);
        *(uintptr_t*)p = fz_tag(FZ_NODE, 0, size, 0);
        memset((char*)p + 8, 0xdc, size - 8);
      }
      break;
    }
    case OP_CHURN: {
      // Allocate several heaps' worth of small garbage, interleaved with
      // replacement of a handle.
      size_t target = (size_t)(1 + a % 4) * heap_size_now;
      if (target > 64u << 20) target = 64u << 20;
      struct rng r = { b };
      size_t done = 0;
      while (done < target) {
        size_t size = 16 + rn(&r, 64) * 8;
        uintptr_t p = raw_alloc(t, size, GC_ALLOCATION_TAGGED_POINTERLESS);
        *(uintptr_t*)p = fz_tag(FZ_NODE, 0, size, 0);
        memset((char*)p + 8, 0xdd, size - 8);
        done += size;
      }
      break;
    }
    case OP_PAYLOAD: {
      int s = find_any_node(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      if (o->frozen) break;
      o->ver++;
      write_payload(gc_ref_value(t->h[s]), o);
      break;
    }
    case OP_EPH: {
      int ks = find_obj(t, b), vs = c % 7 == 0 ? -1 : find_obj(t, c);
      maybe_trim(t, 256);
      ks = find_obj(t, b), vs = c % 7 == 0 ? -1 : find_obj(t, c);
      if (ks < 0 || slot_is_ext(t, ks)) break;
      if (vs >= 0 && M(t, t->mh[vs])->type == T_EPH && M(t, t->mh[vs])->is_chain) vs = -1;
      if (M(t, t->mh[ks])->type == T_EPH && M(t, t->mh[ks])->is_chain) break;
      uint32_t id;
      struct gc_ephemeron *e = new_eph(t, &id, ks, vs, d % 9 == 0 ? 1 + d % 1000 : 0);
      set_root(t, a % NH, gc_ref_from_heap_object(e), id);
      break;
    }
    case OP_EPHPUSH: {
      maybe_trim(t, 256);
      int ns = find_node(t, a), ks = find_obj(t, c), vs = d % 5 == 0 ? -1 : find_obj(t, d);
      if (ns < 0 || ks < 0 || slot_is_ext(t, ks)) break;
      if (M(t, t->mh[ns])->untagged) break;
      if (M(t, t->mh[ks])->type == T_EPH && M(t, t->mh[ks])->is_chain) break;
      if (vs >= 0 && M(t, t->mh[vs])->type == T_EPH && M(t, t->mh[vs])->is_chain) vs = -1;
      uint32_t id;
      struct gc_ephemeron *e = new_eph(t, &id, ks, vs, 0);
      set_root(t, NH + NTMP - 1, gc_ref_from_heap_object(e), id);
      int fi = chain_field(t, ns, b);
      if (fi >= 0) push_chain(t, ns, fi, id, e);
      clear_root(t, NH + NTMP - 1);
      break;
    }
    case OP_EPHKEY:
    case OP_EPHVAL: {
      int s = find_eph(t, b);
      if (s < 0) break;
      uint32_t eid = t->mh[s];
      struct mobj *o = M(t, eid);
      if (o->status != S_ALIVE) break; // resolved by verify
      struct gc_ephemeron *e = gc_ref_heap_object(t->h[s]);
      struct gc_ref k = gc_ephemeron_key(e);
      if (gc_ref_is_null(k)) fail("ephemeron %" PRIx64 " lost its key", o->gid);
      if (op->code == OP_EPHKEY) set_root(t, a % NH, k, o->key);
      else if (o->val && !(o->val & IMMBIT))
        set_root(t, a % NH, gc_ephemeron_value(e), o->val);
      break;
    }
    case OP_EPHDEAD: {
      int s = find_eph(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      gc_ephemeron_mark_dead(gc_ref_heap_object(t->h[s]));
      o->status = S_DEAD;
      break;
    }
    case OP_EPHWALK: {
      int s = find_node(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      struct vstate v = { t, ++t->stamp, 0, NULL, 0, 0, 0, "chain walk" };
      for (uint32_t i = 0; i < o->nf && i < 256; i++)
        if (is_chain_head(t, o->f[i]))
          verify_chain(&v, o->f[i], gc_ephemeron_chain_head
                       ((struct gc_ephemeron**)&fz_fields(t->h[s])[i]));
      while (v.sp) {
        struct vitem it = v.st[--v.sp];
        verify_object(&v, it.id, it.addr);
      }
      free(v.st);
      break;
    }
    case OP_EPHMANY: {
      // A table of ephemerons, some of whose keys are kept in an array.
      uint32_t n = 1 + b % 300;
      maybe_trim(t, n * 160 + 4096);
      struct gc_ref ref;
      uint32_t nb = 1 + c % 16;
      uint32_t tab = alloc_node(t, 16 + nb * 8, nb, 0, &ref);
      set_root(t, a % NH, ref, tab);
      uint32_t arr = alloc_node(t, 16 + n * 8, n, 0, &ref);
      set_root(t, (a + 1) % NH, ref, arr);
      for (uint32_t i = 0; i < n; i++) {
        uint32_t k = alloc_node(t, 16 + (i % 5) * 8, i % 5, 0, &ref);
        set_root(t, NH + NTMP - 2, ref, k);
        uint32_t val = alloc_node(t, 24, 1, 0, &ref);
        // Some values reference the key, as in weak maps.
        if (mix64(d + i) % 3 == 0) {
          M(t, val)->f[0] = k;
          fz_fields(ref)[0] = t->h[NH + NTMP - 2];
        }
        set_root(t, NH + NTMP - 3, ref, val);
        uint32_t eid;
        struct gc_ephemeron *e = new_eph(t, &eid, NH + NTMP - 2, NH + NTMP - 3, 0);
        push_chain(t, a % NH, i % nb, eid, e);
        if (mix64(d * 3 + i) % 2) {
          unsigned as = (a + 1) % NH;
          store_field_raw(t, t->h[as], M(t, arr)->size, i, t->h[NH + NTMP - 2]);
          M(t, arr)->f[i] = k;
        }
        clear_root(t, NH + NTMP - 2);
        clear_root(t, NH + NTMP - 3);
      }
      break;
    }
    case OP_EPHGRAPH: {
      // A path of ephemerons, where each value is the key of the next, built in
      // shuffled order; the first key is optionally kept.
      uint32_t n = 2 + b % 40;
      maybe_trim(t, n * 200 + 4096);
      struct gc_ref ref;
      uint32_t keys = alloc_node(t, 16 + (n + 1) * 8, n + 1, 0, &ref);
      set_root(t, NH + NTMP - 2, ref, keys);
      for (uint32_t i = 0; i <= n; i++) {
        uint32_t k = alloc_node(t, 16 + i % 4 * 8, 0, 0, &ref);
        M(t, keys)->f[i] = k;
        store_field_raw(t, t->h[NH + NTMP - 2], M(t, keys)->size, i, ref);
      }
      uint32_t ephs = alloc_node(t, 16 + n * 8, n, 0, &ref);
      set_root(t, a % NH, ref, ephs);
      for (uint32_t j = 0; j < n; j++) {
        uint32_t i = c & 1 ? j : n - 1 - j;
        if (c & 2) i = (j * 7 + c) % n;
        set_root(t, NH + NTMP - 3, fz_fields(t->h[NH + NTMP - 2])[i], M(t, keys)->f[i]);
        set_root(t, NH + NTMP - 4, fz_fields(t->h[NH + NTMP - 2])[i + 1],
                 M(t, keys)->f[i + 1]);
        uint32_t eid;
        struct gc_ephemeron *e = new_eph(t, &eid, NH + NTMP - 3, NH + NTMP - 4, 0);
        store_field_raw(t, t->h[a % NH], M(t, ephs)->size, j, gc_ref_from_heap_object(e));
        M(t, ephs)->f[j] = eid;
      }
      clear_root(t, NH + NTMP - 3);
      clear_root(t, NH + NTMP - 4);
      if (d % 3) // keep a key
        set_root(t, (a + 1) % NH, fz_fields(t->h[NH + NTMP - 2])[d % (n + 1)],
                 M(t, keys)->f[d % (n + 1)]);
      clear_root(t, NH + NTMP - 2);
      break;
    }
    case OP_EPHTAB: break;
    case OP_FIN: {
      maybe_trim(t, 256);
      int os = find_any_node(t, a), cs = find_any_node(t, b);
      if (!fin_ok_node(t, os) || !fin_ok_node(t, cs)) break;
      if (multi) break;
      // The finalizer holds its closure strongly.
      do_fin(t, os, cs, c % gc_finalizer_priority_count());
      if (d % 3 == 0) clear_root(t, os);
      break;
    }
    case OP_FINMANY: {
      if (multi) break;
      uint32_t n = 1 + b % 200;
      maybe_trim(t, n * 200);
      for (uint32_t i = 0; i < n; i++) {
        struct gc_ref ref;
        uint32_t clo = alloc_node(t, 24, 0, 0, &ref);
        set_root(t, NH + NTMP - 2, ref, clo);
        uint32_t id = alloc_node(t, 32, 1, 0, &ref);
        int link = mix64(c + i) % 3 == 0 && t->mh[a % NH];
        if (link && slot_is_node(t, a % NH)) {
          M(t, id)->f[0] = t->mh[a % NH];
          fz_fields(ref)[0] = t->h[a % NH];
        }
        set_root(t, NH + NTMP - 3, ref, id);
        do_fin(t, NH + NTMP - 3, NH + NTMP - 2, mix64(d + i) % gc_finalizer_priority_count());
        if (mix64(d * 5 + i) % 4 == 0)
          set_root(t, (a + i) % NH, t->h[NH + NTMP - 3], id);
        clear_root(t, NH + NTMP - 2);
        clear_root(t, NH + NTMP - 3);
      }
      break;
    }
    case OP_POPFIN: {
      if (multi) break;
      for (uint32_t i = 0; i < 1 + b % 40; i++)
        if (!do_pop(t, (a + i) % NH)) break;
      if (c % 2) for (uint32_t i = 0; i < 1 + b % 40; i++) clear_root(t, (a + i) % NH);
      break;
    }
    case OP_FINLEAF:
      if (multi)
        for (uint32_t i = 0; i < 1 + b % 20; i++) do_finleaf(t, a + i, c + i);
      break;
    case OP_POPLEAF:
      if (multi)
        for (uint32_t i = 0; i < 1 + b % 40; i++)
          if (!do_popleaf(t)) break;
      break;
    case OP_PIN: {
      if (!gc_can_pin_objects() || !IS_MMC) break;
      int s = find_obj(t, a);
      if (s < 0) break;
      struct mobj *o = M(t, t->mh[s]);
      if (o->type != T_NODE || o->frozen) break;
      gc_pin_object(t->mut, t->h[s]);
      o->pinned = 1;
      o->addr = gc_ref_value(t->h[s]);
      STAT(ST_PIN, 1);
      break;
    }
    case OP_EXT: {
      if (multi || IS_BDW || GC_CONSERVATIVE_TRACE || ext_next >= FZ_EXT_MAX) break;
      // Minor collections do not trace extern objects, and there is no
      // barrier for edges from them.
      uint32_t nf = GC_GENERATIONAL ? 0 : b % 12;
      size_t size = 16 + nf * 8 + (b >> 8) % 8 * 8;
      uint32_t idx = ext_next++;
      uintptr_t addr = (uintptr_t)ext->base + (uintptr_t)idx * FZ_EXT_STRIDE;
      uint32_t id = mnew(t, T_EXT, size, nf);
      struct mobj *o = M(t, id);
      o->addr = addr;
      ext_model[idx] = id;
      init_header(addr, o);
      write_payload(addr, o);
      init_fields(t, id, gc_ref(addr), d);
      set_root(t, a % NH, gc_ref(addr), id);
      STAT(ST_EXT, 1);
      break;
    }
    case OP_HRSET: {
      if (t != thread0) break;
      int s = find_obj(t, b);
      if (s < 0) { hr_model[a % NHR] = 0; the_heap_roots.refs[a % NHR] = gc_ref_null(); break; }
      the_heap_roots.refs[a % NHR] = t->h[s];
      hr_model[a % NHR] = t->mh[s];
      if (c % 2) clear_root(t, s);
      break;
    }
    case OP_HRGET: {
      if (t != thread0 || !hr_model[b % NHR]) break;
      set_root(t, a % NH, the_heap_roots.refs[b % NHR], hr_model[b % NHR]);
      if (c % 2) { hr_model[b % NHR] = 0; the_heap_roots.refs[b % NHR] = gc_ref_null(); }
      break;
    }
    case OP_GSET: {
      // A reference only in the data segment.
      if (!GC_CONSERVATIVE_ROOTS || t != thread0) break;
      int s = find_obj(t, b);
      if (s < 0 || slot_is_ext(t, s)) {
        if (fz_globals_model[a % NGLOBAL] == 0) break;
      }
      if (fz_globals_model[a % NGLOBAL]) {
        set_root(t, c % NH, gc_ref(fz_globals[a % NGLOBAL]), fz_globals_model[a % NGLOBAL]);
        fz_globals[a % NGLOBAL] = 0;
        fz_globals_model[a % NGLOBAL] = 0;
      } else {
        fz_globals[a % NGLOBAL] = gc_ref_value(t->h[s]);
        fz_globals_model[a % NGLOBAL] = t->mh[s];
        clear_root(t, s);
      }
      break;
    }
    case OP_VERIFY: verify(t, "verify"); break;
    case OP_LIST: {
      uint32_t n = 1 + b % 3000;
      if ((size_t)n * 40 > cap / 3) n = cap / 120;
      maybe_trim(t, n * 40);
      unsigned s = a % NH;
      clear_root(t, s);
      for (uint32_t i = 0; i < n; i++) {
        struct gc_ref ref;
        uint32_t id = alloc_node(t, 24 + (mix64(c + i) % 3) * 8, 1, 0, &ref);
        if (t->mh[s]) {
          M(t, id)->f[0] = t->mh[s];
          fz_fields(ref)[0] = t->h[s];
        }
        set_root(t, s, ref, id);
      }
      break;
    }
    case OP_WIDE: {
      uint32_t n = 1 + b % 5000;
      if ((size_t)n * 48 > cap / 3) n = cap / 144;
      maybe_trim(t, n * 48);
      struct gc_ref ref;
      unsigned s = a % NH;
      uint32_t arr = alloc_node(t, 16 + (size_t)n * 8, n, 0, &ref);
      set_root(t, s, ref, arr);
      for (uint32_t i = 0; i < n; i++) {
        uint32_t id = alloc_node(t, 16 + (mix64(c + i) % 4) * 8, i % 2, 0, &ref);
        store_field_raw(t, t->h[s], M(t, arr)->size, i, ref);
        M(t, arr)->f[i] = id;
      }
      break;
    }
    case OP_TREE: {
      int depth = 1 + b % 9;
      maybe_trim(t, ((size_t)1 << depth) * 64);
      struct gc_ref ref;
      uint32_t id = make_tree(t, depth, 0, c, &ref);
      set_root(t, a % NH, ref, id);
      break;
    }
    case OP_FILLYOUNG: {
      int s = find_node(t, a);
      if (s < 0) break;
      uint32_t id = t->mh[s];
      uint32_t n = M(t, id)->nf;
      if ((size_t)n * 32 > cap / 4) n = cap / 128;
      maybe_trim(t, n * 32);
      if (t->mh[s] != id) break; // trimmed
      for (uint32_t i = 0; i < n; i++) {
        if (mix64(b + i) % 3 == 0) continue;
        struct gc_ref ref;
        uint32_t v = alloc_node(t, 16 + (mix64(c + i) % 3) * 8, 0, 0, &ref);
        store_field_raw(t, t->h[s], M(t, id)->size, i, ref);
        M(t, id)->f[i] = v;
        STAT(ST_OLD2YOUNG, 1);
      }
      break;
    }
    case OP_OLDYOUNG: old_young(t, a, b, c); break;
    case OP_SAFEPOINT: gc_safepoint(t->mut); break;
    case OP_YIELD: sched_yield(); gc_safepoint(t->mut); break;
    case OP_NOGC: {
      t->in_nogc = 1;
      void *ret = gc_call_without_gc(t->mut, nogc_fn, t);
      t->in_nogc = 0;
      if (ret != t) fail("gc_call_without_gc returned the wrong value");
      STAT(ST_NOGC, 1);
      break;
    }
    case OP_REGS:
#ifdef HAVE_REGS
      do_regs(t, a, b, c, d);
#endif
      break;
    case OP_STORM:
      // Leave and enter the heap while others collect.
      if (!multi) break;
      for (uint32_t i = 0; i < 1 + b % 60; i++) {
        t->in_nogc = 1;
        void *ret = gc_call_without_gc(t->mut, i % 3 ? nop_fn : nogc_fn, t);
        t->in_nogc = 0;
        if (ret != t) fail("gc_call_without_gc returned the wrong value");
        struct gc_ref leaf;
        alloc_leaf(t, &leaf, leaf_size_for(c + i));
        if (d % 4 == 0 && i % 4 == 0) collect(t, c + i);
        if (sh_count && d % 3 == 0) do_shset(t, (a + i) % sh_count, c + i);
      }
      STAT(ST_NOGC, 1);
      break;
    case OP_SHSET:
      if (sh_count) for (uint32_t i = 0; i < 1 + c % 16; i++) do_shset(t, (a + i * 3) % sh_count, b + i);
      break;
    case OP_SHGET:
      if (sh_count) do_shget(t, a % sh_count, b % NH);
      break;
    case OP_SHFILL:
      if (sh_count) for (uint32_t i = 0; i < sh_count; i++) do_shset(t, i, b + i);
      break;
    case OP_SPAWN: {
      if (t != thread0 || !multi || nspawned >= 4000) break;
      if (nspawned - njoined > 6) join_spawned(t);
      struct spawn *s = calloc(1, sizeof *s);
      s->t = make_thr(t->c, -1);
      s->n = 1 + a % 40;
      s->seed = b;
      if (pthread_create(&spawned_pt[nspawned], NULL, spawned_thread, s))
        fail("harness: pthread_create");
      nspawned++;
      break;
    }
    case OP_JOIN: if (t == thread0 && multi) join_spawned(t); break;
    case OP_CBSET:
      if (t != thread0 || multi) break;
      have_callback = 1;
      gc_set_finalizer_callback(the_heap, finalizer_callback);
      break;
    case OP_ACTR: check_allocation_counter(t, 0); break;
    case OP_TICK: ticks(t, 1 + a % 4, b % 4 != 0); break;
    case OP_FOOT: check_footprint(t); break;
    case OP_HOARD: do_hoard(t, a, b, c, d); break;
    case OP_LGSWAP: {
      // Trade most of the live bound between one large object and many small ones.
      size_t size = cap / 8 + (size_t)(b % 64) * (cap / 128);
      if (size <= gc_allocator_large_threshold()) break;
      unsigned s = a % NH;
      clear_root(t, s);
      maybe_trim(t, size);
      struct gc_ref ref;
      uint32_t id = alloc_node(t, size & ~(size_t)7, nf_from(c, 64), 0, &ref);
      set_root(t, s, ref, id);
      break;
    }
    default: break;
  }
}

static size_t run_ops(struct thr *t, size_t pc, int depth) {
  const struct cas *c = t->c;
  while (pc < c->nops) {
    const struct op *op = &c->ops[pc++];
    if (op->thread != t->idx) continue;
    if (op->code == OP_FRAMEPUSH) {
      if (GC_CONSERVATIVE_ROOTS && depth < MAXFRAMES) {
        STAT(ST_OPS, 1);
        pc = run_frame(t, pc, depth, op->a);
      }
      continue;
    }
    if (op->code == OP_FRAMEPOP) {
      if (depth) return pc;
      continue;
    }
    exec_op(t, op);
  }
  return pc;
}

static struct gc_basic_stats basic_stats;
static struct gc_event_listener_chain chain;

static void* run_case_inner(struct gc_stack_addr base, void *arg) {
  const struct cas *c = arg;
  struct gc_options *options = gc_allocate_options();
  char opts[256];
  strcpy(opts, c->opts);
  if (IS_SEMI) strcat(opts, ",parallelism=1");
  if (!gc_options_parse_and_set_many(options, opts)) fail("harness: bad options %s", opts);
  resize_policy = strstr(opts, "policy=growable") ? GC_HEAP_SIZE_GROWABLE :
    strstr(opts, "policy=adaptive") ? GC_HEAP_SIZE_ADAPTIVE : GC_HEAP_SIZE_FIXED;
  evcheck = c->evcheck && !IS_BDW;
  ext = calloc(1, sizeof *ext);
  ext->base = mmap(NULL, FZ_EXT_STRIDE * FZ_EXT_MAX, PROT_READ|PROT_WRITE,
                   MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  struct thr *t = make_thr(c, 0);
  thread0 = t;
  cur_thr = t;
  multi = c->nthreads > 1;
  for (int i = 0; i < 64; i++) pthread_mutex_init(&sh_lock[i], NULL);
  struct gc_event_listener listener = FZ_LISTENER;
  void *listener_data = NULL;
  if (c->evcheck) {
    chain = (struct gc_event_listener_chain){ FZ_LISTENER, NULL, GC_BASIC_STATS, &basic_stats };
    // The chain's mutator data wraps ours.
    listener = GC_EVENT_LISTENER_CHAIN;
    listener_data = &chain;
  }
  struct gc_mutator *mut;
  prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
  __atomic_store_n(&maps_on, 1, __ATOMIC_RELEASE);
  if (!gc_init(options, base, &the_heap, &mut, listener, listener_data))
    fail("gc_init failed");
  if (!t->ev) fail("mutator_added was not called for the main mutator");
  if (gc_mutator_heap(mut) != the_heap) fail("gc_mutator_heap");
  t->mut = mut;
  t->heap = the_heap;
  gc_mutator_set_roots(mut, &t->roots);
  the_heap_roots.refs = calloc(NHR + 1, sizeof(struct gc_ref));
  the_heap_roots.count = NHR + 1;
  gc_heap_set_roots(the_heap, &the_heap_roots);
  gc_heap_set_extern_space(the_heap, ext);
  register_thread(t);
  if (multi) {
    // The shared array.
    sh_count = 16 + mix64(c->seed) % (SH_MAX - 16);
    sh_size = 16 + (size_t)sh_count * 8;
    uintptr_t addr = raw_alloc(t, sh_size, GC_ALLOCATION_TAGGED);
    *(uintptr_t*)addr = fz_tag(FZ_NODE, sh_count, sh_size, 0x1234);
    the_heap_roots.refs[NHR] = gc_ref(addr);
  }
  pthread_t pts[64];
  for (int i = 1; i < c->nthreads && i < 64; i++) {
    struct spawn *s = calloc(1, sizeof *s);
    s->t = make_thr(c, i);
    if (pthread_create(&pts[i], NULL, spawned_thread, s)) fail("harness: pthread_create");
  }
  run_ops(t, 0, 0);
  verify(t, "end of operations");
  for (int i = 1; i < c->nthreads && i < 64; i++) {
    t->in_nogc = 1;
    gc_call_without_gc(t->mut, join_fn, &pts[i]);
    t->in_nogc = 0;
  }
  join_spawned(t);
  if (multi) check_all_cells("after threads finished");
  clear_stack();
  collect(t, GC_COLLECTION_COMPACTING);
  verify(t, "after final compaction");
  if (GC_GENERATIONAL) {
    collect(t, GC_COLLECTION_MINOR);
    verify(t, "after final minor collection");
  }
  if (!multi)
    while (do_pop(t, t->op_index++ % NH));
  if (multi) {
    check_all_cells("after final collection");
    while (do_popleaf(t));
    // All leaf objects are unreachable, so their finalizers must have fired by
    // now, if the collector is precise.
    if (PRECISE && !IS_BDW) {
      for (int i = 0; i < NROOT; i++) clear_root(t, i);
      collect(t, GC_COLLECTION_MAJOR);
      while (do_popleaf(t));
      for (uint32_t i = 0; i < leaf_next && i < LEAF_MAX; i++)
        if (leaf_state[i] == 1) fail("finalizer %u of unreachable object never fired", i);
    }
  }
  verify(t, "end");
  if (evcheck) {
    if (ev_state != EV_IDLE) fail("final event state %s", ev_names[ev_state]);
    if (ev_mutators != 1) fail("%d mutators at end", ev_mutators);
    uint64_t majors = basic_stats.major_collection_count;
    uint64_t minors = basic_stats.minor_collection_count;
    if (majors + minors != gc_count || majors != gc_full_count - (IS_SEMI ? minors : 0))
      if (!IS_SEMI)
        fail("basic stats: %" PRIu64 "+%" PRIu64 " collections, saw %" PRIu64
             "+%" PRIu64, majors, minors, gc_full_count, gc_count - gc_full_count);
    if (basic_stats.heap_size != heap_size_now)
      fail("basic stats: heap size %zu, expected %zu", basic_stats.heap_size, heap_size_now);
    if (basic_stats.max_heap_size != max_resized)
      fail("basic stats: max heap size %zu, expected %zu", basic_stats.max_heap_size,
           max_resized);
    if (have_live_size && basic_stats.live_data_size != last_live_size)
      fail("basic stats: live data size");
    uint64_t pauses = 0;
    for (size_t i = 0; i < sizeof(basic_stats.pause_times) / sizeof(uint32_t); i++)
      pauses += ((uint32_t*)&basic_stats.pause_times)[i];
    if (pauses != gc_count)
      fail("basic stats: %" PRIu64 " pauses recorded for %" PRIu64 " collections",
           pauses, gc_count);
  }
  return NULL;
}

static void run_case(struct cas *c) {
  gc_call_with_stack_addr(run_case_inner, c);
}

#include "gcfuzz-gen.h"

// ------------------------------------------------------------------- file IO
static void print_case(FILE *f, struct cas *c) {
  fprintf(f, "variant %s\n", VARIANT);
  fprintf(f, "cfg profile=%s seed=%" PRIu64 " threads=%d live=%zu ev=%d opts=%s\n",
          c->profile, c->seed, c->nthreads, c->live, c->evcheck, c->opts);
  for (size_t i = 0; i < c->nops; i++) {
    struct op *op = &c->ops[i];
    fprintf(f, "%u %s %u %u %u %u\n", op->thread, op_names[op->code], op->a, op->b,
            op->c, op->d);
  }
}
static int read_case(const char *file, struct cas *c) {
  FILE *f = fopen(file, "r");
  if (!f) return 0;
  char line[1024];
  memset(c, 0, sizeof *c);
  size_t cap = 0;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#' || line[0] == '\n') continue;
    if (!strncmp(line, "variant ", 8)) continue;
    if (!strncmp(line, "cfg ", 4)) {
      if (sscanf(line, "cfg profile=%31s seed=%" SCNu64 " threads=%d live=%zu ev=%d opts=%255s",
                 c->profile, &c->seed, &c->nthreads, &c->live, &c->evcheck, c->opts) != 6)
        return 0;
      continue;
    }
    unsigned th, a, b, cc, d;
    char name[32];
    if (sscanf(line, "%u %31s %u %u %u %u", &th, name, &a, &b, &cc, &d) != 6) return 0;
    int code = -1;
    for (int i = 0; i < OP_N; i++) if (!strcmp(op_names[i], name)) code = i;
    if (code < 0) return 0;
    if (c->nops == cap) {
      cap = cap ? cap * 2 : 256;
      c->ops = realloc(c->ops, cap * sizeof *c->ops);
    }
    c->ops[c->nops++] = (struct op){ code, th, a, b, cc, d };
  }
  fclose(f);
  return 1;
}

// Fork and run; returns 0 ok, 1 failure, 2 timeout.  Message in MSG.
static int run_forked(struct cas *c, unsigned timeout, char *msg, size_t msglen, int verbose) {
  static int fd = -1;
  if (fd < 0) fd = memfd_create("stderr", 0);
  if (ftruncate(fd, 0)) abort();
  lseek(fd, 0, SEEK_SET);
  memset(stats, 0, ST_N * sizeof(uint64_t));
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose) { dup2(fd, 2); dup2(fd, 1); }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    rl = (struct rlimit){ 6ull << 30, 6ull << 30 };
    setrlimit(RLIMIT_AS, &rl);
    setpgid(0, 0);
    alarm(timeout);
    run_case(c);
    fflush(stdout);
    _exit(0);
  }
  int status;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    uint64_t fit = stats[ST_HOARDED];
    if (!stats[ST_OOM] || brink || c->nthreads > 1 || GC_CONSERVATIVE_ROOTS || fit < 4) return 0;
    // It ran out of memory after FIT objects.  Again, but almost.
    uint64_t keep[ST_N];
    memcpy(keep, stats, sizeof keep);
    brink = fit;
    int ret = run_forked(c, timeout, msg, msglen, verbose);
    brink = 0;
    for (int i = 0; i < ST_N; i++) stats[i] += keep[i];
    return ret;
  }
  msg[0] = 0;
  if (!verbose) {
    off_t end = lseek(fd, 0, SEEK_END);
    off_t start = end > (off_t)msglen - 64 ? end - (off_t)msglen + 64 : 0;
    lseek(fd, start, SEEK_SET);
    ssize_t n = read(fd, msg, msglen - 64);
    if (n < 0) n = 0;
    msg[n] = 0;
  }
  if (WIFSIGNALED(status)) {
    snprintf(msg + strlen(msg), 64, " [signal %d]", WTERMSIG(status));
    if (WTERMSIG(status) == SIGALRM) return 2;
    if (WTERMSIG(status) == SIGKILL) return 3; // out of memory or killed from outside
  }
  return 1;
}

static void print_json_string(const char *s) {
  putchar('"');
  for (; *s; s++) {
    unsigned char ch = *s;
    if (ch == '"' || ch == '\\') printf("\\%c", ch);
    else if (ch == '\n') printf("\\n");
    else if (ch < 32 || ch > 126) putchar('?');
    else putchar(ch);
  }
  putchar('"');
}
static double now(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int main(int argc, char **argv) {
  stats = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  setvbuf(stdout, NULL, _IOLBF, 0);
  if (argc >= 7 && !strcmp(argv[1], "fuzz")) {
    // fuzz PROFILE SEED COUNT TIMEOUT BUDGET_S
    uint64_t seed = strtoull(argv[3], NULL, 0);
    size_t count = strtoull(argv[4], NULL, 0);
    unsigned timeout = atoi(argv[5]);
    double deadline = now() + atof(argv[6]);
    for (size_t i = 0; i < count && now() < deadline; i++) {
      struct cas c;
      gen_case(&c, argv[2], seed + i);
      static char msg[2048];
      double t0 = now();
      int ret = run_forked(&c, timeout, msg, sizeof msg, 0);
      printf("{\"seed\":%" PRIu64 ",\"ret\":%d,\"t\":%.3f,\"nops\":%zu,\"opts\":\"%s\",\"threads\":%d",
             seed + i, ret, now() - t0, c.nops, c.opts, c.nthreads);
      for (int s = 0; s < ST_N; s++)
        if (stats[s]) printf(",\"%s\":%" PRIu64, st_names[s], stats[s]);
      if (ret) { printf(",\"msg\":"); print_json_string(msg); }
      printf("}\n");
      free(c.ops);
    }
    return 0;
  }
  if (argc >= 4 && !strcmp(argv[1], "gen")) {
    struct cas c;
    gen_case(&c, argv[2], strtoull(argv[3], NULL, 0));
    print_case(stdout, &c);
    return 0;
  }
  if (argc >= 4 && !strcmp(argv[1], "run")) {
    struct cas c;
    if (!read_case(argv[2], &c)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    int verbose = argc > 4 && argv[4][0] == 'v';
    trace_ops = argc > 4 && !strcmp(argv[4], "vv");
    if (argc > 4 && argv[4][0] == 'd') { // direct, for debuggers
      run_case(&c);
      return 0;
    }
    static char msg[2048];
    int ret = run_forked(&c, atoi(argv[3]), msg, sizeof msg, verbose);
    printf("ret=%d %s\n", ret, msg);
    return ret;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
