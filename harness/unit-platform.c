// The platform layer: memory it hands out is aligned, zeroed, exclusive and,
// once given back, gone; nothing else is touched.  Interposed system calls
// track exactly what is mapped.
#include "unit.h"
#include <assert.h>
#include <link.h>
#include <sched.h>
#include <sys/syscall.h>
#define GC_IMPL 1
#include "gc-platform.h"

static const char *uop_names[] = { "RESERVE", "ACQUIRE", "ACQMEM", "RELEASE", "DISCARD", "POPULATE",
                                   "WRITE", "CHECK", "FAULT", "THREAD", "CLOCK", "CPUS", "GLOBALS" };
enum { RESERVE, ACQUIRE, ACQMEM, RELEASE, DISCARD, POPULATE, WRITE, CHECK, FAULT, THREAD, CLOCK,
       CPUS, GLOBALS, NOPS };
static const size_t uop_count = NOPS;
static void ugen(struct rng *r, struct ucase *c) {
  size_t n = 1 + rn(r, 80);
  for (size_t i = 0; i < n; i++) {
    static const int w[] = { 8, 14, 8, 6, 8, 4, 16, 8, 2, 3, 1, 1, 2 };
    int sum = 0, k = 0;
    for (int j = 0; j < NOPS; j++) sum += w[j];
    int x = rn(r, sum);
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rnd(r), rnd(r));
  }
}

// ---- what is mapped
struct map { uintptr_t lo, hi; int prot; };
static struct map maps[4096];
static size_t nmaps;
static int tracking, fail_maps;
static void map_remove(uintptr_t lo, uintptr_t hi) {
  size_t n = nmaps;
  for (size_t i = 0; i < n; i++) {
    struct map m = maps[i];
    if (m.hi <= lo || m.lo >= hi) continue;
    maps[i].hi = maps[i].lo; // empty
    if (m.lo < lo) maps[nmaps++] = (struct map){ m.lo, lo, m.prot };
    if (m.hi > hi) maps[nmaps++] = (struct map){ hi, m.hi, m.prot };
  }
  size_t j = 0;
  for (size_t i = 0; i < nmaps; i++) if (maps[i].hi > maps[i].lo) maps[j++] = maps[i];
  nmaps = j;
  if (nmaps > 4000) ufail("harness: too many mappings");
}
static int covered(uintptr_t lo, uintptr_t hi) {
  size_t sum = 0;
  for (size_t i = 0; i < nmaps; i++) {
    uintptr_t a = maps[i].lo > lo ? maps[i].lo : lo, b = maps[i].hi < hi ? maps[i].hi : hi;
    if (a < b) sum += b - a;
  }
  return sum == hi - lo;
}
void* mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (tracking && fail_maps && --fail_maps == 0) { errno = ENOMEM; return MAP_FAILED; }
  if (tracking && (flags & MAP_FIXED) && !covered((uintptr_t)addr, (uintptr_t)addr + len))
    ufail("mapping over memory that is not part of a reservation");
  void *ret = (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
  if (tracking && ret != MAP_FAILED) {
    map_remove((uintptr_t)ret, (uintptr_t)ret + len);
    maps[nmaps++] = (struct map){ (uintptr_t)ret, (uintptr_t)ret + len, prot };
  }
  return ret;
}
int munmap(void *addr, size_t len) {
  if (tracking && !covered((uintptr_t)addr, (uintptr_t)addr + len))
    ufail("unmapping memory that was not ours: %p, %zu bytes", addr, len);
  int ret = syscall(SYS_munmap, addr, len);
  if (tracking && ret == 0) map_remove((uintptr_t)addr, (uintptr_t)addr + len);
  return ret;
}

// ---- model
#define MAXR 24
#define PG 4096
struct region { int live; int direct; uintptr_t base; size_t pages; uint8_t *acq; uint64_t *word; struct gc_reservation r; };
static struct region reg[MAXR];
static int pipefd[2];
static int accessible(uintptr_t addr) {
  ssize_t n = write(pipefd[1], (void*)addr, 1);
  if (n == 1) { char ch; if (read(pipefd[0], &ch, 1) != 1) ufail("harness: pipe"); return 1; }
  if (errno != EFAULT) ufail("harness: write: %s", strerror(errno));
  return 0;
}
static size_t word_offset(size_t page) { return mix64(page) % (PG / 8) * 8; }
static void check_page(struct region *g, size_t p) {
  uintptr_t addr = g->base + p * PG;
  if (!g->acq[p]) {
    if (p % 5 == 0 && accessible(addr)) ufail("reserved but unacquired memory is accessible");
    return;
  }
  uint64_t *w = (uint64_t*)addr;
  size_t k = word_offset(p) / 8;
  for (size_t j = 0; j < PG / 8; j++)
    if (w[j] != (j == k ? g->word[p] : 0)) ufail("page %zu word %zu is %" PRIx64 ", expected %" PRIx64, p, j, w[j], j == k ? g->word[p] : 0);
}
static void check_maps(void) {
  size_t mapped = 0, want = 0;
  for (size_t i = 0; i < nmaps; i++) mapped += maps[i].hi - maps[i].lo;
  for (int i = 0; i < MAXR; i++)
    if (reg[i].live) {
      want += reg[i].pages * PG;
      if (!covered(reg[i].base, reg[i].base + reg[i].pages * PG)) ufail("part of a live region is not mapped");
    }
  if (mapped != want) ufail("%zu bytes are mapped for regions of %zu bytes", mapped, want);
}
static void new_region(struct region *g, uintptr_t base, size_t pages, size_t align, int direct) {
  if (base % PG) ufail("memory is not page-aligned");
  if (align && base % align) ufail("memory at %zx is not aligned to %zx", (size_t)base, align);
  for (int i = 0; i < MAXR; i++)
    if (reg[i].live && base < reg[i].base + reg[i].pages * PG && reg[i].base < base + pages * PG)
      ufail("memory handed out twice");
  free(g->acq); free(g->word);
  *g = (struct region){ 1, direct, base, pages, calloc(pages, 1), calloc(pages, 8), { base, pages * PG } };
  if (direct) memset(g->acq, 1, pages);
}

// ---- global roots
static uint64_t a_bss[100000], a_data[1000] = { 1, 2, 3 };
extern char **environ;
struct roots { uintptr_t lo[256], hi[256]; int n; };
static void root_range(uintptr_t lo, uintptr_t hi, struct gc_heap *heap, void *data) {
  struct roots *r = data;
  if ((void*)heap != (void*)0x1234) ufail("the heap was not passed on");
  if (lo > hi) ufail("negative root range");
  if (r->n == 256) ufail("harness: too many root ranges");
  r->lo[r->n] = lo; r->hi[r->n++] = hi;
}
static int in_roots(struct roots *r, void *p) {
  int n = 0;
  for (int i = 0; i < r->n; i++) n += r->lo[i] <= (uintptr_t)p && (uintptr_t)p < r->hi[i];
  return n;
}

struct th { uintptr_t lo, hi; };
static int deep(int n, uintptr_t base, struct th *t) {
  volatile char x[200]; x[0] = n;
  if ((uintptr_t)&x[0] >= base) ufail("the stack extends beyond its base");
  if (t && base != t->hi) ufail("stack base is %zx, expected %zx", (size_t)base, (size_t)t->hi);
  return n ? deep(n - 1, gc_platform_current_thread_stack_base(), t) + x[0] : 0;
}
static void* th_body(void *d) {
  deep(1 + (int)((uintptr_t)d % 5), gc_platform_current_thread_stack_base(), d);
  return NULL;
}

static void urun(struct ucase *c) {
  nmaps = 0; fail_maps = 0;
  memset(reg, 0, sizeof reg);
  if (pipe(pipefd)) ufail("harness: pipe");
  if (gc_platform_page_size() != (size_t)sysconf(_SC_PAGESIZE)) ufail("page size");
  gc_platform_init();
  size_t acquired = 0, discarded = 0, released = 0;
  for (size_t i = 0; i < c->n; i++) {
    struct uop *op = &c->ops[i];
    struct region *g = &reg[op->a % MAXR];
    size_t pages = 1 + (op->b >> 8) % (op->b & 1 ? 8 : 3000);
    size_t align = op->c % 4 ? (size_t)PG << (op->c >> 8) % 14 : 0;
    switch (op->code) {
    case RESERVE: {
      if (g->live) break;
      tracking = 1;
      struct gc_reservation r = gc_platform_reserve_memory(pages * PG, align);
      tracking = 0;
      if (r.size != pages * PG) ufail("reserved %zu bytes of %zu", r.size, pages * PG);
      new_region(g, r.base, pages, align, 0);
      g->r = r;
      check_maps();
      break;
    }
    case ACQMEM: {
      if (g->live) break;
      tracking = 1;
      void *mem = gc_platform_acquire_memory(pages * PG, align);
      tracking = 0;
      if (!mem) ufail("acquiring memory failed");
      new_region(g, (uintptr_t)mem, pages, align, 1);
      check_maps();
      acquired++;
      break;
    }
    case ACQUIRE: case FAULT: {
      if (!g->live || g->direct) break;
      size_t p = op->b % g->pages, n = 1 + (op->c >> 3) % (op->c & 7 ? 16 : 4000);
      if (op->c % 16 == 3) p = 0, n = g->pages;
      if (p + n > g->pages) n = g->pages - p;
      for (size_t j = p; j < p + n; j++) if (g->acq[j]) n = j - p;
      if (!n) break;
      fail_maps = op->code == FAULT;
      tracking = 1;
      void *mem = gc_platform_acquire_memory_from_reservation(g->r, p * PG, n * PG);
      tracking = 0;
      if (op->code == FAULT) {
        if (mem) ufail("acquired memory although mapping failed");
        fail_maps = 0;
        check_maps();
        break;
      }
      if (mem != (void*)(g->base + p * PG)) ufail("acquired %p instead of %zx", mem, (size_t)(g->base + p * PG));
      memset(g->acq + p, 1, n);
      check_maps();
      acquired++;
      break;
    }
    case RELEASE: {
      if (!g->live) break;
      for (size_t p = 0; p < g->pages; p++) check_page(g, p);
      tracking = 1;
      if (!g->direct) gc_platform_release_reservation(g->r);
      else gc_platform_release_memory((void*)g->base, g->pages * PG);
      tracking = 0;
      g->live = 0; released++;
      for (size_t p = 0; p < g->pages; p += 1 + g->pages / 7)
        if (accessible(g->base + p * PG)) ufail("released memory is still accessible");
      check_maps();
      break;
    }
    case DISCARD: case POPULATE: {
      if (!g->live) break;
      size_t p = op->b % g->pages, n = 1 + op->c % 20;
      if (p + n > g->pages) n = g->pages - p;
      for (size_t j = p; j < p + n; j++) if (!g->acq[j]) n = j - p;
      if (!n) break;
      tracking = 1;
      int ok = op->code == DISCARD ? gc_platform_discard_memory((void*)(g->base + p * PG), n * PG)
        : gc_platform_populate_memory((void*)(g->base + p * PG), n * PG);
      tracking = 0;
      if (!ok) ufail("%s failed", uop_names[op->code]);
      if (op->code == DISCARD) {
        unsigned char vec[32];
        if (mincore((void*)(g->base + p * PG), n * PG, vec) == 0)
          for (size_t j = 0; j < n; j++) if (vec[j] & 1) ufail("a discarded page is still resident");
        memset(g->word + p, 0, n * 8); discarded++;
      }
      for (size_t j = p ? p - 1 : 0; j < p + n + 1 && j < g->pages; j++) check_page(g, j);
      break;
    }
    case WRITE: {
      if (!g->live) break;
      for (int k = 0; k < 40; k++) {
        size_t p = mix64(op->b + k) % g->pages;
        if (!g->acq[p]) continue;
        g->word[p] = mix64(op->c + k) | 1;
        *(uint64_t*)(g->base + p * PG + word_offset(p)) = g->word[p];
      }
      break;
    }
    case CHECK:
      if (!g->live) break;
      for (size_t p = 0; p < g->pages; p++) check_page(g, p);
      break;
    case THREAD: {
      pthread_attr_t attr;
      pthread_attr_init(&attr);
      size_t size = (64 + op->b % 512) * 1024;
      void *stack = (void*)syscall(SYS_mmap, NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      struct th t = { (uintptr_t)stack, (uintptr_t)stack + size };
      pthread_attr_setstack(&attr, stack, size);
      pthread_t th;
      if (pthread_create(&th, &attr, th_body, &t)) ufail("harness: thread");
      pthread_join(th, NULL);
      syscall(SYS_munmap, stack, size);
      pthread_attr_destroy(&attr);
      deep(op->c % 4, gc_platform_current_thread_stack_base(), NULL);
      break;
    }
    case CLOCK: {
      struct timespec a, b;
      clock_gettime(CLOCK_MONOTONIC, &a);
      uint64_t t1 = gc_platform_monotonic_nanoseconds(), t2 = gc_platform_monotonic_nanoseconds();
      clock_gettime(CLOCK_MONOTONIC, &b);
      if (t2 < t1) ufail("time runs backwards");
      if (t1 < a.tv_sec * 1000000000ull + a.tv_nsec || t2 > b.tv_sec * 1000000000ull + b.tv_nsec) ufail("time is not the monotonic time");
      break;
    }
    case CPUS: {
      cpu_set_t old, set;
      sched_getaffinity(0, sizeof old, &old);
      CPU_ZERO(&set);
      int n = 0, first = -1;
      for (int k = 0; k < CPU_SETSIZE; k++)
        if (CPU_ISSET(k, &old)) {
          if (first < 0) first = k;
          if (mix64(op->b + k) & 1) { CPU_SET(k, &set); n++; }
        }
      if (!n) { CPU_SET(first, &set); n = 1; }
      if (sched_setaffinity(0, sizeof set, &set) == 0) {
        int got = gc_platform_processor_count();
        sched_setaffinity(0, sizeof old, &old);
        if (got != n) ufail("%d processors, expected %d", got, n);
      }
      break;
    }
    case GLOBALS: {
      static struct roots r;
      r.n = 0;
      gc_platform_visit_global_conservative_roots(root_range, (struct gc_heap*)0x1234, &r);
      void *ps[] = { &a_bss[op->b % 100000], &a_data[op->b % 1000], &a_bss[0], &a_bss[99999], &a_data[0],
                     &a_data[999], &environ, &uop_names[0], &r, stdin, &stdout };
      for (size_t k = 0; k < sizeof ps / sizeof *ps; k++)
        if (in_roots(&r, ps[k]) != 1) ufail("global variable %zu is in %d root ranges", k, in_roots(&r, ps[k]));
      break;
    }
    }
  }
  for (int i = 0; i < MAXR; i++) {
    struct region *g = &reg[i];
    if (g->live) {
      for (size_t p = 0; p < g->pages; p++) check_page(g, p);
      tracking = 1;
      if (g->direct) gc_platform_release_memory((void*)g->base, g->pages * PG);
      else gc_platform_release_reservation(g->r);
      tracking = 0;
      g->live = 0;
    }
    free(g->acq); free(g->word);
    g->acq = NULL; g->word = NULL;
  }
  check_maps();
  close(pipefd[0]); close(pipefd[1]);
  if (acquired >= 2 && (discarded || released)) NONTRIVIAL();
}
