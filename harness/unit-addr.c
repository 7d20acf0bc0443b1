// Address maps and sets against a reference table; extents against a bitmap.
#include "unit.h"
#include "address-map.h"
#include "address-set.h"
#include "extents.h"
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
static size_t allocated(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated(void) { return 0; }
#endif

static const char *uop_names[] = { "ADD", "REMOVE", "LOOKUP", "CLEAR", "ITER", "SADD", "SREMOVE",
  "SHAS", "SCLEAR", "SITER", "UNION", "ADJOIN", "EXTHAS", "FIND", "FILL", "DRAIN" };
enum { ADD, REMOVE, LOOKUP, CLEAR, ITER, SADD, SREMOVE, SHAS, SCLEAR, SITER, UNION, ADJOIN, EXTHAS,
  FIND, FILL, DRAIN, NOPS };
static const size_t uop_count = NOPS;

// p0: number of distinct keys; p1: how keys are made
#define MAXK 4096
static void ugen(struct rng *r, struct ucase *c) {
  static const int ks[] = { 3, 7, 9, 20, 60, 150, 400, 1500 };
  c->p[0] = ks[rn(r, 8)];
  c->p[1] = rn(r, 5);
  c->p[2] = rnd(r);
  int w[NOPS] = { 30, 20, 15, 1, 2, 30, 20, 15, 1, 2, 2, 6, 6, 2, 1, 1 };
  for (int i = 0; i < NOPS; i++) if (rn(r, 6) == 0) w[i] = 0;
  int bias = rn(r, 3);
  if (bias == 0) { w[ADD] *= 3; w[SADD] *= 3; }
  if (bias == 1) { w[REMOVE] *= 2; w[SREMOVE] *= 2; }
  int tot = 0;
  for (int i = 0; i < NOPS; i++) tot += w[i];
  size_t n = 10 + rn(r, 40) * rn(r, 40);
  for (size_t i = 0; i < n && tot; i++) {
    int x = rn(r, tot), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rn(r, 1 << 20), rn(r, 1 << 20), rn(r, 1 << 20), 0);
  }
}
static uintptr_t keys[MAXK]; static size_t nkeys;
static uintptr_t mval[MAXK]; static uint8_t min_[MAXK], sin_[2][MAXK];
static int seen[MAXK];
static void mkkeys(struct ucase *c) {
  nkeys = c->p[0] ? c->p[0] : 1;
  if (nkeys > MAXK) nkeys = MAXK;
  struct rng r = { c->p[2] };
  for (size_t i = 0; i < nkeys; i++) {
    switch (c->p[1] % 5) {
    case 0: keys[i] = 0x7f0000000000 + i * 8192; break;                // pages
    case 1: keys[i] = 0x7f0000000000 + i * 16 + (c->p[2] & 0xffff0); break;
    case 2: keys[i] = unhash_address((uintptr_t)(i % 17) + ((uintptr_t)(i / 17) << 12)); break; // collide
    case 3: keys[i] = unhash_address(~(uintptr_t)0 - (i % 5) - ((uintptr_t)(i / 5) << 13)); break; // wrap
    default: keys[i] = rnd(&r) & ~7ull; break;
    }
    for (size_t j = 0; j < i && nkeys <= 600; j++)
      if (keys[j] == keys[i]) keys[i] += 0x100000000000ull + i * 4096, j = -1;
  }
}
static size_t keyidx(uintptr_t k) {
  for (size_t i = 0; i < nkeys; i++) if (keys[i] == k) return i;
  ufail("iteration yielded address %zx, which is not a member", (size_t)k);
}
static size_t nseen;
static void visit_map(uintptr_t k, uintptr_t v, void *data) {
  size_t i = keyidx(k);
  if (!min_[i]) ufail("map iteration yielded removed address");
  if (mval[i] != v) ufail("map iteration: value %zx, expected %zx", (size_t)v, (size_t)mval[i]);
  if (seen[i]++) ufail("map iteration yielded an address twice");
  nseen++;
}
static void visit_set(uintptr_t k, void *data) {
  uint8_t *in = data;
  size_t i = keyidx(k);
  if (!in[i]) ufail("set iteration yielded removed address");
  if (seen[i]++) ufail("set iteration yielded an address twice");
  nseen++;
}
static int nfind;
static int find_cb(uintptr_t k, void *data) { *(uintptr_t*)data = k; nfind++; return 1; }

#define EXTN 512
static uint8_t ext[EXTN];
static void urun(struct ucase *c) {
  mkkeys(c);
  size_t before = allocated();
  size_t most[3] = { 0, 0, 0 };
  memset(min_, 0, sizeof min_); memset(sin_, 0, sizeof sin_); memset(ext, 0, sizeof ext);
  struct address_map map; struct address_set set[2];
  address_map_init(&map); address_set_init(&set[0]); address_set_init(&set[1]);
  struct extents *extents = extents_allocate(c->p[2] % 3);
  uintptr_t extbase = 0x10000000;
  size_t removals = 0, maxn = 0, nm = 0;
  for (size_t n = 0; n < c->n; n++) {
    struct uop *op = &c->ops[n];
    size_t i = op->a % nkeys; uintptr_t k = keys[i];
    int s = op->b & 1;
    switch (op->code) {
    case ADD:
      address_map_add(&map, k, op->b); nm += !min_[i]; min_[i] = 1; mval[i] = op->b; break;
    case REMOVE:
      if (!min_[i]) break;
      address_map_remove(&map, k); min_[i] = 0; removals++; nm--; break;
    case LOOKUP: {
      int has = address_map_contains(&map, k);
      if (!!has != min_[i]) ufail("map contains(%zx) is %d, expected %d", (size_t)k, has, min_[i]);
      uintptr_t v = address_map_lookup(&map, k, 0xdead);
      uintptr_t want = min_[i] ? mval[i] : 0xdead;
      if (v != want) ufail("map lookup(%zx) is %zx, expected %zx", (size_t)k, (size_t)v, (size_t)want);
      break;
    }
    case CLEAR: address_map_clear(&map); memset(min_, 0, sizeof min_); nm = 0; break;
    case FILL:
      for (size_t j = 0; j < nkeys; j++) if ((j * 7 + op->b) % 3) {
        address_map_add(&map, keys[j], j); min_[j] = 1; mval[j] = j; }
      break;
    case DRAIN:
      for (size_t j = 0; j < nkeys; j++) if (min_[j] && (j + op->b) % 5) {
        address_map_remove(&map, keys[j]); min_[j] = 0; removals++; }
      break;
    case ITER: {
      memset(seen, 0, sizeof seen); nseen = 0;
      address_map_for_each(&map, visit_map, NULL);
      size_t want = 0;
      for (size_t j = 0; j < nkeys; j++) want += min_[j];
      if (nseen != want) ufail("map iteration yielded %zu addresses, expected %zu", nseen, want);
      if (want > maxn) maxn = want;
      break;
    }
    case SADD: address_set_add(&set[s], k); sin_[s][i] = 1; break;
    case SREMOVE:
      if (!sin_[s][i]) break;
      address_set_remove(&set[s], k); sin_[s][i] = 0; removals++; break;
    case SHAS: {
      int has = address_set_contains(&set[s], k);
      if (!!has != sin_[s][i]) ufail("set contains(%zx) is %d, expected %d", (size_t)k, has, sin_[s][i]);
      break;
    }
    case SCLEAR: address_set_clear(&set[s]); memset(sin_[s], 0, sizeof sin_[s]); break;
    case SITER: {
      memset(seen, 0, sizeof seen); nseen = 0;
      address_set_for_each(&set[s], visit_set, sin_[s]);
      size_t want = 0;
      for (size_t j = 0; j < nkeys; j++) want += sin_[s][j];
      if (nseen != want) ufail("set iteration yielded %zu addresses, expected %zu", nseen, want);
      break;
    }
    case FIND: {
      uintptr_t found = 0; nfind = 0;
      address_set_find(&set[s], find_cb, &found);
      size_t want = 0;
      for (size_t j = 0; j < nkeys; j++) want += sin_[s][j];
      if (!!want != nfind) ufail("set find found %zx in a set of %zu", (size_t)found, want);
      if (nfind && !sin_[s][keyidx(found)]) ufail("set find found a non-member");
      break;
    }
    case UNION:
      address_set_union(&set[s], &set[!s]);
      for (size_t j = 0; j < nkeys; j++) sin_[s][j] |= sin_[!s][j];
      break;
    case ADJOIN: {
      // A run of free units, as given by an allocator of slabs.
      size_t lo = op->a % EXTN, len = 1 + op->c % 6, j = lo;
      while (j < EXTN && j < lo + len && !ext[j]) j++;
      if (j == lo) break;
      extents = extents_adjoin(extents, (void*)(extbase + lo * 64), (j - lo) * 64);
      memset(ext + lo, 1, j - lo);
      break;
    }
    case EXTHAS: {
      // Test all boundaries.
      for (size_t j = 0; j < EXTN; j++) {
        static const int offs[] = { 0, 1, 31, 63 };
        for (int o = 0; o < 4; o++) {
          int has = extents_contain_addr(extents, extbase + j * 64 + offs[o]);
          if (!!has != ext[j]) ufail("extents contain unit %zu offset %d: %d, expected %d", j, offs[o], has, ext[j]);
        }
      }
      if (extents_contain_addr(extents, extbase - 1) || extents_contain_addr(extents, extbase + EXTN * 64)
          || extents_contain_addr(extents, 0))
        ufail("extents contain an address outside all ranges");
      break;
    }
    }
    // What the tables occupy follows what they have held.
    size_t ns[3] = { 0, 0, 0 };
    for (size_t j = 0; j < nkeys; j++) { ns[0] += min_[j]; ns[1] += sin_[0][j]; ns[2] += sin_[1][j]; }
    for (int s = 0; s < 3; s++) if (ns[s] > most[s]) most[s] = ns[s];
    size_t now = allocated() - before, bound = 128 * (most[0] + most[1] + most[2]) + EXTN * 64 + 8192;
    if (allocated() > before && now > bound)
      ufail("tables of up to %zu, %zu and %zu addresses occupy %zu bytes", most[0], most[1], most[2], now);
  }
  // Final full comparison.
  for (size_t j = 0; j < nkeys; j++) {
    if (!!address_map_contains(&map, keys[j]) != min_[j]) ufail("final: map contains(%zx) wrong", (size_t)keys[j]);
    if (min_[j] && address_map_lookup(&map, keys[j], 0) != mval[j]) ufail("final: map value wrong");
    for (int s = 0; s < 2; s++)
      if (!!address_set_contains(&set[s], keys[j]) != sin_[s][j]) ufail("final: set contains wrong");
  }
  address_map_destroy(&map); address_set_destroy(&set[0]); address_set_destroy(&set[1]);
  free(extents);
  if (allocated() > before) ufail("%zu bytes are left over after the tables were destroyed", allocated() - before);
  if (removals >= 3) NONTRIVIAL();
  USTAT(0, removals);
}
