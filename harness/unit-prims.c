// The searches the collectors are built on, against their definitions: scans of
// side-metadata bytes, size classes of the free lists, and the splay tree that
// finds the interval an address falls into.
#include "unit.h"
#include <assert.h>
#define GC_IMPL 1
#include "gc-assert.h"
#include "swar.h"
#include "freelist.h"

struct span { uintptr_t addr; size_t size; };
struct spval { uint64_t id; };
#define SPLAY_TREE_PREFIX sp_
typedef struct span sp_key_span;
typedef uintptr_t sp_key;
typedef struct spval sp_value;
static inline int sp_compare(uintptr_t addr, struct span s) {
  if (addr < s.addr) return -1;
  if (addr - s.addr < s.size) return 0;
  return 1;
}
static inline uintptr_t sp_span_start(struct span s) { return s.addr; }
#include "splay-tree.h"

struct fnode { struct fnode *next; uint64_t size; };
DEFINE_FREELIST(fl, sizeof(uintptr_t) * 8 - 1, 2, struct fnode*);
DEFINE_FREELIST(fs, 20, 4, struct fnode*);

static const char *uop_names[] = { "BITS", "TAG", "TAGS", "CLASS", "INSERT", "REMOVE", "LOOKUP",
                                   "SWEEP" };
enum { BITS, TAG, TAGS, CLASS, INSERT, REMOVE, LOOKUP, SWEEP, NOPS };
static const size_t uop_count = NOPS;

static void ugen(struct rng *r, struct ucase *c) {
  static const int w1[] = { 5, 5, 5, 5, 0, 0, 0, 0 }, w2[] = { 1, 1, 1, 1, 20, 12, 20, 2 };
  int tree = rn(r, 2);
  const int *w = tree ? w2 : w1;
  int sum = 0;
  for (int i = 0; i < NOPS; i++) sum += w[i];
  c->p[0] = 1 + rn(r, 300);        // slots of the tree
  c->p[1] = rn(r, 4);              // density of the bytes
  size_t n = tree ? 1 + rn(r, 600) : 1 + rn(r, 60);
  for (size_t i = 0; i < n; i++) {
    int x = rn(r, sum), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), rnd(r), rnd(r));
  }
}

static uint8_t buf[8192] __attribute__((aligned(64)));
static int dens;
static void fill(uint64_t seed, uint8_t also) {
  struct rng r = { seed };
  static const int dn[] = { 2, 20, 400, 4000 };
  int noise = rn(&r, 2);
  for (size_t i = 0; i < sizeof buf; i++) {
    buf[i] = rn(&r, dn[dens]) == 0 ? rnd(&r) : noise ? (uint8_t)(rnd(&r) & also) : 0;
  }
}

#define SLOT 64
static void check_tree(struct sp_tree *t, uint8_t *sz, uint64_t *id, size_t n, uintptr_t base,
                       uintptr_t addr) {
  struct sp_node *node = sp_tree_lookup(t, addr);
  size_t i = (addr - base) / SLOT;
  int want = addr >= base && i < n && sz[i] && (addr - base) % SLOT < sz[i];
  if (!!node != want) ufail("interval lookup of %zx: %d, expected %d", (size_t)addr, !!node, want);
  if (!!sp_tree_contains(t, addr) != want) ufail("tree contains(%zx) is not %d", (size_t)addr, want);
  if (node && (node->key.addr != base + i * SLOT || node->key.size != sz[i] || node->value.id != id[i]))
    ufail("interval lookup of %zx found another interval", (size_t)addr);
}
static size_t count_nodes(struct sp_node *root) {
  // Iteratively: a splay tree may be deep.
  struct sp_node *stack[1024]; size_t sp = 0, count = 0;
  if (root) stack[sp++] = root;
  while (sp) {
    struct sp_node *n = stack[--sp];
    if (++count > 10000) ufail("the tree is not a tree");
    if (n->left) {
      if (n->left->key.addr >= n->key.addr) ufail("left child is not smaller");
      stack[sp++] = n->left;
    }
    if (n->right) {
      if (n->right->key.addr <= n->key.addr) ufail("right child is not larger");
      stack[sp++] = n->right;
    }
  }
  return count;
}

#define CHECK_CLASS(name, prec)                                                               \
  do {                                                                                        \
    size_t k = name##_size_class(v), nk = name##_num_size_classes();                          \
    if (k >= nk) ufail("size class of %" PRIu64 " out of range", v);                          \
    if (name##_bucket_min_val(k) > v)                                                         \
      ufail("size %" PRIu64 " is below its class %zu", v, k);                                 \
    if (k + 1 < nk && name##_bucket_min_val(k + 1) <= v)                                      \
      ufail("size %" PRIu64 " belongs to a class above %zu", v, k);                           \
    if (name##_size_class(name##_bucket_min_val(k)) != k && k + 1 < nk)                       \
      ufail("the least size of class %zu is not in it", k);                                   \
    if (v2 >= v && name##_size_class(v2) < k)                                                 \
      ufail("size %" PRIu64 " has a smaller class than %" PRIu64, v2, v);                     \
    if (k + 1 < nk && ((name##_bucket_min_val(k + 1) - name##_bucket_min_val(k)) << prec) >   \
          name##_bucket_min_val(k) + (1u << prec))                                            \
      ufail("size class %zu is too wide", k);                                                 \
    if (name##_bucket(&f_##name, v) != &f_##name.buckets[k])                                  \
      ufail("bucket of %" PRIu64 " is not that of its class", v);                             \
  } while (0)
static struct fl f_fl;
static struct fs f_fs;

static void urun(struct ucase *c) {
  size_t n = c->p[0];
  if (n > 300 || !n) n = 300;
  dens = c->p[1] & 3;
  struct sp_tree tree;
  sp_tree_init(&tree);
  static uint8_t sz[300]; static uint64_t id[300];
  memset(sz, 0, sizeof sz);
  uintptr_t base = 0x7f0000100000;
  size_t live = 0, hits = 0, removed = 0;
  uint64_t next = 1;
  fl_init(&f_fl);
  for (size_t i = 0; i < fl_num_size_classes(); i++)
    if (f_fl.buckets[i]) ufail("bucket %zu is not empty at first", i);
  for (size_t i = 0; i < c->n; i++) {
    struct uop *op = &c->ops[i];
    switch (op->code) {
    case BITS: case TAG: case TAGS: {
      struct rng r = { op->a };
      uint8_t mask, t1 = 0, t2 = 0;
      if (op->code == BITS) {
        mask = 1 << (op->b % 8);
        if (op->b & 256) mask |= op->b >> 16;
        fill(op->a, ~mask);
      } else {
        mask = (1 << (1 + op->b % 7)) - 1;
        t1 = 1 + (op->b >> 8) % mask;
        t2 = 1 + (op->b >> 24) % mask;
        fill(op->a, ~mask & 0xff);
        // Near misses.
        if (op->c & 1)
          for (int k = 0; k < 20; k++) buf[rn(&r, sizeof buf)] = (t1 ^ (1 << rn(&r, 8)));
        if (op->c & 2)
          for (int k = 0; k < 4; k++) buf[rn(&r, sizeof buf)] = (t1 | (rnd(&r) & ~mask));
        if (op->c & 4)
          for (int k = 0; k < 4; k++) buf[rn(&r, sizeof buf)] = (t2 | (rnd(&r) & ~mask));
      }
      for (int k = 0; k < 32; k++) {
        size_t off = rn(&r, 4000), limit = rn(&r, k & 1 ? 40 : 4000), got, want;
        for (want = 0; want < limit; want++) {
          uint8_t b = buf[off + want];
          if (op->code == BITS ? (b & mask) != 0 : op->code == TAG ? (b & mask) == t1
              : ((b & mask) == t1 || (b & mask) == t2)) break;
        }
        got = op->code == BITS ? scan_for_byte_with_bits(buf + off, limit, mask)
          : op->code == TAG ? scan_for_byte_with_tag(buf + off, limit, mask, t1)
          : scan_for_byte_with_tags(buf + off, limit, mask, t1, t2);
        if (want < limit ? got != want : got < limit)
          ufail("%s: scan of %zu bytes at %zu found %zu, expected %zu", uop_names[op->code], limit, off, got, want);
        hits += want < limit && want > 0;
      }
      break;
    }
    case CLASS: {
      uint64_t v = op->a >> (op->b % 64), v2 = op->c >> (op->d % 64);
      if ((op->b >> 10) % 3 == 0) v = (1ull << (op->b % 63)) - (op->b >> 20) % 2;
      v >>= 1; v2 >>= 1;
      CHECK_CLASS(fl, 2);
      v &= 0xfffffff; v2 &= 0xfffffff;
      CHECK_CLASS(fs, 4);
      hits++;
      break;
    }
    case INSERT: {
      size_t k = op->a % n;
      if (sz[k]) {
        // Again, with another value.
        id[k] = next++;
        struct sp_node *node = sp_tree_insert(&tree, (struct span){ base + k * SLOT, sz[k] },
                                              (struct spval){ id[k] });
        if (!node || node->key.addr != base + k * SLOT || node->value.id != id[k]) ufail("update returned another node");
        break;
      }
      sz[k] = 1 + op->b % SLOT; id[k] = next++;
      struct sp_node *node = sp_tree_insert(&tree, (struct span){ base + k * SLOT, sz[k] },
                                            (struct spval){ id[k] });
      if (!node || node->key.addr != base + k * SLOT || node->value.id != id[k]) ufail("insert returned another node");
      live++;
      break;
    }
    case REMOVE: {
      size_t k = op->a % n;
      for (size_t j = 0; j < n && !sz[k]; j++) k = (k + 1) % n;
      if (!sz[k]) break;
      // By any address within.
      struct spval v = sp_tree_remove(&tree, base + k * SLOT + op->b % sz[k]);
      if (v.id != id[k]) ufail("removed another interval");
      sz[k] = 0; live--; removed++;
      break;
    }
    case LOOKUP: {
      uintptr_t addr = base + (op->a % n) * SLOT;
      check_tree(&tree, sz, id, n, base, addr + op->b % SLOT);
      check_tree(&tree, sz, id, n, base, addr);
      if (sz[op->a % n]) {
        check_tree(&tree, sz, id, n, base, addr + sz[op->a % n] - 1);
        check_tree(&tree, sz, id, n, base, addr + sz[op->a % n]);
      }
      if (op->d % 4 == 0) {
        // The root's predecessor is the interval before it.
        struct sp_node *node = sp_tree_lookup(&tree, addr);
        if (node) {
          struct sp_node *prev = sp_tree_previous(node);
          size_t j = op->a % n;
          while (j && !sz[j - 1]) j--;
          if (j ? !prev || prev->key.addr != base + (j - 1) * SLOT : !!prev) ufail("wrong predecessor of interval %zu", (size_t)(op->a % n));
        }
      }
      if (op->c % 16 == 0) {
        check_tree(&tree, sz, id, n, base, base - 1);
        check_tree(&tree, sz, id, n, base, base + n * SLOT + op->b % 99999);
      }
      break;
    }
    case SWEEP:
      if (count_nodes(tree.root) != live) ufail("the tree has %zu intervals, expected %zu", count_nodes(tree.root), live);
      break;
    }
  }
  for (size_t k = 0; k < n; k++) check_tree(&tree, sz, id, n, base, base + k * SLOT);
  if (count_nodes(tree.root) != live) ufail("the tree has lost or gained intervals");
  if (hits >= 20 || removed >= 3) NONTRIVIAL();
}
