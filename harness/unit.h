// Common driver of the model-based unit fuzzers.  A case is a parameter line
// and a list of operations; any subsequence of the operations is a case too.
#ifndef FZ_UNIT_H
#define FZ_UNIT_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <inttypes.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct rng { uint64_t s; };
static inline uint64_t rnd(struct rng *r) { return mix64(r->s++); }
static inline uint32_t rn(struct rng *r, uint32_t n) {
  return n ? (uint32_t)((rnd(r) >> 16) % n) : 0;
}

struct uop { unsigned code; uint64_t a, b, c, d; };
struct ucase { uint64_t seed; char profile[32]; uint64_t p[6]; size_t n, cap; struct uop *ops; };

static const char *uop_names[];
static const size_t uop_count;
static void ugen(struct rng *r, struct ucase *c);
static void urun(struct ucase *c);

// Shared with the parent.
struct ushared { uint64_t current, done, nontrivial, ops, stat[8]; int started; };
static struct ushared *ush;
static int ucase_nontrivial;
#define NONTRIVIAL() (ucase_nontrivial = 1)
#define USTAT(i, n) __atomic_fetch_add(&ush->stat[i], (n), __ATOMIC_RELAXED)

static void ufail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void ufail(const char *fmt, ...) {
  va_list ap;
  char buf[1024];
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fprintf(stderr, "\nFZFAIL: %s\n", buf);
  fflush(stderr);
  _exit(77);
}
static inline void uadd(struct ucase *c, unsigned code, uint64_t a, uint64_t b, uint64_t cc,
                        uint64_t d) {
  if (c->n == c->cap) {
    c->cap = c->cap ? c->cap * 2 : 64;
    c->ops = realloc(c->ops, c->cap * sizeof *c->ops);
  }
  c->ops[c->n++] = (struct uop){ code, a, b, cc, d };
}
static void umake(struct ucase *c, const char *profile, uint64_t seed) {
  memset(c, 0, sizeof *c);
  snprintf(c->profile, sizeof c->profile, "%s", profile);
  c->seed = seed;
  uint64_t ph = 0;
  for (const char *p = profile; *p; p++) ph = ph * 131 + *p;
  struct rng r = { mix64(seed ^ mix64(ph)) };
  ugen(&r, c);
}
static void uprint(FILE *f, struct ucase *c) {
  fprintf(f, "cfg seed=%" PRIu64 " profile=%s p=%" PRIu64 ",%" PRIu64 ",%" PRIu64 ",%" PRIu64
          ",%" PRIu64 ",%" PRIu64 "\n", c->seed, c->profile, c->p[0], c->p[1], c->p[2], c->p[3],
          c->p[4], c->p[5]);
  for (size_t i = 0; i < c->n; i++)
    fprintf(f, "0 %s %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 "\n",
            uop_names[c->ops[i].code], c->ops[i].a, c->ops[i].b, c->ops[i].c, c->ops[i].d);
}
static int uread(const char *file, struct ucase *c) {
  FILE *f = fopen(file, "r");
  if (!f) return 0;
  char line[512];
  memset(c, 0, sizeof *c);
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#' || line[0] == '\n') continue;
    if (!strncmp(line, "cfg ", 4)) {
      if (sscanf(line, "cfg seed=%" SCNu64 " profile=%31s p=%" SCNu64 ",%" SCNu64 ",%" SCNu64
                 ",%" SCNu64 ",%" SCNu64 ",%" SCNu64, &c->seed, c->profile, &c->p[0], &c->p[1],
                 &c->p[2], &c->p[3], &c->p[4], &c->p[5]) != 8) return 0;
      continue;
    }
    uint64_t a, b, cc, d; char name[32];
    if (sscanf(line, "%*u %31s %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64, name, &a, &b,
               &cc, &d) != 5) return 0;
    size_t k = 0;
    while (k < uop_count && strcmp(uop_names[k], name)) k++;
    if (k == uop_count) return 0;
    uadd(c, k, a, b, cc, d);
  }
  fclose(f);
  return 1;
}
static double unow(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void ujson(const char *s) {
  putchar('"');
  for (; *s; s++) {
    unsigned char ch = *s;
    if (ch == '"' || ch == '\\') printf("\\%c", ch);
    else if (ch == '\n') printf("\\n");
    else if (ch < 32 || ch > 126) printf(" ");
    else putchar(ch);
  }
  putchar('"');
}
static void uone(struct ucase *c) {
  ucase_nontrivial = 0;
  urun(c);
  ush->ops += c->n;
  ush->nontrivial += ucase_nontrivial;
}
// Run seeds [lo, hi) (or one given case) in a child process.  Returns 0, 1
// (failure), 2 (timeout) or 3 (killed).
static int ufork(struct ucase *one, const char *profile, uint64_t lo, uint64_t hi,
                 unsigned timeout, double deadline, char *msg, size_t len, int verbose) {
  static int fd = -1;
  if (fd < 0) fd = memfd_create("stderr", 0);
  if (ftruncate(fd, 0)) abort();
  lseek(fd, 0, SEEK_SET);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose) { dup2(fd, 2); dup2(fd, 1); }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    setpgid(0, 0);
    if (one) { alarm(timeout); uone(one); fflush(stdout); _exit(0); }
    for (uint64_t s = lo; s < hi; s++) {
      struct ucase c;
      ush->current = s;
      if (deadline && unow() > deadline) break;
      alarm(timeout);
      umake(&c, profile, s);
      uone(&c);
      ush->done++;
      free(c.ops);
    }
    fflush(stdout);
    _exit(0);
  }
  int status;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return 0;
  msg[0] = 0;
  if (!verbose) {
    off_t end = lseek(fd, 0, SEEK_END);
    off_t start = end > (off_t)len - 64 ? 0 : 0;
    lseek(fd, start, SEEK_SET);
    ssize_t n = read(fd, msg, len - 64);
    if (n < 0) n = 0;
    msg[n] = 0;
  }
  if (WIFSIGNALED(status)) {
    snprintf(msg + strlen(msg), 64, " [signal %d]", WTERMSIG(status));
    if (WTERMSIG(status) == SIGALRM) return 2;
    if (WTERMSIG(status) == SIGKILL) return 3;
  }
  return 1;
}
int main(int argc, char **argv) {
  ush = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  setvbuf(stdout, NULL, _IOLBF, 0);
  static char msg[4096];
  if (argc >= 7 && !strcmp(argv[1], "fuzz")) {
    uint64_t lo = strtoull(argv[3], NULL, 0), hi = lo + strtoull(argv[4], NULL, 0);
    unsigned timeout = atoi(argv[5]);
    double deadline = unow() + atof(argv[6]);
    while (lo < hi && unow() < deadline) {
      memset(ush, 0, sizeof *ush);
      double t0 = unow();
      int ret = ufork(NULL, argv[2], lo, hi, timeout, deadline, msg, sizeof msg, 0);
      if (ush->done || !ret) {
        printf("{\"seed\":%" PRIu64 ",\"ret\":0,\"batch\":%" PRIu64 ",\"nontrivial\":%" PRIu64
               ",\"ops\":%" PRIu64 ",\"t\":%.3f", lo, ush->done, ush->nontrivial, ush->ops,
               unow() - t0);
        for (int i = 0; i < 8; i++)
          if (ush->stat[i]) printf(",\"stat%d\":%" PRIu64, i, ush->stat[i]);
        printf("}\n");
      }
      if (ret) {
        printf("{\"seed\":%" PRIu64 ",\"ret\":%d,\"batch\":1,\"nontrivial\":0,\"msg\":", ush->current, ret);
        ujson(msg);
        printf("}\n");
        lo = ush->current + 1;
      } else
        lo = hi;
    }
    return 0;
  }
  if (argc >= 4 && !strcmp(argv[1], "gen")) {
    struct ucase c;
    umake(&c, argv[2], strtoull(argv[3], NULL, 0));
    uprint(stdout, &c);
    return 0;
  }
  if (argc >= 4 && !strcmp(argv[1], "run")) {
    struct ucase c;
    if (!uread(argv[2], &c)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    if (argc > 4 && argv[4][0] == 'd') { urun(&c); return 0; }
    int ret = ufork(&c, NULL, 0, 0, atoi(argv[3]), 0, msg, sizeof msg, argc > 4);
    printf("ret=%d %s\n", ret, msg);
    return ret;
  }
  return 2;
}
#endif
