// Case generators: one weighted operation table per profile.
struct wop { uint8_t code; uint16_t w; };
#define W(x, n) { OP_##x, n }
#define BASE_OPS                                                        \
  W(ALLOC, 60), W(SET, 30), W(SETNULL, 6), W(SETIMM, 4), W(GET, 14),    \
  W(DROP, 12), W(DROPMANY, 1), W(MOVE, 6), W(PAYLOAD, 5), W(GARBAGE, 8), \
  W(COLLECT, 6), W(VERIFY, 3), W(LIST, 3), W(WIDE, 2), W(TREE, 4),      \
  W(SAFEPOINT, 2), W(HRSET, 4), W(HRGET, 3), W(LARGE, 2), W(ACTR, 1),   \
  W(FILLYOUNG, 2), W(TICK, 3)
static const struct wop ops_graph[] = { BASE_OPS, W(EPH, 3), W(EPHPUSH, 3), W(EPHKEY, 1),
  W(FIN, 2), W(POPFIN, 1), W(NOGC, 1), W(UNTAGGED, 2), W(PIN, 1), W(OLDYOUNG, 1),
  W(FRAMEPUSH, 4), W(FRAMEPOP, 3), W(GSET, 2), W(CHURN, 1), W(LARGEGARBAGE, 1), {0, 0} };
static const struct wop ops_gen[] = { BASE_OPS, W(OLDYOUNG, 14), W(FILLYOUNG, 20),
  W(SET, 60), W(COLLECT, 20), W(GARBAGE, 10), W(WIDE, 4), W(LARGE, 6), W(EPHPUSH, 5),
  W(EPH, 3), W(FIN, 2), W(POPFIN, 2), W(LARGEGARBAGE, 1), W(CHURN, 1),
  W(FRAMEPUSH, 3), W(FRAMEPOP, 2), {0, 0} };
static const struct wop ops_eph[] = { BASE_OPS, W(EPH, 25), W(EPHPUSH, 50), W(EPHKEY, 10),
  W(EPHVAL, 10), W(EPHDEAD, 4), W(EPHWALK, 20), W(EPHMANY, 5), W(EPHGRAPH, 8),
  W(COLLECT, 20), W(DROP, 20), W(DROPMANY, 4), W(FIN, 3), W(POPFIN, 3), W(VERIFY, 4),
  W(GARBAGE, 5), {0, 0} };
static const struct wop ops_fin[] = { BASE_OPS, W(FIN, 60), W(FINMANY, 6), W(POPFIN, 25),
  W(EPH, 4), W(EPHPUSH, 4), W(EPHWALK, 2), W(COLLECT, 25), W(DROP, 30), W(DROPMANY, 6),
  W(VERIFY, 4), W(CBSET, 1), W(GARBAGE, 5), {0, 0} };
static const struct wop ops_pin[] = { BASE_OPS, W(PIN, 40), W(UNTAGGED, 6), W(COLLECT, 25),
  W(GARBAGE, 15), W(CHURN, 2), W(DROP, 10), W(LIST, 5), W(OLDYOUNG, 3), W(FILLYOUNG, 8),
  W(EPHPUSH, 2), {0, 0} };
static const struct wop ops_cons[] = { BASE_OPS, W(FRAMEPUSH, 25), W(FRAMEPOP, 20),
  W(GSET, 15), W(UNTAGGED, 15), W(COLLECT, 20), W(GARBAGE, 15), W(CHURN, 2), W(LARGE, 6),
  W(PIN, 2), W(EPH, 2), W(EPHPUSH, 2), W(LARGEGARBAGE, 1), W(REGS, 15), {0, 0} };
static const struct wop ops_ext[] = { BASE_OPS, W(EXT, 50), W(SET, 60), W(COLLECT, 20),
  W(EPHPUSH, 3), W(EPH, 2), W(DROP, 20), W(DROPMANY, 3), W(GARBAGE, 5), {0, 0} };
static const struct wop ops_large[] = { BASE_OPS, W(LARGE, 60), W(LARGEGARBAGE, 12),
  W(COLLECT, 20), W(OLDYOUNG, 2), W(FILLYOUNG, 8), W(DROP, 30), W(DROPMANY, 4),
  W(FRAMEPUSH, 8), W(FRAMEPOP, 6), W(EPHPUSH, 3), W(PIN, 2), {0, 0} };
static const struct wop ops_churn[] = { BASE_OPS, W(CHURN, 25), W(LARGEGARBAGE, 15),
  W(GARBAGE, 40), W(DROPMANY, 6), W(EPHMANY, 2), W(FINMANY, 1), W(POPFIN, 2),
  W(COLLECT, 4), W(LIST, 4), {0, 0} };
static const struct wop ops_mt[] = { BASE_OPS, W(GARBAGE, 16), W(SHSET, 40), W(SHGET, 30),
  W(SHFILL, 1), W(EPH, 5), W(EPHPUSH, 5), W(EPHWALK, 2), W(NOGC, 5), W(YIELD, 8), W(SPAWN, 4),
  W(JOIN, 1), W(COLLECT, 4), W(FINLEAF, 3), W(POPLEAF, 4), W(OLDYOUNG, 1), W(FILLYOUNG, 4),
  W(FRAMEPUSH, 4), W(FRAMEPOP, 3), W(UNTAGGED, 1), W(LARGEGARBAGE, 1), W(CHURN, 1),
  W(REGS, 4), W(STORM, 3), {0, 0} };
static const struct wop ops_events[] = { W(ALLOC, 20), W(SET, 8), W(DROP, 5), W(COLLECT, 20),
  W(GARBAGE, 30), W(SAFEPOINT, 5), W(NOGC, 12), W(SPAWN, 10), W(JOIN, 3), W(SHSET, 10),
  W(YIELD, 10), W(TICK, 4), W(CHURN, 3), W(LARGE, 3), W(LIST, 3), W(FIN, 2), W(POPFIN, 2),
  W(FINLEAF, 2), W(POPLEAF, 2), W(EPHPUSH, 2), W(VERIFY, 1), W(ACTR, 6), {0, 0} };

static const struct wop ops_foot[] = { W(ALLOC, 30), W(SET, 10), W(DROP, 10), W(DROPMANY, 8),
  W(COLLECT, 12), W(GARBAGE, 12), W(CHURN, 4), W(LARGE, 8), W(LARGEGARBAGE, 8), W(LGSWAP, 14),
  W(LIST, 6), W(WIDE, 3), W(TREE, 2), W(PIN, 2), W(OLDYOUNG, 1), W(FILLYOUNG, 2), W(EPHMANY, 1),
  W(TICK, 8), W(FOOT, 8), W(VERIFY, 2), W(GET, 3), W(FRAMEPUSH, 2), W(FRAMEPOP, 2), {0, 0} };

static const struct { const char *name; const struct wop *ops; } profiles[] = {
  { "graph", ops_graph }, { "gen", ops_gen }, { "eph", ops_eph }, { "fin", ops_fin },
  { "pin", ops_pin }, { "cons", ops_cons }, { "ext", ops_ext }, { "large", ops_large },
  { "churn", ops_churn }, { "mt", ops_mt }, { "events", ops_events },
  { "policy", ops_churn }, { "foot", ops_foot }, { "oom", ops_graph }, { NULL, NULL }
};

static void gen_case(struct cas *c, const char *profile, uint64_t seed) {
  memset(c, 0, sizeof *c);
  snprintf(c->profile, sizeof c->profile, "%s", profile);
  uint64_t ph = 0;
  for (const char *p = profile; *p; p++) ph = ph * 131 + *p;
  struct rng r = { mix64(seed ^ mix64(ph)) };
  c->seed = seed;
  const struct wop *ops = NULL;
  for (int i = 0; profiles[i].name; i++)
    if (!strcmp(profiles[i].name, profile)) ops = profiles[i].ops;
  if (!ops) { fprintf(stderr, "unknown profile %s\n", profile); exit(2); }
  int mt = !strcmp(profile, "mt");
  int oom = !strcmp(profile, "oom");
  int events = !strcmp(profile, "events"), policyp = !strcmp(profile, "policy");

  // Swarm testing: knock out some operations, boost one.
  uint32_t w[64]; uint8_t code[64]; int n = 0; uint32_t tot = 0;
  int boost = rn(&r, 3) == 0 ? (int)rn(&r, 40) : -1;
  for (; ops[n].w; n++) {
    code[n] = ops[n].code;
    w[n] = ops[n].w;
    if (code[n] != OP_ALLOC && rn(&r, 6) == 0) w[n] = 0;
    if (n == boost) w[n] *= 6;
    tot += w[n];
  }

  int threads = 1; // The semi-space collector supports but one mutator.
  if (mt) threads = 2 + rn(&r, 7);
  else if (events && rn(&r, 4)) threads = 2 + rn(&r, 4);
  if (oom && rn(&r, 3) == 0) threads = 1 + rn(&r, 4);
  if (IS_SEMI) threads = 1;
  c->nthreads = threads;
  c->evcheck = events || rn(&r, 4) == 0;

  static const uint32_t lives[] = { 128 << 10, 256 << 10, 512 << 10, 1 << 20, 2 << 20,
    4 << 20, 8 << 20, 24 << 20 };
  uint32_t li = rn(&r, 100);
  size_t live = lives[li < 20 ? 0 : li < 40 ? 1 : li < 60 ? 2 : li < 80 ? 3 : li < 92 ? 4
                      : li < 97 ? 5 : li < 99 ? 6 : 7];
  if (threads > 1 && live > (2u << 20)) live = 2 << 20;
  if (oom) live = lives[rn(&r, 4)];
  c->live = live;

  // Heap sizing.  Slack for per-thread allocation blocks, copy reserve and, for
  // conservative collectors, retention.
  double mult = 3.0 + rn(&r, 100) * 0.03;
  size_t slack = (4u << 20) + (size_t)(threads + 2) * (1u << 20);
  if (IS_SEMI) mult *= 2;
  if (IS_PCC) { mult *= 2; slack *= 2; }
  if (!PRECISE) { mult *= 1.5; }
  size_t heap = (size_t)(live * mult) * threads + slack;
  int policy = rn(&r, 10);
  if (oom) heap = (size_t)(live * (IS_PCC || IS_SEMI ? 6 : 3)) * threads + slack / 2 + rn(&r, 6u << 20);
  const char *pol = policy < 7 ? "fixed" : "growable";
  if (policyp) {
    int k = rn(&r, 3);
    pol = k == 0 ? "fixed" : "growable";
  }
  if (IS_SEMI && !strcmp(pol, "adaptive")) pol = "growable";
  int par = IS_SEMI ? 1 : 1 + rn(&r, 8);
  char *o = c->opts;
  if (!strcmp(pol, "fixed"))
    sprintf(o, "heap-size-policy=fixed,heap-size=%zu,parallelism=%d", heap, par);
  else if (!strcmp(pol, "growable")) {
    sprintf(o, "heap-size-policy=growable,heap-size=%zu,heap-size-multiplier=%.2f,parallelism=%d",
            policyp && rn(&r, 2) ? (size_t)(1 + rn(&r, 8)) << 20 :
            rn(&r, 2) ? heap / 2 + (1u << 20) : heap, 1.1 + rn(&r, 300) * 0.01, par);
  } else
    sprintf(o, "heap-size-policy=adaptive,heap-size=%zu,heap-expansiveness=%.2f,parallelism=%d",
            heap, 0.5 + rn(&r, 200) * 0.01, par);

  size_t nops = 20 + rn(&r, 60) * rn(&r, oom ? 10 : 40);
  if (threads > 1) nops = nops / 2 * threads;
  if (nops > 6000) nops = 6000;
  c->ops = malloc(nops * sizeof *c->ops);
  c->nops = nops;
  size_t fb = 0;
  for (size_t i = 0; i < nops; i++) {
    uint32_t x = rn(&r, tot);
    int k = 0;
    while (x >= w[k]) x -= w[k++];
    struct op *op = &c->ops[i];
    op->code = code[k];
    op->thread = rn(&r, threads);
    op->a = rn(&r, 1 << 20); op->b = rn(&r, 1 << 20);
    op->c = rn(&r, 1 << 20); op->d = rn(&r, 1 << 20);
    // Bound the cost of the expensive operations.
    if (op->code == OP_CHURN && fb++ > 6) op->code = OP_GARBAGE;
    if (threads > 1 && op->code == OP_COLLECT && rn(&r, 2)) op->code = OP_SAFEPOINT;
    // The last thing that each thread does is to fill the heap.
    if (oom && i + threads >= nops) {
      op->code = OP_HOARD;
      op->thread = nops - 1 - i;
    }
  }
}
