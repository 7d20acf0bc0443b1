// The background thread: every task runs once per period, in order of
// priority, until removed; nothing runs before the thread is started or after
// it is destroyed.  The clock is ours.
#include "unit.h"
#include <assert.h>
#define GC_IMPL 1
#include "gc-assert.h"

static pthread_mutex_t tl = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t tc = PTHREAD_COND_INITIALIZER;
static uint64_t periods_wanted, periods_done;
static int bg_waiting, bg_stop, stopping;
static struct timespec last_ts;
static int bad_period;
static pthread_mutex_t *bg_mutex;
static int fake_timedwait(pthread_cond_t *cond, pthread_mutex_t *mutex, const struct timespec *ts) {
  pthread_mutex_lock(&tl);
  if (last_ts.tv_sec && ts->tv_sec != last_ts.tv_sec + 1) bad_period = 1;
  last_ts = *ts;
  bg_waiting = 1;
  pthread_cond_broadcast(&tc);
  pthread_mutex_unlock(mutex);
  while (periods_done == periods_wanted && !bg_stop) pthread_cond_wait(&tc, &tl);
  if (periods_done < periods_wanted) periods_done++;
  bg_waiting = 0;
  pthread_mutex_unlock(&tl);
  pthread_mutex_lock(mutex);
  return ETIMEDOUT;
}
static int fake_signal(pthread_cond_t *cond) {
  // The waiter re-examines its state.
  int ret = pthread_cond_broadcast(cond);
  pthread_mutex_lock(&tl);
  if (stopping) bg_stop = 1;
  pthread_cond_broadcast(&tc);
  pthread_mutex_unlock(&tl);
  return ret;
}
#define pthread_cond_timedwait fake_timedwait
#define pthread_cond_signal fake_signal
#define pthread_cond_broadcast(c) fake_signal(c)
#include "background-thread.h"
#undef pthread_cond_timedwait
#undef pthread_cond_signal
#undef pthread_cond_broadcast

static const char *uop_names[] = { "ADD", "REMOVE", "PERIOD", "START", "RACE" };
enum { ADD, REMOVE, PERIOD, START, RACE, NOPS };
static const size_t uop_count = NOPS;
static void ugen(struct rng *r, struct ucase *c) {
  size_t n = 1 + rn(r, 60);
  for (size_t i = 0; i < n; i++) {
    static const int w[] = { 10, 5, 8, 1, 3 };
    int x = rn(r, 27), k = 0;
    while (x >= w[k]) x -= w[k++];
    uadd(c, k, rnd(r), rnd(r), 0, 0);
  }
}
#define MAXT 128
struct task { int id, prio, alive; uint64_t serial; };
static struct task tasks[MAXT];
static size_t ntasks;
static int runs[4096]; static size_t nruns;
static int started;
static void run_task(void *data) {
  if (!started) ufail("a task ran before the thread was started");
  if (nruns < 4096) runs[nruns++] = (struct task*)data - tasks;
}
static void urun(struct ucase *c) {
  ntasks = nruns = started = 0;
  periods_wanted = periods_done = 0; bg_waiting = bg_stop = stopping = bad_period = 0; last_ts.tv_sec = 0;
  struct gc_background_thread *t = gc_make_background_thread();
  size_t checked = 0, removed = 0;
  for (size_t i = 0; i <= c->n; i++) {
    struct uop end = { START }, *op = i < c->n ? &c->ops[i] : &end;
    switch (op->code) {
    case ADD: {
      if (ntasks == MAXT) break;
      static const int prios[] = { GC_BACKGROUND_TASK_START, GC_BACKGROUND_TASK_MIDDLE, GC_BACKGROUND_TASK_END };
      struct task *k = &tasks[ntasks];
      int prio = op->b % 4 ? prios[op->a % 3] : (int)(op->a % 400) - 100;
      *k = (struct task){ 0, prio, 1, ntasks };
      ntasks++;
      k->id = gc_background_thread_add_task(t, prio, run_task, k);
      for (size_t j = 0; j + 1 < ntasks; j++)
        if (tasks[j].id == k->id) ufail("task id %d given twice", k->id);
      break;
    }
    case REMOVE: {
      if (!ntasks) break;
      size_t j = op->a % ntasks, m = 0;
      while (m < ntasks && !tasks[j].alive) j = (j + 1) % ntasks, m++;
      if (!tasks[j].alive) break;
      gc_background_thread_remove_task(t, tasks[j].id);
      tasks[j].alive = 0; removed++;
      break;
    }
    case START: {
      if (started) break;
      started = 1;
      gc_background_thread_start(t);
      break;
    }
    case RACE: {
      // Tasks come while others run.
      if (!started) break;
      static uint32_t times[MAXT];
      size_t old = ntasks, np = 1 + op->a % 4, add = 1 + op->b % 6;
      pthread_mutex_lock(&tl);
      while (!bg_waiting) pthread_cond_wait(&tc, &tl);
      nruns = 0;
      periods_wanted += np;
      pthread_cond_broadcast(&tc);
      pthread_mutex_unlock(&tl);
      for (size_t j = 0; j < add && ntasks < MAXT; j++) {
        struct task *k = &tasks[ntasks];
        *k = (struct task){ 0, (int)(mix64(op->b + j) % 300), 1, ntasks };
        ntasks++;
        k->id = gc_background_thread_add_task(t, k->prio, run_task, k);
      }
      pthread_mutex_lock(&tl);
      while (!(bg_waiting && periods_done == periods_wanted)) pthread_cond_wait(&tc, &tl);
      pthread_mutex_unlock(&tl);
      memset(times, 0, sizeof times);
      for (size_t j = 0; j < nruns; j++) times[runs[j]]++;
      for (size_t j = 0; j < ntasks; j++)
        if (!tasks[j].alive ? times[j] : j < old ? times[j] != np : times[j] > np)
          ufail("a task ran %u times in %zu periods while others were added", times[j], np);
      break;
    }
    case PERIOD: {
      if (!started) break;
      int np = 1 + op->a % 3;
      for (int p = 0; p < np; p++) {
        nruns = 0;
        pthread_mutex_lock(&tl);
        while (!bg_waiting) pthread_cond_wait(&tc, &tl);
        periods_wanted++;
        pthread_cond_broadcast(&tc);
        while (!(bg_waiting && periods_done == periods_wanted)) pthread_cond_wait(&tc, &tl);
        pthread_mutex_unlock(&tl);
        size_t want = 0;
        for (size_t j = 0; j < ntasks; j++) want += tasks[j].alive;
        if (nruns != want) ufail("%zu tasks ran in a period, expected %zu", nruns, want);
        static uint8_t seen[MAXT];
        memset(seen, 0, sizeof seen);
        for (size_t j = 0; j < nruns; j++) {
          struct task *k = &tasks[runs[j]];
          if (!k->alive) ufail("a removed task ran");
          if (seen[runs[j]]++) ufail("a task ran twice in a period");
          if (j && tasks[runs[j - 1]].prio > k->prio)
            ufail("a task of priority %d ran after one of %d", k->prio, tasks[runs[j - 1]].prio);
        }
        checked += want;
      }
      break;
    }
    }
  }
  if (bad_period) ufail("the period is not a second");
  pthread_mutex_lock(&tl);
  while (!bg_waiting) pthread_cond_wait(&tc, &tl);
  stopping = 1; nruns = 0;
  pthread_mutex_unlock(&tl);
  gc_destroy_background_thread(t);
  if (nruns) ufail("a task ran when the thread was told to stop");
  if (checked >= 10 && removed) NONTRIVIAL();
}
