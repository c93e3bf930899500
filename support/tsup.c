/* Threaded companion of sized programs: every thread runs vt_main with a trace of its own.
   argv: scenario, threads, seed.  Compiled without instrumentation-changing options of its own. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vt.h"
#define CAP (1 << 20)
struct log { char* p; size_t n; };
static __thread struct log* cur;
static __thread unsigned rnd;
static int jitter;
static void put(const char* s, size_t n) { if (cur && cur->n + n < CAP) { memcpy(cur->p + cur->n, s, n); cur->n += n; } }
static void pause_now(void) {
  if (!jitter) return;
  rnd = rnd * 1664525u + 1013904223u;
  unsigned x = rnd >> 24;
  if (x < 6) sched_yield();
  else if (x == 7) { struct timespec t = {0, 20000}; nanosleep(&t, 0); }
  else for (volatile unsigned i = 0; i < (x & 15); i++) { }
}
void ev(int k) { char b[24]; pause_now(); put(b, (size_t)snprintf(b, sizeof b, "e%d\n", k)); }
void fuel(void) { pause_now(); }
void out_i(int k, long long v) { char b[64]; put(b, (size_t)snprintf(b, sizeof b, "i%d=%lld\n", k, v)); }
void out_u(int k, unsigned long long v) { char b[64]; put(b, (size_t)snprintf(b, sizeof b, "u%d=%llu\n", k, v)); }
int side(int k, int v) { pause_now(); return v; }
static __thread int who;
int vt_input(int k) { return k + who; }
static pthread_barrier_t bar;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int serial, rounds = 1;
static struct log logs[64];
static unsigned seed;
static void finish(void) { put("END\n", 4); }
static void* body(void* a) {
  int i = (int)(intptr_t)a;
  who = 0;
  rnd = seed * 7919u + (unsigned)i * 104729u;
  pthread_barrier_wait(&bar);
  if (serial) {
    /* the first use in each thread happens alone */
    static __thread struct log none;
    pthread_mutex_lock(&mu);
    struct log* keep = cur; cur = &none; none.p = 0; none.n = CAP;
    vt_main();
    cur = keep;
    pthread_mutex_unlock(&mu);
  }
  cur = &logs[i];
  for (int r = 0; r < rounds; r++) vt_main();
  finish();
  cur = 0;
  return 0;
}
int main(int argc, char** argv) {
  const char* sc = argc > 1 ? argv[1] : "plain";
  int n = argc > 2 ? atoi(argv[2]) : 4;
  seed = argc > 3 ? (unsigned)atoi(argv[3]) : 1;
  jitter = strchr(sc, 'j') != 0;   /* delays */
  serial = strchr(sc, 's') != 0;   /* first use of each thread serialised */
  int before = strchr(sc, 'b') != 0;  /* main uses the code before starting threads */
  int after = strchr(sc, 'a') != 0;   /* main uses it while threads run, and a late thread follows */
  int total = n + (before || after) + (after ? 1 : 0);
  pthread_t t[64];
  for (int i = 0; i < total; i++) logs[i].p = malloc(CAP);
  pthread_barrier_init(&bar, 0, (unsigned)n);
  if (before) { cur = &logs[n]; vt_main(); finish(); cur = 0; }
  for (int i = 0; i < n; i++) if (pthread_create(&t[i], 0, body, (void*)(intptr_t)i)) return 3;
  if (after && !before) {
    if (serial) pthread_mutex_lock(&mu);
    cur = &logs[n]; vt_main(); finish(); cur = 0;
    if (serial) pthread_mutex_unlock(&mu);
  }
  for (int i = 0; i < n; i++) pthread_join(t[i], 0);
  if (after) {
    pthread_barrier_destroy(&bar);
    pthread_barrier_init(&bar, 0, 1);
    if (pthread_create(&t[0], 0, body, (void*)(intptr_t)(n + 1))) return 3;
    pthread_join(t[0], 0);
  }
  for (int i = 0; i < total; i++) { printf("T%d\n", i); fwrite(logs[i].p, 1, logs[i].n, stdout); free(logs[i].p); }
  return 0;
}
