/* A program with threads, locks and atomics of its own. */
#include <pthread.h>
#include <stdatomic.h>
#include "vt.h"
#define N 6
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int locked_total, turn;
static atomic_int hits;
static _Atomic long spread = 3;
static volatile int flag_unshared;
static __thread int mine;
static int slot[N];
static int gcount;
static long work(int id) {
  long s = 0;
  for (int i = 0; i < 40; i++) {
    mine += i * id;
    s += mine % 7;
    atomic_fetch_add(&hits, 1);
    spread += 2;
    __atomic_fetch_add(&gcount, 1, __ATOMIC_RELAXED);
    pthread_mutex_lock(&mu);
    locked_total += i - 3;
    if (locked_total > 1000) locked_total -= 1000;
    pthread_mutex_unlock(&mu);
  }
  slot[id] = (int)(s + id);
  return s;
}
static void* run(void* a) {
  int id = *(int*)a;
  long s = work(id);
  pthread_mutex_lock(&mu);
  while (turn != id) pthread_cond_wait(&cv, &mu);
  out_i(10 + id, s);
  turn++;
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  return (void*)(s & 1 ? a : 0);
}
void vt_main(void) {
  pthread_t t[N];
  int ids[N];
  for (int i = 0; i < N; i++) { ids[i] = i; pthread_create(&t[i], 0, run, &ids[i]); }
  int odd = 0;
  for (int i = 0; i < N; i++) { void* r; pthread_join(t[i], &r); odd += r != 0; }
  flag_unshared = odd;
  out_i(1, locked_total); out_i(2, hits); out_i(3, spread); out_i(4, flag_unshared); out_i(5, gcount);
  for (int i = 0; i < N; i++) out_i(20 + i, slot[i]);
}
