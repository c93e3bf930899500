/* Companion translation unit of generated programs; compiled once, never mutated. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vt.h"
static long budget = 6000;
static int nested;
static void spend(void) {
  if (--budget < 0 && !nested) { nested = 1; printf("FUEL\n"); fflush(stdout); _Exit(77); }
}
void fuel(void) { spend(); }
void ev(int k) { spend(); printf("e%d\n", k); }
void out_i(int k, long long v) { spend(); printf("i%d=%lld\n", k, v); }
void out_u(int k, unsigned long long v) { spend(); printf("u%d=%llu\n", k, v); }
void out_f(int k, double v) { spend(); if (v != v) printf("f%d=nan\n", k); else printf("f%d=%a\n", k, v); }
void out_l(int k, long double v) { spend(); if (v != v) printf("l%d=nan\n", k); else printf("l%d=%La\n", k, v); }
int side(int k, int v) { spend(); printf("s%d:%d\n", k, v); return v; }
long long sidel(int k, long long v) { spend(); printf("sl%d:%lld\n", k, v); return v; }
unsigned sideu(int k, unsigned v) { spend(); printf("su%d:%u\n", k, v); return v; }
double sided(int k, double v) { spend(); if (v != v) printf("sd%d:nan\n", k); else printf("sd%d:%a\n", k, v); return v; }
/* Monitors: each distinct (file, id) is written out once, at once, to the file named by VT_HITS. */
#include <fcntl.h>
#include <unistd.h>
#define VT_CAP (1 << 17)
static unsigned char hit_seen[8][VT_CAP / 8];
void vt_hit(int file, int id) {
  static int fd = -2;
  if (fd == -2) { const char* p = getenv("VT_HITS"); fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1; }
  if (fd < 0) return;
  if (id >= 0 && id < VT_CAP && file >= 0 && file < 8) {
    if (hit_seen[file][id >> 3] & (1 << (id & 7))) return;
    hit_seen[file][id >> 3] |= (unsigned char)(1 << (id & 7));
  }
  char b[40];
  int n = snprintf(b, sizeof b, "%d %d\n", file, id);
  if (write(fd, b, (size_t)n) != n) _Exit(78);
}
void vt_reach(int id) { vt_hit(0, id); }
static int seed = 1;
int vt_input(int k) {
  spend();
  unsigned x = (unsigned)seed * 2654435761u + (unsigned)k * 40503u;
  x ^= x >> 13; x *= 0x5bd1e995u; x ^= x >> 15;
  return (int)(x % 41u) - 20;
}
int main(int argc, char** argv) {
  if (argc > 1) seed = atoi(argv[1]);
  static char buf[1 << 18];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  vt_main();
  printf("END\n");
  fflush(stdout);
  return 0;
}
