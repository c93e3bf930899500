#include "vt.h"
/* no shared state: every thread must see the same */
static int mix(int a, int b) {
  int r = a * 31 + b;
  if (r > 100 || b == 3) r -= 57;
  while (r > 500) r /= 2;
  return r ^ (a & 7);
}
static unsigned long fold(unsigned seed, int n) {
  unsigned long h = 5381;
  for (int i = 0; i < n; i++) { fuel(); h = h * 33 + (seed >> 3); h &= 0xffffff; seed = seed * 7 + 1; if (i > 99) break; }
  return h;
}
static double poly(double x) { double r = 1.0; r += x * 2.5; r *= x - 1.0; return r > 0.0 ? r : -r; }
void vt_main(void) {
  int acc = 0;
  for (int i = 0; i < 12; i++) { acc += mix(i, acc); fuel(); out_i(1, acc); }
  out_u(2, fold(77u, 16));
  out_i(3, (long long)(poly(acc % 13) * 8.0));
  switch (acc % 3) { case 0: out_i(4, acc); break; case 1: out_i(5, -acc); break; default: out_i(6, acc + 1); }
  int k = 5;
  do { k--; out_i(7, k << 1 | 1); } while (k && !(acc < k));
}
