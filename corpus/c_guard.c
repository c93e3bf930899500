/* Operands whose evaluation another operand guards. */
#include "vt.h"
#define NIL 0
struct in { int r; unsigned u : 5; float f; };
struct s { int v; _Bool b; double d; long l; struct in q; struct s *next; int a[4]; const int *cp; volatile int w; char c; unsigned long long z; };
static struct s tail, head;
static int arr[5] = {3, 1, 4, 1, 5};
/* The left operand guards the evaluation of the right one. */
static int ptrs(struct s *p) {
  int n = 0;
  if (p && p->b) n += 1;
  if (!p || p->v) n += 2;
  if (p != 0 && (p->d)) n += 4;
  if (p && p->l > 2) n += 8;
  if (!p || p->l < 2) n += 16;
  if (p && p->q.r) n += 32;
  if (p && p->q.u) n += 64;
  if (p && p->q.f) n += 128;
  if (p && p->a[2]) n += 256;
  if (p && (*p).v) n += 512;
  if (p && p->w) n += 1024;
  if (p && p->c) n += 2048;
  if (!p || !p->z) n += 4096;
  if (p && -p->v) n += 8192;
  if (p && ~p->v) n += 16384;
  if (p && (int)p->d) n += 32768;
  return n;
}
static int chain(struct s *p) {
  int n = 0;
  if (p && p->next && p->next->b) n |= 1;
  if (!p || !p->next || p->next->v) n |= 2;
  if (p && (p->b || p->next->b)) n |= 4;
  if (p && p->cp && *p->cp) n |= 8;
  if (p && p->cp && p->cp[0]) n |= 16;
  while (p && p->v) { fuel(); n += p->v; p = p->next; }
  for (struct s *q = &head; q && q->l; q = q->next) { fuel(); n += 100; }
  do { fuel(); n += 1000; } while (p && p->v);
  return n;
}
static int deref(const int *p, const double *d, const _Bool *b, int **pp) {
  int n = 0;
  if (p && *p) n += 1;
  if (!p || *p) n += 2;
  if (d && *d) n += 4;
  if (b && *b) n += 8;
  if (pp && *pp && **pp) n += 16;
  if (p && p[0]) n += 32;
  if (p && *p > 1) n += 64;
  if (p && (*p, 1)) n += 128;
  if (p && (*p ? 1 : 0)) n += 256;
  if (d && *d * 2 > 3) n += 512;
  return n;
}
static int divs(int a, int b, unsigned u, long l) {
  int n = 0;
  if (b && a / b) n += 1;
  if (b && a % b) n += 2;
  if (!b || a / b > 1) n += 4;
  if (u && 7u / u) n += 8;
  if (l && l / b * 0 == 0) n += 16;
  if (b != 0 && !(a / b)) n += 32;
  if (b != 0 && -(a % b)) n += 64;
  return n + (b ? a / b : -1) + (u ? 9 / u : 5) + (b == 0 ? 0 : a % b);
}
static int index(int i) {
  int n = 0;
  if (i >= 0 && i < 5 && arr[i]) n += 1;
  if (i < 0 || i >= 5 || arr[i]) n += 2;
  if (i >= 0 && i < 5 && arr[i] > 2) n += 4;
  if (i >= 0 && i < 3 && arr[i] == arr[i + 2]) n += 8;
  for (int k = 0; k < 5 && arr[k]; k++) { fuel(); n += 16; }
  return n + (i >= 0 && i < 5 ? arr[i] : -7);
}
static int shifts(int s, unsigned v) {
  int n = 0;
  if (s >= 0 && s < 32 && v << s) n += 1;
  if (s < 0 || s > 31 || v >> s) n += 2;
  return n + (int)(s >= 0 && s < 32 ? v >> s : 1u);
}
static int tern(struct s *p, int b) {
  int n = p ? p->v : -1;
  n += p ? p->b : 3;
  n += p ? (int)p->d : 4;
  n += b ? 100 / b : 0;
  n += !p ? 0 : p->next ? p->next->v : 2;
  return n;
}
static int steps(int k) {
  int n = 0;
  if (side(1, k) && side(2, k - 1)) n += 1;
  if (side(3, k) || side(4, k - 1)) n += 2;
  if (side(5, k) && (side(6, 1) || side(7, 0)) && side(8, k)) n += 4;
  n += side(9, k) ? side(10, 1) : side(11, 2);
  n += (side(12, k), side(13, 3)) && side(14, 0);
  return n;
}
void vt_main(void) {
  int one = 1; int *po = &one; double d = 1.5, z = 0; _Bool t = 1, f = 0; int zero = 0;
  tail.v = vt_input(1) % 5; tail.b = 1; tail.cp = &one; tail.l = 0;
  head.v = vt_input(2) % 7 + 1; head.d = 2.5; head.l = 3; head.q.r = 2; head.q.u = 3; head.q.f = 0.5f; head.a[2] = 9; head.next = &tail; head.w = 1; head.c = 'x'; head.z = 1; head.cp = NIL;
  struct s *ps[3] = {&head, &tail, NIL};
  for (int i = 0; i < 3; i++) { out_i(1, ptrs(ps[i])); out_i(2, chain(ps[i])); out_i(3, tern(ps[i], i)); }
  out_i(4, deref(&one, &d, &t, &po)); out_i(4, deref(NIL, NIL, NIL, NIL)); out_i(4, deref(&zero, &z, &f, &po));
  for (int i = -2; i < 3; i++) { out_i(5, divs(7, i, (unsigned)(i < 0 ? 0 : i), i)); out_i(8, steps(i)); }
  for (int i = -2; i < 7; i++) out_i(6, index(i));
  for (int i = -1; i < 40; i += 8) out_i(7, shifts(i, 77u + (unsigned)vt_input(3) % 9u));
}
