// Operands whose evaluation another operand guards.
#include "vt.h"
#define NIL nullptr
struct in { int r; unsigned u : 5; float f; };
struct s { int v; bool b; double d; long l; struct in q; s *next; int a[4]; const int *cp; volatile int w; char c; unsigned long long z; };
static s tail, head;
static int arr[5] = {3, 1, 4, 1, 5};
/* The left operand guards the evaluation of the right one. */
static int ptrs(s *p) {
  int n = 0;
  if (p && p->b) n += 1;
  if (!p || p->v) n += 2;
  if (p != 0 && (p->d)) n += 4;
  if (p && p->l > 2) n += 8;
  if (!p || p->l < 2) n += 16;
  if (p && p->q.r) n += 32;
  if (p && p->q.u) n += 64;
  if (p && p->q.f) n += 128;
  if (p && p->a[2]) n += 256;
  if (p && (*p).v) n += 512;
  if (p && p->w) n += 1024;
  if (p && p->c) n += 2048;
  if (!p || !p->z) n += 4096;
  if (p && -p->v) n += 8192;
  if (p && ~p->v) n += 16384;
  if (p && (int)p->d) n += 32768;
  return n;
}
static int chain(s *p) {
  int n = 0;
  if (p && p->next && p->next->b) n |= 1;
  if (!p || !p->next || p->next->v) n |= 2;
  if (p && (p->b || p->next->b)) n |= 4;
  if (p && p->cp && *p->cp) n |= 8;
  if (p && p->cp && p->cp[0]) n |= 16;
  while (p && p->v) { fuel(); n += p->v; p = p->next; }
  for (s *q = &head; q && q->l; q = q->next) { fuel(); n += 100; }
  do { fuel(); n += 1000; } while (p && p->v);
  return n;
}
static int deref(const int *p, const double *d, const bool *b, int **pp) {
  int n = 0;
  if (p && *p) n += 1;
  if (!p || *p) n += 2;
  if (d && *d) n += 4;
  if (b && *b) n += 8;
  if (pp && *pp && **pp) n += 16;
  if (p && p[0]) n += 32;
  if (p && *p > 1) n += 64;
  if (p && (*p, 1)) n += 128;
  if (p && (*p ? 1 : 0)) n += 256;
  if (d && *d * 2 > 3) n += 512;
  return n;
}
static int divs(int a, int b, unsigned u, long l) {
  int n = 0;
  if (b && a / b) n += 1;
  if (b && a % b) n += 2;
  if (!b || a / b > 1) n += 4;
  if (u && 7u / u) n += 8;
  if (l && l / b * 0 == 0) n += 16;
  if (b != 0 && !(a / b)) n += 32;
  if (b != 0 && -(a % b)) n += 64;
  return n + (b ? a / b : -1) + (u ? 9 / u : 5) + (b == 0 ? 0 : a % b);
}
static int indexed(int i) {
  int n = 0;
  if (i >= 0 && i < 5 && arr[i]) n += 1;
  if (i < 0 || i >= 5 || arr[i]) n += 2;
  if (i >= 0 && i < 5 && arr[i] > 2) n += 4;
  if (i >= 0 && i < 3 && arr[i] == arr[i + 2]) n += 8;
  for (int k = 0; k < 5 && arr[k]; k++) { fuel(); n += 16; }
  return n + (i >= 0 && i < 5 ? arr[i] : -7);
}
static int shifts(int s, unsigned v) {
  int n = 0;
  if (s >= 0 && s < 32 && v << s) n += 1;
  if (s < 0 || s > 31 || v >> s) n += 2;
  return n + (int)(s >= 0 && s < 32 ? v >> s : 1u);
}
static int tern(s *p, int b) {
  int n = p ? p->v : -1;
  n += p ? p->b : 3;
  n += p ? (int)p->d : 4;
  n += b ? 100 / b : 0;
  n += !p ? 0 : p->next ? p->next->v : 2;
  return n;
}
static int steps(int k) {
  int n = 0;
  if (side(1, k) && side(2, k - 1)) n += 1;
  if (side(3, k) || side(4, k - 1)) n += 2;
  if (side(5, k) && (side(6, 1) || side(7, 0)) && side(8, k)) n += 4;
  n += side(9, k) ? side(10, 1) : side(11, 2);
  n += (side(12, k), side(13, 3)) && side(14, 0);
  return n;
}
struct B { int m; int n; virtual ~B() {} virtual int get() const { return m; } bool ok() const { return n; } explicit operator bool() const { return n; } operator int() const { return m; } };
struct C : B { int o; };
static int objs(B* p, const B* q, int B::*pm) {
  int k = 0;
  if (p && p->get()) k += 1;
  if (p && p->ok()) k += 2;
  if (p && p->*pm) k += 4;
  if (p && *p) k += 8;
  if (C* c = dynamic_cast<C*>(p); c && c->o) k += 16;
  if (q != nullptr && q->n) k += 32;
  if (!q || q->m) k += 64;
  if (q && static_cast<bool>(*q)) k += 128;
  const bool r = q && q->n, r2 = p and p->m, r3 = not p or p->n;
  const auto l = [&] { return p && p->m; };
  bool in[2] = {q && q->n, !q || q->m};
  return k + r * 1000 + r2 * 2000 + r3 * 4000 + l() * 8000 + in[0] * 16000 + in[1] * 32000 + (p ? p->m : 3);
}
template <class T> static int tmpl(const T* p, const T* e) {
  int k = 0;
  while (p != e && *p) { fuel(); k += 1; ++p; }
  if (p != e && p[0]) k += 100;
  return k + (p && *p) + (!p || *p);
}
static int own(int v) {
  struct H { int* p; int size; bool at(int i) const { return i < size && p[i]; } };
  H h{v > 2 ? new int[3]{v, 0, 1} : nullptr, v > 2 ? 3 : 0};
  int k = h.at(0) + h.at(1) * 2 + h.at(2) * 4 + h.at(3) * 8 + (h.p && h.p[2]) * 16 + (h.size && h.p[0]) * 32;
  delete[] h.p;
  h.p = nullptr;
  return k + (h.p && *h.p) + (h.p != nullptr && h.p[1]);
}
void vt_main(void) {
  C c; c.m = 3; c.n = 0; c.o = 1; B b; b.m = 0; b.n = 2;
  out_i(20, objs(&c, &b, &B::m)); out_i(20, objs(&b, &c, &B::n)); out_i(20, objs(nullptr, nullptr, &B::m));
  static const double dd[3] = {1.5, 2, 0.5}; static const short sh[3] = {2, 0, 1}; static const bool bb[2] = {true, true};
  out_i(21, tmpl(dd, dd + 2)); out_i(21, tmpl(sh, sh + 2)); out_i(21, tmpl(bb, bb + 1)); out_i(21, tmpl((int*)nullptr, (int*)nullptr));
  for (int i = 1; i < 5; i++) out_i(22, own(i));
  int one = 1; int *po = &one; double d = 1.5, z = 0; bool t = 1, f = 0; int zero = 0;
  tail.v = vt_input(1) % 5; tail.b = 1; tail.cp = &one; tail.l = 0;
  head.v = vt_input(2) % 7 + 1; head.d = 2.5; head.l = 3; head.q.r = 2; head.q.u = 3; head.q.f = 0.5f; head.a[2] = 9; head.next = &tail; head.w = 1; head.c = 'x'; head.z = 1; head.cp = NIL;
  s *ps[3] = {&head, &tail, NIL};
  for (int i = 0; i < 3; i++) { out_i(1, ptrs(ps[i])); out_i(2, chain(ps[i])); out_i(3, tern(ps[i], i)); }
  out_i(4, deref(&one, &d, &t, &po)); out_i(4, deref(NIL, NIL, NIL, NIL)); out_i(4, deref(&zero, &z, &f, &po));
  for (int i = -2; i < 3; i++) { out_i(5, divs(7, i, (unsigned)(i < 0 ? 0 : i), i)); out_i(8, steps(i)); }
  for (int i = -2; i < 7; i++) out_i(6, indexed(i));
  for (int i = -1; i < 40; i += 8) out_i(7, shifts(i, 77u + (unsigned)vt_input(3) % 9u));
}
