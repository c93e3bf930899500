// Operators, conversions and statements of C in one place.
#include "vt.h"
typedef unsigned int u32;
typedef signed char i8;
enum Colour { RED, GREEN = 4, BLUE };
struct Pair { int a; long b; };
struct Bits { unsigned lo : 3; int mid : 5; unsigned hi : 24; _Bool flag : 1; };
union Mix { int i; unsigned u; float f; };
static int gcount;
static volatile int vglob = 3;
static const int cglob = 11;
int table[5] = {1, 2, 3, 4, 5};
static int bump(void) { return ++gcount; }
static struct Pair mk(int a, long b) { struct Pair p = {a, b}; return p; }
static int bits(int n) {
  struct Bits s = {1, -2, 77, 1};
  s.lo = n;
  s.lo += 2;
  s.mid -= n & 3;
  s.hi ^= 5u;
  s.lo++;
  --s.mid;
  s.flag = !s.flag;
  s.hi <<= 1;
  return s.lo + s.mid + (int)s.hi + s.flag + (s.lo && s.mid) + -s.mid;
}
static int pointers(int* p, int n) {
  int* q = p + n;
  int* z = 0;
  const char* str = "hello";
  int total = 0;
  while (p != q) total += *p++;
  if (!z) total += 1;
  if (z == 0 || *z) total += 2;
  if (p && q) total += (int)(q - p);
  q -= 1;
  total += *q + q[-1] + 1[q - 1] + str[1] + *(str + 2);
  (*q)++;
  *q += n;
  p = n > 2 ? q : z;
  return total + (p == q);
}
static int loops(int n) {
  int acc = 0, i, j = n;
  for (i = 0, j = 5; i < j; i++, j--) { fuel(); acc += i * j; }
  for (;;) { fuel(); if (acc-- <= 3) break; if (acc % 2) continue; acc -= 1; }
  do fuel(), acc++; while (acc < 10 && n-- > 0);
  while (n > 0) { fuel(); n--; }
  for (int k = 0; k < 3; ++k) for (int l = k; l < 3; ++l) { fuel(); acc += k ^ l; }
  return acc + i + j;
}
static int labels(int n) {
  int r = 0;
  if (n < 0) goto neg;
again:
  fuel();
  r += n;
  if (n-- > 0) goto again;
  goto done;
neg: r = -n;
done:
  return r;
}
static int sw(int n) {
  int r = 0;
  switch (n & 7) {
    case 0: r = 1; break;
    case 1:
    case 2: { int t = n + 1; r = t; } break;
    case 3 ... 4: r += 2;
    case GREEN + 1: r += 3; break;
    default: r = -1;
  }
  switch (n) default: r++;
  switch (n & 1) { case 1: if (n > 3) { case 0: r += 10; } else r += 20; }
  return r;
}
static long mixed(char c, short s, int i, long l, unsigned u, unsigned long ul, float f, double d) {
  long r = 0;
  r += c + s;
  r += i * (l | 1);
  r ^= (long)(u + i);
  r -= (long)(ul >> (s & 7));
  r += (long)(f * 2) + (long)(d / 4.0);
  c += 300;
  s *= 3;
  u -= 7;
  i = c = (char)s;
  f += i; d -= f; f++; --d;
  r += c + s + i + (long)u;
  r += (f < d) + (f != 0) + !d + !f + (i == u) + (l > ul);
  r += -c + ~s + -i + (long)~u + (long)-f;
  return r;
}
static int logic(int a, int b, double d) {
  int r = (a && b) + 2 * (a || b) + 4 * (a && d) + 8 * (d || !b);
  if (a && bump() || b && bump()) r += 16;
  if (!(a && b) || !d) r += 32;
  r += (a < b && b < 9) ? (a || d) : (a && (b || d));
  return r + (a ? b ? 1 : 2 : 3) + (a ?: 7);
}
static int comma(int a) { int b = (a++, a * 2); for (; b > 0; b -= 3, a++) fuel(); return (bump(), a) + b; }
static int sizes(int n) {
  int vla[(n & 3) + 2];
  int r = (int)sizeof(vla) + (int)sizeof(int[3]) + (int)sizeof n++ + (int)_Alignof(double) + (int)sizeof(int[(n & 3) + 1]);
  vla[0] = n; vla[1] = vla[0] + 1;
  int two[2][(n & 1) + 1];
  two[1][0] = 9; two[0][0] = 4;
  return r + vla[1] + two[1][0] - two[0][0] + (int)sizeof(two);
}
static int inits(int n) {
  struct Pair p = {.b = n + 1, .a = n * 2}, *pp = &p;
  int arr[4] = {[2] = n, 5}, *ap = (int[]){n, n + 1, n + 2};
  static int st = 4 + 3;
  static const double sd = 1.5 * 2;
  union Mix m = {.u = n};
  st += n;
  pp->a += 3; (*pp).b--;
  struct Pair q = mk(n - 1, n + 1);
  enum Colour col = n > 3 ? GREEN : BLUE;
  m.i++;
  return (int)(p.a + p.b + arr[2] + arr[3] + ap[1] + st + sd + m.i + q.a + q.b + mk(3, n).b + col + (col == BLUE));
}
static int fptr(int (*f)(int), int n) { return f(n) + (*f)(n + 1) + (f == labels) + !f; }
static void empties(int n) { ; ; {} if (n) ; else ; while (n-- > 0) fuel(); n; (void)n; 0; n + 1; }
static int volat(int n) { volatile int v = n; volatile unsigned char uc = 250; v += 2; uc += n; ++v; v--; vglob ^= v; return v + uc + vglob++ + cglob; }
static u32 typedefs(u32 a, i8 b) { a += b; b = (i8)(b - a); return a / 3 + (u32)b % 7 + (a < (u32)b); }
static int kr(a, b) int a; double b; { return a + (int)b; }
static int gen(int n) { return _Generic(n + 1, int: n * 2, default: 0) + _Generic((char)n, int: 5, char: n + 6); }
static long long wide(long long a, unsigned long long b, __int128 c) { c = c * a + 3; c >>= 2; c = -c; return (long long)(c % 1000) + (long long)(b / 3 - a) + (c < a); }
static double fl(float f, double d, long double l) { f *= 1.5f; d = f / 4 + l; l -= d; return (double)(l + f) - d * (f > d) + (l == d) + -l; }
static int bools(_Bool a, _Bool b) { _Bool c = a + b; c |= a; c &= b || a; c ^= 1; c = !c; return c + (a == b) * 2 + (a != b) * 4 + (a < b) * 8 + -a + ~b + (a && b); }
static int chars(char c, unsigned char u) { c++; u--; c = c - '0' + 'a'; u = u << 1 | 1; return c * u + (c > 'b') + "abc"[u & 1] + L'x' + u'y'; }
static int cond_lv(int a, int b) { int x = a, y = b; *(a > b ? &x : &y) += 5; (a ? x : y); return x * 3 + y; }
static int nested(int a) { a = a ? (a > 1 ? a - 1 : (a + 1) * 2) : -(-(a)); a = ((((a)))); a -= -1; a = - -a; a = !!a + ~~a; return a; }
static int many_decl(int n) { int a = n, b = a + 1, *p = &b, c[2] = {a, *p}; const int k = 3; return a + b + *p + c[0] + c[1] + k; }
static int ret_early(int n) { if (n > 5) return 1; else if (n > 2) return 2; { return n < 0 ? -n : n; } }
static void ret_void(int* n) { if (*n > 100) return; *n = *n + 1; return; }
inline static int inl(int a) { return a ^ 0x55; }
void vt_main(void) {
  for (int i = -3; i <= 9; i += 2) {
    fuel();
    int arr[6] = {i, 2, i * 2, 4, 5, 6};
    out_i(1, bits(i)); out_i(2, pointers(arr, 4)); out_i(3, loops(i)); out_i(4, labels(i)); out_i(5, sw(i));
    out_i(6, mixed((char)i, (short)(i * 3), i, i * 100L, (unsigned)i, (unsigned long)i, i * 0.5f, i * 1.25));
    out_i(7, logic(i, i - 1, i * 0.5)); out_i(8, comma(i)); out_i(9, sizes(i)); out_i(10, inits(i)); out_i(11, fptr(labels, i));
    empties(i); out_i(12, volat(i)); out_u(13, typedefs((u32)i, (i8)i)); out_i(14, kr(i, 2.5)); out_i(15, gen(i));
    out_i(16, wide(i, (unsigned long long)i, i * 7)); out_f(17, fl(i, i * 2.0, i * 0.25L)); out_i(18, bools(i > 0, i & 1));
    out_i(19, chars((char)(i + 60), (unsigned char)i)); out_i(20, cond_lv(i, 3)); out_i(21, nested(i)); out_i(22, many_decl(i));
    out_i(23, ret_early(i)); ret_void(&arr[1]); out_i(24, arr[1] + inl(i)); out_i(25, table[(unsigned)i % 5]);
  }
  out_i(26, gcount);
}
