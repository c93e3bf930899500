// C++ expressions: references, lvalue results, conversions, temporaries.
#include "vt.h"
static int gcount;
static int& gref() { ev(500); return gcount; }
static int bump() { return ++gcount; }
struct P { int a; long b; unsigned f : 4; bool g : 1; volatile int v; const int c; mutable int m; };
static int id(const int& x) { return x + 1; }
static int rv(int&& x) { x += 2; return x; }
static int over(short) { return 1; }
static int over(int) { return 2; }
static int over(unsigned) { return 3; }
static int over(long) { return 4; }
static int over(double) { return 5; }
static int over(float) { return 6; }
static int over(bool) { return 7; }
static int over(char) { return 8; }
static int over(unsigned char) { return 9; }
static int ovl(int&) { return 1; }
static int ovl(const int&) { return 2; }
static int ovl(int&&) { return 3; }
static int lvals(int a, int b) {
  int x = a, y = b;
  (x += 2) += 3;
  ++(x = y);
  (a > b ? x : y) = 7;
  (a > b ? x : y)++;
  int& r = (x -= 1);
  r *= 2;
  int& r2 = ++y;
  r2 += 5;
  (x, y) = 4;
  ((x)) += 1;
  gref() += 2; gref()++; --gref(); gref() = gref() + 1;
  int* p = &(x += 1);
  *p += 1;
  const int& cr = x; const int& ct = x + y; int&& rr = x * 2;
  rr++;
  x = y = a;
  return x + y + r + r2 + cr + ct + rr + gcount;
}
static int temps(int a) { const int& t = a + 1; const double& d = a; auto&& u = a; auto&& w = a * 2; u++; return t + (int)d + u + w + id(a + 1) + id(a) + id(5) + rv(a + 3) + rv(4) + rv(static_cast<int&&>(a)); }
static int overloads(short s, unsigned char uc, float f, bool b, long l) {
  return over(s) + over(s + s) * 10 + over(uc) * 100 + over(uc + 1u) + over(f) + over(f * 2) + over(f * 2.0) + over(b) + over(!b) + over(b + b) + over(l) + over(l + 1) + over('c') + over(s < 2) + over(b && b) + over(-s) + over(~uc) + over(1 ? s : 'c') + over((short)1) + over(static_cast<unsigned char>(s));
}
static int overl(int a) { const int c = a; return ovl(a) + 10 * ovl(c) + 100 * ovl(a + 1) + 1000 * ovl(3) + ovl(++a) * 7 + ovl(a++) * 11 + ovl(a = 3) * 13 + ovl((a)) * 17 + ovl(static_cast<int&&>(a)) * 19; }
static int members(int n) {
  P p{n, n + 1L, 3, true, n, n * 2, 0};
  P* q = &p;
  p.a++; q->b += n; p.f = n; p.f += 2; p.f++; p.g = !p.g; p.v -= 2; q->m ^= 5;
  int P::*pm = &P::a;
  p.*pm += 1; q->*pm -= 3;
  const P& cp = p; cp.m++;
  return p.a + (int)q->b + p.f + p.g + p.v + p.c + cp.m + id(p.f) + id(p.a) + (p.f > 2u) + cp.a;
}
static int bools(bool a, bool b) { bool c = a | b; c &= a; c = a && b || !c; c ^= true; bool d = a == b, e = a != b, f = a < b, g = a >= b; return c + 2 * d + 4 * e + 8 * f + 16 * g + (a ? b : !b) + (int)(a && (b || c)) + !a + -b; }
static long chars(char16_t c, char32_t d, wchar_t w, unsigned char u, signed char s) { c += 1; d++; w -= 2; u = u * 3; s = -s; return c + (long)d + w + u + s + (c < d) + (c == u'x') + (w != L'y') + ~u; }
static int incs(int a) { int b = a++ + 1; int c = ++a * 2; int d = a-- - b; --d; d--; return b + c + d + a + -(-a) + !a + !!a + ~a; }
static int casts(double d, int i) { return static_cast<int>(d) + (int)d + int(d * 2) + static_cast<unsigned char>(i) + (bool)i + bool(d) + static_cast<int>(sizeof(i) * 2) + int{static_cast<int>(d)} + short(i); }
static int lits() { return 0 + 1 - 1 + 0x10 + 0b11 + 1'000 + 'a' + true + false + int(1.0) + int(0.0) + int(2.5f) + int(3u) + int(4L) + int(5ull) + (-1) + -0; }
static int shortc(int a) { int n = 0; if (a > 0 && (n++, a > 1) || (n += 10, a < -1)) n += 100; while (n > 0 && a-- > 0) { fuel(); n--; } return n + ((a && bump()) ? 1 : (a || bump())); }
static int decls(int n) { if (int x = n - 1) { n += x; } else { n -= x; } while (int y = n > 3) { fuel(); n -= y; } for (int i = 0, j = n; i < j; ++i, --j) { fuel(); n += i; } switch (int z = n & 3; z) { case 1: n += z; break; default: n -= z; } if (int w = n * 2; w > 5) n++; return n; }
static int arrays(int n) { int a[3] = {n, n + 1, n * 2}, b[2][2] = {{1, n}, {n - 1}}; const int k = 2; int c[k + 1] = {}; c[k] = n; a[n & 1] += 5; b[1][0]++; int s = 0; for (int e : a) { fuel(); s += e; } for (int& e : a) { fuel(); e *= 2; } for (auto& row : b) for (auto v : row) { fuel(); s -= v; } return s + a[0] + a[2] + c[k] + c[0] + (int)(sizeof(a) / sizeof(a[0])); }
static int ptrs(int n) { int* p = new int(n + 1); int* q = new int[3]{n, n * 2, 3}; int* z = nullptr; int* y = 0; int s = *p + q[1] + (z == y) + (p != nullptr) + !z + (p && q) + *(q + 2); (*p)++; *q += 2; s += *p + *q; s += (int)(&q[2] - q); delete p; delete[] q; return s; }
static void noop() {}
static int commas(int a) { return (noop(), a + 1) + (ev(a & 7), a), (a ? noop() : noop()), a * 3; }
static int terns(int a, int b) { const char* s = a ? "yes" : "no"; return (a ? b : a + 1) + (a > b ? a : b > 3 ? 3 : -1) + s[0] + (a ? 1 : 2.5 > 2); }
static int thr(int a) { try { if (a > 3) throw a * 2; return a > 2 ? throw 1.5 : a; } catch (int e) { return e + 1; } catch (...) { return -1; } }
static int gotos(int n) { int r = 0; top: fuel(); r += n; if (n-- > 0) goto top; return r; }
static double dbl(float f, double d, long double l) { f += 1; d = f * 2 - d / 3; l = -l + f; f++; --d; l *= 2; return f + d + (double)l + (f < d) + (d == d) + !f; }
static __int128 big(__int128 a, unsigned __int128 b) { a = a * 3 - 1; b >>= 2; a ^= 5; return a + (__int128)(b % 7) + (a < 0); }
enum E { A, B = 3 }; enum class F : short { X = 1, Y = 5 };
static int enums(int n) { E e = n > 1 ? A : B; F f = n ? F::X : F::Y; F g = static_cast<F>(n & 3); return e + 1 + static_cast<int>(f) + (e == B) + (f != g) + (e < 2) + (int)g; }
static int nul() { int r = 0; ; ; {} if (r) {} else {} for (;;) break; do {} while (false); return r; }
static inline int attrs([[maybe_unused]] int a, int n) { switch (n & 3) { case 0: n++; [[fallthrough]]; case 1: n += 2; break; [[unlikely]] case 2: n = 0; } if (n > 2) [[likely]] { n--; } return n; }
template <class T> T&& mv(T& x) { return static_cast<T&&>(x); }
struct Xv { int x[3] = {1, 2, 3}; int y = 3; int&& m() { return static_cast<int&&>(x[0]); } int&& w() { return mv(y); } };
static Xv mx() { return Xv(); }
static int inc(int&& q) { q += 5; return q; }
static int&& pass(int&& a) { a++; return (int&&)a; }
static int xvals(int k) { int s = 0; Xv o; s += mx().m(); s += mx().y; s += static_cast<int&&>(k); int&& z = static_cast<int&&>(k); z += 7; s += inc(mv(k)); s += inc((static_cast<int&&>(k))); pass(o.w()); int&& c = s > 3 ? mv(k) : mv(o.y); c++; int&& d = (s++, mv(k)); d++; auto&& e = (mv(o.y)); e = 9; return s + k + o.x[0] + o.y + (Xv().y) + Xv().x[1] + -Xv().y; }
extern "C" void vt_main(void) {
  for (int i = -3; i < 8; i += 2) {
    fuel();
    out_i(1, lvals(i, 2)); out_i(23, xvals(i)); out_i(2, temps(i)); out_i(3, overloads((short)i, (unsigned char)i, i, i > 0, i)); out_i(4, overl(i)); out_i(5, members(i & 7)); out_i(6, bools(i > 0, i & 2));
    out_i(7, chars(u'a', U'b', L'c', (unsigned char)i, (signed char)i)); out_i(8, incs(i)); out_i(9, casts(i * 1.5 + 10, i)); out_i(10, lits()); out_i(11, shortc(i)); out_i(12, decls(i));
    out_i(13, arrays(i & 7)); out_i(14, ptrs(i)); out_i(15, commas(i)); out_i(16, terns(i, 3)); out_i(17, thr(i)); out_i(18, gotos(i)); out_f(19, dbl(i, i, i)); out_i(20, (long long)big(i, 77)); out_i(21, enums(i)); out_i(22, nul() + attrs(1, i));
  }
  out_i(30, gcount);
}
