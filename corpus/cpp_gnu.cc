// GNU C++ and code that depends on the enclosing function.
// flags: -std=gnu++17
#include "vt.h"
#include <setjmp.h>
#include <alloca.h>
#include <cstring>
typedef int v4 __attribute__((vector_size(16)));
typedef float f2 __attribute__((ext_vector_type(2)));
static int g(int x) { ev(x & 15); return x; }
#define TRY(x) ({ int r_ = (x); if (r_ < 0) return -5; r_; })
static int tr(int a) { int v = TRY(g(a)); return v + TRY(g(a + 1)); }
static int h(int a) { int s = 0; for (int i = 0; i < a; i++) { fuel(); s += ({ if (i == 2) continue; i; }); } return s; }
static int fl(int) { return (int)strlen(__func__); }
static int fn(int a) { int v = fl((int)strlen(__func__)) + (int)strlen(__PRETTY_FUNCTION__); auto l = [](int q) { return fl(q) + (int)strlen(__func__); }; return v + l(a); }
static jmp_buf b;
static void j(int x) { longjmp(b, x); }
static int sj(int n) { volatile int k = 0; int r = setjmp(b); if (r < n) { k = k + 1; j(r + 1); } return r + k; }
static int sj2(int n) { volatile int k = 0; if (setjmp(b) < n) { k = k + 1; j(k); } return k; }
static int al(int n) { int* p; if ((p = (int*)alloca(n * 4 + 4)) == nullptr) return 1; for (int i = 0; i < n; i++) p[i] = i; int* q = (int*)__builtin_alloca(16); q[0] = 4; return (n ? p[n - 1] : 0) + q[0]; }
static int cg(int n) { int k = 3; static void* t[] = {&&a, &&b}; goto *t[n > 1]; a: k += 2; return k; b: k += 4; return k + (t[0] == &&a); }
static int vec(int x) { v4 v = {1, 2, 3, x}; v[1]++; v[2] += 3; v[0] = v[1] + v[2]; int i = x & 1; v[i] <<= 1; v4 w = v + v; f2 q = {1.0f, 2.0f}; q.x += 1.0f; q.y = q.x; return v[0] + v[1] + w[2] + (int)q.y; }
static int pragma(int n) { int s = 0;
#pragma clang loop unroll(disable)
  for (int i = 0; i < n; ++i) s += i;
#pragma unroll 2
  for (int i = 0; i < n; ++i) { s += i; }
#pragma nounroll
  while (n-- > 0) s++;
  return s; }
static int builtins(int x) { alignas(16) int a[4] = {1}; __builtin_prefetch(&a[1], 0, 3); int* p = (int*)__builtin_assume_aligned(a, 16); unsigned long z = __builtin_object_size(a, 0); return p[0] + (int)z + x + __builtin_constant_p(4) + (int)__builtin_expect(x > 2, 0) + __builtin_popcount(x & 7) + (int)__builtin_bswap16(1) + (__builtin_return_address(0) != nullptr); }
static int lateinit(int n) { struct L { int v; ~L() { ev(800 + (v & 7)); } }; L a{n}; L b{n + 1}; { L c{n + 2}; if (n > 3) return c.v; } return a.v + b.v; }
static int statics(int n) { static int c = g(5) + 1; static int d = n + 2; c += n; return c + d; }
static thread_local int tls = 3;
static int tlsf(int n) { tls += n; tls++; return tls; }
static int elvis(int a, int b) { int* np = nullptr; int* q = np ?: &b; double d = 0.5; int x = a, y = b; (x ?: y) = 4; (x ?: y)++; ev(*q + (int)(d ?: 2.5) + (int)(4 * (d ?: b)) + (x ?: y) + (a > 2 ?: b)); return (a ?: b) + (g(a) ?: g(b)); }
static int localcls(int n) { struct Loc { int k; int f(int x) { return x * k + 1; } static int s(int y) { return y - 1; } }; return Loc{n}.f(2) + Loc::s(n); }
static int anonu(int n) { union { int i; unsigned u; }; i = n; u += 3; struct { int q = 4; } z; z.q += n; return i + z.q; }
static int varlen(int n) { int a[(n & 3) + 1]; a[0] = n; return a[0] + (int)sizeof(a); }
static int exc(int n) noexcept(false) { struct G { ~G() { ev(900); } } gg; if (n > 3) throw n; return n; }
static int trycatch(int n) { int r = 0; try { r = exc(n); try { if (n == 2) throw "x"; r++; } catch (const char* s) { r += s[0]; throw r; } } catch (int e) { r += e + 1; } catch (...) { r = -1; } return r; }
extern "C" void vt_main(void) {
  for (int i = 0; i < 6; i++) {
    fuel();
    out_i(1, tr(i - 2)); out_i(2, h(i)); out_i(3, fn(i)); out_i(4, sj(i)); out_i(5, sj2(i)); out_i(6, al(i)); out_i(7, cg(i)); out_i(8, vec(i)); out_i(9, pragma(i)); out_i(10, builtins(i));
    out_i(11, lateinit(i)); out_i(12, statics(i)); out_i(13, tlsf(i)); out_i(14, elvis(i, 3)); out_i(15, localcls(i)); out_i(16, anonu(i)); out_i(17, varlen(i)); out_i(18, trycatch(i));
  }
}
