// GNU C and less common C: statement expressions, builtins, registers, vectors, atomics, varargs.
// flags: -std=gnu17
#include "vt.h"
#include <stdarg.h>
#include <stdatomic.h>
#include <setjmp.h>
#include <stddef.h>
#include <string.h>
typedef int v4 __attribute__((vector_size(16)));
typedef float f2 __attribute__((ext_vector_type(2)));
struct S { int a; char b; int c[2]; };
struct P { struct { int z; }; union { int q; unsigned r; }; };
static struct P gp;
static int g(int x) { ev(x & 15); return x; }
#define TRY(x) ({ int r_ = (x); if (r_ < 0) return -5; r_; })
#define MAXM(a, b) ({ __typeof__(a) a_ = (a); __typeof__(b) b_ = (b); a_ > b_ ? a_ : b_; })
static int stmtexpr(int k) { int v = ({ int r = g(3); r++; r * 2; }); int w = ({ g(1); g(2); }); int u = ({ switch (k) { case 2: g(2); } g(k); }); int q = ({ lab: g(3); }); int t = TRY(k); return v + w + u + q + t + MAXM(k, 3) + ({ k + 1; }); }
static int h(int a) { int s = 0; for (int i = 0; i < a; i++) { fuel(); s += ({ if (i == 2) continue; i; }); } return s; }
static int builtins(int x) { int a[4] = {1, x}; __builtin_prefetch(&a[1], 0, 3); int* p = __builtin_assume_aligned(a, 4); unsigned long z = __builtin_object_size(a, 0); return p[0] + (int)z + x + __builtin_constant_p(4) + __builtin_choose_expr(1, x, 2) + (int)__builtin_offsetof(struct S, c[1]) + (int)offsetof(struct S, b) + __builtin_types_compatible_p(int, int) + (int)__builtin_expect(x == 1, 1) + __builtin_popcount(7 + (x & 3)) + (int)__builtin_bswap32(1) + __builtin_clz(8) + __builtin_abs(x) + (__builtin_return_address(0) != 0); }
static int vec(int x) { v4 v = {1, 2, 3, x}; v[1]++; v[2] += 3; v[0] = v[1] + v[2]; int i = x & 1; v[i] <<= 1; v4 w = v * 2 + (v4){1, 1, 1, 1}; w = __builtin_shufflevector(v, w, 0, 1, 4, 5); v4 c = v > w; f2 q = {1.0f, 2.0f}; q.x += 1.0f; q.y = q.x; return v[0] + v[1] + w[2] + c[0] + (int)q.y; }
static int regs(register int p) { p++; p += 2; register struct S s = {1}; s.a++; (s.a) = 4; register int i = 3; register unsigned char c = 1; for (i = 0; i < 5; i++) { c += i; } (i)++; register struct P* pp = &gp; pp->q++; pp->z += 2; return p + s.a + i + c + -i + pp->q; }
static int atomics(int x) { _Atomic int a = x; int b = 4; int e = 4; __atomic_store_n(&b, 5, __ATOMIC_SEQ_CST); __atomic_compare_exchange_n(&b, &e, 6, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_fetch_add(&a, 2); __sync_fetch_and_add(&b, 1); int d = __atomic_load_n(&b, __ATOMIC_RELAXED) + atomic_load_explicit(&a, memory_order_acquire); return d + b + e; }
static int vsum(int n, ...) { va_list ap; va_start(ap, n); int s = 0; for (int i = 0; i < n; i++) s += va_arg(ap, int) * (i + 1); s += (int)va_arg(ap, double); va_end(ap); return s; }
static int varargs(int x) { char c = (char)x; short s = 3; return vsum(3, x, c, s + 1, x * 0.5) + vsum(0, 1.5f) + vsum(1, x > 2, 2.0); }
static int dyn(int n) { int* p = __builtin_alloca((n & 7) * 4 + 4); for (int i = 0; i <= (n & 7); i++) p[i] = i; int* q = __builtin_alloca_with_align(16, 64); q[0] = 2; return p[n & 7] + q[0]; }
static int cgoto(int n) { static void* t[] = {&&a, &&b, &&c}; int k = 3; goto *t[(unsigned)n % 3]; a: k += 2; return k; b: k += 4; if (k < 20) { fuel(); goto *t[1]; } c: return k + (t[0] == &&a); }
static jmp_buf jb;
static void jump(int x) { longjmp(jb, x); }
static int sj(int n) { volatile int k = 0; if (setjmp(jb) < n) { k = k + 1; jump(k); } return k; }
static int sw(int n) { int r = 0; switch (n) { case -3 ... -1: r = 1; break; case 0: r++; __attribute__((fallthrough)); case 1: r += 2; default: r--; } return r; }
static int pragma(int n) { int s = 0;
#pragma clang loop vectorize(enable)
  for (int i = 0; i < n; ++i) s += i;
#pragma unroll 2
  for (int i = 0; i < n; ++i) { s += i; }
  return s; }
static int nested_des(int n) { struct { int a[3]; struct S s; } x = {.a = {[1] = n, n + 1}, .s.c[1] = n * 2, .s.b = 'x'}; struct S y = {n, 'c', {n - 1}}; struct S* z = &(struct S){.a = n + 4}; return x.a[1] + x.a[2] + x.s.c[1] + x.s.b + y.c[0] + z->a + ((struct S){.c = {n, 2}}).c[0]; }
static int elvis(int a, int b) { return (a ?: b) + (g(a) ?: g(b)) + (a > 2 ?: 4); }
static int autot(int a) { __auto_type q = a + 1L; __typeof__(a + 1.5) d = a; q += 2; d /= 2; return (int)q + (int)d; }
static int zero(int n) { struct { int n; int a[]; } *p; static long buf[4]; p = (void*)buf; p->n = 3; p->a[1] = n; p->a[1]++; return p->n + p->a[1]; }
static int fnptr(int n) { int (*t[2])(int) = {g, h}; int (**pp)(int) = t; return t[n & 1](3) + (*pp)(2) + (t[0] == g ? 1 : 0) + (pp[1])(n & 3); }
static int casts(long long n) { return (char)n + (unsigned char)n + (short)n + (int)(unsigned short)n + (_Bool)n + (int)(float)n + (int)((double)n * 1.5) + (int)(unsigned)n + (int)(size_t)(char*)n + (int)(long)(void*)(long)n; }
static _Complex double cpx(double a) { _Complex double z = a + 2.0i; z *= 2; z += 1; return z; }
static int strc(int n) { char b[16] = "abc"; char c[] = {'x', (char)('a' + (n & 7)), 0}; strcat(b, c); memset(b + 1, 'q', 1); return (int)strlen(b) + b[1] + c[1] + "lit"[n & 1] + memcmp(b, "aqc", 3); }
_Thread_local int tls = 3;
static int tlsf(int n) { tls += n; tls++; return tls; }
_Noreturn static void dead(void) { for (;;) __builtin_trap(); }
static int unreach(int n) { if (n > 1000000) dead(); if (n > 2000000) __builtin_unreachable(); return n; }
__attribute__((noinline, unused)) static int attr(int n __attribute__((unused))) { int k __attribute__((aligned(8))) = n; return k; }
static int nest(int n) { return ((((n + 1) * 2 - 3) / (n | 1)) % 7 << 2) ^ (n & 0xf | n >> 1); }
void vt_main(void) {
  for (int i = -2; i < 6; i++) {
    fuel();
    out_i(1, stmtexpr(i)); out_i(2, h(i)); out_i(3, builtins(i)); out_i(4, vec(i)); out_i(5, regs(i)); out_i(6, atomics(i)); out_i(7, varargs(i)); out_i(8, dyn(i)); out_i(9, cgoto(i)); out_i(10, sj(i));
    out_i(11, sw(i)); out_i(12, pragma(i)); out_i(13, nested_des(i)); out_i(14, elvis(i, 3)); out_i(15, autot(i)); out_i(16, zero(i)); out_i(17, fnptr(i)); out_i(18, casts(i)); out_f(19, (double)cpx(i)); out_i(20, strc(i));
    out_i(21, tlsf(i)); out_i(22, unreach(i)); out_i(23, attr(i)); out_i(24, nest(i));
  }
}
