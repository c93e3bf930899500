// Contexts that need compile-time constants.
#include "vt.h"
template <int N> struct S { int f() const { int k = 1; return N + k; } static const int v = N + 1; };
template <bool B> struct SB { int f() { return B ? 3 : 4; } };
enum class EC { A, B }; enum EE { EA, EB };
template <EC B> struct SE { int f() { return B == EC::A ? 3 : 4; } };
template <EE X> struct SN { int f() { return X == EA ? 3 : 4; } };
template <auto X> struct SA { int f() { return (int)sizeof(X); } };
template <unsigned long long X> struct SU { unsigned long long f() { return X; } };
template <long long X> struct SL { long long f() { return X; } };
static int gv = 4;
template <int* P> struct SP { int f() { return *P; } };
template <char C> struct SC { int f() { return C; } };
template <typename T> int gsz() { T t; int k = 2; S<sizeof(T)> s; return s.f() + k + t.f(); }
template <int M> int hm(int n) { S<M + 1> s; int k = n; return s.f() + k; }
template <int... Ns> int sum() { return (Ns + ... + 0); }
template <int N> int fact() { if constexpr (N <= 1) return 1; else return N * fact<N - 1>(); }
template <typename T, T V> struct Int { static constexpr T value = V; constexpr operator T() const { return V; } };
template <int N, int M = N * 2> int defm() { return N + M; }
static int targs(int k) {
  const int n = -1; S<-1> s; S<n> t; SB<true> b; SB<(3 > 2)> c; SE<EC::A> e; SN<EA> x; SA<'c'> a1; SA<3LL> a2; SA<3u> a3;
  SU<18446744073709551615ull> u; SL<-9223372036854775807ll - 1> l; SL<-5> q; SP<&gv> p; SP<nullptr>* z = 0; SC<'\xff'> cf; SC<'a'> ca;
  return s.f() + t.f() + b.f() + c.f() + e.f() + x.f() + a1.f() + a2.f() + a3.f() + (u.f() > 5ull) + (l.f() < 5ll) + (q.f() == -5) + p.f() + (z == 0) + (cf.f() < 0) + ca.f() + k + gsz<S<3>>() + hm<4>(k) + hm<-4>(k) + sum<1, 2, 3>() + fact<5>() + Int<int, 4>::value + Int<bool, true>() + defm<3>() + S<2 + 1>::v;
}
static int bounds(int k) { const int n = 3; int a[n] = {1, 2, 3}; int b[n + 1][n] = {}; static_assert(n == 3, ""); auto p = new int[2][3]; p[0][1] = k; int r = p[0][1]; delete[] p; using T = int[3]; T t = {1, 2, k}; typedef char C[3 * 2]; return a[2] + b[0][0] + r + (int)sizeof(T) + t[1] + (int)sizeof(C) + (int)sizeof(char[4]); }
static int refarr(int (&a)[3]) { return a[1]; }
static int lam(int k) { constexpr int n = 3; auto l = [] { int a[n] = {1, 2, 3}; return a[1]; }; auto m = [](int y) { return y + n; }; static const int sn = 7; auto q = [](int y) { return y * sn; }; return l() + m(k) + q(k); }
static int narrow(int k) { const int n = 3; unsigned char u{n}; int a[n] = {1, k, 3}; return u + refarr(a) + noexcept(k + n) + a[n - 1]; }
struct A { int v[3 + 1]; static const int q = 4; int w[q]; unsigned bf : 2 + 1; static constexpr double d = 1.5 * 2; enum { X = 1 << 3, Y = X | 1 }; };
struct Al { alignas(4 * 2) char c; };
static int cls(int k) { A a{}; a.v[1] = 3; a.w[2] = k; a.bf = 5; return a.v[1] + a.w[2] + (int)sizeof(A) + a.bf + (int)A::d + A::X + A::Y + (int)alignof(Al); }
constexpr int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
constexpr int loopc(int n) { int s = 0; for (int i = 0; i < n; ++i) { s += i * 2; if (s > 20) break; } return s; }
struct Lit { int a; constexpr Lit(int x) : a(x + 1) {} constexpr int twice() const { return a * 2; } };
constexpr Lit lit(4); constexpr int arr[] = {1 + 1, 2 * 3, fib(7)}; static_assert(arr[2] == 13 && lit.twice() == 10, "c");
static int cexpr(int k) { constexpr int z = fib(6); constexpr Lit m(z + 1); int a[fib(4)] = {k}; switch (k) { case fib(3): k += 4; break; case z: k++; break; case (int)sizeof(int) + 1: k += 2; } return z + fib(k & 7) + loopc(k & 3) + m.twice() + a[0] + arr[k & 1] + Lit(k).twice() + (int)sizeof(a); }
static int ifc(int k) { if constexpr (sizeof(long) == 8 && fib(3) > 1) { k += 3; } else { k -= 3; } if constexpr (false) k = 100 / 0; return k; }
static int defargs(int a, int b = fib(4) * 2, int c = gv + 1) { return a + b * c; }
static int unev(int k) { return (int)sizeof(k++) + noexcept(k + 1) + (int)sizeof(decltype(k * 2.0)) + decltype(k + 1){4} + (int)alignof(decltype(k)); }
static int enums(int k) { enum L { P = 3 + 1, Q = P * 2, R = sizeof(int) }; enum class M : unsigned char { a = 1 | 2, b = 7 & ~1 }; L l = k > 2 ? P : Q; return l + R + static_cast<int>(M::a) + (int)M::b + (l == Q); }
inline constexpr int ic = 3 + 4; const double cd = 2.5 * 2; static const unsigned sc = 1u << 4; int dyninit = gv * 2 + 1; namespace nn { const int c2 = ic + 1; int d2 = dyninit - 1; }
static int globs(int k) { return k + ic + (int)cd + (int)sc + dyninit + nn::c2 + nn::d2; }
extern "C" void vt_main(void) {
  for (int i = 0; i < 6; i++) { fuel(); out_i(1, targs(i)); out_i(2, bounds(i)); out_i(3, lam(i)); out_i(4, narrow(i)); out_i(5, cls(i)); out_i(6, cexpr(i)); out_i(7, ifc(i)); out_i(8, defargs(i) + defargs(i, 2)); out_i(9, unev(i)); out_i(10, enums(i)); out_i(11, globs(i)); }
}
