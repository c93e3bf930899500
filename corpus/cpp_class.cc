// Classes, templates, lambdas and compile-time contexts.
#include "vt.h"
template <int N> struct Val { static const int v = N; int get(int k) const { return k * N + v; } };
template <typename T, int N = 2> struct Arr { T d[N + 1]; int size() const { return N + 1; } T sum() const { T s = 0; for (int i = 0; i < N + 1; ++i) { fuel(); s += d[i]; } return s; } };
template <bool B> int pick(int a) { if constexpr (B && sizeof(int) == 4) { return a + 1; } else { return a - 1; } }
template <typename... Ts> int fold(Ts... ts) { return (0 + ... + ts) + (int)sizeof...(ts); }
template <typename T> T maxt(T a, T b) { return a < b ? b : a; }
template <> int maxt<int>(int a, int b) { return a > b ? a + 1 : b + 1; }
template <typename T> struct Dep { T x; int f(int n) { int arr[sizeof(T) + 1]; arr[0] = n; return x * n + arr[0] + static_cast<int>(T(1)); } };

constexpr int sq(int a) { return a * a + 1; }
constexpr int K = sq(3) + 2;
const int kSize = 4;
static_assert(K == 12 && kSize < 5, "values");
struct Base { int b = 3 + 1; virtual ~Base() { ev(700 + b); } virtual int f(int x) { return x + b; } static int s; int arr[kSize + 1] = {1, 2}; };
int Base::s = 5 * 2;
struct Derived : Base { int d; explicit Derived(int x) : d(x * 2) { b += x; if (x > 3) { d++; } } int f(int x) override { return Base::f(x) * 2 + d; } int operator()(int y) const { return y + d; } int operator[](int i) const { return i * d; } explicit operator bool() const { return d > 4; } operator int() const { return d - 1; } };
struct Num { int v; Num(int x) : v(x + 1) {} friend Num operator+(Num a, Num b) { return Num(a.v * b.v); } bool operator==(const Num& o) const { return v == o.v && v > 0; } Num& operator+=(int k) { v += k; return *this; } Num operator-() const { return Num(-v); } Num& operator++() { ++v; return *this; } };
namespace ns { struct Tag {}; int adl(Tag, int x) { return x + 7; } int adl2(int x) { return x - 7; } enum Em { q = 2, w }; inline int operator+(Em a, Em b) { return (int)a * 10 + (int)b; } }
namespace { int anon(int x) { return x ^ 3; } }
struct Ctor { int v; Ctor(int x) : v(x + 1) {} Ctor(ns::Em e) : v(e * 2) {} };
struct Del { int v; Del() : Del(4 + 1) {} Del(int x) try : v(x + 1) { if (x > 100) throw 1; } catch (int) { } };
static int defarg(int a, int b = 3 + 1) { return a * b; }
static int noex(int a) noexcept(sizeof(int) == 4) { return a + 1; }
static constexpr int operator""_km(unsigned long long v) { return (int)v * 1000; }
static int lambdas(int n) {
  int m = n * 2;
  auto a = [m, &n](int q) { n += q; return m + n; };
  auto b = [=]() mutable { m++; return m - n; };
  auto c = [k = n + 1](auto x) { return k * x; };
  auto d = [](int x) -> long { if (x > 2) return x - 1; return x + 1; };
  auto e = [&] { return [&](int z) { return z + m * n; }; };
  int r = [&]() { int t = 0; for (int i = 0; i < 3; ++i) { fuel(); t += i * n; } return t; }();
  return a(3) + b() + c(2) + (int)c(1.5) + (int)d(n) + e()(4) + r + [](int x) { return x * 2; }(n) + (+[](int x) { return x - 1; })(n);
}
static int constctx(int n) {
  constexpr int k = 3 * 2;
  static const int sk = 5 + 1;
  static int sl = 2 + 2;
  enum { local = k + 1 };
  int arr[k - 2] = {n, n + 1};
  int arr2[local][k > 2 ? 2 : 1] = {};
  static_assert(k + 1 == local);
  arr2[1][1] = n;
  sl += n;
  switch (n) { case k + 1: n++; break; case local + 3: n--; break; }
  Val<k + 1> v; Val<sizeof(int)> w; Arr<int, k> ar{{1, 2, n}}; Arr<double> ad{};
  alignas(k + 2) char buf[8]; buf[0] = 1;
  if constexpr (k > 3) n += 2;
  return arr[0] + arr[1] + arr2[1][1] + v.get(n) + w.get(1) + ar.sum() + ar.size() + (int)ad.sum() + sk + sl + (int)sizeof(buf) + noexcept(n + 1) + (int)sizeof(n + 1) + (int)alignof(int) + decltype(n + 1)(3) + 2_km + buf[0];
}
static int structured(int n) { struct { int a; double b; } s{n, n * 1.5}; auto [x, y] = s; auto& [p, q] = s; p += 2; int arr[2] = {n, 4}; auto [u, v] = arr; const auto& [c, d] = arr; return x + (int)y + s.a + (int)q + u * v + c - d; }
static int inits(int n) { Arr<int, 2> a = {{n, n + 1, n * 2}}; int x{n}, y = {n + 1}, z(n - 1); struct S { int a; unsigned b; bool c; } s{n + 1, 3u, n > 2}, t = {n}; Num u = n, v{n + 2}, w(n + 3); Ctor c1 = n + 1, c2 = ns::q, c3(ns::w); Del d1, d2(n); return a.sum() + x + y + z + s.a + (int)s.b + s.c + t.a + u.v + v.v + w.v + c1.v + c2.v + c3.v + d1.v + d2.v; }
static int ops(int n) { Num a(n), b(n + 1); Num c = a + b; c += n; ++c; Derived d(n); Base& br = d; return c.v + (a == b) + (-a).v + (a + Num(1)).v + br.f(n) + d(n) + d[2] + (d ? 1 : 2) + (d + 1) + Base::s + d.arr[1] + ns::adl(ns::Tag(), n + 1) + adl(ns::Tag(), n) + ns::adl2(n) + anon(n) + (ns::q + ns::w) + defarg(n) + defarg(n, n - 1) + noex(n); }
static int tmpl(int n) { Dep<int> a{n}; Dep<short> b{(short)n}; return pick<true>(n) + pick<false>(n) + fold(n, n + 1, 3) + fold() + maxt(n, 3) + maxt<long>(n, 4) + (int)maxt(n * 1.5, 2.0) + a.f(n) + b.f(n + 1) + Val<3>::v; }
class Counter { public: int next() { return this->n_++; } Counter& add(int k) { n_ += k; return *this; } int n() const { return n_; } int& ref() { return n_; } const int& cref() const { return n_; } private: int n_ = 1 - 1; };
static int chain(int n) { Counter c; c.add(n).add(n + 1).add(2); c.ref() += 3; c.ref()++; return c.next() + c.next() + c.n() + c.cref() + (c.ref() = 4); }
extern "C" void vt_main(void) {
  for (int i = 0; i < 11; i += 3) {
    fuel();
    out_i(1, lambdas(i)); out_i(2, constctx(i)); out_i(3, structured(i)); out_i(4, inits(i)); out_i(5, ops(i)); out_i(6, tmpl(i)); out_i(7, chain(i));
  }
}
