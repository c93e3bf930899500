// C++20 constructs.
// flags: -std=c++20
// tags: heavy
#include "vt.h"
#include <compare>
#include <coroutine>
#include <span>
struct S { int x; auto operator<=>(const S&) const = default; };
consteval int cv(int a) { return a * 2; }
constinit int gi = 4;
template <typename T> concept Small = sizeof(T) <= 4 && true;
template <Small T> T half(T a) { return a / 2; }
template <typename T> requires (sizeof(T) > 1) int big(T a) { return a + 1; }
int abbr(Small auto a) { return a * 3; }
struct D { int a; int b; };
struct A { bool await_ready() const noexcept { return true; } void await_suspend(std::coroutine_handle<>) {} int await_resume() { return 5; } };
struct T { struct promise_type { int v = 0; T get_return_object() { return T{std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_value(int x) { v = x; } void unhandled_exception() {} }; std::coroutine_handle<promise_type> h; };
T co(int n) { int x = co_await A(); if (co_await A() > 3) x += n; co_return x + 1; }
struct G { struct promise_type { int v = 0; G get_return_object() { return G{std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} std::suspend_always yield_value(int x) { v = x; return {}; } }; std::coroutine_handle<promise_type> h; };
G gen(int n) { for (int i = 0; i < n; ++i) { co_yield i * 2; } co_return; }
static int coro(int n) { T t = co(n); int s = t.h.promise().v; t.h.destroy(); G g = gen(n & 3); g.h.resume(); while (!g.h.done()) { fuel(); s += g.h.promise().v; g.h.resume(); } g.h.destroy(); return s; }
static int cmp(int n) { S a{n}, b{2}; D d{.a = n, .b = gi + 1}; bool r = (a < b) && (a <=> b) < 0; int z = requires(int q) { q + 1; } ? 1 : 2; return r + half(8) + d.a + d.b + cv(3) + z + (n <=> 4 < 0) + big(n) + abbr(n); }
static int attrs(int n) { int s = 0; switch (n) { case 1: s++; [[fallthrough]]; case 2: s += 2; [[likely]] case 3: s++; default: s--; } if (n > 2) [[likely]] { s += 4; } else [[unlikely]] s++; [[likely]] s += 1; return s; }
static int ranges(int n) { int a[3] = {n, 2, 3}; int s = 0; for (int k = 1; int e : a) { fuel(); s += e * k++; } std::span<int> sp(a); sp[1] += 2; for (auto& e : sp) e--; auto l = []<typename U>(U x) { return x + 1; }; auto m = [=, k = n](auto... xs) { return (k + ... + xs); }; return s + sp[1] + l(n) + m(1, 2); }
template <char... C> struct Str { static int n() { return sizeof...(C) + 1; } };
struct NT { int a; constexpr NT(int x) : a(x + 1) {} };
template <NT v> int nttp(int n) { return v.a * n; }
static int misc(int n) { using enum_t = decltype(n); enum class E { p, q }; using enum E; E e = n > 1 ? p : q; char8_t c = u8'x'; c += 1; bool is = __builtin_is_constant_evaluated(); return nttp<NT(3)>(n) + nttp<4>(n) + Str<'a', 'b'>::n() + (e == q) + c + is + enum_t(2); }
extern "C" void vt_main(void) { for (int i = 0; i < 5; i++) { fuel(); out_i(1, coro(i)); out_i(2, cmp(i)); out_i(3, attrs(i)); out_i(4, ranges(i)); out_i(5, misc(i)); } }
