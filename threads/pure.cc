#include "vt.h"
namespace {
template <typename T> T clampit(T v, T lo, T hi) { return v < lo ? lo : v > hi ? hi : v; }
struct P { int x = 1; long y = 2; P& operator+=(const P& o) { x += o.x; y -= o.y; return *this; } int sum() const { return x + static_cast<int>(y); } };
bool odd(int v) { return v % 2 != 0; }
}
void vt_main() {
  int acc = 3;
  P p;
  auto step = [&](int i) { acc = acc * 5 + i; acc = clampit(acc, -4000, 4000); return odd(acc) && i > 1; };
  for (int i = 0; i < 14; ++i) {
    if (step(i)) { P q; q.x = i; p += q; } else p.y++;
    fuel();
    out_i(1, acc); out_i(2, p.sum());
  }
  const unsigned char b[] = {1, 9, 200, 17};
  unsigned long h = 7;
  for (auto c : b) h = h * 131 + c;
  out_u(3, h);
  double d = acc / 3.0;
  out_i(4, static_cast<long long>(d * 16));
  float f = 2.5f; f -= 1; out_i(5, f > 1.0f ? 1 : 0);
}
