#include "vt.h"
namespace { int helper(int a) { return a * 3; } int counter = 7; }
struct Shape { virtual ~Shape() {} virtual int area(int k) const; int base = 2 + 1; };
struct Sq : Shape { int side; Sq(int s) : side(s * 2) {} int area(int k) const override { return side * side + Shape::area(k); } };
int other(int n) { counter -= n; Sq q(n); const Shape& r = q; if (n < 0 || counter > 100) return -1; return helper(n) % 5 + (counter ^ r.area(2)); }
