// Several C++ files: anonymous namespaces, inline functions, templates and classes in common.
#include "vt.h"
namespace { int helper(int a) { return a + 1; } int counter = 1; }
struct Shape { virtual ~Shape() {} virtual int area(int k) const; int base = 2 + 1; };
int Shape::area(int k) const { return k * base - 1; }
int other(int);
int a_entry(int n) { counter += n; Shape s; s.base += n; if (n > 3) { s.base--; } return s.area(n) + other(n) + counter + helper(n); }
