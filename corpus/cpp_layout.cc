// Unusual layout in C++.
#include "vt.h"
static int layout(int a, int b)
{ int r=0;if(a){r++;}r--;{r+=2;}{r+=3;}while(a){fuel();a--;}/*c*/r++;/*d*/r++/*e*/;r++;
  switch(a){case 0:r++;r++;break;case 1:{r++;}r++;}for(;b>0;b--)r++;do r++;while(r<3);r++;
  if(a)if(b)r++;else r--;r++;if(a)r++;else{r--;}r++;[&](){r++;}();[&](){r++;return r;}();r=int{3}+r;r++;
  return r; }
static const char* raw() { return R"x(a + b; // " not a string " ++i )x"; }
static int rawuse(int a) { return raw()[a & 7] + R"(x
y + z)"[2] + a; }
static int tight(int a,int b){return a<b?a:b;}
template<class T>struct W{T v;T get(){return v+1;}};
template<class T>using WW=W<W<T>>;
static int angle(int a) { W<W<int>>x{{a}}; WW<int>y{{a+1}}; return x.v.get()+y.v.get()+(a>>1)+(a>1)+W<int>{a}.get(); }
static int attrs(int n) { [[maybe_unused]] int k = n; if (n > 2) [[likely]] { n--; } else [[unlikely]] n++; for (;;) { fuel(); if (n++ > 3) break; } return n + k; }
static auto trailing(int a) -> int { return a*2; }
static int digits(int a) { return 1'000+a+0b1010'1010-0x1'F+a/1'0; }
#define APPLY(f, x) f(x)
#define STMT(x) x += 1;
#define DO(x) do { x += 2; } while (0)
#define DECL(n) int n = 3 + 1
#define IFPOS(x) if ((x) > 0)
#define BODY { return a + 1; }
#define PARAMS (int a, int b)
static int viamacro PARAMS { return a - b; }
static int viabody(int a) BODY
static int macros(int a) { DECL(q); STMT(q) DO(q); IFPOS(a) q++; IFPOS(q) { a++; } else a--; int r = APPLY(trailing, a + 1); return q + a + r + viamacro(a, 2) + viabody(a + 2) + __COUNTER__ * 0; }
#define CAT(a, b) a##b
#define STR(x) #x
static int paste(int a) { int xy = a; CAT(x, y) += 3; return CAT(x, y) + STR(a + b)[2] + CAT(1, 2) + CAT(a, ); }
namespace a { namespace b { inline namespace c { int f(int x) { return x + 1; } } } } namespace d = a::b;
static int nsq(int x) { using namespace a::b; using d::f; return f(x) + ::a::b::f(x + 1) + d::c::f(x * 2); }
extern "C" { static int cfun(int a) { return a + 3; } }
extern "C" int cfun2(int a) { return cfun(a) * 2; }
struct In { int a = 1 + 1; int f(int x) { return x + a; } struct Deep { static int g(int y) { return y * 3; } }; int out(int); In& operator<<(int k) { a += k; return *this; } int operator,(int k) { return a * k; } };
int In::out(int z) { return z - a; }
static int meth(int a) { In i; i << a << 2 << a + 1; return i.f(a) + In::Deep::g(a) + i.out(3) + (i, 4) + In().f(a) + In{}.out(a); }
static int ifinit(int a) { if (int b = a + 1; b > 2) return b; else if (int c = b * 2; c) return c; switch (int z = a; z & 1) { case 0: return z; default: ; } return -1; }
extern "C" void vt_main(void) {
  for (int i = -1; i < 5; i++) {
    fuel();
    out_i(1, layout(i & 3, 2)); out_i(2, rawuse(i)); out_i(3, tight(i, 2)); out_i(4, angle(i)); out_i(5, attrs(i)); out_i(6, trailing(i)); out_i(7, digits(i)); out_i(8, macros(i));
    out_i(9, paste(i)); out_i(10, nsq(i)); out_i(11, cfun2(i)); out_i(12, meth(i)); out_i(13, ifinit(i));
  }
}
