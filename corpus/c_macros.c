// Macros in every position, odd layout, and unusual but valid text.
#include "vt.h"
#define TWO 2
#define ADD(x, y) ((x) + (y))
#define RAW(x, y) x + y
#define ASSIGN(v, e) v = e
#define STMT(v) do { (v) += 1; ev(90 + (v)); } while (0)
#define IF_POS(v) if ((v) > 0)
#define BODY(n) { n++; n *= 2; }
#define RET return
#define DECL int hidden = 4
#define FN(name) static int name(int q) { return q * 3 + 1; }
#define OP +
#define LP (
#define RP )
#define EMPTY
#define STR(x) #x
#define CAT(a, b) a##b
#define CALL(f, x) f(x)
FN(made)
FN(other)
static int args(int a, int b) { return ADD(a, b) + ADD(a + 1, b - 1) * RAW(a, b) - ADD(TWO, a) + TWO * a + a * TWO; }
static int stmts(int n) { STMT(n); IF_POS(n) n -= 3; BODY(n) ASSIGN(n, n + 1); DECL; hidden += n; RET hidden + 1; }
static int ops(int a, int b) { return a OP b OP LP a - b RP EMPTY * 2; }
static int cat(int ab) { int CAT(x, y) = ab + 1; return xy + CAT(a, b) + (int)sizeof(STR(a + b)); }
static int nestm(int a) { return ADD(ADD(a, TWO), CALL(made, a + 1)) + CALL(other, ADD(a, 1)); }
static int line_cont(int a) { return a + \
   1 + \
   a; }
static int layout(int a,
                  int b)
{
	int r = a	+	b;
  /* a + b */ r += a /* inner */ * /* inner */ b; // a * b
  if(a)r++;else r--;
  if (a > b) // comment
    r
      -=
      a;
  for(;a>0;a--){fuel();r+=b;}
  return/**/r;
}
#if 0
static int dead(int a) { return a + 1; }
#else
static int alive(int a) { return a + 2; }
#endif
static int directive(int a) {
  int r = a
#ifdef NOPE
    + 1000
#else
    + 1
#endif
    ;
#pragma unused(r)
  r += 2;
#define LOCAL 5
  r += LOCAL + a;
#undef LOCAL
#line 900 "renamed.c"
  r += a * 2;
  return r + __LINE__ % 1;
}
static int utf8(int a) { const char* s = "h\xc3\xa9llo \u00e9 é"; /* é ü */ int é = a + 1; return é * 2 + s[1] + (int)sizeof("日本") + é; }
static int strs(int a) { const char* s = "a + b; if (x) { return 1; }" "more" /* glue */ "text"; return s[a & 3] + "\"quoted\\"[1] + '\'' + '\\' + '"'; }
static int digraph(int a) <% int x<:2:> = <%a, 1%>; return x<:0:> + x<:1:>; %>
static int xmac(int a) {
  int r = 0;
#define X(n, v) r += a * v;
  X(one, 1) X(two, 2)
#undef X
  return r;
}
static int unaries(int a) { return - a+ - -a+ +a - ~ a + ! a + -TWO + !TWO + ~(TWO); }
static int dense(int a){int r=0;if(a){r++;}r--;{r+=2;}{r+=3;}while(a>0){fuel();a--;}/*c*/r++;/*d*/r++/*e*/;r++;switch(a){case 0:r++;r++;break;case 1:{r++;}r++;}if(a)r++;else{r--;}r++;return r;}
static int ret_tight(int a){return(a);}
static int ret_tight2(int a){return-a;}
static int ret_tight3(int a){if(a)return!a;else return~a;}
static int tern(int a){return a?1:2;}
static int sizeof_tight(int a){return(int)sizeof(a)+(int)sizeof a;}
void vt_main(void) {
  for (int i = -2; i < 5; i++) {
    fuel();
    out_i(1, args(i, 3)); out_i(2, stmts(i)); out_i(3, ops(i, 4)); out_i(4, cat(i)); out_i(5, nestm(i)); out_i(6, line_cont(i));
    out_i(7, layout(i, 2)); out_i(8, alive(i)); out_i(9, directive(i)); out_i(10, utf8(i)); out_i(11, strs(i & 7)); out_i(12, digraph(i));
    out_i(13, xmac(i)); out_i(16, dense(i)); out_i(14, unaries(i)); out_i(15, ret_tight(i) + ret_tight2(i) + ret_tight3(i) + tern(i) + sizeof_tight(i));
  }
}
