// Unusual layout: adjacent tokens, comments inside constructs, directives in the middle of expressions.
#include "vt.h"
static int f(int a) { return a + 2; }
static int layout(int a, int b)
{ int r=0;if(a){r++;}r--;{r+=2;}{r+=3;}while(a){fuel();a--;}/*c*/r++;/*d*/r++/*e*/;r++;
  switch(a){case 0:r++;r++;break;case 1:{r++;}r++;}for(;b>0;b--)r++;do r++;while(r<3);r++;
  if(a)if(b)r++;else r--;r++;if(a)r++;else{r--;}r++;
  return r; }
static int comments(int a, int b)
{
  int r = 0; // first ; comment { with } tokens
  if(a)r++;else r--;
  if (a > b) // comment
    r
      -=
      a;
  for(;a>0;a--){fuel();r+=b;}
  if (a) r++ /* c */ ; // d
  r-- // hey
  ;
  r = a/* x */+/* y */b/*z*/*/**/2;
  r = -/* neg */a - -b - - - b;
  r = a+ +b; r = a- -b; r = a - --b; r = a+ ++b; r = a-- - --b;
  if (b) return/**/r;
  return(r);
}
static int directive(int a) {
  int r = a
#ifdef NOPE
    + 1000
#else
    + 1
#endif
    ;
  r += 2;
#define LOCAL 5
  r += LOCAL + a;
#undef LOCAL
  r += f(
#ifdef NOPE
 3
#else
 a + 1
#endif
);
  if (a > 2)
#if 1
    r++;
#else
    r--;
#endif
  else
    r += 4;
#pragma GCC diagnostic push
  r *= 2;
#pragma GCC diagnostic pop
  return r;
}
static int continued(int a) { int r = a \
  + 2; r \
+= \
3; return r \
- a; }
static int utf(int a) { const char* s = "h\u00e9llo \xc3\xa9 ünï"; /* ünïcödé */ int r = s[1] + a; return r + (s[0] == 'h') /* → */ + a * 2; }
static int strs(int a) { const char* s = "if (a) { b++; } // not code" "\"quoted\"" "/* neither */"; const char* t = "??=" ; return s[a & 7] + t[0] + sizeof("a\0b") + '\'' + '"'; }
static int tight(int a,int b){return a<b?a:b;}
static int tight2(int*p,int*q){return*p/ *q+(*p)*(*q)-*p;}
	static	int	tabs(int	a)	{	a	+=	1	;	return	a	*	2	;	}
static int lines(int a) {


  return


    a
    +

    1

    ;

}
static int long_line(int aaaaaaaaaaaaaaaaaaaaaa, int bbbbbbbbbbbbbbbbbbbbbbbb) { return (aaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbb) * (aaaaaaaaaaaaaaaaaaaaaa - bbbbbbbbbbbbbbbbbbbbbbbb) + (aaaaaaaaaaaaaaaaaaaaaa ^ bbbbbbbbbbbbbbbbbbbbbbbb); }
static int dangling(int a, int b) { int r = 0; if (a) if (b) r = 1; else r = 2; if (a) { if (b) r += 10; } else r += 20; if (a) for (int i = 0; i < 2; i++) if (b) r += i; else r -= i; else while (r < 5) { fuel(); r += 3; } return r; }
static int emptybodies(int a) { for (; a > 0; a--) ; while (a++ < 3) { } do ; while (a-- > 5); if (a) ; if (a) {} else ; return a; }
static int labelled(int a) { int r = 0; goto in; out: return r; in: r += a; one: two: r++; if (r < a) goto two; if (r < 0) goto one; { inner: r += 2; if (r < 8) { fuel(); goto inner; } } goto out; end: ; return 0; }
static int switchy(int a) { int r = 0, i = 0; switch (a & 3) case 1: r = 5; switch (a & 3) { r = 100; case 0: case 1: r += 1; { case 2: r += 2; } default: ; } switch (a) { default: r++; break; case 1: for (; i < 2; i++) { case 2: r += 3; if (r > 20) break; } } switch (a & 1) { case 0:; int q; q = 3; r += q; case 1: lab: r++; if (r < 4) goto lab; } return r; }
void vt_main(void) {
  for (int i = -1; i < 5; i++) {
    int p = i + 7, q = 2;
    fuel();
    out_i(1, layout(i & 3, 2)); out_i(2, comments(i, 3)); out_i(3, directive(i)); out_i(4, continued(i)); out_i(5, utf(i)); out_i(6, strs(i)); out_i(7, tight(i, 2));
    out_i(8, tight2(&p, &q)); out_i(9, tabs(i)); out_i(10, lines(i)); out_i(11, long_line(i, 3)); out_i(12, dangling(i, i & 1)); out_i(13, emptybodies(i)); out_i(14, labelled(i)); out_i(15, switchy(i));
  }
}
