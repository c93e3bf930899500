#include "vt.h"
int a_entry(int); int other(int);
static int helper(int a) { return a ? a - 1 : 7; }
extern "C" void vt_main(void) { int c = 0; for (int i = -1; i < 6; i++) { fuel(); c += 2; out_i(1, a_entry(i)); out_i(2, other(i) + helper(c)); } }
