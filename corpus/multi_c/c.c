#include "vt.h"
int a_entry(int); extern int shared; extern int tab[3];
static int helper(int a) { return a ? a - 1 : 7; }
static int counter;
void vt_main(void) { for (int i = -1; i < 6; i++) { fuel(); counter += 2; out_i(1, a_entry(i)); out_i(2, shared + helper(counter)); out_i(3, tab[0] * 4 + tab[1]); } }
