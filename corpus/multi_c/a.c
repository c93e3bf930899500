// Several C files with shared state, same-named static functions and inline functions.
#include "vt.h"
extern int shared; extern int tab[3]; int other(int);
static int helper(int a) { return a + 1; }
static int counter = 1;
int a_entry(int n) { counter += n; shared = shared * 2 + helper(n); tab[n & 1]++; if (n > 3) { shared--; } return other(n) + counter; }
