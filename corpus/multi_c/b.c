#include "vt.h"
int shared = 2; int tab[3] = {1, 2, 3};
static int helper(int a) { return a * 3; }
static int counter = 7;
int other(int n) { counter -= n; if (n < 0 || counter > 100) return -1; return helper(n) % 5 + (counter ^ tab[1]); }
