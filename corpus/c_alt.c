// Alternative operator spellings.
#include <iso646.h>
#include "vt.h"
#define EQ ==
#define SET =
#define PLUS +
static int alt(int a, int b) {
  int r = a and b;
  r or_eq 3; r and_eq 7; r xor_eq b;
  if (not a) r SET r PLUS 1;
  r += a bitand compl b;
  r += a bitor b;
  return r xor b or a not_eq b or a EQ b;
}
void vt_main(void) { for (int i = 0; i < 4; i++) { fuel(); out_i(1, alt(i, 2)); } }
