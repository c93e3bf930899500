// Alternative operator spellings.
#include "vt.h"
static int alt(int a, int b) {
  int r = a and b;
  r or_eq 3; r and_eq 7; r xor_eq b;
  if (not a) r = r + 1;
  r += a bitand compl b;
  r += a bitor b;
  bool q = not(a) or(b)and not r;
  return r xor b or a not_eq b or q;
}
extern "C" void vt_main(void) { for (int i = 0; i < 4; i++) { fuel(); out_i(1, alt(i, 2)); } }
