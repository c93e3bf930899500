/* strtok with a delay after every token, so that overlapping uses by several threads do overlap. */
#include <string.h>
#include <time.h>
static char* at;
char* strtok(char* s, const char* sep) {
  char* r = strtok_r(s, sep, &at);
  struct timespec t = {0, 2000000};
  nanosleep(&t, 0);
  return r;
}
