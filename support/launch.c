/* Sets resource limits and runs a command: launch CPU_S MEM_MB FSIZE_MB cmd... (0 = no limit). */
#include <stdlib.h>
#include <sys/resource.h>
#include <unistd.h>
static void lim(int what, rlim_t v, rlim_t hard) { struct rlimit r = {v, hard}; setrlimit(what, &r); }
int main(int argc, char** argv) {
  if (argc < 5) return 125;
  long cpu = atol(argv[1]), mem = atol(argv[2]), fsz = atol(argv[3]);
  lim(RLIMIT_CORE, 0, 0);
  if (cpu) lim(RLIMIT_CPU, cpu, cpu + 1);
  if (mem) lim(RLIMIT_AS, (rlim_t)mem << 20, (rlim_t)mem << 20);
  if (fsz) lim(RLIMIT_FSIZE, (rlim_t)fsz << 20, (rlim_t)fsz << 20);
  execvp(argv[4], argv + 4);
  return 126;
}
