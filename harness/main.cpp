// vf PROP SEED FROM TO TIER STATS PROGRESS [DICT]
#include "props.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
namespace vf {
u64 g_case = 0;
static volatile u64 *g_prog = NULL;   // case, beat, patience
void write_stats(const char *path);
}
namespace vf {
void patience(u64 times) {
  if (g_prog) { g_prog[2] = times; g_prog[1] = g_prog[1] + 1; }
}
}
int main(int argc, char **argv) {
  using namespace vf;
  if (argc < 8) return 2;
  CaseFn fn = find_prop(argv[1]);
  if (!fn) return 2;
  u64 seed = strtoull(argv[2], NULL, 0), from = strtoull(argv[3], NULL, 0), to = strtoull(argv[4], NULL, 0);
  g_tier = atoi(argv[5]);
  g_verbose = getenv("VF_VERBOSE") != NULL;
  if (argc > 8) load_dict(argv[8]);
  int fd = open(argv[7], O_RDWR | O_CREAT, 0600);
  volatile u64 *prog = NULL;
  if (fd >= 0 && ftruncate(fd, 4096) == 0)
    prog = (volatile u64 *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
#ifdef VF_MSAN
  mem::poison = mem::P_NONE;
#else
  mem::poison = mem::P_RAND;
#endif
  g_prog = prog;
  u64 ph = 0;
  for (const char *p = argv[1]; *p; p++) ph = ph * 131 + (u8)*p;
  for (u64 i = from; i < to; i++) {
    if (prog) { prog[2] = 1; *prog = i + 1; }
    g_case = i;
    Src s(mix(mix(seed ^ mix(ph)) + i));
    fn(s);
    if (g_violations) {
      printf("VF-CASE %llu\n", (unsigned long long)i);
      fflush(stdout);
      write_stats(argv[6]);
      _exit(3);
    }
  }
  if (prog) *prog = ~0ull;
  write_stats(argv[6]);
  fflush(stdout);
  _exit(0);
}
