/* Runs small functions over their whole input domain under each mutant and prints every outcome. */
#define _GNU_SOURCE
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#define MAXT 1024
typedef void (*runner)(void);
extern runner d_run[];
static struct { int n; uint64_t out[MAXT]; } *S;
static int64_t fuel;
static sigjmp_buf jb;
static int armed;
uint64_t d_acc;
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
void h_emit(long long v) { d_acc = mix(d_acc, (uint64_t)v); }
void h_emitd(double d) { uint64_t v; if (d != d) v = 0x7ff8000000000000ull; else memcpy(&v, &d, 8); d_acc = mix(d_acc, v + 17); }
void h_hit(int k) {}
void __sanitizer_cov_trace_pc(void) { if (--fuel < 0 && armed) { armed = 0; siglongjmp(jb, 2); } }
static void onsig(int s) { if (armed) { armed = 0; siglongjmp(jb, 1); } _exit(3); }
void d_test(void (*f)(void *), void *arg) {
  int r;
  if (S->n >= MAXT) return;
  d_acc = 1469598103934665603ull;
  fuel = 20000;
  if ((r = sigsetjmp(jb, 1)) == 0) { armed = 1; f(arg); armed = 0; S->out[S->n++] = d_acc; }
  else S->out[S->n++] = r == 1 ? 0xDEAD : 0xF00D;
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  char line[256];
  S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  long id; int fn;
  static struct { long id; int fn; } J[200000];
  int nj = 0;
  while (fgets(line, sizeof line, f)) if (sscanf(line, "%ld %d", &id, &fn) == 2 && nj < 200000) { J[nj].id = id; J[nj++].fn = fn; }
  fclose(f);
  for (int q = 0; q < nj; q++) {
    S->n = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      char b[32];
      int sg[] = {SIGFPE, SIGSEGV, SIGILL, SIGBUS, SIGTRAP};
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = onsig;
      sa.sa_flags = SA_NODEFER;
      for (int i = 0; i < 5; i++) sigaction(sg[i], &sa, 0);
      struct itimerval tv = {{0, 0}, {5, 0}};
      setitimer(ITIMER_VIRTUAL, &tv, 0);
      unsetenv("DREDD_ENABLED_MUTATION");
      if (J[q].id >= 0) { sprintf(b, "%ld", J[q].id); setenv("DREDD_ENABLED_MUTATION", b, 1); }
      d_run[J[q].fn]();
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    printf("%ld %d ", J[q].id, J[q].fn);
    for (int i = 0; i < S->n; i++) printf("%llx,", (unsigned long long)(S->out[i] & 0xffffffff));
    if (st) printf("!");
    printf("\n");
  }
  return 0;
}
