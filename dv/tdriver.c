/* Runs unit entry points in several threads under varied schedules and prints each thread's traces.
   usage: exe <threads> <pattern> <seed> <reps> <inputs file>; threads = 0: main thread only. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

typedef long long (*h_entry_t)(int, unsigned, long long, double);
extern h_entry_t h_units[];
extern int h_nunits;

#ifdef TLS_STRTOK
/* Stands in for the C library's strtok, whose hidden state is shared by all threads (a listed finding). */
static __thread char *save;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &save); }
#endif

#define MAXU 64
#define MAXT 64
struct in { int a; unsigned b; long long c; double d; };
static struct in ins[16];
static int nin, nthreads, pattern, reps;
static unsigned seed;
static uint64_t hashes[MAXT][MAXU];
static long counts[MAXT][MAXU];
static __thread uint64_t hash;
static __thread long n, fuel;
static __thread unsigned rs;
static __thread int noisy;
static pthread_barrier_t bar;

void h_emit(long long v) {
  n++;
  uint64_t h = hash;
  for (int i = 0; i < 8; i++) { h ^= (unsigned char)((unsigned long long)v >> (8 * i)); h *= 1099511628211ull; }
  hash = h;
}
void h_emitd(double d) {
  long long v;
  if (d != d) v = 0x7ff8000000000000ll; else memcpy(&v, &d, 8);
  h_emit(v);
}
void h_hit(int k) { (void)k; }
static unsigned rnd(void) { rs = rs * 1664525u + 1013904223u; return rs >> 16; }
/* Called at every basic block of the units when they are compiled for schedule fuzzing. */
void __sanitizer_cov_trace_pc(void) {
  if (++fuel > 600000) _exit(40);
  if (!noisy) return;
  unsigned r = rnd();
  if (r % 64 == 0) sched_yield();
  else if (r % 64 == 1) for (volatile int i = 0; i < (int)(rnd() % 3000); i++) {}
  else if (r % 2048 == 2) { struct timespec t = {0, 20000 + (long)(rnd() % 100000)}; nanosleep(&t, 0); }
}

static void work(int t, int main_only) {
  rs = seed * 2654435761u + (unsigned)t * 40503u + 1;
  /* In a barrier start every thread may take the same path, so that first uses collide. */
  unsigned rot = (pattern % 2) ? rnd() : 0;
  noisy = !main_only;
  for (int k = 0; k < h_nunits; k++) {
    int u = (int)((k + rot) % (unsigned)h_nunits);
    hash = 14695981039346656037ull;
    n = 0;
    for (int r = 0; r < reps; r++)
      for (int i = 0; i < nin; i++) h_emit(h_units[u](ins[i].a, ins[i].b, ins[i].c, ins[i].d));
    hashes[t][u] = hash;
    counts[t][u] = n;
  }
  noisy = 0;
}
static void *body(void *p) {
  int t = (int)(intptr_t)p;
  if (pattern == 0 || pattern == 1 || pattern == 4) pthread_barrier_wait(&bar);
  if (pattern == 3 && t + 1 <= nthreads) {
    pthread_t q;
    pthread_create(&q, 0, body, (void *)(intptr_t)(t + 1));
    work(t, 0);
    pthread_join(q, 0);
    return 0;
  }
  work(t, 0);
  return 0;
}
static pthread_t early;
static int has_early;
static void setup(int argc, char **argv) {
  if (nin || argc < 6) return;
  nthreads = atoi(argv[1]);
  pattern = atoi(argv[2]);
  seed = (unsigned)strtoul(argv[3], 0, 10);
  reps = atoi(argv[4]);
  FILE *f = fopen(argv[5], "r");
  if (!f) _exit(2);
  struct in x;
  while (nin < 16 && fscanf(f, "%d %u %lld %lf", &x.a, &x.b, &x.c, &x.d) == 4) ins[nin++] = x;
  fclose(f);
}
#ifdef EARLY
__attribute__((constructor)) static void before_main(int argc, char **argv, char **env) {
  (void)env;
  setup(argc, argv);
  if (pattern == 5 && nthreads > 0) {
    has_early = 1;
    pthread_create(&early, 0, body, (void *)(intptr_t)1);
  }
}
#endif
int main(int argc, char **argv) {
  setup(argc, argv);
  pthread_t th[MAXT];
  if (nthreads == 0) {
    work(0, 1);
  } else {
    pthread_barrier_init(&bar, 0, (unsigned)nthreads);
    if (pattern == 2) work(0, 0);
    if (pattern == 3) {
      pthread_create(&th[1], 0, body, (void *)(intptr_t)1);
      pthread_join(th[1], 0);
    } else {
      for (int t = 1 + has_early; t <= nthreads; t++) {
        pthread_create(&th[t], 0, body, (void *)(intptr_t)t);
        if (pattern == 6) pthread_join(th[t], 0);
        if (pattern == 2 || pattern == 5) usleep((seed * 7 + (unsigned)t * 13) % 300);
      }
      if (pattern != 6) for (int t = 1 + has_early; t <= nthreads; t++) pthread_join(th[t], 0);
      if (has_early) pthread_join(early, 0);
    }
    if (pattern != 2) work(0, 0);
  }
  for (int t = 0; t <= nthreads; t++)
    for (int u = 0; u < h_nunits; u++) printf("T %d %d %ld %llx\n", t, u, counts[t][u], (unsigned long long)hashes[t][u]);
  fflush(stdout);
  return 0;
}
