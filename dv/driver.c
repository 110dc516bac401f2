/* Runs unit entry points in forked children and reports what they did. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

typedef long long (*h_entry_t)(int, unsigned, long long, double);
extern h_entry_t h_units[];
extern int h_nunits;

#define MAXIN 16
#define MAXTR 4096
struct res { int status; int n; uint64_t hash; int64_t fuel; };
struct shm {
  struct res r[MAXIN];
  int64_t tr[MAXTR];
  unsigned char hit[1 << 16];
  int nobs;
  struct { int tag; long long v; } obs[1024];
};
static struct shm *S;
static struct res *cur;
static int dump;
static int64_t fuel;
static int64_t FUEL = 3000000;

void h_emit(long long v) {
  if (!cur) return;
  if (dump && cur->n < MAXTR) S->tr[cur->n] = v;
  cur->n++;
  uint64_t h = cur->hash;
  for (int i = 0; i < 8; i++) { h ^= (unsigned char)((unsigned long long)v >> (8 * i)); h *= 1099511628211ull; }
  cur->hash = h;
  if (cur->n > 200000) { cur->status = 3; _exit(40); }
}
void h_emitd(double d) {
  long long v;
  if (d != d) v = 0x7ff8000000000000ll; else memcpy(&v, &d, 8);
  h_emit(v);
}
void h_obs(int tag, long long v) {
  for (int i = 0; i < S->nobs; i++) if (S->obs[i].tag == tag && S->obs[i].v == v) return;
  if (S->nobs < 1024) { S->obs[S->nobs].tag = tag; S->obs[S->nobs].v = v; S->nobs++; }
}
void h_hit(int k) { S->hit[k] = 1; }
void __sanitizer_cov_trace_pc(void) {
  if (--fuel < 0 && cur) { cur->status = 3; _exit(40); }
}

struct in { int a; unsigned b; long long c; double d; };
static struct in ins[4096][MAXIN];
static int nin[4096];

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  if (argc > 2) dump = 1;
  const char *fe = getenv("H_FUEL");
  if (fe) FUEL = atoll(fe);
  S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  /* Read the whole job file first: a child's exit() would move a shared file offset. */
  FILE *f0 = fopen(argv[1], "r");
  if (!f0) return 2;
  fseek(f0, 0, SEEK_END);
  long fl = ftell(f0);
  rewind(f0);
  char *all = malloc(fl + 1);
  if ((long)fread(all, 1, fl, f0) != fl) return 2;
  all[fl] = 0;
  fclose(f0);
  char *line, *next = all;
  while (*(line = next)) {
    char *nl = strchr(line, '\n');
    if (nl) { *nl = 0; next = nl + 1; } else next = line + strlen(line);
    if (line[0] == 'I') {
      int u; struct in x; 
      if (sscanf(line + 1, "%d %d %u %lld %lf", &u, &x.a, &x.b, &x.c, &x.d) != 5) return 2;
      if (nin[u] < MAXIN) ins[u][nin[u]++] = x;
      continue;
    }
    /* J <id> <unit> [NAME=VALUE ...separated by \x01] */
    long id; int u, off;
    if (sscanf(line + 1, "%ld %d%n", &id, &u, &off) != 2) return 2;
    char *env = line + 1 + off;
    if (*env == ' ') env++;
    memset(S, 0, sizeof(S->r) + (dump ? sizeof(S->tr) : 0));
    memset(S->hit, 0, sizeof S->hit);
    S->nobs = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      int dn = open("/dev/null", O_RDWR);
      dup2(dn, 1); dup2(dn, 2);
      struct itimerval tv = {{0, 0}, {4, 0}};
      setitimer(ITIMER_VIRTUAL, &tv, 0);
      unsetenv("DREDD_ENABLED_MUTATION");
      unsetenv("DREDD_MUTANT_TRACKING_FILE");
      for (char *t = strtok(env, "\x01"); t; t = strtok(0, "\x01")) {
        char *eq = strchr(t, '=');
        if (!eq) continue;
        *eq = 0;
        setenv(t, eq + 1, 1);
      }
      for (int i = 0; i < nin[u]; i++) {
        cur = &S->r[i];
        cur->hash = 14695981039346656037ull;
        cur->status = 2;
        fuel = FUEL;
        struct in *x = &ins[u][i];
        long long r = h_units[u](x->a, x->b, x->c, x->d);
        cur->fuel = FUEL - fuel;
        fuel = FUEL;
        h_emit(r);
        cur->status = 1;
      }
      cur = 0;
      exit(0);
    }
    if (p < 0) return 2;
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
    printf("R %ld %d %d", id, sig, code);
    for (int i = 0; i < nin[u]; i++) printf(" %d:%d:%llx:%lld", S->r[i].status, S->r[i].n, (unsigned long long)S->r[i].hash, (long long)S->r[i].fuel);
    int any = 0;
    for (int k = 0; k < (1 << 16); k++) if (S->hit[k]) { printf(any ? ",%d" : " H%d", k); any = 1; }
    for (int k = 0; k < S->nobs; k++) printf(k ? ",%d=%lld" : " O%d=%lld", S->obs[k].tag, S->obs[k].v);
    if (dump) {
      int last = 0;
      for (int i = 0; i < nin[u]; i++) if (S->r[i].status) last = i;
      (void)last;
      printf(" D");
      for (int k = 0; k < MAXTR && k < S->r[0].n; k++) printf("%s%lld", k ? "," : "", (long long)S->tr[k]);
    }
    printf("\n");
  }
  fflush(stdout);
  return 0;
}
