char *strtok(char *, const char *);
static int f(int x) { return x + 1; }
long long u0_entry(int a, unsigned b, long long c, double d) {
  char s[] = "a:b:c";
  char *p = strtok(s, ":");
  int n = 0;
  while (p) {
    n = f(n);
    p = strtok(0, ":");
  }
  return n;
}
