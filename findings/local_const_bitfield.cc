extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  struct S { int f : n; } s = {1}; return s.f;
}
