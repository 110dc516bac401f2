extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  if constexpr (n > 2) return 1; else return 2;
}
