extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  alignas(n + 5) char z = 1; return z;
}
