template <int N> int f() { return N; }
extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  return f<n>();
}
