template <int N> struct T { int v() { return N; } };
extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  T<n> *p = 0; return p == 0;
}
