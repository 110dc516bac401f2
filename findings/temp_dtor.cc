struct T { int *p; T(int *q) : p(q) {} ~T() { *p = *p * 3 + 1; } int get() const { return *p; } };
extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  int x = 2;
  int y = T(&x).get() + (x = 5);
  int z = 1 + (T(&x).get(), 4) + x;
  return y * 100 + z;
}
