#include "h.h"
extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  typedef int A[n]; h_obs(1, sizeof(A)); return n;
}
