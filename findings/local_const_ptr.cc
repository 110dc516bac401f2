#include "h.h"
extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  const int n = 2 + 1;
  int (*p)[n] = 0; h_obs(1, sizeof(*p));  return n;
}
