#define NEG -
long long u0_entry(int a, unsigned b, long long c, double d) { return NEG a; }
