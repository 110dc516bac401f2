/* Several threads use instrumented code for the first time at once. */
void h_emit(long long v);
long long u0_entry(int a, unsigned b, long long c, double d) {
  h_emit(a + 1);
  h_emit(c * 2);
  return c;
}
