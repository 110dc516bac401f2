int f(int n, int *a) {
  int s = 0;
#pragma omp parallel for reduction(+ : s)
  for (int i = 0; i < n; i++)
    s += a[i];
  return s;
}
