typedef int v4 __attribute__((vector_size(16)));
typedef float f4 __attribute__((ext_vector_type(4)));
 long long u0_entry(int a, unsigned b, long long c, double d) { v4 v = {1, 2, 3, 4}; v4 w = v + v; v[0] = a; v[1]++; f4 f = {1,2,3,4}; f.x = d; f.xy = f.yz; --f.x;  if (v[0] < 3 && f.x > 1) v[2] += 3; return v[0] + v[1] + w[2] + f.y + (int)(v < w)[0]; }
