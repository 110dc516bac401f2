"""Parametrised feature snippets: each returns a list of statement lines (a block).

File-scope declarations go to g.top.  h_emit may be used freely (g.trace())."""


import os

ONLY = os.environ.get("DV_FEATS", "").split()      # for debugging: restrict the features


def _nc(e):
    return e.t if e.p > 1 else "(" + e.t + ")"


def I(g, d=1, pure=False):
    """An int-valued argument expression text (assignment precedence)."""
    return "(%s)" % g.full(d, pure=pure).t if g.chance(.3) else _nc(g.full(d, pure=pure))


def S(g, ty, d=1):
    return ("static_cast<%s>(%s)" if g.cxx else "(%s)(%s)") % (ty, _nc(g.full(d)))


def feature(g, d):
    tab = COMMON + (CXX * 2 if g.cxx else CONLY * 2)
    if ONLY:
        tab = [f for f in tab if f.__name__ in ONLY] or tab
    f = g.pick(tab)
    g.use("feat_" + f.__name__)
    g.trace()
    g.scopes.append([])
    lp, g.loop = g.loop, 0
    out = f(g)
    g.loop = lp
    g.scopes.pop()
    return ["{"] + ["  " + l for l in out] + ["}"]


# ---------------------------------------------------------------- common
def nested_ternary(g):
    return ["int t = %s ? %s : %s ? %s : %s;" % (g.paren(g.full(2), 4), I(g), g.paren(g.full(1), 4), I(g), g.paren(g.full(1), 3)),
            "h_emit(t);"]


def ptr_arith(g):
    ty = g.pick(["int", "long", "char", "double", "short"])
    return ["%s b[4] = {1, 2, 3, 4};" % ty, "%s* p = b + (%s & 3);" % (ty, g.paren(g.full(1), 8)),
            "h_emit(p - b);", "h_emit(p >= b && p != b + 1);", "h_emit((long long)*p);",
            "*p = 9;", "if (p != b) --p;", "(*p)++;", "h_emit((long long)p[0]);"]


def ptr_null(g):
    return ["int z = %s;" % S(g, "int"), "int* p = 0;", "if (%s) p = &z;" % g.full(1).t,
            "h_emit(p ? *p : -1);", "h_emit(p == 0);", "h_emit(!p);", "if (p && *p > 2) *p += 1;", "h_emit(z);"]


def bitfields(g):
    n = g.gname("BF")
    g.top += ["struct %s {" % n, "  unsigned a : %d;" % g.R.randint(1, 9), "  int b : %d;" % g.R.randint(2, 12), "  unsigned long long c : %d;" % g.R.randint(1, 40), "  unsigned : 0;", "  signed char d : %d;" % g.R.randint(2, 8), "};"]
    op = g.pick(["+=", "-=", "|=", "^=", "="])
    return ["struct %s s = {1, 1, 1, 1};" % n, "s.a %s %s;" % (op, I(g)), "s.b %s %s;" % (op, I(g)), "s.c = %s;" % I(g), "s.d++;", "--s.a;",
            "h_emit(s.a + s.b);", "h_emit(s.c * 2);", "h_emit(-s.d);", "h_emit(s.a && s.b);", "h_emit((s.b = s.a + 1));", "h_emit(s.a < s.c ? s.b : s.d);", "h_emit(!s.b);"]


def vol(g):
    ty = g.pick(["int", "unsigned char", "long", "short"])
    return ["volatile %s v = %s;" % (ty, S(g, ty)), "v += 2;", "v = v - 1;", "++v;", "v--;", "h_emit(v + v);", "h_emit(-v);", "h_emit(v > 1 && v < 9);",
            "volatile %s* q = &v;" % ty, "*q ^= 3;", "h_emit((*q)++);", "h_emit(v);"]


def constvals(g):
    return ["const int k = %s;" % S(g, "int"), "const long long kk = k * 2;", "h_emit(k + kk);", "h_emit(-k);", "h_emit(~k & 255);", "h_emit(!k);", "h_emit(k == 2 || kk > k);",
            "const int* pk = &k;", "h_emit(*pk + 1);"]


def fun_ptr(g):
    n = g.gname("fp")
    g.top += ["static int %s(int x) { return x * 3 - 1; }" % n]
    return ["int (*fp)(int) = %s;" % n, "h_emit(fp(%s));" % S(g, "int"), "h_emit((*fp)(2) + %s);" % "fp(1)"] if False else \
           ["int (*fp)(int) = %s;" % n, "h_emit(fp(%s));" % S(g, "int"), "h_emit((*fp)(2));", "h_emit(fp != 0);", "fp = &%s;" % n, "h_emit(%s ? fp(3) : 4);" % g.paren(g.full(1), 4)]


def multidim(g):
    return ["int m[2][3] = {{1, 2, 3}, {4, 5, 6}};", "m[%s & 1][2] += %s;" % (g.paren(g.full(1, pure=True), 8), I(g, 1, True)),
            "for (int i = 0; i < 2; i++)", "  for (int j = 0; j < 3; j++)", "    h_emit(m[i][j] * (i + 1));",
            "h_emit(m[0][0] < m[1][1] && *(*m + 1) == 2);"]


def duff(g):
    return ["int n = (%s & 3) + 1;" % g.paren(g.full(1), 8), "int acc = 0;", "switch (n & 3) {", "  case 0: do { acc += 1;", "  case 3: acc += 2;", "  case 2: acc *= 3;",
            "  case 1: acc ^= 5;", "  } while (--n > 0);", "}", "h_emit(acc);"]


def switch_nest(g):
    return ["switch (%s & 7) {" % g.paren(g.full(2), 8), "  case 1: case 2:", "    h_emit(12);", "  case 3:", "    switch (%s & 1) {" % g.paren(g.full(1), 8),
            "      case 0: h_emit(0); break;", "      default: h_emit(7);", "    }", "    break;", "  case 4: ;", "  case 5: {", "    int q = 4;", "    h_emit(q + 1);", "    break;", "  }",
            "  case 6 : if (%s) h_emit(6); else h_emit(66);" % g.full(1).t, "  default:", "    h_emit(99);", "    break;", "}"]


def goto_loop(g):
    l = g.name("L")
    return ["int n = 3;", "%s: n--;" % l, "h_emit(n + %s);" % g.paren(g.full(1, pure=True), 12), "if (n > 0) goto %s;" % l, "goto %sx;" % l, "h_emit(5);", "%sx: ;" % l, "%sy: h_emit(1);" % l]


def comma_for(g):
    return ["int i, j;", "for (i = 0, j = 5; i < j; i++, --j) h_emit(i * j);", "for (; i < 6;) { i += 2; if (i == 5) continue; h_emit(i); }", "for (;;) { if (i-- < 3) break; }", "h_emit(i), h_emit(j);"]


def nested_if(g):
    return ["int r = 0;", "if (%s) if (%s) r = 1; else r = 2;" % (g.full(1).t, g.full(1).t), "if (%s) ; else r += 4;" % g.full(1).t, "if (%s) {} else if (%s) { r += 8; } else { }" % (g.full(1).t, g.full(1).t), "h_emit(r);"]


def int128(g):
    return ["__int128 w = %s;" % S(g, "__int128"), "w = w * 1000003 + 17;", "unsigned __int128 u = (unsigned __int128)w;", "u >>= 3;", "u |= 1;", "h_emit((long long)(w >> 7));", "h_emit((long long)(u ^ 5));", "h_emit(w > 3 && u != 0);", "h_emit((long long)-w);", "h_emit((long long)~u);", "w++;", "--w;", "h_emit((long long)w);"]


def longdouble(g):
    return ["long double x = 1.5L, y = (long double)(%s & 15);" % g.paren(g.full(1), 8), "x += y;", "x *= 2.0L;", "h_emitd((double)(x - y));", "h_emit(x > y && y != 0.0L);", "h_emitd((double)-x);", "x++;", "--y;", "h_emitd((double)(x / 4.0L));", "h_emit(!y);"]


def floats(g):
    return ["float a = %s, b = 0.0f;" % "(float)(%s & 31)" % g.paren(g.full(1), 8), "double c = 1.0;", "b = a;", "a += 1.0f;", "a -= c;", "c *= a;", "c /= 2.0;", "h_emitd(a * b + c);", "h_emitd(a / 4.0f);", "h_emit(a < b || b == c);", "h_emit(a >= 1.0 && a);", "h_emitd(a++ - --c);", "h_emitd(-a);", "h_emit(!a);", "h_emitd(a ? b : c);", "h_emit((int)a & 3);", "h_emitd(a - 0.0f);", "h_emitd(1.0 * c);"]


def chars(g):
    t = ["char", "signed char", "unsigned char", "short", "unsigned short"] + (["char8_t", "char16_t", "char32_t", "wchar_t"] if g.cxx else [])
    a, b = g.pick(t), g.pick(t)
    return ["%s a = %s;" % (a, S(g, a)), "%s b = %s;" % (b, S(g, b)), "a += b;", "a = b * 3;", "b = a;", "b <<= 1;", "a >>= 1;", "b |= a;", "a %= 7;", "h_emit(a + b);", "h_emit(a++);", "h_emit(--b);", "h_emit(~a);", "h_emit(-b);", "h_emit(a == b);", "h_emit(a << 2);", "h_emit(a & b);", "h_emit(!a);", "h_emit(a && b);"]


def cond_macro(g):
    n = g.gname("CM")
    g.top += ["#define %s 1" % n]
    return ["int r = 1", "#if %s" % n, "    + 2", "#else", "    + 3", "#endif", "    ;", "#ifdef %s" % n, "r = 4", "#else", "r = 5", "#endif", "    ;", "h_emit(r);",
            "if (r > 2", "#if %s" % n, "    && r < 9", "#endif", ") {", "  h_emit(1);", "}"]


def line_macros(g):
    n = g.gname("M")
    g.top += ["#define %sMUL(a, b) \\" % n, "  ((a) * \\", "   (b))", "#define %sOP +" % n, "#define %sLP (" % n, "#define %sRP )" % n, "#define %sEMPTY" % n, "#define %sNEG -" % n, "#define %sCAT(a, b) a##b" % n, "#define %sSEMI ;" % n, "#define %sPAIR x, y" % n]
    return ["int x = %s, y = 3, xy = 4;" % S(g, "int"), "h_emit(%sMUL(x, y + 1));" % n, "h_emit(x %sOP y);" % n, "h_emit(%sLP x + y %sRP * 2);" % (n, n), "h_emit(%sEMPTY(x) + y);" % n, "h_emit(%sCAT(x, y) + 1);" % n, "y = x + 1 %sSEMI" % n, "h_emit(%sMUL(%sMUL(x, 2), y) - 1);" % (n, n), "x = %sEMPTY y;" % n, "h_emit(x), h_emit((%sPAIR));" % n, "h_emit(-%sMUL(x, 2));" % n, "h_emit(%sMUL(x, 2) < y || %sMUL(y, y));" % (n, n), "if (%sMUL(x, y)) %sMUL(x, y);" % (n, n)]


def weird_layout(g):
    return ["int a = 1 /* one */, b = /* two */ 2; // trailing", "a = /* x */ b /* y */ + /* z */ 1 /* w */ ; // end", "a", "  +=", "    b", "  ;", "h_emit(a /* ) */ * b); /* ( */", "if (a // first", "    > b) // second", "  h_emit(1); // yes", "else // no", "  h_emit(2);", "b = a \\", "  - 3;", "h_emit(b);\th_emit(a);", "b++ /* c1 */ /* c2 */ ;", "--a // c", ";", "h_emit(\"/*\"[0]); h_emit('/');", "{;}", "h_emit(b);"]


def strings(g):
    return ["const char* s = \"a\\\"b//c/*\";", "int n = 0;", "while (s[n]) n++;", "h_emit(n);", "h_emit(s[1] == '\"');", "h_emit(*s + 1);", "h_emit(\"xyz\"[%s & 1]);" % g.paren(g.full(1), 8), "h_emit(sizeof(\"abc\") - 1);"]


def early_return_fn(g):
    n = g.gname("er")
    g.top += ["static int %s(int x) {" % n, "  if (x > 3) return x - 3;", "  for (int i = 0; i < 3; ++i) {", "    if (i == x) return 10 + i;", "    if (i > 1) break;", "  }", "  while (x < 0) { x += 2; if (x == -1) return -7; }", "  return 99;", "}"]
    return ["h_emit(%s(%s & 7));" % (n, g.paren(g.full(1), 8)), "h_emit(%s(-%s));" % (n, g.R.randint(1, 4))]


def recursion(g):
    n = g.gname("rec")
    g.top += ["static long %s(int n, long acc) {" % n, "  return n <= 0 ? acc : %s(n - 1, acc * 3 + n);" % n, "}"]
    return ["h_emit(%s((%s & 3) + 1, 2));" % (n, g.paren(g.full(1), 8))]


def voidfn(g):
    n = g.gname("vf")
    g.top += ["static int %s_c;" % n, "static void %s(int* p) {" % n, "  if (!p) return;", "  *p += 1;", "  %s_c++;" % n, "  if (*p > 5) { *p = 0; return; }", "  h_emit(%s_c);" % n, "}"]
    return ["int q = %s & 7;" % g.paren(g.full(1), 8), "%s(&q);" % n, "%s(0);" % n, "%s(&q), %s(&q);" % (n, n), "h_emit(q);"]


def enums(g):
    n = g.gname("En")
    g.top += ["enum %s { %s_a, %s_b = 5, %s_c = %s_b + 2, %s_d = -3 };" % (n, n, n, n, n, n), "#define %s_max (%s_c + 1)" % (n, n)]
    return ["enum %s e = %s ? %s_b : %s_c;" % (n, g.paren(g.full(1), 4), n, n), "h_emit(e);", "h_emit(e + 1);", "h_emit(e == %s_b);" % n, "h_emit(-%s_d * 2);" % n,
            "switch (e) { case %s_a: h_emit(1); break; case %s_b: h_emit(2); case %s_c: h_emit(3); break; default: h_emit(4); }" % (n, n, n), "h_emit(e > %s_a && e);" % n, "h_emit(!e);", "h_emit(%s_max);" % n, "int ei = %s_c;" % n, "ei += %s_b;" % n, "h_emit(ei);"]


def unionmix(g):
    n = g.gname("Un")
    g.top += ["union %s { int i; unsigned u; unsigned char c[4]; };" % n, "struct %s_w { union %s z; int k[3]; struct { int q; } in; };" % (n, n)]
    return ["struct %s_w w = {{%s}, {1, 2, 3}, {4}};" % (n, S(g, "int")), "w.z.u += 7;", "h_emit(w.z.c[0] + w.z.c[1]);", "w.k[1] *= 3;", "w.k[w.in.q & 1]--;", "struct %s_w* pw = &w;" % n, "pw->in.q = pw->k[0] + pw->z.i;", "h_emit(pw->in.q);", "h_emit(-pw->k[1]);", "h_emit(++pw->k[2]);", "h_emit(pw->z.i < 0 || pw->k[0]);"]


def shortcircuit(g):
    n = g.gname("sc")
    g.top += ["static int %s(int v) { h_emit(v); return v & 1; }" % n]
    return ["h_emit(%s(%s) && %s(3));" % (n, S(g, "int"), n), "h_emit(%s(2) || %s(%s));" % (n, n, S(g, "int")), "h_emit(%s(1) && %s(2) && %s(5));" % (n, n, n), "h_emit(%s(4) || (%s(2) && %s(7)) || %s(9));" % (n, n, n, n),
            "if (%s(%s) && !%s(2)) h_emit(50);" % (n, S(g, "int"), n), "while (%s(2) || 0) break;" % n, "int z = 3; h_emit(z > 2 && z++ && z);", "h_emit(z);", "h_emit(1.5 && z);", "h_emit(%s(1) ? %s(2) : %s(3));" % (n, n, n)]


def sizeofs(g):
    return ["int a[3] = {1, 2, 3};", "h_emit(sizeof(a) / sizeof(a[0]));", "h_emit(sizeof a[0] + 1);", "h_emit(sizeof(int) * 2 - sizeof(char));", "h_emit(sizeof(a[1] + 1.0));", "int i = 2; h_emit(sizeof(i++)); h_emit(i);", "h_emit((int)sizeof(struct { int q; char r; }));" if not g.cxx else "h_emit(alignof(int) + sizeof(short));"]


def ptr_to_ptr(g):
    return ["int v = %s;" % S(g, "int"), "int* p = &v;", "int** pp = &p;", "**pp += 2;", "(**pp)++;", "h_emit(**pp * 2);", "h_emit(*pp == p);", "*&v = *p + 1;", "h_emit(-**pp);", "int arr[2] = {1, 2};", "p = arr;", "h_emit(*p++);", "h_emit(*p);", "*p = 5;", "h_emit(*--p + arr[1]);", "h_emit(p[1]++);", "*p++ = 4;", "h_emit(arr[0]);"]


def asg_chain(g):
    return ["int a, b = 1, c;", "a = b = c = %s;" % I(g), "a += b -= c *= 2;", "h_emit(a), h_emit(b), h_emit(c);", "a = (b = 3) + 1;", "h_emit((a = b) ? a : c);", "unsigned char uc; short sh;", "sh = uc = %s;" % I(g), "h_emit(sh);", "int z = (a = 4, b += a, b);", "h_emit(z);", "if ((a = z - 1)) h_emit(a);", "while ((b = b - 2) > 0) h_emit(b);"]


def alignas_attr(g):
    return ["int x __attribute__((unused)) = %s;" % I(g), "h_emit(x);", "int y __attribute__((aligned(16))) = x + 1;", "h_emit(y);", "h_emit(__builtin_expect(x > y, 0));", "h_emit(__builtin_popcount((unsigned)x));", "__extension__ long long q = x;", "h_emit(q);"]


COMMON = [nested_ternary, ptr_arith, ptr_null, bitfields, vol, constvals, fun_ptr, multidim, duff, switch_nest, goto_loop, comma_for, nested_if,
          int128, longdouble, floats, chars, cond_macro, line_macros, weird_layout, strings, early_return_fn, recursion, voidfn, enums, unionmix,
          shortcircuit, sizeofs, ptr_to_ptr, asg_chain, alignas_attr]


# ---------------------------------------------------------------- C only
def vla(g):
    return ["int n = (%s & 3) + 2;" % g.paren(g.full(1), 8), "int a[n];", "for (int i = 0; i < n; i++) a[i] = i * 2;", "h_emit(a[n - 1]);", "h_emit(sizeof(a) / sizeof(int));"]


def compound_lit(g):
    n = g.gname("CL")
    g.top += ["struct %s { int a; int b; };" % n, "static int %s_f(struct %s s) { return s.a * 10 + s.b; }" % (n, n), "static int %s_g(const int* p) { return p[0] - p[1]; }" % n]
    return ["h_emit(%s_f((struct %s){%s, 2}));" % (n, n, S(g, "int")), "h_emit(%s_g((int[]){4, %s}));" % (n, I(g)), "struct %s s = (struct %s){.b = %s};" % (n, n, I(g)), "h_emit(s.b - s.a);", "int a[5] = {[2] = %s, [4] = 1};" % I(g), "h_emit(a[2] + a[4] + a[0]);"]


def generic_sel(g):
    return ["int x = %s;" % S(g, "int"), "double y = 1.5;", "h_emit(_Generic(x, int: 1, double: 2, default: 3));", "h_emit(_Generic(y + 1, int: 1, double: x + 2, default: 3));", "h_emit(x + 1);"]


def static_loc(g):
    return ["static int c = 3 + 4;", "static const int tab[] = {1, 2, 1 + 2};", "static double dd = 1.0 / 2;", "c += %s;" % I(g), "h_emit(c++);", "h_emit(tab[c & 1]);", "dd += 1;", "h_emitd(dd);"]


def knr(g):
    n = g.gname("kr")
    g.top += ["static int %s(a, b)" % n, "int a; int b;", "{ return a - b * 2; }"]
    return ["h_emit(%s(3, %s));" % (n, S(g, "int"))]


def restrict_q(g):
    n = g.gname("rq")
    g.top += ["static void %s(int n, int* restrict a, const int* restrict b) { for (int i = 0; i < n; ++i) a[i] += b[i] * 2; }" % n, "static int %s_s(int a[static 2]) { return a[0] + a[1]; }" % n, "_Static_assert(sizeof(int) == 4, \"x\");"]
    return ["int a[2] = {1, %s}, b[2] = {3, 4};" % I(g), "%s(2, a, b);" % n, "h_emit(a[0]); h_emit(a[1]);", "h_emit(%s_s(a));" % n, "_Static_assert(2 + 2 == 4, \"ok\");"]


def bool_c(g):
    return ["_Bool t = %s, f = 0;" % I(g), "f |= t;", "t = !f;", "h_emit(t + f);", "h_emit(t == f);", "h_emit(t && !f);", "f = 5;", "h_emit(f);", "h_emit(-f);", "h_emit(~t);", "t ^= 1;", "h_emit(t ? 3 : 4);", "f++; h_emit(f);"]


def complex_c(g):
    return ["_Complex double z = 1.0;", "z += 2.0;", "h_emitd(__real__ z);", "int x = %s;" % I(g), "h_emit(x);"]


CONLY = [vla, compound_lit, generic_sel, static_loc, knr, restrict_q, bool_c]


# ---------------------------------------------------------------- C++ only
def klass(g):
    n = g.gname("Kl")
    g.top += ["class %s {" % n, " public:", "  explicit %s(int a, int b = 3 + 1) : a_(a), b_(b * 2), c_{a > b} { a_ += 1; }" % n, "  virtual ~%s() { h_emit(a_); }" % n,
              "  int Get() const { return a_ - b_; }", "  virtual int V(int x) { return x + a_; }", "  %s& operator+=(int x) { a_ += x; return *this; }" % n, "  bool operator<(const %s& o) const { return a_ < o.a_; }" % n,
              "  int operator[](int i) { return i ? a_ : b_; }", "  explicit operator bool() const { return a_ > 0 && c_; }", "  operator int() const { return b_; }", "  static int Sf(int q) { return q * q; }", "  int& Ref() { return a_; }",
              " protected:", "  int a_;", "  int b_ = 7 + 1;", "  bool c_;", "};",
              "class %sD : public %s {" % (n, n), " public:", "  %sD(int q) : %s(q - 1), d_(q ? q : 1) {}" % (n, n), "  int V(int x) override { return %s::V(x) * d_; }" % n, " private:", "  int d_;", "};"]
    return ["%s k(%s);" % (n, S(g, "int")), "%sD dd(%s);" % (n, S(g, "int")), "k += 3;", "h_emit(k.Get());", "h_emit(k < dd);", "%s* bp = &dd;" % n, "h_emit(bp->V(2) + 1);", "h_emit(k[0] - k[1]);", "if (k) h_emit(1);", "h_emit(k + 2);", "h_emit(%s::Sf(3));" % n, "k.Ref() = 4;", "k.Ref()++;", "h_emit(k.Ref() * 2);", "(k += 1) += 2;", "h_emit(k.Get() && bp->Get());"]


def tmpl_class(g):
    n = g.gname("Tc")
    g.top += ["template <typename T, int N> struct %s {" % n, "  T v[N];", "  int cnt = 0;", "  %s() { for (int i = 0; i < N; ++i) v[i] = static_cast<T>(i * 2); }" % n, "  T sum() const { T s = 0; for (auto x : v) s += x; return s; }", "  int bump() { cnt++; return cnt + N; }", "  template <int M> int tm() { return M + N * 2; }", "};",
              "template <> struct %s<char, 1> { int sum() const { return 41 + 1; } int bump() { return 0 - 1; } };" % n]
    return ["%s<int, 3> t1;" % n, "%s<double, 2 + 2> t2;" % n, "%s<char, 1> t3;" % n, "h_emit(t1.sum());", "h_emitd(t2.sum());", "h_emit(t3.sum() + t3.bump());", "h_emit(t1.bump());", "t1.v[%s & 1] += 5;" % g.paren(g.full(1), 8), "h_emit(t1.sum() + t1.bump());", "h_emit(t1.template tm<4>());"]


def constexprs(g):
    n = g.gname("ce")
    g.top += ["constexpr int %s(int x) { return x * 2 + 1; }" % n, "constexpr int %s_k = %s(4) - 3;" % (n, n), "static_assert(%s_k == 6, \"k\");" % n, "template <int N> struct %s_t { static constexpr int v = N + 1; };" % n]
    return ["constexpr int c = %s(3) + 1;" % n, "static_assert(c == 8);", "h_emit(c + %s(%s));" % (n, S(g, "int")), "int arr[c] = {1};", "h_emit(sizeof(arr) / sizeof(arr[0]));", "if constexpr (c > 3 && sizeof(int) == 4) { h_emit(1); } else { h_emit(2); }", "h_emit(%s_t<c * 2>::v);" % n, "switch (%s & 15) { case c: h_emit(8); break; case c + 1: h_emit(9); break; default: h_emit(0); }" % g.paren(g.full(1), 8), "static constexpr int sc = 4 * 2;", "h_emit(sc - 1);"]


def struct_bind(g):
    n = g.gname("Sb")
    g.top += ["struct %s { int a; double b; };" % n]
    return ["%s s{%s, 2.5};" % (n, S(g, "int")), "auto [x, y] = s;", "h_emit(x + 1);", "h_emitd(y);", "auto& [p, q] = s;", "h_emit(s.a);", "int ar[2] = {3, 4};", "auto [m, k] = ar;", "h_emit(m);", "h_emit(k);"]


def newdel(g):
    n = g.gname("nd")
    g.top += ["struct %s { int v; %s(int x = 1 + 1) : v(x) {} ~%s() { h_emit(v); } };" % (n, n, n)]
    return ["int* p = new int(%s);" % S(g, "int"), "*p += 2;", "h_emit(*p);", "delete p;", "int* a = new int[3]{1, %s, 3};" % S(g, "int"), "a[1]++;", "h_emit(a[0] + a[1]);", "delete[] a;", "auto* o = new %s(%s);" % (n, S(g, "int")), "h_emit(o->v * 2);", "o->v--;", "delete o;", "auto* oa = new %s[2];" % n, "h_emit(oa[1].v);", "delete[] oa;"]


def lambdas(g):
    return ["int base = %s;" % S(g, "int"), "auto add = [base](int x) { return x + base; };", "auto inc = [&base](int x) mutable { base += x; return base; };", "auto gen = [](auto a, auto b) { return a < b ? a + 1 : b - 1; };", "h_emit(add(2));", "h_emit(inc(3));", "h_emit(gen(1, 2));", "h_emitd(gen(1.5, 0.5));", "auto cnt = [n = 0]() mutable { return ++n; };", "cnt();", "h_emit(cnt());", "h_emit([&]() -> int { if (base > 3) return base * 2; return base; }());", "auto nest = [&](int q) { return [&, q](int r) { return q * 10 + r + base; }; };", "h_emit(nest(2)(3));"]


def refs(g):
    n = g.gname("rf")
    g.top += ["static int& %s(int& x) { ++x; return x; }" % n, "static int %s_v(const int& x) { return x + 1; }" % n, "static int %s_m(int&& x) { x *= 2; return x; }" % n, "static void %s_o(int& o, int v) { o = v; }" % n]
    return ["int x = %s;" % S(g, "int"), "%s(x) += 3;" % n, "%s(x) = 4;" % n, "%s(x)++;" % n, "h_emit(%s(x));" % n, "h_emit(%s_v(x + 1));" % n, "h_emit(%s_v(7));" % n, "h_emit(%s_m(x - 1));" % n, "%s_o(x, 5);" % n, "h_emit(x);", "const int& cr = x;", "h_emit(cr * 2);", "int&& rr = x + 1;", "rr++;", "h_emit(rr);", "(x > 3 ? x : rr) = 9;", "h_emit(x + rr);", "++++x;", "(x += 2) -= 1;", "h_emit(x);", "int y = 0; (y = x) += 1; h_emit(y);"]


def exceptions(g):
    n = g.gname("xc")
    g.top += ["struct %s_e { int c; };" % n, "static int %s(int x) { if (x > 2) throw %s_e{x * 2}; return x + 1; }" % (n, n), "static int %s_n(int x) noexcept(noexcept(x + 1)) { return x - 1; }" % n, "static int %s_ft(int x) try { return %s(x) + 1; } catch (%s_e& e) { return e.c - 1; }" % (n, n, n)]
    return ["try { h_emit(%s(%s & 7)); } catch (const %s_e& e) { h_emit(e.c); }" % (n, g.paren(g.full(1), 8), n), "h_emit(%s_n(4));" % n, "h_emit(%s_ft(%s & 3));" % (n, g.paren(g.full(1), 8)), "int z = %s & 1;" % g.paren(g.full(1), 8), "try { h_emit(z ? z : throw 5); } catch (int i) { h_emit(i + 1); }", "try { try { throw 1; } catch (int i) { i += 1; h_emit(i); throw; } } catch (...) { h_emit(77); }"]


def enumclass(g):
    n = g.gname("ec")
    g.top += ["enum class %s : unsigned char { A = 1, B = A + 2, C };" % n, "static int %s_f(%s e) { switch (e) { case %s::A: return 1; case %s::B: return 2; default: return 3; } }" % (n, n, n, n)]
    return ["%s e = %s ? %s::A : %s::C;" % (n, g.paren(g.full(1), 4), n, n), "h_emit(static_cast<int>(e) + 1);", "h_emit(e == %s::A);" % n, "h_emit(%s_f(e));" % n, "h_emit(e < %s::C && %s_f(%s::B));" % (n, n, n)]


def nspaces(g):
    n = g.gname("ns")
    g.top += ["namespace %s {" % n, "enum Kind { kA, kB = 4 };", "struct T { int v; operator int() const { return v + 1; } };", "inline int Take(int x) { return x * 2; }", "inline int TakeK(Kind k) { return k + 3; }", "int gl = 5;", "namespace inner { inline int f(int x) { return x - gl; } }", "}", "using %s::T;" % n if False else "namespace %s_al = %s::inner;" % (n, n)]
    return ["h_emit(Take(%s::kB));" % n, "h_emit(TakeK(%s::kB) + 1);" % n, "%s::T t{%s};" % (n, S(g, "int")), "h_emit(Take(t));" if False else "h_emit(%s::Take(t));" % n, "h_emit(%s::gl++);" % n, "h_emit(%s_al::f(9));" % n, "using namespace %s;" % n, "h_emit(Take(3));"]


def defaults(g):
    n = g.gname("df")
    g.top += ["static int %s(int a, int b = 2 * 3, bool c = 1 > 2) { return c ? a : a - b; }" % n, "static int %s(double d) { return d > 1.5 ? 1 : 2; }" % n, "static int %s(long long l, char c) { return static_cast<int>(l + c); }" % n]
    return ["h_emit(%s(%s));" % (n, S(g, "int")), "h_emit(%s(1, 2));" % n, "h_emit(%s(2.0));" % n, "h_emit(%s(1 + 2, %s, true));" % (n, S(g, "int")), "h_emit(%s(5LL, 'a'));" % n, "h_emit(%s(1.0f + 1));" % n]


def vtmpl(g):
    n = g.gname("vt")
    g.top += ["template <typename... A> static int %s(A... a) { return (0 + ... + static_cast<int>(a)); }" % n, "template <typename... A> static int %s_c(A...) { return sizeof...(A) + 1; }" % n, "template <bool B> static int %s_b(int x) { if constexpr (B) { return x + 1; } else { return x - 1; } }" % n, "template <int N> static int %s_n(int x) { int arr[N] = {}; arr[N - 1] = x; return arr[N - 1] + N; }" % n]
    return ["h_emit(%s(1, %s, 3L));" % (n, S(g, "int")), "h_emit(%s_c(1, 2.0) * 2);" % n, "h_emit(%s_b<true>(3) + %s_b<false>(4));" % (n, n), "h_emit(%s_n<3>(%s));" % (n, S(g, "int")), "h_emit(%s_b<(2 > 1)>(3));" % n]


def initlists(g):
    n = g.gname("il")
    g.top += ["struct %s { int a; unsigned char b; bool c; double d; };" % n, "struct %s_n { %s x; int y[2]; };" % (n, n), "static int %s_f(%s v) { return v.a + v.b; }" % (n, n)]
    return ["%s s{1, 2, true, 3};" % n, "%s t = {%s, 'a', false, 1.5f};" % (n, S(g, "int")), "h_emit(s.a + t.b);", "h_emit(%s_f({3, 4, 1 > 0, 0}));" % n, "%s_n nn{{1, 2, false, 0.5}, {3, %s}};" % (n, S(g, "int")), "h_emit(nn.x.a - nn.y[1]);", "unsigned char uc[] = {1, 2, 3};", "h_emit(uc[2] + 1);", "long ll[2]{1, 2};", "h_emit(ll[0]);", "int z{};", "h_emit(z);", "float ff[] = {1, 2.0f, 3};", "h_emitd(ff[0] + ff[2]);", "bool bb{true};", "h_emit(bb);", "double dd{1};", "h_emitd(dd);", "char cc{65};", "h_emit(cc);", "%s dz{.a = 1, .d = 2};" % n, "h_emit(dz.a);"]


def temporaries(g):
    n = g.gname("tp")
    g.top += ["struct %s { int v; %s(int x) : v(x) { h_emit(v); } ~%s() { v = 0; } int get() const { return v; } const %s& self() const { return *this; } int& ref() { return v; } };" % (n, n, n, n), "static %s %s_mk(int x) { return %s(x + 1); }" % (n, n, n)]
    return ["h_emit(%s(3).get() + 1);" % n, "h_emit(%s_mk(%s).v);" % (n, S(g, "int")), "h_emit(%s(1).self().get() * 2);" % n, "const %s& r = %s_mk(5);" % (n, n), "h_emit(r.v);", "h_emit(%s(2).ref() + 1);" % n, "%s(8);" % n, "if (%s_mk(1).get() > 1) h_emit(4);" % n, "for (int i = %s(0).v; i < 2; i++) h_emit(i);" % n, "%s a = %s_mk(2), b = a;" % (n, n), "b.v += a.v;"]


def memptr(g):
    n = g.gname("mp")
    g.top += ["struct %s { int a; int b; int f(int x) const { return x + a; } static int cnt; int bits : 5; mutable int m = 0; int bump() const { return ++m; } };" % n, "int %s::cnt = 2 + 3;" % n]
    return ["%s o{%s, 2};" % (n, S(g, "int")), "int %s::*pm = &%s::b;" % (n, n), "o.*pm += 3;", "h_emit(o.*pm);", "int (%s::*pf)(int) const = &%s::f;" % (n, n), "h_emit((o.*pf)(4));", "%s::cnt++;" % n, "h_emit(%s::cnt + o.cnt);" % n, "o.bits = %s;" % I(g), "h_emit(o.bits - 1);", "h_emit(o.bump() + 1);", "%s* po = &o;" % n, "h_emit(po->*pm - 1);", "h_emit((po->*pf)(1));"]


def udl(g):
    n = g.gname("ud")
    g.top += ["static long long operator\"\"_%s(unsigned long long x) { return static_cast<long long>(x * 2); }" % n]
    return ["h_emit(5_%s);" % n, "h_emit(7_%s + %s);" % (n, S(g, "int"))]


def nttp(g):
    n = g.gname("np")
    g.top += ["template <int A, unsigned B = 3> struct %s { int f() const { return A * 2 - static_cast<int>(B); } };" % n]
    return ["const int k = 2;", "%s<k + 1> x;" % n, "%s<4, 2> y;" % n, "h_emit(x.f() + y.f());", "int arr[k * 2] = {1, 2};", "h_emit(arr[k - 1] + k);", "%s<sizeof(int)> z;" % n, "h_emit(z.f());"]


def decltypes(g):
    return ["int x = %s;" % S(g, "int"), "decltype(x) y = x + 1;", "decltype(x + 1.0) z = 2;", "auto w = y * 2;", "h_emit(y + w);", "h_emitd(z);", "decltype(auto) v = (x);", "h_emit(v);", "h_emit(static_cast<decltype(x)>(z) + 1);", "using T = decltype(x);", "T q = 4;", "h_emit(q - 1);"]


def functors(g):
    n = g.gname("fu")
    g.top += ["struct %s { int k; int operator()(int a, int b) const { return a * k + b; } bool operator==(const %s& o) const { return k == o.k; } %s operator-() const { return {-k}; } %s& operator++() { ++k; return *this; } %s operator++(int) { %s t = *this; k++; return t; } };" % (n, n, n, n, n, n), "static %s operator+(const %s& a, const %s& b) { return {a.k + b.k}; }" % (n, n, n)]
    return ["%s f{%s}, h{2};" % (n, S(g, "int")), "h_emit(f(1, 2) + h(3, 4));", "h_emit(f == h);", "h_emit((f + h).k);", "h_emit((-f).k);", "++f; f++;", "h_emit(f.k);", "h_emit(!(f == h) && f.k);"]


def static_init(g):
    n = g.gname("si")
    g.top += ["static int %s_g = 2 * 3 + 1;" % n, "static int %s_h() { static int n = 3 + 4; static bool once = false; if (!once) { once = true; n -= 2; } return n++; }" % n, "inline int %s_v = 4;" % n, "const int %s_c = 7;" % n]
    return ["h_emit(%s_g + %s_h());" % (n, n), "h_emit(%s_h() * 2);" % n, "%s_v += 1;" % n, "h_emit(%s_v);" % n, "int arr[%s_c] = {};" % n, "h_emit(sizeof(arr));", "h_emit(%s_c - 1);" % n]


def inherit_ctor(g):
    n = g.gname("ic")
    g.top += ["struct %s { int a, b; %s(int x, int y) : a(x), b(y) {} %s(int x) : %s(x, x + 1) { a++; } %s() = default; };" % (n, n, n, n, n), "struct %s_d : %s { using %s::%s; int z = 3 * 2; int t = a + 1; };" % (n, n, n, n)]
    return ["%s_d d(%s);" % (n, S(g, "int")), "h_emit(d.a * d.b + d.z);", "%s_d e(1, 2);" % n, "h_emit(e.t + e.b);", "%s f{};" % n, "h_emit(f.a);", "f = {3, 4};", "h_emit(f.b);"]


def rangeinit(g):
    return ["int t[3] = {1, %s, 3};" % S(g, "int"), "int s = 0;", "for (auto x : t) s += x;", "for (auto& x : t) x *= 2;", "for (const int x : {1, 2, 3}) s -= x;", "for (int q = 2; auto x : t) s += x * q;", "h_emit(s + t[1]);"]


def casts(g):
    return ["double f = 2.75;", "int i = static_cast<int>(f) + 1;", "h_emit(i);", "h_emit((int)f * 2);", "h_emit(int(f) - 1);", "unsigned u = static_cast<unsigned>(-i);", "h_emit(u >> 3);", "const int ci = 4;", "h_emit(const_cast<const int&>(ci) + i);", "h_emit(*reinterpret_cast<unsigned*>(&i) + 0);", "h_emit(bool(i) + 1);", "h_emit(char('a' + 1));", "h_emit((i, u) > 2);", "h_emit(static_cast<bool>(i) && u);"]


def temp_ptrs(g):
    n = g.gname("tq")
    g.top += ["struct %s { int a[3]; int b; ~%s() { a[0] = a[1] = a[2] = b = -77; } int* p() { return a; } int& r() { return b; } const int* q() const { return a + 1; } };" % (n, n),
              "static %s %s_mk(int x) { return %s{{x, x + 1, x + 2}, x ^ 5}; }" % (n, n, n), "static int& %s_id(int&& x) { return x; }" % n,
              "static int& %s_at(int i, %s&& t) { return t.a[i]; }" % (n, n), "template <class... A> static auto& %s_last(A&&... a) { return (a, ...); }" % n,
              "struct %s_w { int& operator()(int i, %s&& t) const { return t.a[i]; } int& get(%s&& t, int) { return t.b; } };" % (n, n, n)]
    mk = lambda: "%s_mk(%s)" % (n, S(g, "int"))
    forms = ["*%s.p()", "%s.p()[1]", "%s.a[2]", "*(%s.p() + 1)", "*%s.q()", "(*%s.p() = 5)", "++*%s.p()", "%s.p()[1]++", "(%s.r() += x)", "static_cast<int&>(%s.r())", "*&%s.r()", "(x++, %s.r())", "(x > 1 ? %s.r() : x)", "-*%s.q()", "!%s.p()[0]", "(%s.r())"]
    out = ["int x = 2;"]
    for f in g.R.sample(forms, 4):
        e = f % mk()
        out.append(g.pick(["h_emit(%s);", "h_emit(%s + 1);", "x = %s;", "h_emit(3 - %s);", "if (%s > 2) h_emit(6);"]) % e)
    more = ["h_emit(%s_id(x + 1) + 2);" % n, "h_emit(%s_at(1, %s) + 1);" % (n, mk()), "x = %s_at(%s & 1, %s);" % (n, S(g, "int"), mk()), "h_emit(%s_last(1, x, %s).b - 2);" % (n, mk()),
            "h_emit(%s_w{}(2, %s) * 2);" % (n, mk()), "%s_w w; x ^= w.get(%s, 1);" % (n, mk()), "%s_at(0, %s) += 2;" % (n, mk()), "h_emit(%s_last(x, 3 + x) + 1);" % n, "h_emit(-%s_at(2, %s));" % (n, mk())]
    return out + g.R.sample(more, 4) + ["h_emit(x);"]


def consteval_fn(g):
    n = g.gname("ce")
    g.top += ["consteval int %s(int x) { int r = x; for (int i = 0; i < 3; i++) r += i * 2; return r > 5 ? r - 1 : r + 1; }" % n, "constexpr int %s_c(int x) { if (x > 2) { return x * 2; } return x + 1; }" % n,
              "constinit int %s_g = %s_c(4) + 1;" % (n, n), "static constexpr auto %s_l = [](int v) { return v + 2; };" % n]
    return ["h_emit(%s(4) + 1);" % n, "h_emit(%s_c(%s & 7));" % (n, S(g, "int")), "%s_g += 2;" % n, "h_emit(%s_g);" % n, "constexpr int k = %s_c(3) * 2;" % n, "h_emit(k - 1);", "h_emit(%s_l(3) * 2);" % n, "static_assert(%s_l(2) == 4);" % n]


def attrs(g):
    return ["int x = %s;" % S(g, "int"), "switch (x & 3) {", "case 0:", "  x += 1;", "  [[fallthrough]];", "case 1:", "  x ^= 2;", "  break;", "[[likely]] case 2:", "  x--;", "  break;", "default:", "  x = 7;", "}",
            "if (x > 3) [[unlikely]] {", "  x = x - 3;", "}", "[[maybe_unused]] int u = x * 2;", "h_emit(x + u);"]


def shadow_ops(g):
    n = g.gname("so")
    g.top += ["struct %s { int v; explicit operator bool() const { return v > 1; } operator int() const { return v; } %s& operator=(int x) { v = x; return *this; } int& operator[](int i) { v += i; return v; } int* operator->() { return &v; } int& operator*() { return v; } };" % (n, n)]
    return ["%s o{%s & 15};" % (n, S(g, "int")), "if (o) h_emit(1);", "h_emit(o + 2);", "o = 5;", "h_emit(o[2] + 1);", "o[1] += 3;", "h_emit(*o - 1);", "++*o;", "h_emit(!o);", "while (o && o.v < 12) o.v++;", "h_emit(-o);"]


def try_fn(g):
    n = g.gname("tf")
    g.top += ["static int %s(int x) try { if (x > 3) throw x + 1; return x * 2; } catch (int e) { return e - 1; }" % n, "static int %s_n(int x) noexcept(sizeof(int) + 1 > 2) { return x - 1; }" % n]
    return ["h_emit(%s(%s & 7));" % (n, S(g, "int")), "h_emit(%s_n(3) + %s(9));" % (n, n), "int k = 0;", "try { k = %s(2); if (k) throw 'c'; k++; } catch (char c) { k += c; } catch (...) { k = -1; }" % n, "h_emit(k);"]


def structured_more(g):
    n = g.gname("sm")
    g.top += ["struct %s { int a; long b; unsigned char c; };" % n]
    return ["%s s{%s, 3, 4};" % (n, S(g, "int")), "auto& [a, b, c] = s;", "a += 2; b = a * 3; c++;", "h_emit(a + b - c);", "if (auto [p, q, r] = s; p > q) h_emit(p); else h_emit(q + r);", "int arr[2] = {a, 5};", "auto [u, v] = arr;", "h_emit(u * v);",
            "if (int z = a + 1; z > 3 && z < 90) h_emit(z);", "switch (int y = a & 3; y) { case 1: h_emit(y + 1); break; default: h_emit(y - 1); }", "while (int w = 3 - (a & 3)) { a++; h_emit(w); if (a > 500) break; }"]


def big_literals(g):
    ks = ["0x100000000LL", "0x100000001LL", "0xFFFFFFFFLL", "4294967295u", "-4294967296LL", "0x1FFFFFFFFLL", "0xFFFFFFFFFFFFFFFFULL", "256", "255", "65536L", "0x8000000000000001ULL"]
    k1, k2, k3 = g.pick(ks), g.pick(ks), g.pick(ks)
    return ["long long b = %s;" % S(g, "long long"), "unsigned long long ub = (unsigned long long)b;", "h_emit(ub + %s);" % k1, "h_emit((long long)(ub * %s));" % k2, "h_emit(ub > (unsigned long long)%s);" % k3, "h_emit((long long)(ub & %s));" % k1, "ub ^= %s;" % k2, "h_emit((long long)ub);", "if (ub == %s) h_emit(1);" % k3]


def float_consts(g):
    ty = g.pick(["float", "double", "long double"])
    sf = {"float": "f", "double": "", "long double": "L"}[ty]
    ks = [k + sf for k in ("0.0", "1.0", "-1.0", "2.5", "0.5", "-0.0", "10.0")]
    out = ["%s x = (%s)%s;" % (ty, ty, S(g, "int"))]
    for o in "+-*/":
        out.append("x = x %s %s;" % (o, g.pick([k for k in ks if o != "/" or "0.0" != k.strip("-").rstrip("fL")])))
    return out + ["h_emitd((double)(x * %s - %s));" % (g.pick(ks), g.pick(ks)), "h_emit(x > %s || x < %s);" % (g.pick(ks), g.pick(ks)), "x += %s; x -= %s; x *= %s;" % (g.pick(ks), g.pick(ks), g.pick(ks)), "h_emitd((double)-x);", "h_emit(!x);", "h_emit(x && %s);" % g.pick(ks), "x++;", "h_emitd((double)x);"]


def line_dir(g):
    a = g.R.randint(1, 9000)
    g.top += ["#line %d \"%s.y\"" % (a, g.gname("gram"))]
    return ["int x = %s;" % S(g, "int"), "#line %d" % g.R.randint(1, 9000), "x += 3;", "h_emit(x", "#line 7 \"other.c\"", "  * 2);", "x = -x;", "h_emit(x);"]


COMMON += [big_literals, float_consts, line_dir]
CXX = [klass, tmpl_class, constexprs, struct_bind, newdel, lambdas, refs, exceptions, enumclass, nspaces, defaults, vtmpl, initlists, temporaries,
       memptr, udl, nttp, decltypes, functors, static_init, inherit_ctor, rangeinit, casts, temp_ptrs, consteval_fn, attrs, shadow_ops, try_fn, structured_more]


# ---------------------------------------------------------------- compiler extensions
def _tick(g):
    n = g.gname("tk")
    g.top += ["static int %s(int x) { h_emit(x); return x * 7; }" % n]
    return n


def gnu_stmt_expr(g):
    tk = _tick(g)
    out = ["int x = %s & 15;" % S(g, "int"), "int y = ({ int q = x; q++; q + 1; });", "({ x++; y--; });",
           "h_emit(({ if (x > 2) y++; else y--; x; }) + 1);", "x += ({ h_emit(y); %s(y); });" % tk, "h_emit(x);"]
    return out if g.chance(.5) else out[:3] + ["int z = ({ ({ y++; x; }); });", "h_emit(z - y);", "h_emit(({ x ^= 1; ; }));"]


def gnu_elvis(g):
    tk = _tick(g)
    return ["int x = %s;" % S(g, "int"), "int y = %s & 3;" % S(g, "int"), "h_emit(%s(y) ?: 5);" % tk, "x = x ?: y;", "h_emit((x & 1) ?: y + 4);", "long l = y ?: 3L;",
            "h_emit(l * 2);", "h_emit(x - 7 ?: x);"] + (["(y ?: x) = 6;", "h_emit(x + y);"] if g.cxx else [])


def gnu_typeof(g):
    return ["short x = %s;" % S(g, "short"), "const int k = 3;", "__typeof__(x) y = 2;", "__typeof__(x++) z = (short)(x + 1);", "__typeof__(x + k) w = x * 2;", "__typeof__((x, 1L)) v = w;",
            "h_emit(y + z + w + v);", "h_emit((int)sizeof(__typeof__(-x)));", "h_emit((__typeof__(k * 2))x);"]


def gnu_ext_ops(g):
    return ["int x = %s;" % S(g, "int"), "double d = 3;", "int y = __extension__(x + 1);", "h_emit(__extension__ x * 2);", "y = __extension__ -y;", "h_emitd(__real__ d + 1);", "__real__ d = 2.5;", "h_emitd(d);",
            "h_emit(__imag__ y + 4);", "h_emit(y);"]


def gnu_builtins(g):
    return ["int x = %s & 1023;" % S(g, "int"), "char b[10] = {1, 2};", "h_emit(__builtin_constant_p(3 + 1));", "__builtin_prefetch(&x, 0, 1 + 1);", "h_emit(__builtin_frame_address(0) != 0);",
            "h_emit(__builtin_object_size(b, 0));", "int* p = (int*)__builtin_assume_aligned(&x, 4);", "h_emit(*p + 1);", "if (__builtin_expect(x > 2, 1)) h_emit(x - 1);",
            "h_emit(__builtin_popcount(x + 1) + __builtin_abs(-x));", "int o = 0;", "h_emit(__builtin_add_overflow(x, 3, &o));", "h_emit(o);", "h_emit(__builtin_return_address(0) != 0);"]


def gnu_asm(g):
    return ["int x = %s;" % S(g, "int"), "int y = 1;", "__asm__(\"\" : \"+r\"(x));", "__asm__ volatile(\"\" : \"=r\"(y) : \"0\"(x + 1) : \"cc\");", "__asm__(\"\" : \"+r\"(x) : \"i\"(3 + 1));", "__asm__ volatile(\"\" ::: \"memory\");", "h_emit(x + y);"]


def gnu_case_range(g):
    return ["int x = %s & 15;" % S(g, "int"), "switch (x) {", "case 0 ... 3:", "  h_emit(x + 1);", "  x *= 2;", "  break;", "case 4:", "case 5 ... 9:", "  x -= 1;", "  h_emit(-x);", "  /* fallthrough */", "case 10 ... 10:", "  x++;", "  break;",
            "default:", "  if (x > 12) h_emit(x);", "}", "h_emit(x);",
            "switch (x) case 1 ... 8: h_emit(x + 2);", "switch (x & 3) case 0: default: if (x > 1) case 1 ... 2: x -= 4;", "switch (x & 1) { case 0: if (x) { x = 1; } else case 1: h_emit(x * 3); }", "h_emit(x);"]


def gnu_goto_label(g):
    n = g.gname("cg")
    g.top += ["static int %s(int x) {" % n, "  void* t[3] = {&&l0, &&l1, &&l2};", "  goto *t[x];", "l0:", "  x += 4;", "  h_emit(x);", "l1:", "  h_emit(x * 2);", "  if (x > 9) goto *t[2];", "  x += 3;", "  goto l1;", "l2:", "  return x + 1;", "}"]
    return ["h_emit(%s(%s & 1));" % (n, S(g, "int"))]


def gnu_range_desig(g):
    return ["int x = %s;" % S(g, "int"), "int a[6] = {[1 ... 3] = x + 1, [5] = 4};", "struct { int p[3]; int z; } q = {.p = {[0 ... 1] = 3}, .z = x * 2};", "h_emit(a[2] + a[5] + a[0]);", "h_emit(q.p[1] - q.z);"]


def gnu_local_label(g):
    return ["int i = %s & 3;" % S(g, "int"), "{", "  __label__ again;", "again:", "  i++;", "  if (i < 5) goto again;", "}", "h_emit(i);"]


def seq_cxx17(g):
    n = g.gname("sq")
    g.top += ["static int %s_g = 1;" % n, "static int %s(int m) { %s_g = (%s_g + 1) %% m; return %s_g; }" % (n, n, n, n)]
    forms = ["a[i] = i++ & 3;", "a[i & 3] += ++i & 7;", "h_emit((i++ & 3) << (i & 3));", "h_emit(%s(4) << %s_g);" % (n, n), "h_emit(%s_g >> %s(5));" % (n, n), "a[%s_g] = %s(4);" % (n, n), "*p = (p = a + 2, 7);", "*(p + 0) -= *(p = a + 1);",
             "p[0] = (i = 2) + *p;", "r.a[%s_g %% 3] ^= %s(3);" % (n, n), "(*p)++; *p *= (p = a, 3);", "h_emit((i = 1) << i);", "a[i % 4] = (i += 1);", "r.a[i & 1] = r.a[(i = 0)];"]
    out = ["int a[6] = {1, 2, 3, 4, 5, 6};", "int i = %s & 1;" % S(g, "int"), "int* p = a;", "%s_g = 1;" % n, "struct { int a[3]; } r = {{1, 2, 3}};"]
    for f in g.R.sample(forms, 6):
        out += ["i = i & 3;" if "i" in f else "", f]
    return [l for l in out if l] + ["h_emit(a[0] + 2 * a[1] + 4 * a[2] + 8 * a[3] + i);", "h_emit(r.a[0] + 3 * r.a[1] + 9 * r.a[2]);", "h_emit((int)(p - a));"]


def enum_ctor(g):
    n = g.gname("ec")
    g.top += ["enum %s_e { %s_A = 2, %s_B };" % (n, n, n), "struct %s { int v; %s(int x) : v(x) {} %s(char c, long y) : v(c + (int)y) {} };" % (n, n, n), "static int %s_f(%s s) { return s.v + 1; }" % (n, n), "static int %s_r(const %s& s, int k) { return s.v * k; }" % (n, n),
              "struct %s_d : %s { int w; %s_d() : %s(%s_B), w(%s_A) {} };" % (n, n, n, n, n, n)]
    return ["%s s(%s_A);" % (n, n), "%s t = %s_B;" % (n, n), "%s u{%s_A};" % (n, n), "h_emit(%s_f(%s_A) + s.v);" % (n, n), "h_emit(%s_r(%s_B, %s_A) - t.v);" % (n, n, n), "h_emit(%s(%s_B).v + u.v);" % (n, n), "u = %s_B;" % n, "h_emit(u.v + %s_A * 2);" % n,
            "%s_d d;" % n, "h_emit(d.v + d.w);", "%s_e e = %s_A;" % (n, n), "%s w(e);" % n, "h_emit(w.v);"]


def bit_refs(g):
    n = g.gname("br")
    g.top += ["struct %s { int a : 4; unsigned b : 5; bool c : 1; long d : 33; };" % n, "static int %s_f(const int& x) { return x + 1; }" % n, "template <class T> static long %s_g(const T& t) { return (long)t - 1; }" % n, "static int %s_h(int&& x, const bool& y) { return x + y; }" % n]
    return ["%s s{};" % n, "s.a = %s & 3;" % S(g, "int"), "s.b = 9;", "s.c = true;", "s.d = 77;", "const int& r = s.a;", "h_emit(%s_f(s.a) + %s_f(s.b) + r);" % (n, n), "h_emit(%s_g(s.c) + %s_g(s.d));" % (n, n), "h_emit(%s_h(s.b, s.c));" % n,
            "h_emit(%s_f(static_cast<int>(s.d)));" % n, "s.b += 3; --s.b; s.c = !s.c; s.d *= 2;", "const bool& z = s.c;", "h_emit(z + s.d + (s.c ? s.a : s.b));", "h_emit((s.b = 4) + z);", "auto k = s.b++;", "h_emit(k + ~s.b);"]


def adl_more(g):
    n = g.gname("ad")
    g.top += ["namespace %s { struct P { int v; int get() const { return v; } operator int() const { return v; } }; enum E { X = 1, Y = 3 }; int en(E e) { return e + 1; } int en(int x) { return x - 1; } int two(P p, int x) { return p.v + x; } int one(const P& p) { return p.v; } template <class T> int k(T t) { return (int)t * 2; } struct Q { E e; E get() const { return e; } }; int en2(E a, E b) { return a * b; } }" % n]
    return ["%s::P p{%s & 31};" % (n, S(g, "int")), "%s::Q q{%s::Y};" % (n, n), "%s::E e = %s::X;" % (n, n), "h_emit(en(%s::X) + en(e));" % n, "h_emit(two(p, p.get() + 1));", "h_emit(one(p) * 2);", "h_emit(k(e) + k(%s::Y));" % n, "h_emit(en(q.get()) + en2(q.get(), e));",
            "h_emit(%s::en(3) + %s::k(p.get()));" % (n, n), "h_emit(en(p.v ? e : %s::Y));" % n, "h_emit(two(p, en(q.e)));"]


def overloads(g):
    n = g.gname("ov")
    g.top += ["static int %s(%s) { return %d; }" % (n, t, i + 1) for i, t in enumerate(["int", "long", "char", "short", "unsigned", "bool", "float", "double", "const char*", "int&, int", "const int&, int", "int&&, int"])]
    vs = ["int x = %s & 7;" % S(g, "int"), "const int cx = 2;", "char c = 'a';", "short s = 2;", "long l = 3;", "bool b = x > 1;", "float f = 1;", "volatile int v = 3;", "const char* p = \"x\";"]
    es = ["x", "c", "s", "l", "b", "f", "x + c", "x, 1", "cx, 1", "3, 1", "v", "p", "x ? c : c", "c + c", "-c", "!x", "x++", "++x, 1", "x = 3, 1", "(x)", "1.0", "1.0f", "'a'", "1u", "b && x", "x < c", "c, 1", "(x), 2", "x += 1, 3", "s << 1", "~c", "+b", "x--, 1", "b ? x : cx, 1", "(char)x", "l & x", "f * 2"]
    vs += ["h_emit(%s(%s));" % (n, (e if ", " not in e or "=" not in e else "(%s), %s" % tuple(e.split(", ")))) for e in g.R.sample(es, 8)]
    return vs


def unevaluated(g):
    n = g.gname("un")
    g.top += ["template <class T> concept %s_c = requires(T t) { t + 1; { t++ }; requires sizeof(t) >= 1; };" % n, "template <class T> requires %s_c<T> static int %s(T t) { if constexpr (requires { t.foo(); }) return 1; else return (int)t + 2; }" % (n, n)]
    return ["int x = %s & 255;" % S(g, "int"), "alignas(16) int y = 3;", "bool b = requires { x + 1; x++; };", "h_emit(b + %s(x));" % n, "h_emit((int)__alignof__(y) + (int)alignof(decltype(x + 1L)));", "h_emit(noexcept(x + 1) + noexcept(x++));", "decltype(x) q = x + 1;", "decltype((x)) r = x;", "r += 2; q--;",
            "decltype(auto) z = (x);", "z++;", "h_emit(x + q + (int)sizeof(x++ + 1L));"]


COMMON += [gnu_stmt_expr, gnu_elvis, gnu_typeof, gnu_ext_ops, gnu_builtins, gnu_asm, gnu_case_range, gnu_goto_label, gnu_local_label]
CONLY += [gnu_range_desig]
CXX += [seq_cxx17, enum_ctor, bit_refs, adl_more, overloads, unevaluated]


def null_ptrs(g):
    n = g.gname("np")
    g.top += ["static int %s_f(int x) { return x + 1; }" % n, "static int %s(void* p, const char* s, int (*f)(int)) { return (p != 0) + 2 * (s == 0) + (f ? f(3) : 4); }" % n, "static void* %s_r(int k) { if (k > 1) return 0; static int st; return &st; }" % n]
    out = ["int x = %s & 3;" % S(g, "int"), "void* v = 0;", "int* p = &x;", "int** pp = 0;", "int (*f)(int) = 0;", "const char* s = 0;",
           "h_emit(%s(0, 0, 0));" % n, "h_emit(%s(v, \"a\", %s_f));" % (n, n), "h_emit(v == 0);", "h_emit(0 != p);", "v = x > 1 ? p : 0;", "f = x ? %s_f : 0;" % n, "h_emit(f != 0 ? f(2) : 0);", "h_emit(v ? 1 : 2);", "h_emit(%s_r(x) == (void*)0);" % n,
           g.pick(["p = 0;", "p = (0);", "p = ((0));"]), "h_emit(!p + !pp + !s);", "int* arr[3] = {%s, &x, (int*)0};" % g.pick(["0", "(0)"]), "h_emit((arr[0] == 0) + *arr[1]);", "if (p || arr[1]) h_emit(x);", "h_emit(p == 0 && x);"]
    if g.cxx:
        g.top += ["struct %s_m { int a; int g(int k) { return a + k; } int* q = 0; };" % n, "static int %s_o(int*) { return 1; }" % n, "static int %s_o(int) { return 2; }" % n]
        out += ["int %s_m::*mp = 0;" % n, "int (%s_m::*mf)(int) = 0;" % n, "h_emit((mp == 0) + (mf == nullptr));", "mp = &%s_m::a;" % n, "%s_m o{4};" % n, "h_emit(o.*mp + (o.q == 0));", "mf = x ? &%s_m::g : 0;" % n, "if (mf) h_emit((o.*mf)(2));",
                "h_emit(%s_o(0) + %s_o(nullptr) + %s_o(p) + %s_o(static_cast<int*>(0)));" % (n, n, n, n), "decltype(nullptr) z = nullptr;", "h_emit(z == v);", "int* c = static_cast<int*>(0);", "const int* k = (const int*)0;", "h_emit(c == k);"]
    return out


def cond_decls(g):
    n = g.gname("cd")
    g.top += ["struct %s { int v; explicit operator bool() const { return v > 1; } };" % n, "static double %s_d(int x) { return x * 0.5; }" % n, "enum class %s_e : short { A = 1, B };" % n]
    out = ["int x = %s & 3;" % S(g, "int"), "int a[3] = {1, 2, 3};"]
    forms = ["if (double d = %s_d(x)) h_emitd(d + 1); else h_emit(2);" % n, "if (int* p = x ? a : 0) h_emit(*p + 1); else h_emit(p == 0);", "if (%s o{x}) h_emit(o.v); else h_emit(-o.v);" % n, "while (float f = (float)%s_d(x)) { h_emitd(f * 2); x--; }" % n, "for (int i = 0; bool b = i < x; i++) { h_emit(b + i); }",
             "for (int i = 2; long l = i * 3L; --i) h_emit(l);", "switch (char c = (char)x) { case 1: h_emit(c + 1); break; default: h_emit(c - 1); }", "if (auto d = %s_d(x); d > 0.5) h_emitd(d); else if (auto e = d + 1) h_emitd(e);" % n, "if (const char* s = x > 1 ? \"ab\" : nullptr) h_emit(s[1]);",
             "switch (auto e = x > 1 ? %s_e::A : %s_e::B) { case %s_e::A: h_emit(static_cast<int>(e) + 4); break; case %s_e::B: h_emit(x * 2); }" % (n, n, n, n), "if (long double ld = x - 1) h_emitd((double)ld);", "if (auto l = [x](int k) { return k + x; }; int r = l(2)) h_emit(r);", "if (unsigned char u = (unsigned char)(x * 100)) { u++; h_emit(u); }",
             "while (int* q = x > 0 ? &a[x - 1] : nullptr) { *q += 2; x--; }", "if (volatile int v = x) h_emit(v + 1);", "if (const int k = x) h_emit(k * 3); else h_emit(k - 1);", "if (int& r = a[x % 3]) r++;", "if (auto* p2 = &a[1]) h_emit(*p2);", "if (__int128 w = x) h_emit((long long)(w + 1));"]
    return out + g.R.sample(forms, 7) + ["h_emit(x + a[0] + a[1] * 3 + a[2] * 9);"]


COMMON += [null_ptrs]
CXX += [cond_decls]


def pragma_loops(g):
    u = g.pick(["#pragma clang loop unroll_count(2)", "#pragma unroll", "#pragma nounroll", "#pragma clang loop vectorize(disable) interleave(disable)", "_Pragma(\"nounroll\")"])
    v = g.pick(["#pragma unroll 3", "#pragma nounroll", "#pragma clang loop distribute(disable)"])
    return ["int s = %s & 15;" % S(g, "int"), "int i = 0;", u, "for (i = 0; i < 4; i++) s += i;", "h_emit(s);", v, "while (s > 20) {", "  s -= 3;", "  h_emit(s);", "}", "if (i) {", u, "  do { s++; } while (--i > 0);", "}", "h_emit(s + i);",
            "switch (s & 3) {", "case 0:", v, "  for (; i < 3; i++) { s ^= i; }", "  break;", "default:", "  s++;", v, "  while (i < 2) i++;", "}", "h_emit(s - i);"]


def musttail(g):
    n = g.gname("mt")
    a = "[[clang::musttail]]" if g.cxx and g.R.random() < .5 else "__attribute__((musttail))"
    g.top += ["static int %s_b(int x, int y);" % n, "static int %s_a(int x, int y) {" % n, "  if (x <= 0) return y + 1;", "  h_emit(x);", "  %s return %s_b(x - 1, y * 2 + x);" % (a, n), "}",
              "static int %s_b(int x, int y) {" % n, "  y = y & 255;", "  %s return %s_a(x, y);" % (a, n), "}"]
    return ["h_emit(%s_a(%s & 3, 2));" % (n, S(g, "int"))]


def fallthroughs(g):
    a = "[[fallthrough]]" if g.cxx else "__attribute__((fallthrough))"
    return ["int x = %s & 3;" % S(g, "int"), "switch (x) {", "case 0:", "  x += 2;", "  %s;" % a, "case 1: {", "  x++;", "  %s;" % a, "}", "case 2:", "  h_emit(x);", "  if (x > 2) break;", "  %s;" % a, "default:", "  h_emit(-x);", "}"]


COMMON += [pragma_loops, musttail, fallthroughs]


def exotic_types(g):
    out = ["_BitInt(17) a = %s & 255;" % S(g, "int"), "unsigned _BitInt(70) b = 9;", "_Float16 h = 1.5;", "a = a + 3;", "a += 2;", "b = b << 3;", "a++;", "int x = (int)(a * 2) + (int)b;", "x += a < 4;", "x -= !a;", "if (a && b) x++;", "h_emit(x);", "a = x & 63;",
           "h = h * 2;", "h += 1;", "h++;", "h_emit(h > 1);", "h_emit((int)h + (h != 0 ? 2 : 3));", "x = (int)a;", "h_emit(x << 1);"]
    if not g.cxx:
        out += ["__fp16 q = 2.0f;", "q = q + 1;", "q *= 2;", "q++;", "h_emit(q > 3);", "h_emit((int)(q - 1));", "__float128 z = 3;", "z = z / 2;", "z += x & 1;", "h_emit(z > 1);", "h_emit((int)z);"]
    else:
        out += ["char8_t c1 = u8'a';", "char16_t c2 = u'b';", "wchar_t c3 = L'c';", "c1++;", "c2 += 2;", "c3 = -c3;", "c2 = c2 + c1;", "h_emit(c1 + c2 + c3);", "h_emit(~c1 < c2);", "bool t = c1 < c2;", "t |= 1;", "h_emit(!t);"]
    return out


COMMON += [exotic_types]
