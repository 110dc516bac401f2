"""Programs that compute compile-time constants in many ways and report them (see obs.h)."""
import random


def wrap(v):
    return (v + 2**31) % 2**32 - 2**31


class G:
    def __init__(self, seed, lang, idx):
        self.R = random.Random(seed)
        self.lang, self.cxx, self.idx = lang, lang == "cxx", idx
        self.glob, self.loc = [], []       # (name, value) usable in any constant context / only where dredd rewrites
        self.tag, self.n, self.used = 10, 0, set()
        self.top, self.sels, self.fns = [], [], []

    def name(self, p="k"):
        self.n += 1
        return "u%d_%s%d" % (self.idx, p, self.n)

    def t(self, k=2):
        self.tag += k
        return self.tag - k

    # ---- constant expressions of type int with a known value
    def atom(self, loc):
        R = self.R
        pool = self.glob + (self.loc * 3 if loc else [])
        if pool and R.random() < 0.55:
            return R.choice(pool)
        v = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, R.randint(0, 40), R.randint(0, 300)])
        s = str(v)
        if R.random() < 0.15:
            s = "0x%x" % v
        elif 32 < v < 127 and chr(v) not in "'\\\"?" and R.random() < 0.3:
            s = "'%s'" % chr(v)
        return s, v

    def cx(self, d=2, loc=False):
        R = self.R
        for _ in range(20):
            r = self._cx(d, loc)
            if r is not None and abs(r[1]) < 2**20:
                return r
        return self.atom(loc)

    def _cx(self, d, loc):
        R = self.R
        if d <= 0 or R.random() < 0.2:
            return self.atom(loc)
        k = R.random()
        a = self.cx(d - 1, loc)
        if k < 0.12:
            op = R.choice(["-", "~", "!"])
            return "%s(%s)" % (op, a[0]), {"-": -a[1], "~": ~a[1], "!": int(not a[1])}[op]
        b = self.cx(d - 1, loc)
        if k < 0.75:
            op = R.choice(["+", "-", "*", "+", "-", "/", "%", "&", "|", "^", "<<", ">>"])
            x, y = a[1], b[1]
            if op in "/%":
                if y == 0:
                    return None
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                v = q if op == "/" else x - q * y
            elif op in ("<<", ">>"):
                if not 0 <= y < 12 or x < 0 or x > 2**12:
                    return None
                v = x << y if op == "<<" else x >> y
            else:
                v = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op]
            return "(%s %s %s)" % (a[0], op, b[0]), v
        if k < 0.88:
            op = R.choice(["<", ">", "<=", ">=", "==", "!=", "&&", "||"])
            x, y = a[1], b[1]
            v = int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y, "&&": bool(x and y), "||": bool(x or y)}[op])
            return "(%s %s %s)" % (a[0], op, b[0]), v
        c = self.cx(d - 1, loc)
        if k < 0.95:
            return "(%s ? %s : %s)" % (a[0], b[0], c[0]), (b if a[1] else c)[1]
        fs = [f for f in self.fns if not (loc and f[2])]    # a consteval call of a local constant: a listed finding
        if self.cxx and fs:
            f = R.choice(fs)
            return "%s(%s)" % (f[0], a[0]), f[1](a[1])
        return "((int)sizeof(int) * %s)" % a[0], 4 * a[1]

    def rng(self, lo, hi, loc=False):
        """A constant expression with a value in lo..hi."""
        for _ in range(8):
            e, v = self.cx(2, loc)
            if lo <= v <= hi:
                return e, v
            if v > hi:
                m = self.R.randint(lo, hi)
                return "(%s - %d)" % (e, v - m), m
            if v < lo:
                m = self.R.randint(lo, hi)
                return "(%s + %d)" % (e, m - v), m
        raise AssertionError

    def use(self, f):
        self.used.add(f)

    # ---- file scope
    def globals_(self):
        R, L = self.R, self.top
        for _ in range(R.randint(3, 8)):
            k = R.choice(["enum", "macro"] if not self.cxx else
                         ["enum", "macro", "const", "constexpr", "inline", "member", "fn", "cfn", "enumc", "vt", "constinit", "lam"])
            e, v = self.cx()
            n = self.name()
            self.use("g:" + k)
            if k == "enum":
                L.append("enum %s { %s = %s, %s_b };" % (self.name("E") if R.random() < 0.5 else "", n, e, n))
                self.glob += [(n, v), (n + "_b", v + 1)]
            elif k == "macro":
                L.append("#define %s (%s)" % (n, e))
                self.glob.append((n, v))
            elif k in ("const", "constexpr", "inline"):
                L.append("%s int %s = %s;" % ({"const": "const", "constexpr": "static constexpr", "inline": "inline constexpr"}[k], n, e))
                self.glob.append((n, v))
            elif k == "member":
                e2, v2 = self.cx()
                L.append("struct %s_S { static const int a = %s; static constexpr int b = %s; enum { c = a + 1 }; };" % (n, e, e2))
                self.glob += [(n + "_S::a", v), (n + "_S::b", v2), ("%s_S::c" % n, v + 1)]
            elif k in ("fn", "cfn"):
                c1, c2 = R.randint(2, 5), R.randint(1, 9)
                q = "constexpr" if k == "fn" else "consteval"
                if R.random() < 0.5:
                    L.append("%s int %s(int x) { return x * %d + %d; }" % (q, n, c1, c2))
                    self.fns.append((n, lambda x, c1=c1, c2=c2: x * c1 + c2, k == "cfn"))
                else:
                    L.append("%s int %s(int x) { int r = %d; for (int i = 0; i < %d; i++) { r += i * x; } if (r > 5) { r -= 1; } else { r++; } return r; }" % (q, n, c2, c1))
                    def m(x, c1=c1, c2=c2):
                        r = c2
                        for i in range(c1):
                            r += i * x
                        return r - 1 if r > 5 else r + 1
                    self.fns.append((n, m, k == "cfn"))
            elif k == "enumc":
                L.append("enum class %s_C : %s { x = %s, y = x + 2 };" % (n, R.choice(["int", "long", "int"]), e))
                self.glob += [("(int)%s_C::x" % n, v), ("(int)%s_C::y" % n, v + 2)]
            elif k == "vt":
                L.append("template <int N> constexpr int %s = N * 2 + %d;" % (n, v % 100))
                a = self.R.randint(-3, 9)
                self.glob.append(("%s<%d>" % (n, a), a * 2 + v % 100))
            elif k == "lam":
                L.append("constexpr auto %s = [](int x) { return x * 3 - %d; };" % (n, v % 50))
                self.fns.append((n, lambda x, v=v: x * 3 - v % 50, False))
            elif k == "constinit":
                i = self.t(1) % 100
                L.append("static constinit int h_sv_%d = %s;" % (i, e))
                self.sv.append(i)
        # a structure with constant layout
        b1, b2 = self.rng(1, 20), self.rng(1, 24)
        a1 = self.rng(1, 9)
        self.S = self.name("S")
        al = "alignas(%s) " % self.pow2() if self.cxx and R.random() < 0.5 else ("_Alignas(%s) " % self.pow2() if not self.cxx and R.random() < 0.5 else "")
        L.append("struct %s { int f0 : %s; unsigned f1 : %s; %schar f2[%s]; long f3; };" % (self.S, b1[0], b2[0], al, a1[0]))
        if self.cxx:
            L.append("template <int N> struct %s_T { int m[N + 1]; static const int w = N * 3; unsigned b : N + 2; };" % self.S)
            L.append("template <int N> struct %s_P { static constexpr int v = 1; };" % self.S)
            e, v = self.rng(2, 6)
            L.append("template <> struct %s_P<%s> { static constexpr int v = %s; };" % (self.S, e, self.cx()[0]))
            self.spec = v
        e, v = self.cx()
        L.append("%s(%s == %d, \"\");" % ("static_assert" if self.cxx else "_Static_assert", e, v))
        L.append("static int %s_arr[%s];" % (self.S, self.rng(1, 30)[0]))
        L.append("static const long long %s_tab[] = {%s};" % (self.S, ", ".join(self.cx()[0] for _ in range(R.randint(2, 5)))))
        self.ntab = L[-1].count(",") + 1

    def pow2(self):
        """A constant expression whose value is a small power of two that is a valid alignment."""
        e, v = self.cx(1)
        k = self.R.choice([8, 16, 32])
        return "%s - %s" % (k + v if v >= 0 else "(%d)" % (k + v), e) if v >= 0 else "%d" % k

    # ---- functions whose value is selected by constant labels
    def selector(self):
        R = self.R
        n = self.name("sel")
        seen, body = set(), []
        for j in range(R.randint(2, 6)):
            e, v = self.rng(-3, 40)
            if R.random() < 0.25 and not seen & set(range(v, v + 4)):
                body.append("  case %s ... %s + 3: return %d;" % (e, e, j + 1))
                seen |= set(range(v, v + 4))
                self.use("case-range")
            elif v not in seen:
                seen.add(v)
                if R.random() < 0.5:
                    body.append("  case %s: return %d;" % (e, j + 1))
                else:
                    body.append("  case %s: { x = x + %d; break; }" % (e, j + 40))
        self.top.append("static int %s(int x) {\n  switch (x) {\n%s\n  default: x = %d;\n  }\n  return x;\n}" % (n, "\n".join(body), R.randint(50, 90)))
        self.sels.append((n, self.t(2)))

    # ---- probes inside a function; each returns lines
    def probe(self, d=0):
        R = self.R
        if self.cxx:
            k = R.choice("box box arr arr arr2 field field multi forinit mfn sas marr new obs enum bf pair lam cexpr sassert ifc auto noex align ce szof tfn ct ded str bind spec stat harr ud req nested pack typed chain dtype cls".split())
        else:
            k = R.choice("obs obs enum arr arr2 bf sassert align stat desig gen clit parr typedef choose offs szof str static2".split())
        self.use(k)
        return getattr(self, ("x_" if self.cxx else "c_") + k, None)(d) if hasattr(self, ("x_" if self.cxx else "c_") + k) else getattr(self, "b_" + k)(d)

    def b_obs(self, d):
        return ["OBS(%d, %s);" % (self.t(), self.cx(3)[0])]

    def b_enum(self, d):
        n = self.name("e")
        e, v = self.cx()
        r = ["enum { %s = %s, %s_b };" % (n, e, n), "OBS(%d, %s_b);" % (self.t(), n)]
        if d == 0:
            self.glob += [(n, v), (n + "_b", v + 1)]
            self.scoped += 2
        return r

    def b_bf(self, d):
        n = self.name("L")
        return ["struct %s { int f0 : %s; unsigned f1 : %s; char g[%s]; };" % (n, self.rng(1, 20)[0], self.rng(1, 31)[0], self.rng(1, 9)[0]),
                "H_BF(%d, struct %s, f0);" % (self.t(), n), "H_BF(%d, struct %s, f1);" % (self.t(), n), "OBS(%d, sizeof(struct %s));" % (self.t(), n)]

    def b_sassert(self, d):
        e, v = self.cx(2, self.cxx)
        return ["%s(%s == %d, \"m\");" % ("static_assert" if self.cxx else "_Static_assert", e, v)]

    def b_align(self, d):
        n = self.name("z")
        return ["%s(%s) char %s = 1;" % ("alignas" if self.cxx else "_Alignas", self.pow2(), n), "OBS(%d, __alignof__(%s));" % (self.t(), n), "r += %s;" % n]

    def b_szof(self, d):
        return ["OBS(%d, sizeof(a + %s) * 2 + sizeof(char[%s]));" % (self.t(), self.R.choice(["1", "1L", "'a'", "1.0", "a++"]), self.rng(1, 30)[0])]

    def b_str(self, d):
        n = self.name("s")
        return ["char %s[] = \"abc\" \"%s\";" % (n, "d" * self.R.randint(0, 5)), "OBS(%d, sizeof(%s));" % (self.t(), n), "r += %s[1];" % n]

    def b_stat(self, d):
        i = self.t(1) % 100
        return ["static %sint h_sv_%d = %s;" % ("constinit " if self.cxx else "", i, self.cx()[0]), "OBSV(%d);" % i]

    # C only
    def c_static2(self, d):
        i = self.t(1) % 100
        return ["static const struct { int p, q; } %s_q = {%s, %s};" % (self.S, self.cx()[0], self.cx()[0]), "static int h_sv_%d = %s;" % (i, self.cx(3)[0]), "OBSV(%d);" % i, "r += %s_q.p;" % self.S] if d == 0 and "sq" not in self.used and not self.used.add("sq") else self.b_obs(d)

    def c_arr(self, d):
        n = self.name("a")
        e, v = self.rng(1, 40)
        return ["int %s[%s]%s;" % (n, e, self.R.choice([" = {0}", " = {1 + 2}", ""])), "OBS(%d, sizeof(%s));" % (self.t(), n), "%s[0] = a; r += %s[0];" % (n, n)]

    def c_arr2(self, d):
        n = self.name("a")
        return ["char %s[%s][%s];" % (n, self.rng(1, 6)[0], self.rng(1, 6)[0]), "OBS(%d, sizeof(%s));" % (self.t(), n), "OBS(%d, sizeof(%s[0]));" % (self.t(), n), "%s[0][0] = 1;" % n]

    def c_desig(self, d):
        n = self.name("a")
        return ["int %s[] = {[%s] = a + 1, [%s] = 2};" % (n, self.rng(0, 9)[0], self.rng(10, 20)[0]), "OBS(%d, sizeof(%s));" % (self.t(), n), "r += %s[0];" % n]

    def c_gen(self, d):
        return ["OBS(%d, _Generic((%s), int: %s, long: %s, default: 3));" % (self.t(), self.R.choice(["a + 1", "c", "1L + a", "b", "'x'"]), self.cx()[0], self.cx()[0])]

    def c_clit(self, d):
        return ["OBS(%d, sizeof((int[%s]){1}));" % (self.t(), self.rng(1, 9)[0]), "r += (int[%s]){a + 1}[0];" % self.rng(1, 9)[0]]

    def c_parr(self, d):
        n = self.name("p")
        return ["int (*%s)[%s] = 0;" % (n, self.rng(1, 30)[0]), "OBS(%d, sizeof(*%s));" % (self.t(), n), "r += %s != 0;" % n]

    def c_typedef(self, d):
        n = self.name("T")
        return ["typedef int %s[%s];" % (n, self.rng(1, 30)[0]), "OBS(%d, sizeof(%s));" % (self.t(), n)]

    def c_choose(self, d):
        return ["OBS(%d, __builtin_choose_expr(%s, 11, 22));" % (self.t(), self.cx()[0])]

    def c_offs(self, d):
        return ["OBS(%d, __builtin_offsetof(struct %s, f3));" % (self.t(), self.S)]

    # C++ only
    def x_box(self, d):
        return ["h_box<%d, %s> %s;" % (self.t(), self.R.choice(["%s", "%s", "(long long)(%s)", "(%s) * 70000LL * 70000"]) % self.cx(3, True)[0], self.name("x"))]

    def x_arr(self, d):
        n = self.name("a")
        R = self.R
        e, v = self.rng(1, 40, True)
        t = self.t()
        if R.random() < .3:
            e2 = self.rng(1, 4, True)[0]
            return R.choice([
                ["const int %s[%s][%s] = {};" % (n, e, e2), "h_arr<%d>(%s);" % (t, n), "r += %s[0][0];" % n],
                ["static const char %s[%s][%s] = {};" % (n, e, e2), "h_arr<%d>(%s);" % (t, n), "r += %s[0][0];" % n],
                ["volatile char %s[%s];" % (n, e), "h_arr<%d>(%s);" % (t, n), "%s[0] = a; r += %s[0];" % (n, n)],
                ["int (*%s[%s])(int) = {};" % (n, e), "h_arr<%d>(%s);" % (t, n), "r += %s[0] == nullptr;" % n],
                ["int (*%s[%s])[3] = {};" % (n, e), "h_arr<%d>(%s);" % (t, n), "r += %s[0] == nullptr;" % n],
                ["[[maybe_unused]] char %s[%s];" % (n, e), "h_arr<%d>(%s);" % (t, n)],
                ["struct { int p; char q; } %s[%s] = {};" % (n, e), "h_arr<%d>(%s);" % (t, n), "r += %s[0].p;" % n],
                ["using %s_t = int[3];" % n, "%s_t %s[%s] = {};" % (n, n, e), "h_arr<%d>(%s);" % (t, n), "r += %s[0][1];" % n],
                ["int %s[\n%s\n] = {a}, %s_b[%s]\n[ %s ];" % (n, e, n, e2, e2), "h_arr<%d>(%s);" % (t, n), "h_arr<%d>(%s_b);" % (self.t(), n), "r += %s[0];" % n],
            ])
        return ["%s%s %s[%s]%s;" % (R.choice(["", "", "static "]), R.choice(["int", "char", "long", "double", "int *"]), n, e, R.choice(["{}", " = {}", ""])),
                "h_arr<%d>(%s);" % (t, n)]

    def x_arr2(self, d):
        n = self.name("a")
        return ["char %s[%s][%s]%s;" % (n, self.rng(1, 6, True)[0], self.rng(1, 6, True)[0], self.R.choice(["", "[%s]" % self.rng(1, 4, True)[0]])), "h_arr<%d>(%s);" % (self.t(), n),
                "h_box<%d, sizeof(%s)> %s;" % (self.t(), n, self.name("x"))]

    def x_field(self, d):
        n = self.name("L")
        R = self.R
        key = R.choice(["struct %s {", "class %s { public:", "union %s {", "struct %s final {"]) % n
        un = key.startswith("union")

        def q():
            return R.choice(["", "", "volatile ", "alignas(16) ", "[[maybe_unused]] "] + ([] if un else ["mutable ", "mutable "]))
        f = [q() + "int f[%s];" % self.rng(1, 9, True)[0], q() + "char g[%s][%s];" % (self.rng(1, 4, True)[0], self.rng(1, 5, True)[0])]
        if R.random() < .3:
            f.append("%s { long h[%s]; char k; } m;" % (R.choice(["struct", "union", "class"]), self.rng(1, 5, True)[0]))
        if R.random() < .3:
            f.append("%s { char y[%s]; short w; };" % (R.choice(["struct", "union"]), self.rng(1, 7, True)[0]))
        if R.random() < .4:
            f.append(q() + R.choice(["const char *v[%s], *z[%s];", "short v[%s], *z[%s];", "int (*v[%s])(int), (*z[%s])[2];", "int v[%s]; int &z; char zz[%s];", "long z, v[%s], zz[%s];"][:3 if un else 5]) % (self.rng(1, 5, True)[0], self.rng(1, 5, True)[0]))
        R.shuffle(f)
        if any("&z" in x for x in f):
            return ["%s %s };" % (key, " ".join(f)), "h_box<%d, sizeof(%s)> %s;" % (self.t(), n, self.name("x"))]
        return ["%s %s };" % (key, " ".join(f)), "%s %s;" % (n, n + "_v"), "h_size<%d>(%s_v);" % (self.t(), n),
                "h_box<%d, sizeof(%s)> %s;" % (self.t(), n, self.name("x"))]

    def x_multi(self, d):
        n = self.name("a")
        return ["%sint %s_1[%s], %s_2 = 3, %s_3[%s][%s];" % (self.R.choice(["", "", "static ", "thread_local "]), n, self.rng(1, 9, True)[0], n, n, self.rng(1, 4, True)[0], self.rng(1, 4, True)[0]),
                "h_arr<%d>(%s_1);" % (self.t(), n), "h_arr<%d>(%s_3);" % (self.t(), n), "r += %s_2;" % n]

    def x_forinit(self, d):
        n = self.name("a")
        return [self.R.choice(["for (int %s[%s] = {}, %s_i = 0; %s_i < 1; %s_i++) { h_arr<%d>(%s); r += %s[0] + 1; }",
                               "if (int %s[%s] = {}, %s_i = 1; %s_i == %s_i) { h_arr<%d>(%s); r += %s[0] + 1; }"]) % (n, self.rng(1, 9, True)[0], n, n, n, self.t(), n, n)]

    def x_mfn(self, d):
        n = self.name("L")
        return ["struct %s { static int m(int z) { int q[%s] = {}; h_arr<%d>(q); q[0] = z; return q[0] + 1; } };" % (n, self.rng(1, 9, True)[0], self.t()), "r += %s::m(a);" % n]

    def x_sas(self, d):
        e, v = self.cx(2, True)
        return ["static_assert((%s) == (%d)%s);" % (e, v, self.R.choice(["", ', "m"']))]

    def x_marr(self, d):
        n = self.name("M")
        e = self.rng(1, 9, True)[0]
        k = self.name("a")
        return ["#define %s (%s)" % (n, e), "char %s[%s];" % (k, self.R.choice([n, n, n + " + 1", "2 * " + n])), "h_arr<%d>(%s);" % (self.t(), k)]

    def x_new(self, d):
        n = self.name("p")
        return ["auto* %s = new char[2][%s];" % (n, self.rng(1, 9)[0]), "OBS(%d, sizeof(*%s));" % (self.t(), n), "delete[] %s;" % n]

    def x_pair(self, d):
        a = self.R.choice(["h_int<%s>" % self.cx(2, True)[0], "h_bool<(%s) != 3>" % self.cx(1, True)[0], "h_uns<%s>" % self.rng(0, 1000, True)[0]])
        return ["h_pair<%d, %s, h_int<%s>> %s;" % (self.t(), a, self.cx(2, True)[0], self.name("x"))]

    def targ(self, d):
        """A nested specialisation whose arguments are constants."""
        R = self.R
        c = lambda: self.rng(-9, 9, True)[0]
        k = R.random() if d > 0 else 0
        if k < .35:
            return "h_int<%s>" % c()
        if k < .5:
            return "h_seq<%s>" % ", ".join(c() for _ in range(R.randint(1, 5)))
        if k < .7:
            return "h_many<%s>" % ", ".join(self.targ(d - 1) for _ in range(R.randint(3, 4)))
        if k < .85:
            return "h_mixed<" + ", ".join([self.targ(d - 1), c()] + ([self.targ(d - 1), c()] if R.random() < 0.5 else [])) + ">"
        return "h_two<%s, %s>" % (self.targ(d - 1), self.targ(d - 1))

    def x_nested(self, d):
        if self.R.random() < .6:
            return ["h_pair<%d, %s, %s> %s;" % (self.t(), self.targ(2), self.targ(1), self.name("x"))]
        return ["h_pair<%d, h_two<h_int<%s>, h_two<h_int<%s>, h_int<%s>>>, h_int<%s>> %s;" % (self.t(), self.rng(-9, 9, True)[0], self.rng(-9, 9, True)[0], self.rng(0, 9, True)[0], self.cx(1, True)[0], self.name("x"))]

    def x_pack(self, d):
        return ["h_pack<%d%s> %s;" % (self.t(), "".join(", " + self.cx(2, True)[0] for _ in range(self.R.randint(0, 4))), self.name("x"))]

    def x_typed(self, d):
        ty, e = self.R.choice([("char", self.rng(0, 100, True)[0]), ("long long", self.cx(2, True)[0]), ("unsigned", self.rng(0, 4000, True)[0]), ("bool", "((%s) > 2)" % self.cx(1, True)[0]), ("short", self.rng(-100, 100, True)[0])])
        return ["h_typed<%d, %s, %s> %s;" % (self.t(), ty, e, self.name("x"))]

    def x_auto(self, d):
        e = self.R.choice(["'c'", "true", "3LL", "7u", "(short)5", "-2LL", "u'x'", "(char)(1 + 2)", "%s" % self.cx(2, True)[0], "(%s) == 2" % self.cx(1)[0], "5UL"])
        return ["h_auto<%d, (%s)> %s;" % (self.t(), e, self.name("x"))]

    def x_lam(self, d):
        n, q = self.name("a"), self.name("l")
        return ["auto %s = [&](int z) { int %s[%s] = {}; h_arr<%d>(%s); %s[0] = z; return %s[0]; };" % (q, n, self.rng(1, 20, True)[0], self.t(), n, n, n), "r += %s(a + 1);" % q]

    def x_cexpr(self, d):
        n = self.name("c")
        e, v = self.cx()
        if d == 0:
            self.glob.append((n, v))
            self.scoped += 1
        return ["%sconstexpr int %s = %s;" % (self.R.choice(["", "static "]), n, e), "OBS(%d, %s);" % (self.t(), n), "r += %s;" % n]

    def x_ifc(self, d):
        t = self.t()
        return ["if constexpr (%s) { OBS(%d, 1); r += 2; } else { OBS(%d, 2); r -= 3; }" % (self.cx(3)[0], t, t)]

    def x_noex(self, d):
        n = self.name("f")
        return ["auto %s = [](int z) noexcept((%s) != 0) { return z + 1; };" % (n, self.cx()[0]), "OBS(%d, noexcept(%s(1)));" % (self.t(), n), "r += %s(a);" % n]

    def x_ce(self, d):
        if not self.fns:
            return self.b_obs(d)
        f = self.R.choice(self.fns)[0]
        i = self.t(1) % 100
        return ["r += %s(%s);" % (f, self.cx(1)[0]), "static constinit int h_sv_%d = %s(%s) + 1;" % (i, f, self.cx()[0]), "OBSV(%d);" % i]

    def x_tfn(self, d):
        n = self.name("tf")
        t = self.t(40)
        keep, self.glob = self.glob, self.glob[:self.nglob]
        self.top.append("template <int N> static int %s(int z) {\n  int q[N + 2] = {};\n  h_arr<%d + N * 2>(q);\n  int w[%s] = {};\n  h_arr<%d>(w);\n  q[0] = z + N;\n  return q[0] * 2;\n}" % (n, t, self.rng(1, 9)[0], t + 20))
        self.glob = keep
        return ["r += %s<%s>(a);" % (n, self.rng(0, 8)[0])]

    def x_ct(self, d):
        e, v = self.rng(0, 9)
        return ["OBS(%d, sizeof(%s_T<%s>));" % (self.t(), self.S, e), "OBS(%d, %s_T<%s>::w);" % (self.t(), self.S, e), "%s_T<%s> %s;" % (self.S, self.rng(0, 9, True)[0], self.name("ct")), "h_size<%d>(u%d_ct%d);" % (self.t(), self.idx, self.n)]

    def x_ded(self, d):
        n = self.name("a")
        return ["int %s[] = {%s};" % (n, ", ".join(["a + 1"] * self.R.randint(1, 6))), "h_arr<%d>(%s);" % (self.t(), n), "r += %s[0];" % n]

    def x_bind(self, d):
        n = self.name("a")
        return ["int %s[2] = {a + 1, 2};" % n, "auto [%s_x, %s_y] = %s;" % (n, n, n), "h_arr<%d>(%s);" % (self.t(), n), "r += %s_x * %s_y;" % (n, n)]

    def x_spec(self, d):
        return ["OBS(%d, %s_P<%s>::v);" % (self.t(), self.S, self.R.choice([str(self.spec), self.rng(2, 6)[0]]))]

    def x_harr(self, d):
        n = self.name("x")
        return ["h_array<%s, %s> %s;" % (self.R.choice(["int", "char", "h_array<int, %s>" % self.rng(1, 5, True)[0]]), self.rng(1, 20, True)[0], n), "h_size<%d>(%s);" % (self.t(), n)]

    def x_ud(self, d):
        if "ud" not in self.once:
            self.once.add("ud")
            self.top.insert(0, "constexpr unsigned long long operator\"\"_u%d(unsigned long long v) { return v * 2 + 1; }" % self.idx)
        i = self.t(1) % 100
        return ["OBS(%d, 12_u%d + 1);" % (self.t(), self.idx), "static constinit long long h_sv_%d = 7_u%d;" % (i, self.idx), "OBSV(%d);" % i, "r += 3_u%d;" % self.idx]

    def x_req(self, d):
        n = self.name("C")
        keep, self.glob = self.glob, self.glob[:self.nglob]
        self.top.append("template <int N> concept %s = (N > %s);" % (n, self.rng(0, 9)[0]))
        self.glob = keep
        return ["OBS(%d, %s<%s>);" % (self.t(), n, self.rng(0, 9)[0])]

    def x_dtype(self, d):
        return ["OBS(%d, sizeof(decltype(%s)));" % (self.t(), self.R.choice(["a + 1", "c + a", "a++", "1.0f * a", "(char)a"]))]

    def x_chain(self, d):
        return self.localconst() + self.x_arr(d)

    def x_cls(self, d):
        n = self.name("L")
        return ["struct %s { enum { k = %s }; int m(int z) const noexcept((%s) > 3) { return z * 2 + k; } static int s() { int q[k < 0 ? 1 : k %% 7 + 1] = {}; h_arr<%d>(q); return q[0]; } };" % (n, self.cx()[0], self.cx()[0], self.t()),
                "OBS(%d, %s::k);" % (self.t(), n), "OBS(%d, noexcept(%s{}.m(1)));" % (self.t(), n), "r += %s::s() + %s{}.m(a);" % (n, n)]

    def localconst(self):
        R = self.R
        n = self.name("n")
        ty = R.choice(["int", "int", "int", "unsigned", "long", "short", "char", "unsigned long", "bool"])
        lo, hi = {"int": (-400, 400), "unsigned": (0, 400), "long": (-400, 400), "short": (-400, 400), "char": (0, 100), "unsigned long": (0, 400), "bool": (0, 1)}[ty]
        e, v = self.rng(lo, hi, True)
        if ty in ("unsigned", "unsigned long"):
            self.loc.append(("(int)" + n, v))
        elif ty == "long":
            self.loc.append(("(int)%s" % n, v))
        else:
            self.loc.append((n, v))
        return [R.choice(["const %s %s = %s;" % (ty, n, e), "const %s %s(%s);" % (ty, n, e), "%s const %s = (%s);" % (ty, n, e)])]

    def body(self, depth=0):
        R = self.R
        L = []
        g, l = len(self.glob), len(self.loc)
        for _ in range(R.randint(3, 8) if depth == 0 else R.randint(1, 3)):
            k = R.random()
            if self.cxx and k < 0.25:
                L += self.localconst()
            elif k < 0.75 or depth > 1:
                L += self.probe(depth)
            elif k < 0.82:
                L += ["{"] + ["  " + x for x in self.body(depth + 1)] + ["}"]
            elif k < 0.88:
                L += ["for (int i = 0; i < 2; i++) {"] + ["  " + x for x in self.body(depth + 1)] + ["}"]
            elif k < 0.92:
                L += ["if (%s) {" % R.choice(["a == a", "1", "r == r"])] + ["  " + x for x in self.body(depth + 1)] + ["}"]
            if R.random() < 0.6:
                x = R.choice([n for n, _ in self.loc] + ["a", "c", "2"])
                L.append(R.choice(["r += %s * 3;", "r = r ^ %s;", "if (%s > 1) { r++; }", "r -= a + %s;"]) % x)
        del self.glob[g:], self.loc[l:]
        return L

    def text(self):
        self.sv, self.once, self.scoped = [], set(), 0
        self.globals_()
        for _ in range(self.R.randint(0, 2)):
            self.selector()
        fns = []
        self.nglob = len(self.glob)
        for j in range(self.R.randint(1, 3)):
            b = self.body()
            n = "u%d_f%d" % (self.idx, j)
            fns.append("static long long %s(int a, unsigned b, long long c) {\n  long long r = b;\n%s\n  return r;\n}" % (n, "\n".join("  " + x for x in b)))
        out = ['#include "obs.h"'] + self.top + fns
        out.append("%slong long u%d_entry(int a, unsigned b, long long c, double d) {\n  long long r = 0;" % ('extern "C" ' if self.cxx else "", self.idx))
        for i in self.sv:
            out.append("  OBSV(%d);" % i)
        t = self.t(8)
        out.append("  OBS(%d, sizeof(struct %s)); H_BF(%d, struct %s, f0); H_BF(%d, struct %s, f1); OBS(%d, sizeof(%s_arr));" % (t, self.S, t + 1, self.S, t + 2, self.S, t + 3, self.S))
        out.append("  H_TAB(%d, %s_tab);" % (self.t(self.ntab + 2), self.S))
        for n, tg in self.sels:
            out.append("  H_SEL(%d, %s, -8, 48);" % (tg, n))
            out.append("  r += %s(a);" % n)
        for j in range(len(fns)):
            out.append("  r += u%d_f%d(a, b, c);" % (self.idx, j))
        out.append("  h_emit(r);\n  return r;\n}")
        return "\n".join(out) + "\n"


def gen(seed, lang, idx=0):
    g = G(seed, lang, idx)
    t = g.text()
    return t, g.used, {n: tg for n, tg in g.sels}
