"""Generator of self-contained C / C++ units.

A unit is a chunk of source in which every file-scope name starts with the unit
prefix (u<N>_), with one entry point

    long long u<N>_entry(int p0, unsigned p1, long long p2, double p3)

that reports what it computes through h_emit / h_emitd.  Generated units avoid
unsequenced conflicting effects by construction (effect sets), and mostly avoid
undefined behaviour (whatever is left is filtered by the oracles, which trap on
undefined behaviour in the reference build).
"""
import random

C_INTS = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short",
          "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long",
          "__int128", "unsigned __int128"]
CXX_INTS = ["bool"] + C_INTS[1:] + ["wchar_t", "char16_t", "char32_t", "char8_t"]
FLOATS = ["float", "double", "long double"]
W_COMMON = {"int": 6, "unsigned": 3, "long long": 2, "char": 2, "_Bool": 2, "bool": 2}

EMPTY = frozenset()


class E:
    __slots__ = ("t", "p", "k", "r", "w", "tr")
    # text, precedence (higher binds tighter), kind 'i'/'f', reads, writes, traces

    def __init__(self, t, p, k, r=EMPTY, w=EMPTY, tr=False):
        self.t, self.p, self.k, self.r, self.w, self.tr = t, p, k, r, w, tr


class Var:
    __slots__ = ("n", "ty", "k", "root", "mut", "bf", "addr", "extra", "glob")

    def __init__(self, n, ty, k, root=None, mut=True, bf=False, addr=True, extra=EMPTY, glob=False):
        self.n, self.ty, self.k, self.root = n, ty, k, root or n
        self.mut, self.bf, self.addr, self.extra, self.glob = mut, bf, addr, extra, glob


class Fn:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.r, self.w, self.tr = set(), set(), False
        self.k = 'f' if ret in FLOATS else 'i'


class Ctx:
    """Restrictions while generating one full expression."""
    __slots__ = ("noread", "nowrite", "notrace", "pure")

    def __init__(self, noread=EMPTY, nowrite=EMPTY, notrace=False, pure=False):
        self.noread, self.nowrite, self.notrace, self.pure = noread, nowrite, notrace, pure

    def after(self, *es):
        nr, nw, nt = self.noread, self.nowrite, self.notrace
        for e in es:
            nr = nr | e.w
            nw = nw | e.r | e.w
            nt = nt or e.tr
        return Ctx(nr, nw, nt, self.pure)

    def purely(self):
        return Ctx(self.noread, self.nowrite, self.notrace, True)


P_COMMA, P_ASSIGN, P_COND, P_LOR, P_LAND, P_OR, P_XOR, P_AND, P_EQ, P_REL, P_SHIFT, P_ADD, P_MUL, P_UN, P_POST, P_PRIM = range(1, 17)
BINP = {"+": P_ADD, "-": P_ADD, "*": P_MUL, "/": P_MUL, "%": P_MUL, "<<": P_SHIFT, ">>": P_SHIFT,
        "<": P_REL, ">": P_REL, "<=": P_REL, ">=": P_REL, "==": P_EQ, "!=": P_EQ, "&": P_AND,
        "|": P_OR, "^": P_XOR, "&&": P_LAND, "||": P_LOR}


class Gen:
    tls = ""      # storage class added to the unit's mutable globals
    def __init__(self, rng, lang, idx, size=1.0, feats=None):
        self.R = rng
        self.cxx = lang == "cxx"
        self.pfx = "u%d_" % idx
        self.size = size
        self.ctr = 0
        self.globals = []      # Vars
        self.funcs = []        # Fns
        self.top = []          # top level text chunks
        self.used = {}         # feature -> count
        self.boolty = "bool" if self.cxx else "_Bool"
        self.scopes = []
        self.cur = None
        self.loop = 0
        self.structs = []      # (name, [(field, ty, bits)])
        self.enums = []
        self.macros = {}
        self.in_loop = False
        self.feats = feats
        self.retstack = []

    # -- utilities -------------------------------------------------------
    def name(self, s="v"):
        self.ctr += 1
        return "%s%d" % (s, self.ctr)

    def gname(self, s="g"):
        self.ctr += 1
        return "%s%s%d" % (self.pfx, s, self.ctr)

    def use(self, f):
        self.used[f] = self.used.get(f, 0) + 1

    def chance(self, p):
        return self.R.random() < p

    def pick(self, xs):
        return self.R.choice(xs)

    def wpick(self, items):
        tot = sum(w for _, w in items)
        x = self.R.random() * tot
        for v, w in items:
            x -= w
            if x < 0:
                return v
        return items[-1][0]

    def int_type(self):
        ts = CXX_INTS if self.cxx else C_INTS
        return self.wpick([(t, W_COMMON.get(t, 1)) for t in ts])

    def arith_type(self):
        return self.int_type() if self.chance(0.8) else self.pick(FLOATS)

    @staticmethod
    def kind(ty):
        return 'f' if ty in FLOATS else 'i'

    def all_vars(self, k=None):
        out = []
        for s in self.scopes:
            out += s
        out += self.globals
        if k:
            out = [v for v in out if v.k == k]
        return out

    def paren(self, e, minp):
        if e.p < minp or self.chance(0.12):
            return "(" + e.t + ")"
        return e.t

    # -- literals --------------------------------------------------------
    def lit_int(self):
        R = self.R
        v = self.wpick([(0, 3), (1, 3), (2, 2), (R.randint(3, 9), 3), (R.randint(10, 300), 2),
                        (R.choice([127, 128, 255, 256, 32767, 65535, 0x7fffffff]), 1)])
        form = self.wpick([("d", 8), ("x", 1), ("o", 1), ("u", 1), ("l", 1), ("ull", 1), ("c", 1), ("b", 1), ("neg", 2), ("true", 1 if self.cxx else 0)])
        if form == "x":
            return E(hex(v), P_PRIM, 'i')
        if form == "o":
            return E("0%o" % v, P_PRIM, 'i')
        if form == "u":
            return E("%du" % v, P_PRIM, 'i')
        if form == "l":
            return E("%dL" % v, P_PRIM, 'i')
        if form == "ull":
            return E("%dULL" % v, P_PRIM, 'i')
        if form == "c":
            return E(R.choice(["'a'", "'0'", "'\\n'", "'\\x41'", "'\\0'", "'\"'", "'\\''"]), P_PRIM, 'i')
        if form == "b" and self.cxx:
            return E("0b%s" % bin(v)[2:], P_PRIM, 'i')
        if form == "neg":
            return E("-%d" % v, P_UN, 'i')
        if form == "true":
            return E(R.choice(["true", "false"]), P_PRIM, 'i')
        return E("%d" % v, P_PRIM, 'i')

    def lit_float(self):
        return E(self.pick(["0.0", "1.0", "0.5", "2.0f", "1.5", "3.25f", "1e2", "0x1p-2", "4.0L", "1.0f", "0.0f", ".75", "2.", "-1.0"] if self.chance(.95) else ["-0.5f"]), P_UN, 'f')

    # -- lvalues ---------------------------------------------------------
    def readable(self, c, k):
        return [v for v in self.all_vars(k) if v.root not in c.noread and not (v.extra & c.noread)]

    def writable(self, c, k):
        if c.pure:
            return []
        return [v for v in self.all_vars(k) if v.mut and v.root not in c.noread and v.root not in c.nowrite
                and not (v.extra & c.noread)]

    def note(self, e):
        return e

    def rd(self, v):
        self.eff_r(v)
        return E(v.n, P_POST, v.k, frozenset([v.root]) | v.extra)

    def eff_r(self, v):
        if self.cur is not None and v.root.startswith(self.pfx):
            self.cur.r.add(v.root)
        for x in v.extra:
            if self.cur is not None and x.startswith(self.pfx):
                self.cur.r.add(x)

    def eff_w(self, v):
        if self.cur is not None and v.root.startswith(self.pfx):
            self.cur.w.add(v.root)

    def wr_effect(self, v):
        self.eff_r(v)
        self.eff_w(v)
        s = frozenset([v.root])
        return s | v.extra, s

    # -- expressions -----------------------------------------------------
    def expr(self, c, d, k='i'):
        e = self._expr(c, d, k)
        assert e.k == k
        return e

    def leaf(self, c, k):
        vs = self.readable(c, k)
        if vs and self.chance(0.75):
            v = self.pick(vs)
            return self.rd(v)
        if k == 'i' and self.enums and self.chance(0.08):
            self.use("enum_const")
            return E(self.pick(self.enums), P_PRIM, 'i')
        if k == 'i' and self.chance(0.06) and "const" in self.macros:
            self.use("macro_const")
            return E(self.pick(self.macros["const"]), P_PRIM, 'i')
        return self.lit_int() if k == 'i' else self.lit_float()

    def _expr(self, c, d, k):
        if d <= 0 or self.chance(0.1):
            return self.leaf(c, k)
        R = self.R
        if k == 'f':
            opts = [("fbin", 6), ("fun", 2), ("leaf", 3), ("i2f", 2), ("fcond", 1), ("fassign", 1), ("fcast", 1), ("finc", 1), ("fcall", 1)]
        else:
            opts = [("bin", 9), ("div", 2), ("shift", 2), ("rel", 4), ("logic", 4), ("un", 4), ("incdec", 3),
                    ("assign", 3), ("cassign", 2), ("cond", 2), ("comma", 1), ("cast", 3), ("call", 3),
                    ("index", 0 if not self.arrays() else 2), ("sizeof", 0.6), ("macro", 2), ("frel", 1.5), ("leaf", 3),
                    ("f2i", 0.7), ("addr", 0.8), ("lognot2", 0.5)]
            if self.cxx:
                opts += [("lambda", 0.7), ("fncast", 0.7), ("tmpl", 0.6), ("initcast", 0.4)]
        w = self.wpick(opts)
        f = getattr(self, "x_" + w)
        e = f(c, d)
        if e is None:
            return self.leaf(c, k)
        return e

    def x_leaf(self, c, d):
        return None

    def bin2(self, c, op, a, b, k):
        p = BINP[op]
        at = self.paren(a, p)
        bt = self.paren(b, p + 1)
        return E("%s %s %s" % (at, op, bt), p, k, a.r | b.r, a.w | b.w, a.tr or b.tr)

    def two(self, c, d, k):
        a = self.expr(c, d - 1, k)
        b = self.expr(c.after(a), d - 1, k)
        return a, b

    def x_bin(self, c, d):
        op = self.pick(["+", "-", "*", "+", "-", "&", "|", "^"])
        a, b = self.two(c, d, 'i')
        return self.bin2(c, op, a, b, 'i')

    def x_div(self, c, d):
        op = self.pick(["/", "%"])
        a = self.expr(c, d - 1, 'i')
        b = self.expr(c.after(a), d - 2, 'i')
        if self.chance(.3):
            bt = E("%d" % self.R.choice([1, 2, 3, 5, 7]), P_PRIM, 'i')
        else:
            bt = E("((%s & 15) + 1)" % self.paren(b, P_AND), P_PRIM, 'i', b.r, b.w, b.tr)
        return self.bin2(c, op, a, bt, 'i')

    def x_shift(self, c, d):
        op = self.pick(["<<", ">>"])
        a = self.expr(c, d - 1, 'i')
        if op == "<<":
            a = E("(%s & 0xff)" % self.paren(a, P_AND), P_PRIM, 'i', a.r, a.w, a.tr)
        b = self.expr(c.after(a), d - 2, 'i')
        if self.chance(.4):
            b = E("%d" % self.R.choice([0, 1, 2, 3, 5]), P_PRIM, 'i')
        else:
            b = E("(%s & 7)" % self.paren(b, P_AND), P_PRIM, 'i', b.r, b.w, b.tr)
        return self.bin2(c, op, a, b, 'i')

    def x_rel(self, c, d):
        op = self.pick(["<", ">", "<=", ">=", "==", "!="])
        a, b = self.two(c, d, 'i')
        return self.bin2(c, op, a, b, 'i')

    def x_frel(self, c, d):
        op = self.pick(["<", ">", "<=", ">=", "==", "!="])
        a, b = self.two(c, d, 'f')
        return self.bin2(c, op, a, b, 'i')

    def x_logic(self, c, d):
        op = self.pick(["&&", "||"])
        k1 = 'f' if self.chance(0.06) else 'i'
        a = self.expr(c, d - 1, k1)
        b = self.expr(c, d - 1, 'i')     # sequenced: no restriction from a
        return self.bin2(c, op, a, b, 'i')

    def x_lognot2(self, c, d):
        a = self.expr(c, d - 1, 'i')
        return E("!!" + self.paren(a, P_UN), P_UN, 'i', a.r, a.w, a.tr)

    def x_un(self, c, d):
        op = self.pick(["-", "~", "!", "-", "!", "+"])
        k = 'f' if op == "!" and self.chance(0.1) else 'i'
        a = self.expr(c, d - 1, k)
        return E(op + self._unsp(op, self.paren(a, P_UN)), P_UN, 'i', a.r, a.w, a.tr)

    @staticmethod
    def _unsp(op, t):
        return (" " + t) if t[:1] == op[-1:] or (t[:1] in "+-&" and op[-1] == t[:1]) else t

    def x_fun(self, c, d):
        a = self.expr(c, d - 1, 'f')
        return E("-" + self._unsp("-", self.paren(a, P_UN)), P_UN, 'f', a.r, a.w, a.tr)

    def x_incdec(self, c, d):
        vs = [v for v in self.writable(c, 'i') if v.ty not in ("bool", "_Bool")]
        if not vs:
            return None
        v = self.pick(vs)
        op = self.pick(["++", "--"])
        r, w = self.wr_effect(v)
        if self.chance(.5):
            return E(op + v.n, P_UN, 'i', r, w)
        return E(v.n + op, P_POST, 'i', r, w)

    def x_finc(self, c, d):
        vs = self.writable(c, 'f')
        if not vs:
            return None
        v = self.pick(vs)
        op = self.pick(["++", "--"])
        r, w = self.wr_effect(v)
        if self.chance(.5):
            return E(op + v.n, P_UN, 'f', r, w)
        return E(v.n + op, P_POST, 'f', r, w)

    def assign_to(self, v, op, b, k):
        r, w = self.wr_effect(v)
        return E("%s %s %s" % (v.n, op, self.paren(b, P_ASSIGN)), P_ASSIGN, k, r | b.r, w | b.w, b.tr)

    def x_assign(self, c, d):
        vs = self.writable(c, 'i')
        if not vs:
            return None
        v = self.pick(vs)
        lv = E("", 0, 'i', frozenset([v.root]) | v.extra, frozenset([v.root]))
        b = self.expr(c.after(lv), d - 1, 'i')
        return self.assign_to(v, "=", b, 'i')

    def x_fassign(self, c, d):
        vs = self.writable(c, 'f')
        if not vs:
            return None
        v = self.pick(vs)
        lv = E("", 0, 'i', frozenset([v.root]) | v.extra, frozenset([v.root]))
        b = self.expr(c.after(lv), d - 1, 'f')
        return self.assign_to(v, self.pick(["=", "=", "+=", "-=", "*="]), b, 'f')

    def x_cassign(self, c, d):
        vs = self.writable(c, 'i')
        if not vs:
            return None
        v = self.pick(vs)
        lv = E("", 0, 'i', frozenset([v.root]) | v.extra, frozenset([v.root]))
        op = self.pick(["+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>=", "/=", "%="])
        if op in ("<<=", ">>="):
            b = E(str(self.R.choice([0, 1, 2, 3])), P_PRIM, 'i')
            if self.chance(.4):
                e = self.expr(c.after(lv), d - 2, 'i')
                b = E("(%s & 3)" % self.paren(e, P_AND), P_PRIM, 'i', e.r, e.w, e.tr)
        elif op in ("/=", "%="):
            e = self.expr(c.after(lv), d - 2, 'i')
            b = E("((%s & 7) + 1)" % self.paren(e, P_AND), P_PRIM, 'i', e.r, e.w, e.tr)
        else:
            if op in ("+=", "-=", "*=") and self.chance(.15):
                # an integer changed by a floating-point value
                f = self.pick(["0.5", "1.25f", "2.0", "3.0f", "-1.5", "2.5L"])
                if op == "*=" or self.chance(.5):
                    b = E(f, P_UN, 'f')
                else:
                    e = self.expr(c.after(lv), d - 2, 'i')
                    b = E("(%s & 15) * %s" % (self.paren(e, P_AND), f), P_MUL, 'f', e.r, e.w, e.tr)
            else:
                b = self.expr(c.after(lv), d - 1, 'i')
        return self.assign_to(v, op, b, 'i')

    def x_cond(self, c, d, k='i'):
        q = self.expr(c, d - 1, 'i')
        a = self.expr(c, d - 1, k)
        b = self.expr(c, d - 1, k)
        return E("%s ? %s : %s" % (self.paren(q, P_LOR), self.paren(a, P_ASSIGN), self.paren(b, P_COND)), P_COND, k,
                 q.r | a.r | b.r, q.w | a.w | b.w, q.tr or a.tr or b.tr)

    def x_fcond(self, c, d):
        return self.x_cond(c, d, 'f')

    def x_comma(self, c, d):
        a = self.expr(c, d - 1, self.pick(['i', 'i', 'f']))
        b = self.expr(c, d - 1, 'i')
        return E("%s, %s" % (self.paren(a, P_ASSIGN), self.paren(b, P_ASSIGN)), P_COMMA, 'i', a.r | b.r, a.w | b.w, a.tr or b.tr)

    def x_cast(self, c, d):
        a = self.expr(c, d - 1, 'i')
        ty = self.int_type()
        if self.cxx and self.chance(.4):
            return E("static_cast<%s>(%s)" % (ty, a.t if a.p > P_COMMA else "(" + a.t + ")"), P_POST, 'i', a.r, a.w, a.tr)
        return E("(%s)%s" % (ty, self.paren(a, P_UN)), P_UN, 'i', a.r, a.w, a.tr)

    def x_fncast(self, c, d):
        a = self.expr(c, d - 1, 'i')
        return E("%s(%s)" % (self.pick(["int", "unsigned", "char", "bool", "short", "long"]), self._nc(a)), P_POST, 'i', a.r, a.w, a.tr)

    def x_initcast(self, c, d):
        a = self.expr(c, d - 1, 'i')
        ty = self.pick(["int", "unsigned", "char", "bool"])
        return E("%s{static_cast<%s>(%s)}" % (ty, ty, a.t if a.p > P_COMMA else "(" + a.t + ")"), P_POST, 'i', a.r, a.w, a.tr)

    def x_fcast(self, c, d):
        a = self.expr(c, d - 1, 'f')
        return E("(%s)%s" % (self.pick(FLOATS), self.paren(a, P_UN)), P_UN, 'f', a.r, a.w, a.tr)

    def x_i2f(self, c, d):
        a = self.expr(c, d - 1, 'i')
        return E("(%s)(%s & 63)" % (self.pick(FLOATS), self.paren(a, P_AND)), P_UN, 'f', a.r, a.w, a.tr)

    def x_f2i(self, c, d):
        a = self.leaf(c, 'f')
        return E("(%s)%s" % (self.pick(["int", "long long", "long"]), self.paren(a, P_UN)), P_UN, 'i', a.r, a.w, a.tr)

    def x_fbin(self, c, d):
        op = self.pick(["+", "-", "*", "+", "-"])
        a, b = self.two(c, d, 'f')
        if self.chance(.15):
            b = self.pick([E("2.0", P_PRIM, 'f'), E("4.0f", P_PRIM, 'f'), E("1.0", P_PRIM, 'f')])
            op = "/"
        return self.bin2(c, op, a, b, 'f')

    def x_sizeof(self, c, d):
        self.use("sizeof")
        if self.chance(.5):
            return E("sizeof(%s)" % self.arith_type(), P_UN, 'i')
        a = self.expr(c.purely(), d - 1, 'i')
        if "." in a.t or "->" in a.t:
            return E("sizeof(+(%s))" % a.t, P_UN, 'i')       # it may be a bit-field
        return E("sizeof(%s)" % a.t, P_UN, 'i')

    def arrays(self):
        return getattr(self, "_arrays", [])

    def x_index(self, c, d):
        # (name, size, elem type, root)
        arrs = [a for a in self.arrays() if a[3] not in c.noread]
        if not arrs:
            return None
        n, sz, ty, root = self.pick(arrs)
        if self.kind(ty) != 'i':
            return None
        if self.chance(.4):
            i = E(str(self.R.randrange(sz)), P_PRIM, 'i')
        else:
            e = self.expr(c, d - 1, 'i')
            if root in e.w:
                return None
            i = E("%s & %d" % (self.paren(e, P_AND), sz - 1), P_AND, 'i', e.r, e.w, e.tr)
        base = "%s[%s]" % (n, i.t)
        if root.startswith(self.pfx) and self.cur is not None:
            self.cur.r.add(root)
        r = i.r | frozenset([root])
        if not c.pure and root not in c.nowrite and root not in i.r and self.chance(.4):
            if self.cur is not None and root.startswith(self.pfx):
                self.cur.w.add(root)
            w = i.w | frozenset([root])
            z = self.pick(["pre", "post", "asg"])
            if ty in ("bool", "_Bool"):
                z = "asg"
            if z == "pre":
                return E(self.pick(["++", "--"]) + base, P_UN, 'i', r, w, i.tr)
            if z == "post":
                return E(base + self.pick(["++", "--"]), P_POST, 'i', r, w, i.tr)
            b = self.expr(c.after(E("", 0, 'i', r, w, i.tr)), d - 1, 'i')
            return E("%s %s %s" % (base, self.pick(["=", "+=", "^="]), self.paren(b, P_ASSIGN)), P_ASSIGN, 'i', r | b.r, w | b.w, i.tr or b.tr)
        return E(base, P_POST, 'i', r, i.w, i.tr)

    def x_addr(self, c, d):
        vs = [v for v in self.readable(c, 'i') if v.addr and not v.bf]
        if not vs:
            return None
        v = self.pick(vs)
        self.eff_r(v)
        self.use("deref_addr")
        return E("*&%s" % v.n, P_UN, 'i', frozenset([v.root]) | v.extra)

    def x_fcall(self, c, d):
        return self.x_call(c, d, 'f')

    def x_call(self, c, d, k='i'):
        if c.pure:
            return None
        fs = [f for f in self.funcs if f.k == k and not (f.w & c.noread) and not (f.w & c.nowrite) and not (f.r & c.noread)
              and not (f.tr and c.notrace)]
        if not fs:
            return None
        f = self.pick(fs)
        args, acc = [], []
        for (pn, pt, pk) in f.params:
            if pk == "i" or pk == "f":
                a = self.expr(c.after(*acc), d - 1, pk)
                acc.append(a)
                args.append(self.paren(a, P_ASSIGN))
            else:  # pointer / reference to pt
                vs = [v for v in self.writable(c.after(*acc), self.kind(pt)) if v.ty == pt and v.addr and not v.bf and v.root not in f.r | f.w and not v.extra]
                if not vs:
                    return None
                v = self.pick(vs)
                r, w = self.wr_effect(v)
                acc.append(E("", 0, 'i', r, w))
                args.append(("&" if pk == "p" else "") + v.n)
        r = frozenset(f.r)
        w = frozenset(f.w)
        tr = f.tr
        # argument effects must not clash with each other (ensured); the body is sequenced after them
        for a in acc:
            r, w, tr = r | a.r, w | a.w, tr or a.tr
        if self.cur is not None:
            self.cur.r |= f.r
            self.cur.w |= f.w
            self.cur.tr = self.cur.tr or f.tr
        self.use("call")
        return E("%s(%s)" % (f.name, ", ".join(args)), P_POST, f.k, r, w, tr)

    def x_macro(self, c, d):
        ms = self.macros.get("fn")
        if not ms:
            return None
        m, nargs, mode = self.pick(ms)
        self.use("macro_fn")
        # macro arguments may be evaluated several times: keep them pure
        es, acc = [], []
        for _ in range(nargs):
            a = self.expr(c.purely(), max(0, d - 2), 'i')
            es.append(a)
        r = EMPTY
        for a in es:
            r |= a.r
        return E("%s(%s)" % (m, ", ".join(("(" + a.t + ")") if a.p <= P_COMMA else a.t for a in es)), P_PRIM if mode == "full" else P_COMMA, 'i', r)

    def x_lambda(self, c, d):
        self.use("lambda_expr")
        a = self.expr(c, d - 1, 'i')
        return E("[&]() { return %s; }()" % self.paren(a, P_ASSIGN), P_POST, 'i', a.r, a.w, a.tr)

    def x_tmpl(self, c, d):
        if not getattr(self, "_tmpl", None):
            return None
        self.use("template_call")
        n = self.pick(self._tmpl)
        a, b = self.two(c, d, 'i')
        ty = self.pick(["int", "unsigned", "long long", "short"])
        return E("%s<%s>(%s, %s)" % (n, ty, self.paren(a, P_ASSIGN), self.paren(b, P_ASSIGN)), P_POST, 'i', a.r | b.r, a.w | b.w, a.tr or b.tr)

    # -- statements ------------------------------------------------------
    def full(self, d=None, k='i', pure=False):
        if d is None:
            d = self.wpick([(1, 3), (2, 4), (3, 3), (4, 1)])
        return self.expr(Ctx(pure=pure), d, k)

    def cast_emit(self, e):
        self.trace()
        if e.k == 'f':
            return "h_emitd(%s);" % self.paren(e, P_ASSIGN)
        return "h_emit(%s);" % self.paren(e, P_ASSIGN)

    def trace(self):
        if self.cur is not None:
            self.cur.tr = True

    def block(self, n, d):
        self.scopes.append([])
        arrs = list(self.arrays())
        out = []
        for _ in range(n):
            out += self.stmt(d)
        self.scopes.pop()
        self._arrays = arrs
        return out

    @staticmethod
    def ind(ls):
        return ["  " + l for l in ls]

    def body(self, d, n=None, force_brace=False):
        """A statement body: braced block or a single unbraced simple statement."""
        if not force_brace and self.chance(.3):
            s = self.simple_stmt()
            return None, s
        return self.block(n or self.R.randint(1, 3), d - 1), None

    def attach(self, head, d, tail=None):
        b, s = self.body(d)
        if b is not None:
            return [head + " {"] + self.ind(b) + ["}"]
        return [head, "  " + s]

    def simple_stmt(self):
        """One single-line statement that is not a declaration."""
        k = self.wpick([("asg", 4), ("casg", 3), ("inc", 2), ("emit", 4), ("call", 2), ("void", 1), ("fasg", 1),
                        ("brk", 1.5 if self.loop else 0), ("cont", 1 if self.loop else 0), ("ret", 0.5), ("null", 0.4), ("pure", 0.5)])
        if k == "brk":
            return "break;"
        if k == "cont":
            return "continue;"
        if k == "ret":
            return self.ret()
        if k == "null":
            return ";"
        if k == "void":
            return "(void)%s;" % self.paren(self.full(2), P_UN)
        if k == "pure":
            return "%s;" % self.full(2, pure=True).t
        if k == "emit":
            return self.cast_emit(self.full(None, self.wpick([('i', 4), ('f', 1)])))
        if k == "call":
            e = self.x_call(Ctx(), 2)
            if e:
                return e.t + ";"
        f = {"asg": self.x_assign, "casg": self.x_cassign, "inc": self.x_incdec, "fasg": self.x_fassign}.get(k, self.x_assign)
        e = f(Ctx(), self.R.randint(1, 3))
        if e is None:
            return self.cast_emit(self.full())
        return e.t + ";"

    def ret(self):
        ret = self.retstack[-1]
        if ret is None:
            return "return;"
        if ret in FLOATS:
            return "return %s;" % self.full(2, 'f').t
        return "return %s;" % self.full(2).t

    def newvar(self, n, ty, **kw):
        v = Var(n, ty, self.kind(ty), **kw)
        return v

    def decl(self):
        ty = self.arith_type()
        k = self.kind(ty)
        n = self.name()
        q = self.wpick([("", 10), ("const ", 1.5), ("volatile ", 1.5), ("static ", 0.7), ("register ", 0.3 if not self.cxx else 0)])
        e = self.full(None, k)
        if q == "static ":
            init = str(self.R.randint(0, 5)) if k == 'i' else "1.5"
            v = self.newvar(n, ty, root=self.pfx + n)
            self.scopes[-1].append(v)
            self.use("static_local")
            return ["static %s%s %s = %s;" % (self.tls, ty, n, init)]
        form = "="
        if self.cxx:
            form = self.wpick([("=", 6), ("()", 1), ("{}", 1), ("auto", 0.8), ("={}", .5)])
        mut = q != "const "
        v = self.newvar(n, ty, mut=mut, addr=(q not in ("volatile ", "register ")))
        if form == "()":
            t = "%s%s %s(%s);" % (q, ty, n, self.paren(e, P_ASSIGN))
        elif form in ("{}", "={}"):
            t = "%s%s %s%s{static_cast<%s>(%s)};" % (q, ty, n, " = " if form == "={}" else "", ty, e.t if e.p > P_COMMA else "(" + e.t + ")")
        elif form == "auto":
            t = "%sauto %s = static_cast<%s>(%s);" % (q, n, ty, e.t if e.p > P_COMMA else "(" + e.t + ")")
        else:
            t = "%s%s %s = %s;" % (q, ty, n, self.paren(e, P_ASSIGN))
            if self.chance(.15):
                n2 = self.name()
                e2 = self.full(1, k)
                self.scopes[-1].append(v)
                v = self.newvar(n2, ty, mut=mut, addr=(q not in ("volatile ", "register ")))
                t = t[:-1] + ", %s = %s;" % (n2, self.paren(e2, P_ASSIGN))
        self.scopes[-1].append(v)
        if q:
            self.use(q.strip())
        self.use("decl_" + ty.replace(" ", "_"))
        return [t]

    def arr_decl(self):
        ty = self.int_type() if self.chance(.85) else self.pick(FLOATS)
        n = self.name("ar")
        sz = self.pick([1, 2, 4, 8])
        if self.kind(ty) == 'i':
            if self.cxx:
                es = ["static_cast<%s>(%s)" % (ty, self._nc(self.full(1))) for _ in range(self.R.randint(1, sz))]
            else:
                es = [self.paren(self.full(1), P_ASSIGN) for _ in range(self.R.randint(1, sz))]
        else:
            es = ["1.0", "2.5"][:sz]
        self._arrays = list(self.arrays()) + [(n, sz, ty, n)]
        self.use("array")
        return ["%s %s[%d] = {%s};" % (ty, n, sz, ", ".join(es))]

    @staticmethod
    def _nc(e):
        return e.t if e.p > P_COMMA else "(" + e.t + ")"

    def ptr_decl(self):
        vs = [v for v in self.all_vars() if v.addr and v.mut and not v.bf and not v.extra]
        if not vs:
            return self.decl()
        v = self.pick(vs)
        n = self.name("pt")
        if self.cxx and self.chance(.5):
            self.use("reference")
            nv = Var(n, v.ty, v.k, root=v.root, addr=True)
            self.scopes[-1].append(nv)
            return ["%s& %s = %s;" % (v.ty, n, v.n)]
        self.use("pointer")
        nv = Var("(*%s)" % n, v.ty, v.k, root=v.root, addr=True, extra=frozenset([n]))
        self.scopes[-1].append(nv)
        return ["%s* %s = &%s;" % (v.ty, n, v.n)]

    def struct_decl(self):
        if not self.structs:
            return self.decl()
        sn, fs = self.pick(self.structs)
        n = self.name("s")
        inits = []
        for (f, ty, bits) in fs:
            if self.kind(ty) == 'f':
                inits.append("2.5")
            elif self.cxx:
                inits.append("static_cast<%s>(%s)" % (ty, self._nc(self.full(1))))
            else:
                inits.append(self.paren(self.full(1), P_ASSIGN))
        if not self.cxx and self.chance(.4):
            inits = [".%s = %s" % (f, i) for (f, _, _), i in zip(fs, inits)]
            self.use("designated_init")
        for (f, ty, bits) in fs:
            self.scopes[-1].append(Var("%s.%s" % (n, f), ty, self.kind(ty), root=n, bf=bits is not None, addr=bits is None))
        self.use("struct")
        out = ["struct %s %s = {%s};" % (sn, n, ", ".join(inits))]
        if self.chance(.3):
            pn = self.name("q")
            out.append("struct %s* %s = &%s;" % (sn, pn, n))
            for (f, ty, bits) in fs:
                self.scopes[-1].append(Var("%s->%s" % (pn, f), ty, self.kind(ty), root=n, bf=bits is not None, addr=bits is None, extra=frozenset([pn])))
        return out

    def stmt(self, d):
        opts = [("simple", 8), ("decl", 4), ("emit", 2)]
        opts += [("arr", 1), ("ptr", 1), ("struct", 1)]
        if d > 0:
            opts += [("if", 3), ("for", 2), ("while", 1.2), ("do", 1), ("switch", 2), ("block", 1), ("goto", 0.6), ("macrostmt", 0.7)]
            if self.cxx:
                opts += [("rangefor", 0.8), ("lambdavar", 0.8), ("ifinit", 0.6), ("trycatch", 0.5), ("localclass", 0.4)]
            opts += [("feature", 2)]
        return getattr(self, "s_" + self.wpick(opts))(d)

    def s_simple(self, d):
        return [self.simple_stmt()]

    def s_decl(self, d):
        return self.decl()

    def s_emit(self, d):
        return [self.cast_emit(self.full(None, self.wpick([('i', 5), ('f', 1)])))]

    def s_arr(self, d):
        return self.arr_decl()

    def s_ptr(self, d):
        return self.ptr_decl()

    def s_struct(self, d):
        return self.struct_decl()

    def s_block(self, d):
        self.use("block")
        return ["{"] + self.ind(self.block(self.R.randint(1, 3), d - 1)) + ["}"]

    def s_if(self, d):
        self.use("if")
        c = self.full(3)
        out = self.attach("if (%s)" % c.t, d)
        r = self.R.random()
        if r < .35:
            els = self.attach("else", d)
            out += els
        elif r < .5:
            c2 = self.full(2)
            out += self.attach("else if (%s)" % c2.t, d)
            out += self.attach("else", d)
        return out

    def s_ifinit(self, d):
        self.use("if_init")
        n = self.name("c")
        e = self.full(2)
        self.scopes.append([])
        if self.chance(.5):
            head = "if (int %s = static_cast<int>(%s))" % (n, self._nc(e))
            self.scopes[-1].append(Var(n, "int", 'i'))
        else:
            head = "if (int %s = static_cast<int>(%s); " % (n, self._nc(e))
            self.scopes[-1].append(Var(n, "int", 'i'))
            head += "%s)" % self.full(2).t
        out = self.attach(head, d)
        if self.chance(.4):
            out += self.attach("else", d)
        self.scopes.pop()
        return out

    def s_for(self, d):
        self.use("for")
        n = self.name("i")
        self.scopes.append([Var(n, "int", 'i', mut=False)])
        ty = self.pick(["int", "unsigned", "long", "short"])
        lim = self.R.randint(1, 4)
        head = self.pick(["for (%s %s = 0; %s < %d; %s++)", "for (%s %s = 0; %s != %d; ++%s)", "for (%s %s = 0; %s <= %d; %s += 1)"]) % (ty, n, n, lim, n)
        if self.chance(.15):
            head = "for (%s %s = %d; %s > 0; --%s)" % (ty, n, lim, n, n)
        if self.chance(.2):
            e = self.full(2)
            head = head[:-1] + ", (void)(%s))" % e.t
        self.loop += 1
        out = self.attach(head, d)
        self.loop -= 1
        self.scopes.pop()
        return out

    def s_while(self, d):
        self.use("while")
        n = self.name("w")
        self.scopes.append([Var(n, "int", 'i', mut=False)])
        c = self.full(2)
        self.loop += 1
        body = self.block(self.R.randint(1, 2), d - 1)
        self.loop -= 1
        self.scopes.pop()
        return ["{", "  int %s = %d;" % (n, self.R.randint(1, 4)), "  while (%s-- > 0 && %s) {" % (n, self.paren(c, P_OR))] + self.ind(self.ind(body)) + ["  }", "}"]

    def s_do(self, d):
        self.use("do")
        n = self.name("w")
        self.scopes.append([Var(n, "int", 'i', mut=False)])
        self.loop += 1
        if self.chance(.25):
            self.loop -= 1
            s = self.simple_stmt()
            self.scopes.pop()
            return ["{", "  int %s = %d;" % (n, self.R.randint(1, 3)), "  do", "    " + s, "  while (--%s > 0);" % n, "}"]
        body = self.block(self.R.randint(1, 2), d - 1)
        self.loop -= 1
        self.scopes.pop()
        return ["{", "  int %s = %d;" % (n, self.R.randint(1, 4)), "  do {"] + self.ind(self.ind(body)) + ["  } while (--%s > 0);" % n, "}"]

    def s_switch(self, d):
        self.use("switch")
        e = self.full(2)
        n = self.R.randint(1, 4)
        out = ["switch ((%s) & 3) {" % e.t]
        vals = list(range(4))
        self.R.shuffle(vals)
        lp = self.loop
        self.loop = 0        # break would bind to the switch; keep it explicit
        dflt = self.R.randrange(n + 1) if self.chance(.7) else -1
        for i in range(n):
            if i == dflt:
                out.append("  default:")
                out += self.ind(self.ind(["{"] + self.ind(self.block(1, d - 1)) + ["}"])) if self.chance(.5) else ["    " + self.simple_stmt()]
                if self.chance(.5):
                    out.append("    break;")
            lab = "  case %d:" % vals[i]
            if self.chance(.15) and i + 1 < n:
                lab += " case %d:" % (vals[i] + 4)
            out.append(lab)
            if self.chance(.4):
                self.scopes.append([])
                b = self.block(self.R.randint(1, 2), d - 1)
                self.scopes.pop()
                out += ["  {"] + self.ind(self.ind(b)) + ["  }"]
            else:
                for _ in range(self.R.randint(1, 2)):
                    out.append("    " + self.simple_stmt())
            if self.chance(.7):
                out.append("    break;")
        out.append("}")
        self.loop = lp
        return out

    def s_goto(self, d):
        self.use("goto")
        l = self.name("L")
        c = self.full(2)
        self.scopes.append([])
        mid = []
        for _ in range(self.R.randint(1, 2)):
            mid.append("  " + self.simple_stmt())
        self.scopes.pop()
        return ["{", "  if (%s)" % c.t, "    goto %s;" % l] + mid + ["  %s:" % l, "  " + self.simple_stmt(), "}"]

    def s_macrostmt(self, d):
        ms = self.macros.get("stmt")
        if not ms:
            return [self.simple_stmt()]
        self.use("macro_stmt")
        m, mode = self.pick(ms)
        e = self.full(2)
        if mode == "emit":
            self.trace()
        return ["%s(%s)%s" % (m, e.t if e.p > P_COMMA else "(" + e.t + ")", "" if mode == "nosemi" else ";")]

    def s_rangefor(self, d):
        self.use("range_for")
        n = self.name("r")
        arrs = [a for a in self.arrays() if self.kind(a[2]) == 'i']
        pre = []
        if not arrs:
            pre = ["int ra%s[3] = {%s, 2, 5};" % (n, "static_cast<int>(%s)" % self._nc(self.full(1)))]
            an, aty, root = "ra" + n, "int", "ra" + n
        else:
            an, _, aty, root = self.pick(arrs)
        ref = self.chance(.4)
        self.scopes.append([Var(n, aty, 'i', root=root if ref else n)])
        self.loop += 1
        b = self.attach("for (auto%s %s : %s)" % ("&" if ref else "", n, an), d)
        self.loop -= 1
        self.scopes.pop()
        return ["{"] + self.ind(pre + b) + ["}"] if pre else b

    def s_lambdavar(self, d):
        self.use("lambda_var")
        n = self.name("lam")
        pn = self.name("x")
        self.scopes.append([Var(pn, "int", 'i')])
        lp, self.loop = self.loop, 0
        self.retstack.append("int")
        cap = self.pick(["&", "&", "="])
        if cap == "=":
            # by-copy: read only
            saved = self.scopes
            e = self.full(2, pure=True)
            b = ["return static_cast<int>(%s);" % self._nc(e)]
        else:
            b = self.block(self.R.randint(1, 2), d - 1) + [self.ret()]
        self.retstack.pop()
        self.loop = lp
        self.scopes.pop()
        a = self.full(1)
        self.trace()
        return ["{", "  auto %s = [%s](int %s) -> int {" % (n, cap, pn)] + self.ind(self.ind(b)) + ["  };", "  h_emit(%s(%s));" % (n, self.paren(a, P_ASSIGN)), "}"]

    def s_trycatch(self, d):
        self.use("try_catch")
        c = self.full(2)
        t = self.full(2)
        n = self.name("ex")
        lp, self.loop = self.loop, 0
        b = self.block(1, d - 1)
        self.scopes.append([Var(n, "int", 'i')])
        h = self.block(1, d - 1)
        self.scopes.pop()
        self.loop = lp
        return ["try {"] + self.ind(b) + ["  if (%s) throw static_cast<int>(%s);" % (c.t, self._nc(t)), "} catch (int %s) {" % n] + self.ind(h) + ["} catch (...) {", "  h_emit(1);", "}"]

    def s_localclass(self, d):
        self.use("local_class")
        cn = self.name("K")
        on = self.name("o")
        a, b = self.full(1), self.full(1)
        self.scopes, sv = [[Var("m", "int", 'i', root="this"), Var("x", "int", 'i')]], self.scopes
        arrs, self._arrays = self.arrays(), []
        self.retstack.append("int")
        lp, self.loop = self.loop, 0
        e = self.full(2)
        b1 = self.block(1, 0)
        r = self.ret()
        self.loop = lp
        self.retstack.pop()
        self.scopes = sv
        self._arrays = arrs
        self.trace()
        return ["{", "  struct %s {" % cn, "    int m;", "    %s(int x) : m(static_cast<int>(%s)) {}" % (cn, self._nc(e)),
                "    int go(int x) {"] + self.ind(self.ind(self.ind(b1 + [r]))) + ["    }", "  };",
                "  %s %s(static_cast<int>(%s));" % (cn, on, self._nc(a)), "  h_emit(%s.go(static_cast<int>(%s)));" % (on, self._nc(b)), "}"]

    def s_feature(self, d):
        from . import feats
        return feats.feature(self, d)

    # -- top level -------------------------------------------------------
    def make_macros(self):
        R = self.R
        P = self.pfx
        m = []
        n = P + "K"
        m.append("#define %s %d" % (n, R.randint(0, 9)))
        self.macros.setdefault("const", []).append(n)
        m.append("#define %sNEG (-%d)" % (P, R.randint(1, 9)))
        self.macros["const"].append(P + "NEG")
        fns = [("SQ", 1, "((x) * (x))", "x", "full"), ("ADD", 2, "((x) + (y))", "x, y", "full"),
               ("MX", 2, "((x) > (y) ? (x) : (y))", "x, y", "full"), ("RAW", 2, "x - y", "x, y", "raw"),
               ("ID", 1, "x", "x", "raw"), ("NOTM", 1, "!x", "x", "raw"), ("PLUS1", 1, "(x) + 1", "x", "raw"),
               ("BOTH", 2, "((x) && (y))", "x, y", "full"), ("SHF", 1, "((x) & 7) << 1", "x", "raw")]
        R.shuffle(fns)
        for (s, na, b, ps, mode) in fns[:R.randint(1, 4)]:
            m.append("#define %s%s(%s) %s" % (P, s, ps, b))
            self.macros.setdefault("fn", []).append((P + s, na, mode))
        sts = [("EM", "h_emit(x)", "emit"), ("EMD", "do { h_emit(x); } while (0)", "emit"), ("EMB", "{ h_emit(x); }", "emit"),
               ("EMS", "h_emit(x);", "emit")]
        R.shuffle(sts)
        for (s, b, mode) in sts[:R.randint(1, 2)]:
            m.append("#define %s%s(x) %s" % (P, s, b))
            self.macros.setdefault("stmt", []).append((P + s, mode))
        return m

    def make_struct(self):
        n = self.pfx + "S%d" % len(self.structs)
        fs = []
        for i in range(self.R.randint(1, 4)):
            ty = self.int_type() if self.chance(.85) else self.pick(FLOATS)
            bits = None
            if self.kind(ty) == 'i' and "128" not in ty and self.chance(.4):
                mx = {"_Bool": 1, "bool": 1}.get(ty, 8 if "char" in ty and "16" not in ty and "32" not in ty else 13)
                bits = self.R.randint(1, mx)
                self.use("bitfield")
            fs.append(("f%d" % i, ty, bits))
        self.structs.append((n, fs))
        return ["struct %s {" % n] + ["  %s %s%s;" % (ty, f, "" if b is None else " : %d" % b) for (f, ty, b) in fs] + ["};"]

    def make_function(self, ret, params, name, nst, d, static=True, feats=0):
        fn = Fn(name, ret, params)
        self.cur = fn
        self.scopes = [[]]
        arrs = self.arrays()
        self._arrays = [a for a in arrs if a[3].startswith(self.pfx)]
        ps = []
        for (pn, pt, pk) in params:
            if pk == "p":
                ps.append("%s* %s" % (pt, pn))
                self.scopes[0].append(Var("(*%s)" % pn, pt, self.kind(pt), root="^" + pn, addr=True, extra=frozenset([pn])))
            elif pk == "r":
                ps.append("%s& %s" % (pt, pn))
                self.scopes[0].append(Var(pn, pt, self.kind(pt), root="^" + pn))
            else:
                ps.append("%s %s" % (pt, pn))
                self.scopes[0].append(Var(pn, pt, self.kind(pt)))
        self.retstack.append(ret)
        body = []
        at = [self.R.randint(0, nst - 1) for _ in range(feats)]
        for k in range(nst):
            for _ in range(at.count(k)):
                body += self.s_feature(d)
            body += self.stmt(d)
        if ret is not None:
            body.append(self.ret())
            body.append("H_END")
        self.retstack.pop()
        self.cur = None
        self._arrays = arrs
        sig = "%s%s %s(%s) {" % ("static " if static else "", ret or "void", name, ", ".join(ps) or ("void" if not self.cxx else ""))
        return fn, [sig] + self.ind(body) + ["}"]

    def unit(self):
        R = self.R
        T = []
        T += self.make_macros()
        for _ in range(R.randint(0, 2)):
            T += self.make_struct()
        if self.chance(.6):
            en = self.pfx + "En"
            vals = [self.pfx + "E%d" % i for i in range(3)]
            T += ["enum %s { %s = 0, %s = %d, %s = -%d };" % (en, vals[0], vals[1], R.randint(1, 5), vals[2], R.randint(1, 5))]
            self.enums += vals
        for _ in range(R.randint(1, 4)):
            ty = self.arith_type()
            n = self.gname()
            q = self.wpick([("static ", 5), ("static volatile ", 1), ("", 1)])
            T.append("%s%s %s = %s;" % (q.replace("static ", "static " + self.tls) or self.tls, ty, n, "1.5" if ty in FLOATS else str(R.randint(0, 9))))
            self.globals.append(Var(n, ty, self.kind(ty), glob=True, addr="volatile" not in q))
        self._arrays = []
        if self.chance(.5):
            n = self.gname("ga")
            T.append("static %sint %s[4] = {1, 2, 3, 4};" % (self.tls, n))
            self._arrays.append((n, 4, "int", n))
        if self.cxx:
            tn = self.pfx + "tmpl"
            self._tmpl = [tn]
            self.scopes = [[Var("n", "int", 'i')]]
            self.retstack.append("int")
            self.cur = None
            gl, self.globals = self.globals, []
            ga, self._arrays = self._arrays, []
            self._tmpl = []
            fn, self.funcs = self.funcs, []
            e = self.full(2, pure=True)
            self.funcs = fn
            self._tmpl = [tn]
            self.globals = gl
            self._arrays = ga
            self.retstack.pop()
            T += ["template <typename T> static T %s(T a, T b) {" % tn, "  int n = 3;", "  T c = a;",
                  "  if (a < b && n > 2) {", "    c = c + b;", "    n += 2;", "  }",
                  "  n = static_cast<int>(%s);" % self._nc(e), "  return n > 4 ? c : static_cast<T>(a - b);", "}"]
        nf = R.randint(1, 3)
        for i in range(nf):
            ps = []
            for j in range(R.randint(0, 3)):
                pk = self.wpick([("i", 5), ("f", 1), ("p", 1), ("r", 1 if self.cxx else 0)])
                pt = {"i": self.int_type(), "f": self.pick(FLOATS), "p": "int", "r": "int"}[pk]
                ps.append(("a%d" % j, pt, pk))
            ret = self.wpick([("int", 4), (self.int_type(), 4), (self.pick(FLOATS), 1)])
            fn, txt = self.make_function(ret, ps, self.pfx + "f%d" % i, R.randint(1, max(1, int(4 * self.size))), 1)
            T += self.top + [""] + txt
            self.top = []
            self.funcs.append(fn)
        fn, txt = self.make_function("long long", [("p0", "int", "i"), ("p1", "unsigned", "i"), ("p2", "long long", "i"), ("p3", "double", "f")],
                                     self.pfx + "entry", R.randint(3, max(3, int(8 * self.size))), 2, static=False,
                                     feats=R.choice([0, 1, 2, 2, 3]) if self.size >= 0.7 else R.choice([0, 1]))
        if self.cxx:
            txt[0] = "extern \"C\" " + txt[0]
        T += self.top + [""] + txt
        self.top = []
        return T


def gen_unit(seed, lang, idx, size=1.0, tls=False):
    g = Gen(random.Random(seed), lang, idx, size)
    if tls:
        g.tls = "thread_local " if lang == "cxx" else "_Thread_local "
    t = g.unit()
    return "\n".join(t) + "\n", g.used
