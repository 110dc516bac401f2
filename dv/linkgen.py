"""Generated programs of several source files that share a header, for one dredd invocation with a compilation database."""
import json, os, random, re
from . import common, batch, gen, info, layout
from .common import write, read

MARK = ["void __dredd_prelude_start();", "void __dredd_prelude_start(void);", "extern void __dredd_prelude_start(void);", "/* here */ void __dredd_prelude_start() ;",
        "void\n__dredd_prelude_start\n( ) ;"]


def header(rng, n, langs):
    """The shared header: inline functions, structures, templates and declarations of what the files export."""
    k = lambda: rng.choice([1, 2, 3, 5, 7, 11, 13])
    h = ["#ifndef SHARED_H", "#define SHARED_H", '#include "h.h"', "#define SH_MASK(x) ((x) & 0xffff)"]
    h += ["struct sh_s { long long a; int b; unsigned char c; };", "enum sh_e { SH_A = %d, SH_B = SH_A + %d };" % (k(), k())]
    h += ["static inline long long sh_f(long long x) { long long r = %d; for (int i = 0; i < %d; i++) { r = r * 3 + SH_MASK(x + i); if (r > 100000) r -= 99999; } return r; }" % (k(), k())]
    h += ["static long long sh_g(struct sh_s *p, int d) { p->a += d; p->b = (int)(p->a & 255); return p->a - p->b; }"]
    if rng.random() < 0.6:
        h += ["static __thread int sh_tl = %d;" % k()]
    else:
        h += ["static int sh_tl = %d;" % k()]
    h += ["#ifdef __cplusplus", "inline long long sh_inl(long long x) { static long long n = %d; return n + (x ^ %d); }" % (k(), k()),
          "template <class T> T sh_t(T a, T b) { return a < b ? a + %d : b - %d; }" % (k(), k()),
          "struct sh_c { long long v; virtual long long get() const { return v + %d; } virtual ~sh_c() {} };" % k(),
          "inline const int sh_glob = %d;" % k(), 'extern "C" {', "#endif"]
    h += ["extern long long sh_var%d;" % i for i in range(n)]
    h += ["long long u%d_x(long long v);" % i for i in range(n)]
    h += ["#ifdef __cplusplus", "}", "#endif", "#endif"]
    return "\n".join(h) + "\n"


def tail(rng, i, n, lang, static):
    """Code of file i that uses the header and the other files. Names of static things repeat from file to file on purpose."""
    k = lambda: rng.choice([1, 2, 3, 4, 6, 9, 12])
    ext = 'extern "C" ' if lang == "cxx" else ""
    o = []
    if lang == "cxx":
        o += ['extern "C" { long long sh_var%d = %d; }' % (i, k())]
    else:
        o += ["long long sh_var%d = %d;" % (i, k())]
    o += ["static int helper(int a, int b) { int r = a %s b; if (r > %d) r = r %s %d; return r; }" % (rng.choice("+-^|&"), k(), rng.choice("+-*^"), k())]
    o += ["static int state = %d;" % k()]
    if lang == "cxx":
        o += ["namespace { struct local { int q; %s int step() { q += %d; return q; } }; local inst%s; }" % (
            ("local() : q(helper(%d, %d)) {}" % (k(), k()), k(), "") if static else ("", k(), "{%d}" % k()))]
        if static and rng.random() < 0.7:
            o += ["static const long long started = helper(%d, %d) + sh_t(%d, %d);" % (k(), k(), k(), k())]
        else:
            o += ["static const long long started = %d;" % k()]
    body = ["struct sh_s s = {v, %d, %d};" % (k(), k()), "long long r = sh_f(v) + helper((int)(v & 1023), %d);" % k(), "r += sh_g(&s, %d);" % k(), "r ^= SH_MASK(v) + SH_B;",
            "r = r - sh_tl;"]
    if lang == "cxx":
        body += ["r += sh_inl(v & 4095);", "r += sh_t<long long>(r & 255, %d);" % k(), "sh_c c; c.v = r & 65535; r += c.get();", "r += inst.q + started + sh_glob;",
                 "auto l = [&](int z) { return z * %d + (int)(r & 15); }; r += l(%d);" % (k(), k())]
    if rng.random() < 0.5:
        body += ["if ((r & 7) == %d) { r += state; }" % (k() & 7)]
    rng.shuffle(body[2:])
    o += ["%slong long u%d_x(long long v) { %s return r; }" % (ext, i, "\n  ".join(body))]
    o += ["%slong long u%d_own(int a, unsigned b, long long c, double d) { h_emit(u%d_x(c)); h_emit(u%d_x(a)); h_emit(helper(a & 255, (int)(b & 255))); return sh_f(a); }" % (ext, i, i, i)]
    # exercises every file in turn, its own code in between
    cross = " ".join("h_emit(%d); h_emit(u%d_x(c)); h_emit(sh_var%d);" % (777000000 + j, j, j) for j in range(n))
    return o, ("%slong long u%d_cross(int a, unsigned b, long long c, double d) { %s return 0; }" % (ext, i, cross))


FEATURE = "#define _POSIX_C_SOURCE 200809L\n#include <string.h>\n#include <stdlib.h>\n"


class Program:
    """files: [(relative name, lang, bytes, offset of the marker or None)]"""
    def __init__(self, seed, files, shared, inputs, cstd):
        self.seed, self.files, self.shared, self.inputs, self.cstd = seed, files, shared, inputs, cstd

    def flags(self, lang, d):
        return [self.cstd if lang == "c" else "-std=c++20", "-I" + common.HDIR, "-I" + d, "-w", "-fbracket-depth=2048"]

    def place(self):
        d = common.newdir("lp")
        write(os.path.join(d, "shared.h"), self.shared)
        ps = []
        for n, l, t, _ in self.files:
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            ps.append(write(p, t))
        db = [dict(directory=d, file=p, arguments=["clang" if l == "c" else "clang++"] + self.flags(l, d) + ["-c", p]) for p, (_, l, _, _) in zip(ps, self.files)]
        write(os.path.join(d, "compile_commands.json"), json.dumps(db))
        return d, ps

    def instrument(self, opts, subset=None):
        """(proc, dir, paths, Info or None)"""
        d, ps = self.place()
        j = os.path.join(d, "info.json")
        sel = range(len(ps)) if subset is None else subset
        r = common.run([common.dredd_bin()] + list(opts) + ["-p", d, "--mutation-info-file", j] + [ps[i] for i in sel])
        inf = None
        if r.rc == 0 and os.path.exists(j):
            inf = info.Info(read(j).decode("utf-8", "replace"), {p: f[2] for p, f in zip(ps, self.files)})
        return r, d, ps, inf

    def compile(self, d, ps, flags, pch=False, subset=None):
        """[object or error text]"""
        def one(i):
            l = self.files[i][1]
            o = ps[i] + ".o"
            cmd = [common.CLANG if l == "c" else common.CLANGXX] + common.BASE + self.flags(l, d) + list(flags)
            if pch and l == "cxx" and not self.files[i][3]:
                cmd += ["-include-pch", common.pch(flags)]
            r = common.run(cmd + ["-c", ps[i], "-o", o])
            return (o, None) if r.rc == 0 else (None, r.err[-600:])
        return common.pmap(one, range(len(ps)) if subset is None else subset)


def program(seed):
    rng = random.Random(seed)
    n = rng.choice([2, 2, 3, 3, 4, 5])
    mode = rng.choice(["c", "cxx", "cxx", "mix", "mix", "mix"])
    langs = [mode if mode != "mix" else rng.choice(["c", "cxx"]) for _ in range(n)]
    if mode == "mix" and len(set(langs)) == 1:
        langs[rng.randrange(n)] = "c" if langs[0] == "cxx" else "cxx"
    cstd = rng.choice(["-std=gnu11", "-std=gnu11", "-std=c11", "-std=gnu17"])
    shared = header(rng, n, langs)
    files = []
    crossed = rng.randrange(n)
    static = rng.random() < 0.3       # code that runs before main
    for i, lang in enumerate(langs):
        pre, body = "", ""
        if cstd == "-std=c11" and lang == "c" and rng.random() < 0.5:
            pre = FEATURE
            body = "static long long dup%d(int a) { char b[4] = {'a', 'b', (char)('a' + (a & 3)), 0}; char *s = strdup(b); long long r = (long long)strlen(s) + s[2]; free(s); return r; }\n" % i
        inc = '#include "h.h"\n#include "shared.h"\n'
        g = rng.random()
        if g < 0.6 and cstd != "-std=c11":
            t, _ = gen.gen_unit(seed * 17 + i, lang, i, rng.choice([0.2, 0.4, 0.6]))
            t = t.replace("[[&]", "[+[&]")
            st = layout.pick_style(rng) if rng.random() < 0.5 else None
            if st:
                t = layout.relayout(t, rng, lang, st)
            t = t + "\n"
        else:
            ext = 'extern "C" ' if lang == "cxx" else ""
            t = "%slong long u%d_entry(int a, unsigned b, long long c, double d) { long long r = %s; h_emit(r); return r + (a & %d); }\n" % (
                ext, i, "dup%d(a)" % i if body else "(c & 1023) %s %d" % (rng.choice("+-*"), rng.randint(1, 9)), rng.choice([1, 3, 7]))
        o, cr = tail(rng, i, n, lang, static)
        if i == crossed:
            o.append(cr)
        mark = None
        if pre or rng.random() < 0.5:
            m = rng.choice(MARK)
            places = ([pre + inc] if not pre else [pre, pre + inc])
            if rng.random() < 0.4:
                places.append(pre + inc + rng.choice(["struct pre%d { int a[4]; };\n" % i, "typedef long pre%d;\n\n" % i, "// a comment\n", "enum pre%d { PRE%d = 4 };\n" % (i, i), "int pre%d(int);  " % i]))
            if not pre:
                places.append("")
            h = rng.choice(places)
            rest = (pre + inc)[len(h):] if len(h) < len(pre + inc) else ""
            gap = m.find("void") if m.startswith("/*") else 0
            mark = len((h).encode()) + gap
            text = h + m + "\n" + rest + body + t + "\n".join(o) + "\n"
            if rng.random() < 0.3:
                text += m + "\n"       # declared again: the first one counts
        else:
            text = pre + inc + body + t + "\n".join(o) + "\n"
        name = rng.choice(["s/f%d.%s" % (i, common.EXT[lang]), "d%d/same.%s" % (i, common.EXT[lang]), "f%d.%s" % (i, common.EXT[lang])])
        files.append((name, lang, text.encode(), mark))
    p = Program(seed, files, shared, common.make_inputs(rng, 4), cstd)
    p.crossed, p.static = crossed, static
    return p
