"""Small functions, their whole input domain, and the set of inputs that kill each mutant."""
import os, random, re
from . import common, info
from .common import run, write, read, pmap, CheckError

TYPES = {"int": ["-2147483648", "-2147483647", "-64", "-9", "-7", "-6", "-4", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "7", "8", "31", "65536", "2147483646", "2147483647"],
         "unsigned": ["0u", "1u", "2u", "3u", "4u", "5u", "7u", "8u", "31u", "32u", "65537u", "2147483647u", "2147483648u", "4294967293u", "4294967294u", "4294967295u"],
         "long": ["-9223372036854775807L-1", "-4294967297L", "-9L", "-5L", "-3L", "-2L", "-1L", "0L", "1L", "2L", "3L", "4L", "6L", "63L", "4294967295L", "4294967296L", "9223372036854775807L"],
         "unsigned long": ["0ul", "1ul", "2ul", "3ul", "4ul", "5ul", "8ul", "63ul", "4294967296ul", "9223372036854775808ul", "18446744073709551614ul", "18446744073709551615ul"],
         "short": ["-32768", "-8", "-5", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "15", "32767"],
         "unsigned char": ["0", "1", "2", "3", "4", "5", "8", "127", "128", "254", "255"],
         "signed char": ["-128", "-5", "-4", "-3", "-2", "-1", "0", "1", "2", "3", "6", "127"],
         "double": ["-2.5", "-2.0", "-1.0", "-0.5", "-0.0", "0.0", "0.5", "1.0", "1.5", "2.0", "7.25", "1e300"],
         "float": ["-2.5f", "-1.0f", "-0.5f", "0.0f", "0.5f", "1.0f", "2.0f", "3.0f", "1e30f"],
         "bool": ["0", "1"]}
CNAME = {"bool": {"c": "_Bool", "cxx": "bool"}}
FL = {"double", "float"}


def tname(t, lang):
    return CNAME.get(t, {}).get(lang, t)


class Fn:
    """One small function over (x, y) of types tx, ty."""
    def __init__(self, tx, ty, tr, body):
        self.tx, self.ty, self.tr, self.body = tx, ty, tr, body


def consts(rng, t):
    if t == "bool":
        return rng.choice(["0", "1"])
    if t in FL:
        return rng.choice(["0.0", "1.0", "-1.0", "2.0", "0.5", "1.5", "-1.5", "-0.5"]) + ("f" if t == "float" else "")
    s = {"unsigned": "u", "long": "L", "unsigned long": "ul"}.get(t, "")
    if t.endswith("long") and rng.random() < .25:
        # 64-bit values whose low halves look like 0, 1 and -1
        return rng.choice(["4294967296", "4294967297", "4294967295", "8589934592", "8589934593"]) + s
    if t == "unsigned" and rng.random() < .15:
        return rng.choice(["4294967295", "2147483648", "65536", "65537", "256", "257"]) + s
    v = rng.choice(["0", "1", "-1", "2", "3", "5"] if not t.startswith("unsigned") else ["0", "1", "2", "3", "5"])
    return v + s


def atom(rng, t, v):
    """An operand of type t: the variable, a constant, or a small expression."""
    r = rng.random()
    if r < .5:
        return v
    if r < .75:
        return consts(rng, t)
    if r < .85:
        return "(%s)" % v
    if t not in ("bool",) and r < .95:
        return "-%s" % v if rng.random() < .5 else "(%s + %s)" % (v, consts(rng, t))
    return v


ARITH = ["+", "-", "*", "/", "%"]
BIT = ["&", "|", "^"]
SH = ["<<", ">>"]
REL = ["<", ">", "<=", ">=", "==", "!="]
LOG = ["&&", "||"]
UN = ["-", "~", "!"]


def make_fn(rng, lang):
    tx = rng.choice(list(TYPES))
    ty = tx if rng.random() < .75 else rng.choice(list(TYPES))
    fl = tx in FL or ty in FL
    kind = rng.choice(["arith", "arith", "rel", "rel", "log", "un", "const", "bit", "shift", "incdec", "assign", "neg"])
    x, y = atom(rng, tx, "x"), atom(rng, ty, "y")
    ops = {"arith": ARITH, "rel": REL, "log": LOG, "bit": BIT, "shift": SH}
    if kind in ops:
        op = rng.choice([o for o in ops[kind] if not (fl and o in ("%", "&", "|", "^", "<<", ">>"))] or ["+"])
        e = "%s %s %s" % (x, op, y)
    elif kind == "un":
        op = rng.choice([o for o in UN if not (tx in FL and o == "~")])
        e = "%s%s" % (op, x if not x.startswith("-") else "x")
    elif kind == "const":
        e = consts(rng, tx)
    elif kind == "incdec":
        e = rng.choice(["x++", "++x", "x--", "--x"]) if tx != "bool" else "x"
    elif kind == "assign":
        op = rng.choice(["=", "+=", "-=", "*=", "/="] + ([] if fl else ["%=", "&=", "|=", "^=", "<<=", ">>="]))
        e = "x %s %s" % (op, y)
    else:
        e = "!(%s %s %s)" % (x, rng.choice(REL + LOG), y)
    ctx = rng.random()
    if ctx < .5:
        body = "return %s;" % e
    elif ctx < .65:
        body = "if (%s) { return 1; } return 0;" % e
    elif ctx < .75:
        body = "return %s ? 3 : 4;" % e
    elif ctx < .85:
        body = "int r = 5; if ((%s) && y) { r = 6; } return r;" % e if not fl else "return (%s) || x;" % e
    elif ctx < .93:
        body = "return ((%s) == x);" % e
    else:
        body = "return (%s) + 1;" % e
    return Fn(tx, ty, rng.choice(["long", "double", "int"]) if rng.random() < .3 else "double" if fl else "long", body)


def source(fns, lang, pfx="f"):
    out = []
    ext = 'extern "C" ' if lang == "cxx" else ""
    for i, f in enumerate(fns):
        out.append("%s%s %s%d(%s x, %s y) {" % (ext, f.tr, pfx, i, tname(f.tx, lang), tname(f.ty, lang)))
        out.append("  " + f.body)
        out.append("}")
    return "\n".join(out) + "\n"


def harness(fns, pfx="f"):
    """Runners over the whole domain; never given to dredd."""
    out = ["#include <stdbool.h>", "void h_emit(long long); void h_emitd(double); void d_test(void (*)(void*), void*);"]
    for i, f in enumerate(fns):
        tx, ty = tname(f.tx, "c"), tname(f.ty, "c")
        out.append("%s %s%d(%s, %s);" % (f.tr, pfx, i, tx, ty))
        out.append("struct a%d { %s x; %s y; };" % (i, tx, ty))
        out.append("static void t%d(void *p) { struct a%d *a = p; h_emitd((double)%s%d(a->x, a->y)); }" % (i, i, pfx, i) if f.tr == "double" else
                   "static void t%d(void *p) { struct a%d *a = p; h_emit((long long)%s%d(a->x, a->y)); }" % (i, i, pfx, i))
        out.append("static void r%d(void) { static const %s X[] = {%s}; static const %s Y[] = {%s};" % (i, tx, ", ".join(TYPES[f.tx]), ty, ", ".join(TYPES[f.ty])))
        out.append(" for (unsigned i = 0; i < sizeof X / sizeof *X; i++) for (unsigned j = 0; j < sizeof Y / sizeof *Y; j++) { struct a%d a = {X[i], Y[j]}; d_test(t%d, &a); } }" % (i, i))
    out.append("typedef void (*runner)(void); runner d_run[] = {%s};" % ", ".join("r%d" % i for i in range(len(fns))))
    return "\n".join(out) + "\n"


def spans(text, n, pfx="f"):
    """Byte range of each function."""
    out = []
    for i in range(n):
        m = re.search(r"\b%s%d\(.*?\n}\n" % (pfx, i), text, re.S)
        out.append((m.start(), m.end()))
    return out


def key(g, a):
    return (g.kind, g.s, g.e, g.op, tuple(sorted(g.parts.items())), a)


class Run:
    """Kill sets of all mutants (no optimisations) of a set of functions, and which of them are kept by default."""
    def __init__(self, fns, lang):
        self.fns, self.lang = fns, lang
        self.text = source(fns, lang)
        d = common.newdir("dom")
        self.ok = False
        infos = []
        for o in ((), ("--no-mutation-opts",)):
            p = write(os.path.join(d, "m%d.%s" % (len(o), common.EXT[lang])), self.text)
            j = os.path.join(d, "i%d.json" % len(o))
            r = common.dredd([p], lang, o, info=j)
            if r.rc:
                return
            fs = info.Info(read(j).decode(), {p: self.text.encode()}).files
            infos.append(fs[0] if fs else None)
        if None in infos:
            return
        self.opt, self.full = infos
        objs = [os.path.join(d, "m.o"), os.path.join(d, "h.o"), os.path.join(d, "d.o")]
        if common.compile_obj(os.path.join(d, "m1." + common.EXT[lang]), objs[0], lang, common.COV, use_pch=True).rc:
            return
        h = write(os.path.join(d, "h.c"), harness(fns))
        for src, o in ((h, objs[1]), (os.path.join(common.HDIR, "dom.c"), objs[2])):
            r = run([common.CLANG, "-w", "-O0", "-c", src, "-o", o])
            if r.rc:
                raise CheckError("dominance harness: " + r.err[-600:])
        exe = os.path.join(d, "x")
        if common.link(objs, exe).rc:
            return
        sp = spans(self.text, len(fns))
        self.where = {}
        for g in self.full.groups:
            for k, (s, e) in enumerate(sp):
                if s <= g.s and g.e <= e:
                    for _, i in g.insts:
                        self.where[i] = k
        jobs = write(os.path.join(d, "j"), "".join("-1 %d\n" % k for k in range(len(fns))) + "".join("%d %d\n" % x for x in self.where.items()))
        r = run([exe, jobs], timeout=300)
        base, self.kills, self.undef = {}, {}, {}
        rows = []
        for l in r.out.splitlines():
            t = l.split(" ")
            i, k = int(t[0]), int(t[1])
            v = t[2].rstrip("!").split(",")[:-1]
            if i < 0:
                base[k] = v
            else:
                rows.append((i, k, v, t[2].endswith("!")))
        self.base = base
        for i, k, v, died in rows:
            b = base[k]
            self.kills[i] = frozenset(n for n in range(len(b)) if n >= len(v) or v[n] != b[n])
            # a trap means undefined behaviour (division by zero): such a test decides nothing
            self.undef[i] = frozenset(n for n in range(len(b)) if n >= len(v) or v[n] == "dead" or b[n] == "dead")
        self.ok = len(rows) == len(self.where)
        self.kept_keys = {}
        for g in self.opt.groups:
            for a, _ in g.insts:
                self.kept_keys[key(g, a)] = self.kept_keys.get(key(g, a), 0) + 1
        common.shutil.rmtree(d, ignore_errors=True)

    def not_subset(self):
        """Kept mutants that are no mutants of the full set."""
        have = {}
        for g in self.full.groups:
            for a, _ in g.insts:
                have[key(g, a)] = have.get(key(g, a), 0) + 1
        return [k for k, n in self.kept_keys.items() if have.get(k, 0) < n]

    def undominated(self):
        """Dropped mutants that are killable but not dominated by a kept one: [(group, action, id)]."""
        kept = {}
        for g in self.full.groups:
            for a, i in g.insts:
                if key(g, a) in self.kept_keys:
                    kept.setdefault(self.where.get(i), []).append(i)
        out = []
        for g in self.full.groups:
            for a, i in g.insts:
                if key(g, a) in self.kept_keys or i not in self.where:
                    continue
                m = self.kills[i]
                if not in_scope(g, a, self):
                    continue
                if m - self.undef[i] and not any(self.kills[q] - self.undef[q] and self.kills[q] - self.undef[q] <= m | self.undef[i] for q in kept.get(self.where[i], ())):
                    out.append((g, a, i))
        return out


ZERO = re.compile(rb"0(\.0*)?[uUlLfF]*")
RELN = {"LT", "GT", "LE", "GE", "EQ", "NE"}
ASN = re.compile("Assign$")


def in_scope(g, a, r):
    """Changes for which redundancy is claimed: operators replaced at arithmetic, bitwise, shift, relational, logical and unary operators
    (operands instead of the operator only where it is not relational), and constants at sites that are mutated by default as well."""
    if g.kind == "replaceBinaryOperator":
        if ASN.search(g.op):
            return True
        if g.op == "Mul" and a in ("ReplaceWithDiv", "ReplaceWithRem") and ZERO.fullmatch(r.text.encode()[g.parts["lhs"][0]:g.parts["lhs"][1]]):
            return False          # 0 * y and 0 / y differ only where y is 0
        return not (g.op in RELN and a in ("ReplaceWithLHS", "ReplaceWithRHS"))
    t = r.text.encode()
    if g.kind == "replaceUnaryOperator":
        return CONST.fullmatch(t[g.parts["operand"][0]:g.parts["operand"][1]]) is None
    if g.kind == "replaceExpr":
        # a constant whose nodes (itself and its conversions) are all mutated by default as well
        def cnt(fi):
            return sum(1 for h in fi.groups if h.kind == g.kind and (h.s, h.e) == (g.s, g.e))
        return CONST.fullmatch(t[g.s:g.e]) is not None and cnt(r.full) == cnt(r.opt)
    return False


CONST = re.compile(rb"[-+]?[0-9.]+[uUlLfF]*")
TYPE_OF = {"ReplaceWithTrue": "b", "ReplaceWithFalse": "b", "ReplaceWithZeroInt": "i", "ReplaceWithOneInt": "i", "ReplaceWithMinusOneInt": "i",
           "ReplaceWithZeroFloat": "f", "ReplaceWithOneFloat": "f", "ReplaceWithMinusOneFloat": "f"}
