"""C11: instrumentation is thread safe and consistent across threads."""
import json, os, random, re, sys
from .. import common, engine, gen, info, batch
from ..common import pmap, write, read
from . import c04

RULE = ("a case is one run of a generated multi-threaded program (one to three instrumented files, 2 to 16 threads started together, staggered, by each other, before main or one after another; "
        "with randomly delayed basic blocks, or under ThreadSanitizer), compared with the same program on one thread; non-trivial: at least two threads executed instrumented code and "
        "either the enabled ids change what the program does, or mutants were recorded; distinct by (program, enabled ids, threads, start pattern, schedule seed)")
EV, TV = "DREDD_ENABLED_MUTATION", "DREDD_MUTANT_TRACKING_FILE"
BUILD = {"sched": common.COV + ["-O1"], "tsan": ["-fsanitize=thread", "-g", "-O1"]}
TSANENV = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_bugs=1:history_size=3"}


# ---------------------------------------------------------------- programs
def expr(R, d=2):
    if d == 0 or R.random() < 0.25:
        return R.choice(["a", "b", "r", "i", "q", str(R.randint(0, 9)), str(R.randint(2, 70)), "(long)c"])
    k = R.random()
    if k < 0.55:
        return "(%s %s %s)" % (expr(R, d - 1), R.choice(["+", "-", "*", "&", "|", "^"]), expr(R, d - 1))
    if k < 0.7:
        return "(%s %s %s)" % (expr(R, d - 1), R.choice(["<", ">", "==", "!=", "<=", "&&", "||"]), expr(R, d - 1))
    if k < 0.8:
        return "%s(%s)" % (R.choice(["-", "~", "!"]), expr(R, d - 1))
    if k < 0.9:
        return "(%s ? %s : %s)" % (expr(R, d - 1), expr(R, d - 1), expr(R, d - 1))
    return "(%s %s %d)" % (expr(R, d - 1), R.choice(["/", "%"]), R.randint(2, 9))


def stmts(R, d, funs):
    out = []
    for _ in range(R.randint(1, 4)):
        k = R.random()
        if k < 0.3:
            out.append("r %s %s;" % (R.choice(["=", "+=", "-=", "^=", "*="]), expr(R)))
        elif k < 0.45:
            out.append("h_emit(%s);" % expr(R))
        elif k < 0.55:
            out.append("q++;" if R.random() < 0.5 else "--q;")
        elif k < 0.7 and d:
            out += ["if (%s) {" % expr(R)] + stmts(R, d - 1, funs) + (["} else {"] + stmts(R, d - 1, funs) if R.random() < 0.4 else []) + ["}"]
        elif k < 0.82 and d:
            out += ["for (i = 0; i < %d; i++) {" % R.randint(1, 4)] + stmts(R, d - 1, funs).__add__([]) + ["}"]
        elif funs:
            out.append("r += %s((int)(%s), %s);" % (R.choice(funs), expr(R, 1), expr(R, 1)))
        else:
            out.append("r = r * 3 + 1;")
    return out


def tgen(R, idx, lang):
    """Functions over locals only: any mutant leaves them free of shared state."""
    T, funs = ['#include "h.h"'], []
    for j in range(R.randint(1, 3)):
        n = "t%d_%d" % (idx, j)
        T += ["static long long %s(int a, long long c) {" % n, "  long long r = c; int i = 0; int q = 1; unsigned b = 7;"] + stmts(R, 2, list(funs)) + ["  return r;", "}"]
        funs.append(n)
    T += ["%slong long u%d_entry(int a, unsigned b, long long c, double d) {" % ('extern "C" ' if lang == "cxx" else "", idx), "  long long r = 1; int i = 0; int q = 2;"]
    T += stmts(R, 2, funs) + ["  h_emit(r + q);", "  return r;", "}"]
    return "\n".join(T) + "\n"


class Program:
    def __init__(self, files, flags, seed, plain):
        self.files, self.flags, self.seed, self.plain = files, flags, seed, plain   # plain: names of files whose mutants may be enabled
        self.exe = {}

    def entries(self):
        return [re.search(rb"u\d+_entry", t).group().decode() for _, _, t in self.files]

    def build(self, flavour, opts=None):
        """opts None: the original. Returns (exe, info or None) or None if it does not build."""
        key = (flavour, None if opts is None else tuple(opts))
        if key in self.exe:
            return self.exe[key]
        d = common.newdir("thr")
        ps = [write(os.path.join(d, n), t) for n, _, t in self.files]
        inf = None
        if opts is not None:
            j = os.path.join(d, "info.json")
            r = common.dredd(ps, "c", opts, info=j, flags=self.flags)
            if r.rc:
                self.exe[key] = None
                return None
            inf = info.Info(read(j).decode("utf-8", "replace"), {p: t for p, (_, _, t) in zip(ps, self.files)})
        objs = []
        for p, (n, l, t) in zip(ps, self.files):
            fl = common.BASE + BUILD[flavour] + ["-I" + common.HDIR, common.STD[l]]
            if l == "cxx" and opts is not None:
                fl += ["-include-pch", common.pch(BUILD[flavour])]
            r = common.run([common.CLANG if l == "c" else common.CLANGXX] + fl + ["-c", p, "-o", p + ".o"], timeout=300)
            if r.rc:
                self.exe[key] = None
                return None
            objs.append(p + ".o")
        exe = os.path.join(d, "exe")
        ls = ["-fsanitize=thread"] if flavour == "tsan" else []
        r = common.link([tdriver(flavour), common.table(d, self.entries())] + objs, exe, True, ls)
        if r.rc:
            raise common.CheckError("link: " + r.err[-800:])
        self.exe[key] = (exe, inf)
        return self.exe[key]


_drv = {}


def tdriver(flavour):
    with common._pchlock:
        if flavour not in _drv:
            d = common.newdir("tdrv")
            o = os.path.join(d, "t.o")
            r = common.run([common.CLANG, "-O1", "-w", "-DTLS_STRTOK", "-DEARLY"] + (["-fsanitize=thread", "-g"] if flavour == "tsan" else []) +
                           ["-c", os.path.join(common.HDIR, "tdriver.c"), "-o", o])
            if r.rc:
                raise common.CheckError("tdriver: " + r.err[-500:])
            _drv[flavour] = o
    return _drv[flavour]


def program(seed):
    R = random.Random(seed)
    mode = R.choice(["c", "cxx", "cxx", "c", "mix"])
    files, plain = [], []
    for j in range(R.choice([1, 1, 2, 3])):
        l = mode if mode != "mix" else R.choice(["c", "cxx"])
        k = R.random()
        if k < 0.6:
            t = tgen(R, j, l)
        elif k < 0.75 or mode == "mix":
            t = c04.chain_text(R, j, R.choice([1, 3, 30, 64, 90]), l)
        else:
            t = batch.HEAD + gen.gen_unit(seed * 3 + j, l, j, 0.5, tls=True)[0]
            t = t.replace("[[&]", "[+[&]")
        n = "f%d.%s" % (j, common.EXT[l])
        if k < 0.75 or mode == "mix":
            plain.append(n)
        if R.random() < 0.3:
            # more mutants, in code that is not executed, before or after the rest
            k = R.choice([70, 300, 700, 1300, 2100, 2600, 4200])
            pad = "static void pn%d_(void) {}\nvoid pad%d_(void) {\n%s}\n" % (j, j, "".join("  pn%d_();\n" % j for _ in range(k)))
            if R.random() < 0.5 and t.startswith("#include"):
                a = t.index("\n") + 1
                t = t[:a] + pad + t[a:]
            else:
                t += pad
        files.append((n, l, t.encode()))
    flags = ["-w", "-I" + common.HDIR, "-fbracket-depth=2048"]
    if mode != "mix":
        flags.append(common.STD[mode])
    return Program(files, flags, seed, plain)


# ---------------------------------------------------------------- running
def inputs_file(p):
    d = common.newdir("tin")
    R = random.Random(p.seed ^ 77)
    return write(os.path.join(d, "in"), "".join("%d %d %d %r\n" % x for x in common.make_inputs(R, 3)))


def execute(exe, env, nt, pattern, seed, inp, reps=2, timeout=60):
    r = common.run([exe, str(nt), str(pattern), str(seed), str(reps), inp], env=dict(TSANENV, **env), timeout=timeout)
    tr = {}
    for l in r.out.splitlines():
        m = re.match(r"T (\d+) (\d+) (\d+) ([0-9a-f]+)$", l)
        if m:
            tr.setdefault(int(m.group(1)), {})[int(m.group(2))] = (int(m.group(3)), m.group(4))
    return r, tr


def race_in(r):
    if "WARNING: ThreadSanitizer: data race" not in r.err:
        return None
    i = r.err.find("WARNING: ThreadSanitizer: data race")
    lines = [re.sub(r"\s+\(\S+\+0x[0-9a-f]+\).*", "", re.sub(r"/tmp/\S*/", "", l.strip())) for l in r.err[i:].splitlines()[:30]]
    return "; ".join(l for l in lines if l.startswith("#"))[:300] or lines[0]


def compare(ref, r, tr, nt):
    if r.timeout:
        return None
    if r.rc not in (0, 66):
        return "the program ends with %d in %d threads, normally on one" % (r.rc, nt)
    for t in range(nt + 1):
        if tr.get(t) != ref[0]:
            u = [u for u in ref[0] if tr.get(t, {}).get(u) != ref[0][u]]
            return "thread %d of %d behaves unlike a single-threaded run (file %s)" % (t, nt, u[:1])
    return None


def regular(p, opts, flavour, lst, nt, pattern, seed, facts=None):
    b = p.build(flavour, opts)
    if not b:
        return None
    exe, inp = b[0], inputs_file(p)
    env = {} if lst is None else {EV: lst}
    r0, ref = execute(exe, env, 0, 0, seed, inp)
    if r0.rc or r0.timeout or 0 not in ref:
        return None
    r, tr = execute(exe, env, nt, pattern, seed, inp)
    if facts is not None:
        if lst is not None:
            _, base = execute(exe, {}, 0, 0, seed, inp)
            facts["effect"] = base != ref
        facts["ran"] = True
    x = race_in(r)
    if x:
        return "data race: " + x
    if r.timeout:
        again = [execute(exe, env, nt, pattern, seed + i, inp, timeout=100)[0].timeout for i in range(2)]
        return "the program does not terminate in %d threads" % nt if all(again) else None
    return compare(ref, r, tr, nt)


def tracked(p, opts, flavour, nt, pattern, seed, facts=None):
    b = p.build(flavour, opts)
    if not b:
        return None
    exe, inp, d = b[0], inputs_file(p), common.newdir("trk")
    f0, f1 = os.path.join(d, "a"), os.path.join(d, "b")
    r0, ref = execute(exe, {TV: f0}, 0, 0, seed, inp)
    if r0.rc or r0.timeout or 0 not in ref:
        return None
    r, tr = execute(exe, {TV: f1}, nt, pattern, seed, inp)
    x = race_in(r)
    if x:
        return "data race in coverage tracking: " + x
    if r.timeout:
        again = [execute(exe, {TV: f1}, nt, pattern, seed + i, inp, timeout=100)[0].timeout for i in range(2)]
        return "the program does not terminate in %d threads" % nt if all(again) else None
    x = compare(ref, r, tr, nt)
    if x:
        return x
    a = read(f0) if os.path.exists(f0) else b""
    t = read(f1) if os.path.exists(f1) else b""
    if facts is not None:
        facts["recorded"] = t.count(b"\n")
        facts["ran"] = True
    ls = t.split(b"\n")
    if ls[-1] != b"":
        return "the tracking file ends in a partial line %r" % ls[-1][:20]
    for l in ls[:-1]:
        if not re.fullmatch(rb"\d+", l):
            return "torn line %r in the tracking file" % l[:30]
    ids = [int(l) for l in ls[:-1]]
    want = sorted(int(l) for l in a.split())
    if len(set(ids)) != len(ids):
        dup = sorted({i for i in ids if ids.count(i) > 1})
        return "mutants recorded more than once by %d threads: %s" % (nt, dup[:6])
    if sorted(ids) != want:
        return "%d threads record mutants %s but a single thread records %s" % (nt, sorted(set(ids) - set(want))[:6] or "without " + str(sorted(set(want) - set(ids))[:6]), len(want))
    return None


def lists(p, R):
    """Lists of ids whose effects are free of undefined behaviour."""
    b = p.build("sched", ())
    if not b:
        return []
    ok, total = [], 0
    for fi in b[1].files:
        data = None
        for (n, _, t) in p.files:
            if fi.filename.endswith("/" + n):
                name, data = n, t
        for i, gs in fi.byid.items():
            total = max(total, i + 1)
            g = gs[0][0]
            if name in p.plain and not (g.kind == "removeStmt" and b"return" in data[g.s:g.e]):
                ok.append(i)
    out = [None, str(total + R.randint(0, 99))]
    R.shuffle(ok)
    for i in ok[:3]:
        out.append(str(i))
    for n in (5, 40, 400):
        if ok:
            x = [str(R.choice(ok)) for _ in range(n)]
            out.append(",".join(x + [str(total + 3)] * R.choice([0, 1])))
    return out


def screen(p):
    """The original must itself be free of races and alike on every thread."""
    inp = inputs_file(p)
    b = p.build("tsan", None)
    if not b:
        return False
    r0, ref = execute(b[0], {}, 0, 0, 1, inp)
    if r0.rc or r0.timeout or 0 not in ref:
        return False
    for pat in (0, 6):
        r, tr = execute(b[0], {}, 4, pat, 1, inp)
        if r.rc or r.timeout or race_in(r) or compare(ref, r, tr, 4):
            return False
    return True


def examine(seed, deep):
    R = random.Random(seed)
    p = program(seed)
    if not screen(p):
        p = Program([("f0.c", "c", tgen(R, 0, "c").encode())], ["-w", "-I" + common.HDIR, common.STD["c"]], seed, ["f0.c"])
        if not screen(p):
            return p, [], None
    out = []
    noopt = ("--no-mutation-opts",) if R.random() < 0.3 else ()
    for lst in lists(p, R):
        for fl, k in (("tsan", 1), ("sched", 2 * deep)):
            for _ in range(k):
                out.append(dict(kind="regular", opts=[], flavour=fl, lst=lst, nt=R.choice([2, 3, 4, 8, 12]), pattern=R.randrange(7), seed=R.randrange(10**6)))
    for fl, k in (("tsan", 3), ("sched", 12 * deep)):
        for _ in range(k):
            out.append(dict(kind="tracked", opts=["--only-track-mutant-coverage", *noopt], flavour=fl, nt=R.choice([2, 4, 8, 16]), pattern=R.choice([0, 0, 0, 1, 4, 2, 3, 5, 6]), seed=R.randrange(10**6)))
    return p, out, None


def once(p, c, facts=None):
    if c["kind"] == "regular":
        return regular(p, tuple(c["opts"]), c["flavour"], c["lst"], c["nt"], c["pattern"], c["seed"], facts)
    return tracked(p, tuple(c["opts"]), c["flavour"], c["nt"], c["pattern"], c["seed"], facts)


def often(p, c, n=12):
    for i in range(n):
        x = once(p, dict(c, seed=c["seed"] + i))
        if x:
            return x
    return None


def reduce(p, c, budget=60):
    import time
    end = time.time() + budget
    # ids are numbered across files: only drop trailing files, then list entries, then threads
    while len(p.files) > 1 and time.time() < end:
        q = Program(p.files[:-1], p.flags, p.seed, p.plain)
        if not often(q, c):
            break
        p = q
    if c.get("lst") and "," in c["lst"]:
        xs = c["lst"].split(",")
        step = len(xs) // 2
        while step and time.time() < end:
            i = 0
            while i < len(xs) and time.time() < end:
                ys = xs[:i] + xs[i + step:]
                if ys and often(p, dict(c, lst=",".join(ys)), 6):
                    xs = ys
                else:
                    i += step
            step //= 2
        c = dict(c, lst=",".join(xs))
    if c["nt"] > 2 and often(p, dict(c, nt=2), 6):
        c = dict(c, nt=2)
    return p, c


def report(rep, p, c, bad):
    p, c = reduce(p, c)
    bad = often(p, c) or bad
    fs = {n: t for n, _, t in p.files}
    fs["case.json"] = engine.case_json(kind="c11", files=[(n, l) for n, l, _ in p.files], flags=p.flags, pseed=p.seed, plain=p.plain, run=c)
    rep.violation("threads: %s (%s)" % (bad, {k: v if k != "lst" else (v or "")[:60] for k, v in c.items()}), fs)


def pred_for(case, lang):
    d = sys.argv[3]
    p = Program([(n, l, read(os.path.join(d, n))) for n, l in case["files"]], case["flags"], case["pseed"], case["plain"])
    return lambda _: often(p, case["run"], 60)


# ---------------------------------------------------------------- listed finding
def strtok_shared(data, lang, opts):
    """Threads that parse the list at the same time disturb each other through the C library's strtok."""
    d = common.newdir("stk")
    p = write(os.path.join(d, "s.c"), data)
    j = os.path.join(d, "i.json")
    if common.dredd([p], "c", opts, info=j).rc:
        return None
    o = os.path.join(d, "t.o")
    if common.run([common.CLANG, "-O1", "-w", "-c", os.path.join(common.HDIR, "tdriver.c"), "-o", o]).rc:
        return None
    if common.compile_obj(p, p + ".o", "c", []).rc:
        return None
    exe = os.path.join(d, "exe")
    if common.link([o, common.table(d, ["u0_entry"]), p + ".o"], exe).rc:
        return None
    n = max(info.Info(read(j).decode(), {p: data}).files[0].byid) + 1
    inp = write(os.path.join(d, "in"), "1 2 3 4.0\n")
    env = {EV: ",".join([str(n + 1)] * 3000 + ["0"])}
    r0, ref = execute(exe, env, 0, 0, 1, inp)
    if r0.rc or 0 not in ref:
        return None
    for k in range(20):
        r, tr = execute(exe, env, 8, 0, k, inp)
        x = compare(ref, r, tr, 8)
        if x:
            return x
    return None


def main():
    rep = common.Report("C11", RULE)
    deep = 1 if common.TIER == "quick" else 3
    for k in engine.rounds(rep):
        ps = pmap(lambda i: examine(engine.rseed(k, 11) * 1031 + i, deep), range(12))
        jobs = [(p, c) for p, cs, _ in ps for c in cs]
        rep.count("programs", sum(bool(cs) for _, cs, _ in ps))
        rep.count("programs set aside (the original is not alike on every thread)", sum(not cs for _, cs, _ in ps))
        for p, cs, _ in ps:      # build once, before the runs share the executables
            pass
        pmap(lambda x: x[0].build(*x[1:]), [(p, f, o) for p, cs, _ in ps if cs for f in BUILD for o in {tuple(c["opts"]) for c in cs}])

        def go(x):
            f = {}
            return x[0], x[1], once(x[0], x[1], f), f
        for p, c, bad, f in pmap(go, jobs):
            nt = f.get("effect") or f.get("recorded")
            rep.case("%d/%s" % (p.seed, sorted((k2, str(v)) for k2, v in c.items())) if nt else None)
            rep.count("%s runs, %s" % (c["kind"], {"tsan": "ThreadSanitizer", "sched": "delayed blocks"}[c["flavour"]]))
            rep.count("runs of start pattern %d" % c["pattern"])
            if nt and not bad:
                rep.sample({"files": [n for n, _, _ in p.files], "run": {a: (b if a != "lst" else str(b)[:40]) for a, b in c.items()}, "mutants recorded": f.get("recorded")}, 6)
            if bad and len(rep.violations) < engine.MAXV:
                report(rep, p, c, bad)
    return rep.finish()
