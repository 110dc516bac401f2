"""Generated sets of source files for one dredd invocation."""
import os, random, re
from . import common, batch, corpus, info
from .common import write, read, pmap
from .checks import c04

EMPTY = ["", "int {p}x;\n", "struct {p}s {{ int a; }};\n", "/* nothing */\n", "static const int {p}k = 3 + 4;\n", "#define {p}M(x) ((x) + 1)\n",
         "int {p}f(void);\n", "void {p}e(void) {{}}\n"]


class Inv:
    """One invocation: files [(name, lang, bytes)] and the flags that fit all of them."""
    def __init__(self, files, flags, units, seed):
        self.files, self.flags, self.units, self.seed = files, flags, units, seed

    def place(self, d=None):
        d = d or common.newdir("inv")
        return d, [write(os.path.join(d, n), t) for n, _, t in self.files]

    def run(self, opts=(), order=None, info=True, subset=None, d=None):
        """Instruments a fresh copy; returns (proc, {name: bytes}, info text, paths)."""
        d, ps = self.place(d)
        idx = list(range(len(ps))) if subset is None else list(subset)
        if order is not None:
            idx = [idx[i] for i in order]
        j = os.path.join(d, "info.json")
        r = common.dredd([ps[i] for i in idx], "c", opts, info=j if info else None, flags=self.flags, cwd=d)
        out = {os.path.basename(p): read(p) for p in ps}
        t = read(j).decode("utf-8", "replace") if info and os.path.exists(j) else ""
        return r, out, t, ps


def invocation(rng, seed, nmin=1, nmax=5, size=0.6):
    mode = rng.choice(["c", "c", "cxx", "cxx", "mix"])
    n = rng.randint(nmin, nmax)
    files, units = [], []
    for j in range(n):
        lang = mode if mode != "mix" else rng.choice(["c", "cxx"])
        k = rng.random()
        if k < 0.12:
            t = rng.choice(EMPTY).format(p="e%d_" % j)
        elif k < 0.3 or mode == "mix":
            t = c04.chain_text(rng, j, rng.choice([1, 2, 5, 20, 63, 64, 65]), lang)
        elif k < 0.45:
            us = [u for u in corpus.units(seed * 31 + j, 6) if u.lang == lang]
            t = us[0].text if us else rng.choice(EMPTY).format(p="e%d_" % j)
        else:
            t = batch.make_units(seed * 31 + j, 1, langs=(lang,), base=j, size=size)[0].text
        files.append(("f%d.%s" % (j, common.EXT[lang]), lang, t if isinstance(t, bytes) else t.encode()))
    flags = ["-w", "-I" + common.HDIR, "-fbracket-depth=2048"]
    if mode != "mix":
        flags.append(common.STD[mode])
    return Inv(files, flags, units, seed)


def drop_files(inv, pred, budget=40):
    """Shrinks the set of files of a failing invocation."""
    import time
    end = time.time() + budget
    changed = True
    while changed and len(inv.files) > 1 and time.time() < end:
        changed = False
        for i in range(len(inv.files)):
            c = Inv(inv.files[:i] + inv.files[i + 1:], inv.flags, None, inv.seed)
            if pred(c):
                inv, changed = c, True
                break
    # then each file's lines
    from . import shrink
    for i in range(len(inv.files)):
        left = end - time.time()
        if left < 3:
            break
        n, l, t = inv.files[i]

        def p(data):
            fs = list(inv.files)
            fs[i] = (n, l, data)
            c = Inv(fs, inv.flags, None, inv.seed)
            for (nn, ll, tt) in fs:
                if common.run([common.CLANG if ll == "c" else common.CLANGXX, "-fsyntax-only", "-x", "c" if ll == "c" else "c++"] + inv.flags + ["-"], inp=tt).rc:
                    return None
            return pred(c)
        t2 = shrink.shrink(t, p, l, left / (len(inv.files) - i))
        fs = list(inv.files)
        fs[i] = (n, l, t2)
        inv = Inv(fs, inv.flags, None, inv.seed)
    return inv


def report(rep, what, inv, pred, kind, case):
    first = pred(inv)
    if not first:
        rep.count("unconfirmed")
        return
    small = drop_files(inv, pred, 40 if common.TIER == "quick" else 100)
    d = pred(small) or first
    fs = {n: t for n, _, t in small.files}
    from . import engine
    fs["case.json"] = engine.case_json(kind=kind, files=[(n, l) for n, l, _ in small.files], flags=small.flags, **case)
    rep.violation("%s: %s" % (what, d), fs)


def from_case(case):
    import sys
    d = sys.argv[3]
    return Inv([(n, l, read(os.path.join(d, n))) for n, l in case["files"]], case["flags"], None, 0)
