"""Batches of generated units: instrumenting, compiling, linking and running them."""
import os, random, re, shutil, threading
from . import common, gen, info, cast, layout
from .common import CheckError, pmap, run, write, read


class Unit:
    def __init__(self, idx, lang, text, used, inputs, seed):
        self.idx, self.lang, self.text, self.used, self.inputs, self.seed = idx, lang, text, used, inputs, seed
        self.pfx = "u%d_" % idx
        self.entry = self.pfx + "entry"
        self._ast = None
        self.d = None
        self.lock = threading.Lock()

    def data(self):
        return self.text if isinstance(self.text, bytes) else self.text.encode()

    def src(self):
        if self.d is None:
            self.d = common.newdir("u")
            write(os.path.join(self.d, "o." + common.EXT[self.lang]), self.data())
        return os.path.join(self.d, "o." + common.EXT[self.lang])

    def ast(self):
        with self.lock:
            if self._ast is None:
                self._ast = cast.Ast(self.src(), self.lang)
        return self._ast

    def free(self):
        self._ast = None
        if self.d:
            shutil.rmtree(self.d, ignore_errors=True)
            self.d = None


HEAD = '#include "h.h"\n'


def make_units(seed, n, langs=("c", "cxx"), base=0, size=1.0, ninputs=6, maker=None, bom=False):
    us = []
    for i in range(n):
        lang = langs[i % len(langs)]
        s = seed * 1000003 + i
        rng = random.Random(s ^ 0x5bd1e995)
        if maker:
            t, used = maker(s, lang, base + i)
        else:
            t, used = gen.gen_unit(s, lang, base + i, size * rng.choice([0.5, 1.0, 1.0, 1.6]))
            t = (HEAD + t).replace("[[&]", "[+[&]")
            if rng.random() < .4:
                m = layout.macroize(t, rng, rng.choice([1, 2, 4, 8]))
                if m != t:
                    t, used = m, set(used) | {"layout:macros"}
            st = layout.pick_style(rng)
            if st:
                t = layout.relayout(t, rng, lang, st)
                used = set(used) | {"layout:" + x for x in st}
            if bom and rng.random() < .06:
                t, used = "\ufeff" + t, set(used) | {"layout:bom"}
        us.append(Unit(base + i, lang, t, used, common.make_inputs(rng, ninputs), s))
    return us


class Instr:
    """One instrumented copy of a unit."""
    def __init__(self, unit, opts, path, proc, infotext, out):
        self.unit, self.opts, self.path, self.proc, self.infotext, self.out = unit, opts, path, proc, infotext, out
        self._info = None

    def ok(self):
        return self.proc.rc == 0 and not self.proc.timeout

    def info(self):
        if self._info is None:
            self._info = info.Info(self.infotext, {self.path: self.unit.data()})
        return self._info

    def fileinfo(self):
        i = self.info()
        return i.files[0] if i.files else None


DIALECTS = {"c": ["-std=gnu89", "-std=gnu99", "-std=c99", "-std=c11", "-std=gnu17", "-std=c2x", "-std=gnu2x", "-std=gnu11 -fno-builtin -ffreestanding",
                  "-std=gnu11 -pedantic-errors", "-std=gnu11 -fms-extensions", "-std=gnu11 -funsigned-char", "-std=gnu11 -fopenmp", "-std=gnu11"],
            "cxx": ["-std=c++11", "-std=c++14", "-std=c++17", "-std=gnu++17", "-std=gnu++20", "-std=c++2b", "-std=c++20 -fno-exceptions -fno-rtti",
                    "-std=c++20 -fno-rtti", "-std=c++20 -pedantic-errors", "-std=c++20 -fms-extensions", "-std=c++20 -funsigned-char", "-std=c++20"]}


def dialect_flags(lang, dialect):
    return common.std_flags(lang) + ["-w", "-fbracket-depth=2048"] + list(dialect) if dialect else None


def instrument(u, opts=(), flags=None):
    d = common.newdir("i")
    p = os.path.join(d, "m." + common.EXT[u.lang])
    write(p, u.data())
    j = os.path.join(d, "info.json")
    r = common.dredd([p], u.lang, opts, info=j, flags=flags)
    t = read(j).decode("utf-8", "replace") if os.path.exists(j) else ""
    return Instr(u, tuple(opts), p, r, t, read(p))


def compile_ref(u, obj, flags=None, text=None):
    src = u.src()
    if text is not None:
        d = common.newdir("r")
        src = write(os.path.join(d, "r." + common.EXT[u.lang]), text)
    return common.compile_obj(src, obj, u.lang, (common.COV + common.UB) if flags is None else flags)


def link_units(objs, entries, flags=()):
    d = common.newdir("x")
    exe = os.path.join(d, "exe")
    tab = common.table(d, entries)
    r = common.link([common.driver_obj(), tab] + objs, exe, True, flags)
    if r.rc:
        raise CheckError("link: " + r.err[-1500:])
    return exe


def comparable(ref):
    """Number of leading inputs the reference completed."""
    n = 0
    for x in ref.ins:
        if x[0] != 1:
            break
        n += 1
    return n


BIGFUEL = 400000000


def differs(ref, got, fuel_total=3000000):
    """None if got agrees with ref on every input ref completed, else a description."""
    n = comparable(ref)
    if got.sig == 26:
        return None           # ran out of processor time
    for i in range(n):
        if i >= len(got.ins):
            return "input %d: no result" % i
        a, b = ref.ins[i], got.ins[i]
        if b[0] == 3 and ref.fuel[i] * 300 > fuel_total:
            return None       # ran out of the step budget; the reference is itself long
        if a != b:
            return "input %d: expected status/count/hash %s, got %s (signal %d)" % (i, a, b, got.sig)
    return None


def strip_noise(s):
    return re.sub(r"/tmp/dv-[^/]*/", "", s)
