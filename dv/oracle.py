"""Judging one source: is its behaviour well defined, and does an instrumented copy keep it."""
import os
from . import common, batch
from .common import run, write, CheckError

SAN = ["-fsanitize=address,undefined,local-bounds", "-fno-sanitize=unsigned-integer-overflow,signed-integer-overflow,shift-base",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g0", "-DH_REF"]


def build_run(src, lang, entry, inputs, flags, env=None, linkflags=(), use_pch=False, dump=False, fuel=None):
    """Compiles one source file holding one unit and runs it; returns (Result or None, compiler output)."""
    d = common.newdir("o")
    o = os.path.join(d, "o.o")
    r = common.compile_obj(src, o, lang, flags, use_pch=use_pch)
    if r.rc:
        return None, r.err
    x = batch.link_units([o], [entry], linkflags)
    res = common.run_jobs(x, {0: inputs}, [(0, 0, env or {})], timeout=60, dump=dump, fuel=fuel)
    if 0 not in res:
        raise CheckError("no result from driver")
    return res[0], ""


def gcc_run(src, lang, entry, inputs):
    d = common.newdir("g")
    o = os.path.join(d, "o.o")
    cc = "gcc" if lang == "c" else "g++"
    r = run([cc, common.STD[lang], "-I" + common.HDIR, "-w", "-O1", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing",
             "-ftrivial-auto-var-init=zero", "-fsanitize-coverage=trace-pc", "-fpermissive", "-c", src, "-o", o] if lang == "cxx" else
            [cc, common.STD[lang], "-I" + common.HDIR, "-w", "-O1", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing",
             "-ftrivial-auto-var-init=zero", "-fsanitize-coverage=trace-pc", "-c", src, "-o", o])
    if r.rc:
        return None
    try:
        x = batch.link_units([o], [entry])
    except CheckError:
        return None
    return common.run_jobs(x, {0: inputs}, [(0, 0, {})], timeout=60).get(0)


def trusted(data, lang, entry, inputs):
    """Reference Result if the original has one well-defined behaviour (sanitizers, -O2 and gcc agree), else None."""
    d = common.newdir("t")
    p = write(os.path.join(d, "t." + common.EXT[lang]), data)
    ref, _ = build_run(p, lang, entry, inputs, common.COV + common.UB)
    if ref is None or batch.comparable(ref) == 0:
        return None
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1"}
    san, err = build_run(p, lang, entry, inputs, common.COV + SAN, env=env, linkflags=["-fsanitize=address,undefined"])
    if san is None or batch.differs(ref, san):
        return None
    o2, _ = build_run(p, lang, entry, inputs, common.COV + ["-O2"])
    if o2 is None or batch.differs(ref, o2):
        return None
    g = gcc_run(p, lang, entry, inputs)
    if g is not None and batch.differs(ref, g):
        return None
    return ref


def compiles(data, lang, flags=()):
    d = common.newdir("c")
    p = write(os.path.join(d, "c." + common.EXT[lang]), data)
    return common.compile_obj(p, os.path.join(d, "c.o"), lang, list(flags)).rc == 0


def instrument_data(data, lang, opts, dialect=()):
    u = batch.Unit(0, lang, data, None, None, 0)
    return batch.instrument(u, opts, batch.dialect_flags(lang, dialect))


def behaviour_failure(data, lang, entry, inputs, opts, env=None, flags=None):
    """C01 on one source: a description if the instrumented copy behaves differently, else None. Does not judge compile failures."""
    d = common.newdir("b")
    p = write(os.path.join(d, "b." + common.EXT[lang]), data)
    ref, _ = build_run(p, lang, entry, inputs, common.COV + common.UB)
    if ref is None or batch.comparable(ref) == 0:
        return None
    i = instrument_data(data, lang, opts)
    if not i.ok():
        return None
    got, _ = build_run(i.path, lang, entry, inputs, common.COV if flags is None else flags, env=env, use_pch=True, fuel=batch.BIGFUEL)
    if got is None:
        return None
    return batch.differs(ref, got, batch.BIGFUEL)


def validity_failure(data, lang, opts, dialect=()):
    """C02 on one source: a description if dredd fails on it or its output does not compile, else None (also if the source is not valid)."""
    dialect = list(dialect)
    if not compiles(data, lang, dialect):
        return None
    i = instrument_data(data, lang, opts, dialect)
    if not i.ok():
        return "dredd exited with %s%s: %s" % (i.proc.rc, " (timeout)" if i.proc.timeout else "", batch.strip_noise((i.proc.err + i.proc.out)[-400:]))
    d = common.newdir("v")
    r = common.compile_obj(i.path, os.path.join(d, "v.o"), lang, dialect, use_pch=not dialect)
    if r.rc:
        es = [l for l in r.err.splitlines() if "error:" in l][:2]
        return "instrumented code does not compile: " + batch.strip_noise(" | ".join(x[-300:] for x in es))
    return None
