"""C12: compile-time constants keep their values, whatever mutant is enabled."""
import os, random, re
from .. import common, batch, engine, constgen, info
from ..common import pmap, run_jobs, read

RULE = ("a case is one run of an instrumented program under one configuration (no mutant, one mutant, several mutants, tracking mode); the compile-time values it reports from constant contexts "
        "(bounds, sizes, template arguments, labels, widths, ...) are compared with those of the original; non-trivial: the run reported at least five such values; distinct by (program, options, enabled ids)")
EV, TV = "DREDD_ENABLED_MUTATION", "DREDD_MUTANT_TRACKING_FILE"
REG = [(), ("--no-mutation-opts",)]
TRACK = ("--only-track-mutant-coverage",)
SEL = re.compile(rb"static int (u\d+_sel\d+)\(int x\) \{.*?\n\}", re.S)
INPUTS = [(3, 5, 7, 1.5), (-4, 9, 100, 0.5)]


def sel_ranges(data):
    """{tag: (start, end)} of functions whose table of results is reported."""
    out = {}
    for m in SEL.finditer(data):
        t = re.search(rb"H_SEL\((\d+), %s," % m.group(1), data)
        if t:
            out[int(t.group(1))] = (m.start(), m.end())
    return out


def values(obs):
    m = {}
    for t, v in obs:
        m.setdefault(t, set()).add(v)
    return m


def judge(ref, got, skip=()):
    """ref: tag -> values of the original."""
    for t, v in got.obs:
        if t not in skip and t in ref and v not in ref[t]:
            return "constant with tag %d has the value %d instead of %s" % (t, v, sorted(ref[t])[:3] if len(ref[t]) < 4 else "any of its %d values" % len(ref[t]))
    return None


def build(u, opts):
    i = batch.instrument(u, opts)
    if not i.ok():
        return i, "dredd exited with %s: %s" % (i.proc.rc, batch.strip_noise((i.proc.err + i.proc.out)[-300:]))
    r = common.compile_obj(i.path, i.path + ".o", u.lang, common.COV, use_pch=True)
    if r.rc:
        es = [l for l in r.err.splitlines() if "error:" in l][:1]
        return i, "instrumented code does not compile: " + batch.strip_noise(" | ".join(x[-200:] for x in es))
    return i, None


def configurations(R, i, opts, limit):
    """[(enabled ids or None)]"""
    if opts == TRACK:
        return [None]
    ids = sorted(i.fileinfo().byid) if i.fileinfo() else []
    if len(ids) > limit:
        one = R.sample(ids, limit)
    else:
        one = ids
    out = [None, ()] + [(x,) for x in one]
    for _ in range(min(10, len(ids))):
        out.append(tuple(R.sample(ids, min(len(ids), R.randint(2, 30)))))
    if ids:
        out.append(tuple(ids))
    return out


def skips(i, sel, ids):
    if not ids:
        return set()
    fi = i.fileinfo()
    s = set()
    for x in ids:
        for g, _ in fi.byid.get(x, []):
            for t, (a, b) in sel.items():
                if g.s is None or a <= g.s < b:
                    s.add(t)
    return s


def envof(c, opts, d):
    if opts == TRACK:
        return {TV: os.path.join(d, "t")}
    return {} if c is None else {EV: ",".join(map(str, c))}


def evaluate(data, lang, idx, opts, confs=None, limit=150, seed=0):
    """Full evaluation of one source; description or None."""
    u = batch.Unit(idx, lang, data, None, INPUTS, 0)
    try:
        d = common.newdir("e")
        o = os.path.join(d, "r.o")
        if batch.compile_ref(u, o, flags=common.COV).rc:
            return None
        ref = run_jobs(batch.link_units([o], [u.entry]), {0: INPUTS}, [(0, 0, {})])[0]
        if not ref.ok():
            return None
        i, bad = build(u, opts)
        if bad:
            return bad
        sel = sel_ranges(data)
        x = batch.link_units([i.path + ".o"], [u.entry])
        cs = confs if confs is not None else configurations(random.Random(seed), i, opts, limit)
        got = run_jobs(x, {0: INPUTS}, [(k, 0, envof(c, opts, d)) for k, c in enumerate(cs)])
        rv = values(ref.obs)
        for k, c in enumerate(cs):
            if k not in got:
                continue
            b = judge(rv, got[k], skips(i, sel, c))
            if not b and not c and set(ref.obs) != set(got[k].obs):
                b = "with no mutant enabled, constants are reported differently: %s" % sorted(set(ref.obs) ^ set(got[k].obs))[:3]
            if b:
                return b + ("" if not c else " (%d mutants enabled)" % len(c) if len(c) > 1 else " (a mutant enabled)")
        return None
    finally:
        u.free()


def pred_for(case, lang):
    return lambda data: evaluate(data, lang, case["idx"], tuple(case["opts"]))


def main():
    rep = common.Report("C12", RULE)
    common.dredd_bin()
    common.pch()
    per = 32 if common.TIER == "quick" else 64
    limit = 40 if common.TIER == "quick" else 200
    for k in engine.rounds(rep):
        seed = engine.rseed(k, 12)

        def mk(j):
            lang = "c" if j % 3 == 0 else "cxx"
            t, used, _ = constgen.gen(seed * 1000 + j, lang, j)
            return batch.Unit(j, lang, t, used, INPUTS, seed * 1000 + j)
        us = [mk(j) for j in range(per)]

        def ref(u):
            d = common.newdir("r")
            o = os.path.join(d, "r.o")
            return o if not batch.compile_ref(u, o, flags=common.COV).rc else None
        ro = pmap(ref, us)
        rep.count("rejected_programs", sum(o is None for o in ro))
        us = [(u, o) for u, o in zip(us, ro) if o]
        if not us:
            continue
        rx = batch.link_units([o for _, o in us], [u.entry for u, _ in us])
        rres = run_jobs(rx, {q: INPUTS for q in range(len(us))}, [(q, q, {}) for q in range(len(us))])
        for opts in REG + [TRACK]:
            ins = pmap(lambda x: build(x[0], opts), us)
            good, fails = [], []
            for q, ((u, _), (i, bad)) in enumerate(zip(us, ins)):
                if bad:
                    fails.append((q, bad))
                elif rres.get(q) and rres[q].ok():
                    good.append(q)
            if good:
                x = batch.link_units([ins[q][0].path + ".o" for q in good], [us[q][0].entry for q in good])
                jobs, meta = [], {}
                d = common.newdir("t")
                for p, q in enumerate(good):
                    R = random.Random(seed + q)
                    sel = sel_ranges(us[q][0].data())
                    for n, c in enumerate(configurations(R, ins[q][0], opts, limit)):
                        j = len(jobs)
                        e = envof(c, opts, d)
                        if opts == TRACK:
                            e = {TV: os.path.join(d, "t%d" % p)}
                        jobs.append((j, p, e))
                        meta[j] = (q, c, sel)
                got = run_jobs(x, {p: INPUTS for p in range(len(good))}, jobs)
                for j, (q, c, sel) in meta.items():
                    g = got.get(j)
                    if g is None:
                        rep.count("no_result")
                        continue
                    rv = values(rres[q].obs)
                    u = us[q][0]
                    rep.count("runs")
                    rep.count("runs:%s" % ("tracking" if opts == TRACK else "none" if not c else "one" if len(c) == 1 else "several"))
                    rep.case((u.seed, opts, c) if len(g.obs) >= 5 else None)
                    rep.count("values_compared", len(g.obs))
                    b = judge(rv, g, skips(ins[q][0], sel, c))
                    if not b and not c and set(rres[q].obs) != set(g.obs):
                        b = "with no mutant enabled, constants are reported differently"
                    if b:
                        fails.append((q, b))
            seen = set()
            for q, b in fails:
                u = us[q][0]
                if q in seen or len(rep.violations) >= engine.MAXV:
                    continue
                seen.add(q)
                engine.report_source(rep, "compile-time constant changed (options %s)" % (" ".join(opts) or "none"), u.data(), u.lang,
                                     lambda data, u=u: evaluate(data, u.lang, u.idx, opts, limit=300, seed=seed + q), "c12", dict(opts=list(opts), idx=u.idx))
            if k == 0:
                rep.sample("%s options, %d programs, e.g. reported constants %s" % (" ".join(opts) or "no", len(good), rres[good[0]].obs[:8] if good else []))
        for u, _ in us:
            for f in u.used:
                rep.count("context:" + f)
            u.free()
    return rep.finish()

