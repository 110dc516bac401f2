"""C01: with no mutant enabled the instrumented program behaves as the original."""
import os, random
from .. import common, batch, oracle, engine
from ..common import pmap, run_jobs

RULE = ("a case is one execution of an instrumented random program (C or C++, all generator features, random layout) under one setting that enables "
        "no mutant, compared with the original on up to 6 inputs; non-trivial: the original completed at least one input, emitted at least 3 "
        "observations and dredd placed at least one mutant in it; distinct by (program, options, setting)")

MODES = [("O0", common.COV, ()), ("O0", common.COV, ()), ("O2", common.COV + ["-O2"], ()),
         ("asan", common.COV + ["-fsanitize=address", "-fsanitize-address-use-after-return=always"], ("-fsanitize=address",))]
OPTS = [(), ("--no-mutation-opts",)]


def envs(rng, n):
    return [("unset", {}), ("empty", {"DREDD_ENABLED_MUTATION": ""}),
            ("foreign", {"DREDD_ENABLED_MUTATION": ",".join(str(n + rng.choice([0, 1, 7, 63, 64, 1000, 10**6])) for _ in range(rng.randint(1, 4)))})]


def linkflags(mode):
    return next(m[2] for m in MODES if m[0] == mode)


def pred_for(case, lang):
    mode = next(m for m in MODES if m[0] == case["mode"])

    def pred(t):
        return failure(t, lang, case["entry"], [tuple(x) for x in case["inputs"]], case["opts"], case["env"], mode)
    return pred


def failure(data, lang, entry, inputs, opts, env, mode):
    d = common.newdir("b")
    p = common.write(os.path.join(d, "b." + common.EXT[lang]), data)
    ref, _ = oracle.build_run(p, lang, entry, inputs, common.COV + common.UB + ["-Werror=return-type"])
    if ref is None or batch.comparable(ref) == 0:
        return None
    i = oracle.instrument_data(data, lang, opts)
    if not i.ok():
        return None
    e = dict(env)
    if mode[0] == "asan":
        e["ASAN_OPTIONS"] = ASAN
    got, _ = oracle.build_run(i.path, lang, entry, inputs, mode[1], env=e, linkflags=mode[2], use_pch=mode[0] == "O0")
    if got is None:
        return None
    r = batch.differs(ref, got)
    if r and mode[0] == "asan":
        # what the original does under the same instrumentation is not dredd's doing
        o, _ = oracle.build_run(p, lang, entry, inputs, mode[1], env=e, linkflags=mode[2])
        if o is None or batch.differs(ref, o):
            return None
    return r


ASAN = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:handle_segv=0"


def main():
    rep = common.Report("C01", RULE)
    n = 112 if common.TIER == "quick" else 160
    for k in engine.rounds(rep):
        rng = random.Random(engine.rseed(k, 1))
        mode = MODES[k % len(MODES)]
        if mode[0] != "O0":
            nn = n // 2
        else:
            nn = n
        us = batch.make_units(engine.rseed(k, 1), nn, bom=True)

        def prep(u):
            opts = OPTS[(u.seed >> 3) & 1]
            i = batch.instrument(u, opts)
            if not i.ok():
                return None
            o, ro = i.path + ".o", i.path + ".ref.o"
            r = common.compile_obj(i.path, o, u.lang, mode[1], use_pch=mode[0] == "O0")
            if r.rc or batch.compile_ref(u, ro).rc:
                return None
            fi = i.fileinfo()
            return u, i, o, ro, (max(fi.byid) + 1 if fi and fi.byid else 0)
        ps = [x for x in pmap(prep, us)]
        rep.count("programs_not_instrumentable", sum(x is None for x in ps))
        ps = [x for x in ps if x]
        if not ps:
            continue
        ents = [x[0].entry for x in ps]
        ex = batch.link_units([x[2] for x in ps], ents, mode[2])
        rx = batch.link_units([x[3] for x in ps], ents)
        ins = {j: x[0].inputs for j, x in enumerate(ps)}
        ref = run_jobs(rx, ins, [(j, j, {}) for j in range(len(ps))])
        jobs, what = [], {}
        for j, x in enumerate(ps):
            for name, e in envs(rng, x[4]):
                if mode[0] == "asan":
                    if name == "empty":
                        continue
                    e = dict(e, ASAN_OPTIONS=ASAN)
                what[len(jobs)] = (j, name, e)
                jobs.append((len(jobs), j, e))
        got = run_jobs(ex, ins, jobs)
        done = set()
        for jid, (j, name, e) in what.items():
            u, i, _, _, nm = ps[j]
            if jid not in got or j not in ref:
                raise common.CheckError("missing result")
            nt = batch.comparable(ref[j]) > 0 and ref[j].ins[0][1] >= 3 and nm > 0
            rep.case("%d/%s/%s/%s" % (u.seed, i.opts, name, mode[0]) if nt else None)
            rep.count("inputs_compared", batch.comparable(ref[j]))
            dif = batch.differs(ref[j], got[jid])
            if nt:
                rep.sample({"program_seed": u.seed, "lang": u.lang, "options": list(i.opts), "setting": name, "compiled": mode[0], "mutants": nm,
                            "features": engine.features(u)[:12], "first_input": u.inputs[0], "observations": ref[j].ins[0][1], "excerpt": u.data()[-400:].decode("utf-8", "replace")})
            if dif and j not in done and len(rep.violations) < engine.MAXV:
                done.add(j)
                if oracle.trusted(u.data(), u.lang, u.entry, u.inputs) is None:
                    rep.count("original_not_well_defined")
                    continue
                e = {a: b for a, b in e.items() if a.startswith("DREDD")}
                case = dict(entry=u.entry, inputs=u.inputs, opts=list(i.opts), env=e, mode=mode[0])
                engine.report_source(rep, "behaviour changed with no mutant enabled (%s, %s)" % (name, mode[0]), u.data(), u.lang, pred_for(case, u.lang), "c01", case)
        rep.count("programs", len(ps))
        for x in ps:
            x[0].free()
    return rep.finish()
