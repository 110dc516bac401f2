"""C02: every valid input is instrumented without failure and the result compiles."""
import glob, os, random
from .. import common, batch, oracle, engine, layout
from ..common import pmap

RULE = ("a case is one source file that compiles on its own, given to dredd in one mode, and the compilation of what dredd wrote; sources are generated "
        "programs and syntactic recombinations of the repository's sample inputs, in random layouts, a quarter of them under another language standard or dialect flag; non-trivial: dredd placed at least one mutant; "
        "distinct by (source, mode)")
MODES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--only-track-mutant-coverage", "--no-mutation-opts"),
         ("--show-ast-node-types",), ("--show-ast-node-types", "--no-mutation-opts", "--only-track-mutant-coverage")]


def pred_for(case, lang):
    return lambda t: oracle.validity_failure(t, lang, case["opts"], case.get("dialect", ()))


def one(u, opts, dialect=()):
    """The language standard and the like vary with the dialect; without one, a precompiled header speeds the compilation up."""
    i = batch.instrument(u, opts, batch.dialect_flags(u.lang, dialect))
    if not i.ok():
        return i, "dredd"
    r = common.compile_obj(i.path, i.path + ".o", u.lang, ["-fsyntax-only"] + list(dialect), use_pch=not dialect)
    return i, ("compile" if r.rc else None)


def main():
    rep = common.Report("C02", RULE)
    n = 200
    for k in engine.rounds(rep):
        us = batch.make_units(engine.rseed(k, 2), n, bom=True) + corpus_units(engine.rseed(k, 2), 60)

        def go(u):
            m = MODES[(u.seed // 7) % len(MODES)] if (u.seed % 3) else MODES[(u.seed // 7) % 2]
            R = random.Random(u.seed * 31 + 5)
            di = R.choice(batch.DIALECTS[u.lang]).split() if R.random() < 0.25 else []
            i, bad = one(u, m, di)
            nm = 0
            if not bad:
                nm = i.infotext.count('"mutationId"') + i.infotext.count('"removeStmt"')
            return u, m, di, i, bad, nm
        for u, m, di, i, bad, nm in pmap(go, us):
            rep.case("%s/%s" % (u.seed, m) if nm and not bad else None)
            rep.count("mode " + (" ".join(m) or "default"))
            if di:
                rep.count("dialect_varied")
            if nm and not bad:
                rep.sample({"program_seed": u.seed, "lang": u.lang, "mode": list(m), "dialect": di, "used": sorted(map(str, u.used))[:14], "excerpt": u.data()[-300:].decode("utf-8", "replace")})
            if bad and len(rep.violations) < engine.MAXV:
                if not oracle.compiles(u.data(), u.lang, di):
                    rep.count("source_not_valid")
                    continue
                engine.report_source(rep, "valid input not instrumented correctly (%s)" % (" ".join(list(m) + di) or "default options"), u.data(), u.lang,
                                     pred_for(dict(opts=list(m), dialect=di), u.lang), "c02", dict(opts=list(m), dialect=di))
        for u in us:
            u.free()
    return rep.finish()


_corpus = None


def corpus_units(seed, n):
    from .. import corpus
    return corpus.units(seed, n)
