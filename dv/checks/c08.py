"""C08: mutation optimisations only drop redundant mutants."""
import random
from .. import common, batch, engine, dominance, corpus
from ..common import pmap

RULE = ("dominance: a case is one mutant of a small generated function that is dropped by default; its killing inputs over the whole enumerated domain (up to 480 "
        "operand pairs incl. extreme values) are compared with those of the kept mutants; non-trivial: the dropped mutant is killed by some input; subset: a case is "
        "one default mutant of a generated source, looked up in the full set; distinct by (function, mutant)")


def run_of(case_fns, lang):
    fns = [dominance.Fn(*f) for f in case_fns]
    return dominance.Run(fns, lang)


def bad_of(R):
    if not R.ok:
        return None
    ns = R.not_subset()
    if ns:
        return "default mutant %s is not among the mutants generated without optimisations" % (ns[0][:4] + ns[0][5:],)
    for g, a, i in R.undominated():
        f = R.fns[R.where[i]]
        return "%s %s %s of `%s` in `%s` (x: %s, y: %s; %s) is dropped by default, but no kept mutant is killed only by inputs that kill it" % (
            g.kind, g.op or "", a, R.text.encode()[g.s:g.e].decode(), f.body, f.tx, f.ty, R.lang)
    return None


def subset_fails(data, lang):
    u = batch.Unit(0, lang, data, None, None, 0)
    a = batch.instrument(u, ())
    b = batch.instrument(u, ("--no-mutation-opts",))
    if not a.ok() or not b.ok():
        return None
    return subset(a.fileinfo(), b.fileinfo(), data)[1]


def subset(fa, fb, data):
    have = {}
    if fb:
        for g in fb.groups:
            for x, _ in g.insts:
                k = dominance.key(g, x)
                have[k] = have.get(k, 0) + 1
    n = 0
    if fa:
        for g in fa.groups:
            for x, _ in g.insts:
                n += 1
                k = dominance.key(g, x)
                have[k] = have.get(k, 0) - 1
                if have[k] < 0:
                    return n, "default mutant %s %s %s of `%s` is not generated without optimisations" % (g.kind, g.op or "", x, data[g.s:g.e][:80].decode("utf-8", "replace"))
    return n, None


def pred_for(case, lang):
    if case["what"] == "subset":
        return lambda t: subset_fails(t, lang)
    return lambda _: bad_of(run_of(case["fns"], lang))


def tup(f):
    return (f.tx, f.ty, f.tr, f.body)


def main():
    rep = common.Report("C08", RULE)
    for k in engine.rounds(rep):
        def dom(i):
            s = engine.rseed(k, 8) * 131 + i
            rng = random.Random(s)
            lang = ("c", "cxx")[i & 1]
            return s, dominance.Run([dominance.make_fn(rng, lang) for _ in range(40)], lang)
        for s, R in pmap(dom, range(24)):
            if not R.ok:
                rep.count("batches_not_built")
                continue
            for g in R.full.groups:
                for a, i in g.insts:
                    if dominance.key(g, a) in R.kept_keys:
                        rep.count("kept_mutants")
                        continue
                    if not dominance.in_scope(g, a, R):
                        rep.count("dropped_outside_claim")
                        continue
                    kl = R.kills.get(i)
                    rep.case("%d/%d" % (s, i) if kl else None)
                    if kl:
                        f = R.fns[R.where[i]]
                        rep.sample({"lang": R.lang, "body": f.body, "types": [f.tx, f.ty], "dropped": [g.kind, g.op, a], "killing_inputs": len(kl), "domain": len(R.base[R.where[i]])}, 5)
            bad = bad_of(R)
            if bad and len(rep.violations) < engine.MAXV:
                fns = list(R.fns)
                # shrink: single functions
                one = None
                for f in fns:
                    d = bad_of(dominance.Run([f], R.lang))
                    if d:
                        one, bad = f, d
                        break
                fs = [one] if one else fns
                rep.violation("redundancy: " + bad, {"source." + common.EXT[R.lang]: dominance.source(fs, R.lang),
                              "case.json": engine.case_json(kind="c08", lang=R.lang, what="dom", fns=[tup(f) for f in fs])})
        us = batch.make_units(engine.rseed(k, 88), 64) + corpus.units(engine.rseed(k, 88), 24)

        def sub(u):
            a = batch.instrument(u, ())
            b = batch.instrument(u, ("--no-mutation-opts",))
            if not a.ok() or not b.ok():
                return u, 0, None
            n, bad = subset(a.fileinfo(), b.fileinfo(), u.data())
            return u, n, bad
        for u, n, bad in pmap(sub, us):
            rep.case(None, n)
            for q in range(n):
                rep.nontrivial.add("s%d/%d" % (u.seed, q))
            rep.count("subset_mutants", n)
            if bad and len(rep.violations) < engine.MAXV:
                engine.report_source(rep, "subset", u.data(), u.lang, pred_for(dict(what="subset"), u.lang), "c08", dict(what="subset"))
            u.free()
    return rep.finish()
