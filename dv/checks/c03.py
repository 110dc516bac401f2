"""C03: enabling a mutant changes the program exactly as its description says."""
import os, random
from .. import common, batch, oracle, engine, refmut, variants
from ..common import pmap, run_jobs
from ..refmut import Unmodelled

RULE = ("a case is one mutant of a generated program: the instrumented program with that id enabled is compared with the original source edited as the "
        "info file describes the mutant, on up to 6 inputs; non-trivial: the edited program completed at least one input without undefined behaviour, "
        "and the mutant changed the behaviour of some input or its site was reached; distinct by (program, options, id)")
OPTS = [(), ("--no-mutation-opts",)]


def choose(u, i, fi, rng, seen, m):
    """Picks m mutants, favouring (kind, operator, action, type) combinations seen least so far."""
    ast = u.ast()
    cand = []
    for g in fi.groups:
        for a, mid in g.insts:
            cand.append((seen.get(variants.key_of(ast, g, a, u.lang), 0) + rng.random(), mid, g, a))
    cand.sort(key=lambda c: c[:2])
    out = []
    for _, mid, g, a in cand[:m]:
        k = variants.key_of(ast, g, a, u.lang)
        seen[k] = seen.get(k, 0) + 1
        out.append((mid, g, a))
    return out


def run_variants(u, texts):
    """Results of alternative full texts of a unit, one process each; None where it does not compile."""
    def one(kt):
        k, t = kt
        d = common.newdir("k")
        p = common.write(os.path.join(d, "k." + common.EXT[u.lang]), t)
        r, _ = oracle.build_run(p, u.lang, u.entry, u.inputs, common.COV + common.UB)
        return r
    return pmap(one, list(enumerate(texts)))


def judge(data, u, opts, mid, i=None):
    """Full re-evaluation of one mutant of one source: description of the mismatch, or None."""
    v = batch.Unit(u.idx, u.lang, data, None, u.inputs, 0)
    try:
        i = batch.instrument(v, opts)
        if not i.ok():
            return None
        fi = i.fileinfo()
        if fi is None or len(fi.byid.get(mid, [])) != 1:
            return None
        g, a = fi.byid[mid][0]
        got, _ = oracle.build_run(i.path, u.lang, u.entry, u.inputs, common.COV, env={"DREDD_ENABLED_MUTATION": str(mid)}, use_pch=True, fuel=batch.BIGFUEL)
        if got is None:
            return None
        ast = v.ast()
        sib = variants.siblings_of(fi).get((g.s, g.e))
        base = refmut.edits(ast, g, a, u.lang, v.data(), sib)
        alts = base + variants.eager_edits(ast, g, a, u.lang, v.data(), base)
        if a in ("InsertPreInc", "InsertPreDec") and variants.incdec_interferes(ast, g, v.data()):
            return None
        texts = [refmut.apply_edit(v.data(), g, r) for r in alts]
        res = run_variants(v, texts)
        first = None
        for t, r in zip(texts, res):
            if r is None or batch.comparable(r) == 0:
                continue
            d = batch.differs(r, got, batch.BIGFUEL)
            if d is None:
                return None
            first = first or (t, d)
        if first is None:
            return None
        if oracle.trusted(first[0], u.lang, u.entry, u.inputs) is None:
            return None
        return "mutant %d (%s %s %s of `%s`): %s" % (mid, g.kind, g.op or "", a, v.data()[g.s:g.e].decode("utf-8", "replace")[:120], first[1])
    except Unmodelled:
        return None
    finally:
        v.free()


def pred_for(case, lang):
    u = batch.Unit(case["idx"], lang, b"", None, [tuple(x) for x in case["inputs"]], 0)
    a0 = tuple(case["mutant"])

    def pred(t):
        # the same kind of mutant anywhere in the (shrunk) source
        v = batch.Unit(u.idx, lang, t, None, u.inputs, 0)
        i = batch.instrument(v, case["opts"])
        v.free()
        if not i.ok() or not i.fileinfo():
            return None
        n = 0
        for g in i.fileinfo().groups:
            for a, mid in g.insts:
                if (g.kind, g.op, a) == a0:
                    n += 1
                    if n > 6:
                        return None
                    r = judge(t, u, case["opts"], mid)
                    if r:
                        return r
        return None
    return pred


def main():
    rep = common.Report("C03", RULE)
    seen = {}
    nu, m = (36, 14) if common.TIER == "quick" else (48, 24)
    for k in engine.rounds(rep):
        rng = random.Random(engine.rseed(k, 3))
        us = batch.make_units(engine.rseed(k, 3), nu, size=0.8)

        def prep(u):
            opts = OPTS[(u.seed >> 3) & 1]
            i = batch.instrument(u, opts)
            if not i.ok() or not i.fileinfo():
                return None
            o = i.path + ".o"
            if common.compile_obj(i.path, o, u.lang, common.COV, use_pch=True).rc:
                return None
            u.ast()
            return u, i, o
        ps = [x for x in pmap(prep, us) if x]
        work = []
        for j, (u, i, o) in enumerate(ps):
            fi = i.fileinfo()
            sibs = variants.siblings_of(fi)
            for mid, g, a in choose(u, i, fi, rng, seen, m):
                try:
                    es = refmut.edits(u.ast(), g, a, u.lang, u.data(), sibs.get((g.s, g.e)))
                except Unmodelled as e:
                    rep.count("unmodelled")
                    continue
                work.append((j, mid, g, a, es))

        def build(w):
            j, mid, g, a, es = w
            u = ps[j][0]
            t, ent = variants.renamed(refmut.apply_edit(u.data(), g, es[0]), u, mid)
            d = common.newdir("k")
            p = common.write(os.path.join(d, "k." + common.EXT[u.lang]), t)
            ob = os.path.join(d, "k.o")
            if common.compile_obj(p, ob, u.lang, common.COV + common.UB).rc:
                return None
            return ob, ent
        bs = pmap(build, work)
        rep.count("variant_does_not_compile", sum(b is None for b in bs))
        idx = [w for w in range(len(work)) if bs[w]]
        if not idx:
            continue
        vx = batch.link_units([bs[w][0] for w in idx], [bs[w][1] for w in idx])
        ex = batch.link_units([x[2] for x in ps], [x[0].entry for x in ps])
        ins = {n: ps[work[w][0]][0].inputs for n, w in enumerate(idx)}
        ref = run_jobs(vx, ins, [(n, n, {}) for n in range(len(idx))])
        ins2 = {j: ps[j][0].inputs for j in range(len(ps))}
        got = run_jobs(ex, ins2, [(n, work[w][0], {"DREDD_ENABLED_MUTATION": str(work[w][1])}) for n, w in enumerate(idx)] +
                       [(10**6 + j, j, {}) for j in range(len(ps))])
        for n, w in enumerate(idx):
            j, mid, g, a, es = work[w]
            u, i, _ = ps[j]
            if n not in ref or n not in got:
                raise common.CheckError("missing result")
            cmpn = batch.comparable(ref[n])
            killed = got[n].ins != got[10**6 + j].ins
            nt = cmpn > 0 and killed
            rep.case("%d/%s/%d" % (u.seed, i.opts, mid) if nt else None)
            rep.count("mutants " + g.kind)
            dif = batch.differs(ref[n], got[n])
            if nt and not dif:
                rep.sample({"program_seed": u.seed, "lang": u.lang, "options": list(i.opts), "id": mid, "kind": g.kind, "operator": g.op, "action": a,
                            "text": u.data()[g.s:g.e].decode("utf-8", "replace")[:120], "edited_to": es[0][:160]}, 8)
            if dif and len(rep.violations) < engine.MAXV:
                if cmpn == 0:
                    continue
                if not judge(u.data(), u, i.opts, mid):
                    rep.count("mismatch_excused")
                    continue
                case = dict(idx=u.idx, inputs=u.inputs, opts=list(i.opts), mutant=[g.kind, g.op, a])
                engine.report_source(rep, "enabled mutant does not do what its description says", u.data(), u.lang, pred_for(case, u.lang), "c03", case)
        for u in us:
            u.free()
    rep.cov["kinds_operators_actions_types_covered"] = len(seen)
    return rep.finish()
