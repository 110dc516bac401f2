"""C14: every eligible site receives its full set of mutants and nothing else does."""
import re
from .. import common, batch, engine, corpus, repertoire, constgen, oracle
from ..common import pmap
from . import c07

RULE = ("a case is one place of a generated source (statement of a block, operator, builtin-typed expression) for which a model over clang's AST of the original says which mutants it must have, "
        "compared with what dredd recorded with optimisations off, or one recorded group, which must not lie in a directive, a compile-time context or at an expression that must have none; "
        "non-trivial: a judged place that must have mutants; distinct by (source, place)")
OPTS = [("--no-mutation-opts",), ("--no-mutation-opts",), ("--no-mutation-opts", "--only-track-mutant-coverage")]
PRAGMA = re.compile(rb"(?:#|%:)[ \t]*pragma\b")
DIRECTIVE = re.compile(rb"^[ \t]*(?:#|%:)(?:[^\n\\]|\\\r?\n|\\)*", re.M)


def judge(u, opts):
    """(places judged, groups, description of the first problem or None)"""
    i = batch.instrument(u, opts)
    if not i.ok():
        return 0, 0, None
    fi = i.fileinfo()
    data = u.data()
    if fi is None:
        return 0, 0, None
    if b"/*" not in data and b'R"' not in data:
        ds = [m.span() for m in DIRECTIVE.finditer(data)]
        for g in fi.groups:
            for a, b in ds:
                if g.kind == "removeStmt" and g.e > b and PRAGMA.match(data, g.s):
                    continue            # a loop together with its pragma
                if a <= g.s < b or a < g.e <= b:
                    return 0, 0, "%s `%s` (offset %d) lies in a preprocessing directive" % (g.kind, data[g.s:g.e][:60].decode("utf-8", "replace"), g.s)
    j, bad = repertoire.compare(u.ast(), u.lang, data, fi, c07.macros(data))
    return j, len(fi.groups), bad


def fails(data, lang, opts):
    u = batch.Unit(0, lang, data, None, None, 0)
    try:
        return judge(u, opts)[2] if oracle.compiles(data, lang) else None
    finally:
        u.free()


def pred_for(case, lang):
    return lambda t: fails(t, lang, case["opts"])


def main():
    rep = common.Report("C14", RULE)
    for k in engine.rounds(rep):
        s = engine.rseed(k, 14)
        us = batch.make_units(s, 100, bom=True) + corpus.units(s, 80) + batch.make_units(s + 1, 16, maker=lambda a, l, i: constgen.gen(a, l, i)[:2])

        def go(u):
            o = OPTS[(u.seed >> 2) % len(OPTS)]
            r = judge(u, o)
            u._ast = None
            return u, o, r
        for u, o, (j, n, bad) in pmap(go, us):
            rep.evaluations += n
            rep.count("groups", n)
            rep.count("places_judged", j)
            for q in range(j):
                rep.nontrivial.add("%d/%d" % (u.seed, q))
            for f in u.used or ():
                rep.count("feature:" + f)
            if j and not bad:
                rep.sample({"program_seed": u.seed, "lang": u.lang, "options": list(o), "places judged": j, "groups": n})
            if bad and len(rep.violations) < engine.MAXV:
                engine.report_source(rep, "mutants of a place", u.data(), u.lang, pred_for(dict(opts=list(o)), u.lang), "c14", dict(opts=list(o)))
        for u in us:
            u.free()
    return rep.finish()
