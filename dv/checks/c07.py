"""C07: the mutation info file describes every mutant's place accurately."""
import json, random, re
from .. import common, batch, engine, info, refmut, oracle, corpus
from ..common import pmap

RULE = ("a case is one mutation group of the info file of a generated source: its ranges, snippets, operator and place in the tree are compared with the text and with "
        "clang's own AST of the original; non-trivial: a group whose place was found in the AST; distinct by (source, options, ids)")
OPTS = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--no-mutation-opts", "--show-ast-node-types")]
SNIP = " ... [snip] ... "
ALTS = {"and": "&&", "or": "||", "not": "!", "bitand": "&", "bitor": "|", "xor": "^", "compl": "~", "and_eq": "&=", "or_eq": "|=", "xor_eq": "^=", "not_eq": "!="}
COMMENT = re.compile(rb"/\*.*?\*/|//[^\n]*", re.S)


def snippet_ok(snip, text):
    full = text.decode("utf-8", "ignore")
    if snip == full:
        return len(text) <= 72          # long text is abbreviated
    if SNIP not in snip or len(snip.encode()) >= len(text):
        return False                    # an abbreviation is shorter than the text
    for m in re.finditer(re.escape(SNIP), snip):
        a, b = snip[:m.start()], snip[m.end():]
        if not a or not b or len(a) + len(b) >= len(full):
            continue
        # cuts may fall inside a multi-byte character, whose bytes are then dropped
        if full.startswith(a) and full.endswith(b):
            return True
    return False


def op_between(data, a, b):
    """The operator written in data[a:b], or None if it cannot be read off directly."""
    t = data[a:b].replace(b"\\\r\n", b"").replace(b"\\\n", b"")
    t = COMMENT.sub(b" ", t).decode("latin-1").strip()
    while t.startswith(")"):
        return None
    if t in ALTS:
        return ALTS[t]
    if re.fullmatch(r"[-+*/%<>=!&|^~]+", t):
        return t
    return None


def macros(data):
    return set(re.findall(rb"#[ \t]*define[ \t]+([\w$\x80-\xff]+)", data.replace(b"\\\n", b"")))


def check_file(fi, data, ast, lang):
    """(number of groups, number found in the AST, first problem or None)."""
    if fi.problems:
        return 0, 0, fi.problems[0]
    found = 0
    ms = macros(data)
    src = fi.src
    for i, l in fi.byid.items():
        if len(l) != 1:
            return 0, 0, "id %d is described %d times" % (i, len(l))
    for g in fi.groups:
        what = "%s %s" % (g.kind, [i for _, i in g.insts][:3])
        if not g.insts:
            return 0, 0, "group without mutants"
        for k, v in g.raw.items():
            if isinstance(v, dict) and "line" in v and not fi.src.inside(v):
                return 0, 0, "%s %s: position %s lies beyond the end of its line" % (g.kind, k, v)
        for name, (s, e) in g.parts.items():
            if s is None or e is None or not s < e <= len(data):
                return 0, 0, "%s: %s range is not inside the file" % (what, name)
            if not snippet_ok(g.snips[name], data[s:e]):
                return 0, 0, "%s: %s snippet %r does not quote %r" % (what, name, g.snips[name], data[s:e][:80].decode("utf-8", "replace"))
            if name != "expr" and name != "stmt" and not (g.s <= s and e <= g.e):
                return 0, 0, "%s: %s range lies outside the expression" % (what, name)
        touches = bool(ms & set(re.findall(rb"[\w$\x80-\xff]+", data[g.s:g.e])))
        ns = ast.at(g.s, g.e)
        ok = False
        if g.kind == "replaceBinaryOperator":
            l, r = g.parts["lhs"], g.parts["rhs"]
            if not l[1] <= r[0]:
                return 0, 0, "%s: operands overlap" % what
            op = refmut.BINOPS.get(g.op)
            for n in ns:
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op == op and len(n.kids) == 2 and (n.kids[0].s, n.kids[0].e) == l and (n.kids[1].s, n.kids[1].e) == r:
                    ok = True
            if not touches:
                w = op_between(data, l[1], r[0])
                if w is not None and w != op:
                    return 0, 0, "%s: recorded operator %s but the source has %s" % (what, g.op, w)
        elif g.kind == "replaceUnaryOperator":
            op, post = refmut.UNOPS.get(g.op, (None, None))
            o = g.parts["operand"]
            for n in ns:
                if n.k == "UnaryOperator" and n.op == op and bool(n.postfix) == post and n.kids and (n.kids[0].s, n.kids[0].e) == o:
                    ok = True
        elif g.kind == "replaceExpr":
            c = refmut.classes(g)
            for n in refmut.expr_nodes(ast, g.s, g.e):
                if c in ("any", refmut.node_class(n)):
                    ok = True
            if not ok and enumish(ns):
                ok = True
        else:
            for n in ns:
                p = n.par
                while p is not None and p.k in ("CaseStmt", "DefaultStmt", "AttributedStmt") :
                    p = p.par
                if p is not None and p.k == "CompoundStmt":
                    ok = True
        if ok:
            found += 1
        elif not touches and not fuzzy(ast, g):
            return 0, 0, "%s: `%s` (offsets %d-%d) is no such %s in the source" % (what, data[g.s:g.e][:80].decode("utf-8", "replace"), g.s, g.e,
                                                                              {"removeStmt": "statement", "replaceExpr": "expression"}.get(g.kind, "operator " + str(g.op)))
    p = nesting(fi)
    return len(fi.groups), found, p


def enumish(ns):
    return any("valueCategory" in n.js for n in ns)


TYPED = ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CompoundLiteralExpr",
         "UnaryExprOrTypeTraitExpr", "CXXNewExpr", "OffsetOfExpr", "VAArgExpr", "LambdaExpr", "CXXScalarValueInitExpr", "CXXTemporaryObjectExpr", "DeclStmt")


def fuzzy(ast, g):
    """Inside a written type (decltype, typeof, array bound): clang's dump does not show those expressions."""
    best = None
    for n in ast.nodes:
        if n.s is not None and n.s <= g.s and g.e <= n.e and (best is None or n.e - n.s <= best.e - best.s):
            best = n
    return best is None or best.k.endswith("Decl") or best.k in TYPED


def nesting(fi):
    """Tree edges follow source nesting."""
    rng = {}
    for g in fi.groups:
        a = rng.get(g.node)
        rng[g.node] = (min(a[0], g.s), max(a[1], g.e)) if a else (g.s, g.e)

    def up(n):
        while n in fi.parent:
            n = fi.parent[n]
            yield n
    for n, (s, e) in rng.items():
        for p in up(n):
            if p in rng:
                ps, pe = rng[p]
                if not (ps <= s and e <= pe):
                    return "tree: the range %d-%d of a node lies outside its ancestor's range %d-%d" % (s, e, ps, pe)
    # strictly nested ranges must be in the ancestor relation
    items = sorted(rng.items(), key=lambda x: (x[1][0], -x[1][1]))
    st = []
    for n, (s, e) in items:
        while st and st[-1][1][1] <= s:
            st.pop()
        anc = None
        for m, (ms_, me) in reversed(st):
            if ms_ <= s and e <= me and (ms_, me) != (s, e):
                anc = set(up(n)) if anc is None else anc
                if m not in anc:
                    return "tree: %d-%d is nested in %d-%d in the source but not in the tree" % (s, e, ms_, me)
                break
        st.append((n, (s, e)))
    return None


def fails(data, lang, opts):
    u = batch.Unit(0, lang, data, None, None, 0)
    try:
        i = batch.instrument(u, opts)
        if not i.ok():
            return None
        try:
            json.loads(i.infotext)
        except ValueError as e:
            return "the info file is not well-formed JSON: %s" % e
        fi = i.fileinfo()
        if fi is None:
            return None
        if fi.filename != i.path:
            return "file name in the info file is %r" % fi.filename
        if not oracle.compiles(data, lang):
            return None
        return check_file(fi, data, u.ast(), lang)[2]
    finally:
        u.free()


def pred_for(case, lang):
    return lambda t: fails(t, lang, case["opts"])


def main():
    rep = common.Report("C07", RULE)
    for k in engine.rounds(rep):
        us = batch.make_units(engine.rseed(k, 7), 120, bom=True) + corpus.units(engine.rseed(k, 7), 40)

        def go(u):
            o = OPTS[(u.seed >> 2) % len(OPTS)]
            i = batch.instrument(u, o)
            if not i.ok():
                return u, o, None, "dredd"
            try:
                fi = i.fileinfo()
            except (ValueError, KeyError) as e:
                return u, o, None, "json %s" % e
            if fi is None:
                return u, o, None, None
            if fi.filename != i.path:
                return u, o, None, "name"
            a = u.ast()
            r = check_file(fi, u.data(), a, u.lang)
            ids = [x[1] for g in fi.groups for x in g.insts][:1]
            u._ast = None
            return u, o, r, r[2]
        for u, o, r, bad in pmap(go, us):
            if bad == "dredd":
                rep.count("not_instrumented")
                continue
            if r:
                rep.evaluations += r[0]
                for q in range(r[1]):
                    rep.nontrivial.add("%d/%s/%d" % (u.seed, o, q))
                rep.count("groups_not_located", r[0] - r[1])
                if not bad:
                    rep.sample({"program_seed": u.seed, "lang": u.lang, "options": list(o), "groups": r[0], "located": r[1]})
            if bad and len(rep.violations) < engine.MAXV:
                engine.report_source(rep, "mutation info file", u.data(), u.lang, pred_for(dict(opts=list(o)), u.lang), "c07", dict(opts=list(o)))
        for u in us:
            u.free()
    return rep.finish()
