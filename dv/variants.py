"""Source variants that realise one mutant as an edit of the original (reference model), and their excuses."""
import os, re
from . import common, batch, cast, refmut, info
from .refmut import Unmodelled


def siblings_of(fi):
    """{range: [replaceExpr groups]}, outermost first."""
    d = {}
    for g in sorted((g for g in fi.groups if g.kind == "replaceExpr"), key=lambda g: (g.depth, -max([i for _, i in g.insts] or [0]))):
        d.setdefault((g.s, g.e), []).append(g)
    return d


def renamed(data, u, k):
    return data.replace(u.pfx.encode(), b"u%dv%d_" % (u.idx, k)), "u%dv%d_entry" % (u.idx, k)


def key_of(ast, g, action, lang):
    if g.kind == "replaceExpr":
        t = ""
        for n in refmut.expr_nodes(ast, g.s, g.e):
            t = n.t
            break
        return (lang, g.kind, action, t)
    if g.kind == "replaceBinaryOperator":
        return (lang, g.kind, g.op, action)
    if g.kind == "replaceUnaryOperator":
        return (lang, g.kind, g.op, action)
    ns = ast.at(g.s, g.e)
    return (lang, g.kind, ns[0].k if ns else "?")


SIDE = re.compile(rb"\+\+|--|[A-Za-z_)\]]\s*\(|(?<![=!<>])=(?!=)|\{")


def effect_free(b):
    """Conservative: no calls, assignments, increments or braces in the text (casts look like calls and count as effects)."""
    return SIDE.search(b) is None


def eager_edits(ast, g, action, lang, text, base):
    """C++: where the dropped operand has no effects, evaluating and discarding it is equally acceptable."""
    out = []
    if lang != "cxx":
        return out
    T = lambda p: text[p[0]:p[1]]
    if g.kind == "replaceExpr" and action in refmut.CONSTS and effect_free(text[g.s:g.e]):
        out = ["((void)(%s), %s)" % (text[g.s:g.e].decode("latin-1"), b) for b in base]
    if g.kind == "replaceBinaryOperator" and action in ("ReplaceWithLHS", "ReplaceWithRHS"):
        o = T(g.parts["rhs" if action.endswith("LHS") else "lhs"])
        if effect_free(o):
            out = ["((void)(%s), %s)" % (o.decode("latin-1"), b) for b in base]
    return out


def full_expr(ast, g):
    """Range of the full expression around a group."""
    ns = ast.at(g.s, g.e)
    if not ns:
        return None
    n = ns[0]
    while n.par is not None and "valueCategory" in n.par.js and n.par.s is not None:
        n = n.par
    return n.s, n.e


IDENT = re.compile(rb"[A-Za-z_$\x80-\xff][\w$\x80-\xff]*")


def incdec_interferes(ast, g, text):
    """Inserted ++/-- whose variable occurs elsewhere in the same full expression (or behind a call): its effect is unsequenced."""
    r = full_expr(ast, g)
    if r is None or r[0] is None:
        return True
    s, e = min(r[0], g.s), max(r[1], g.e)
    ids = set(IDENT.findall(text[g.s:g.e]))
    rest = text[s:g.s] + b" ; " + text[g.e:e]
    if ids & set(IDENT.findall(rest)):
        return True
    # indirect access: pointers, references, calls
    return bool(re.search(rb"\w\s*\(|->|\*\s*[A-Za-z_(]|\[", rest)) 
