"""What enabling a mutant means, as an edit of the original source (the C03 reference model)."""
from .cast import BUILTIN, FLOATT, UNS

BINOPS = {"Mul": "*", "Div": "/", "Rem": "%", "Add": "+", "Sub": "-", "Shl": "<<", "Shr": ">>", "LT": "<", "GT": ">", "LE": "<=", "GE": ">=",
          "EQ": "==", "NE": "!=", "And": "&", "Xor": "^", "Or": "|", "LAnd": "&&", "LOr": "||", "Assign": "=", "MulAssign": "*=",
          "DivAssign": "/=", "RemAssign": "%=", "AddAssign": "+=", "SubAssign": "-=", "ShlAssign": "<<=", "ShrAssign": ">>=",
          "AndAssign": "&=", "XorAssign": "^=", "OrAssign": "|="}
ASSIGN = {k for k in BINOPS if k.endswith("Assign")}
UNOPS = {"PostInc": ("++", True), "PostDec": ("--", True), "PreInc": ("++", False), "PreDec": ("--", False), "Minus": ("-", False),
         "Not": ("~", False), "LNot": ("!", False), "Plus": ("+", False)}
CONSTS = {"ReplaceWithTrue": "1", "ReplaceWithFalse": "0", "ReplaceWithZeroInt": "0", "ReplaceWithOneInt": "1", "ReplaceWithMinusOneInt": "-1",
          "ReplaceWithZeroFloat": "0.0", "ReplaceWithOneFloat": "1.0", "ReplaceWithMinusOneFloat": "-1.0"}
INS = {"InsertLNot": "!", "InsertNot": "~", "InsertMinus": "-"}


class Unmodelled(Exception):
    pass


def classes(g):
    """Type classes compatible with a replaceExpr group's actions."""
    acts = {a for a, _ in g.insts}
    if acts & {"InsertPreInc", "InsertPreDec"}:
        return "lv"
    if acts & {"ReplaceWithTrue", "ReplaceWithFalse"}:
        return "bool"
    if acts & {"ReplaceWithZeroFloat", "ReplaceWithOneFloat", "ReplaceWithMinusOneFloat"}:
        return "float"
    if acts & {"ReplaceWithZeroInt", "ReplaceWithOneInt", "ReplaceWithMinusOneInt"}:
        return "int"
    return "any"


def node_class(n):
    if n.lv:
        return "lv"
    if n.t in ("bool", "_Bool"):
        return "bool"
    if n.t in FLOATT:
        return "float"
    return "int"


def expr_nodes(ast, s, e):
    return [n for n in ast.at(s, e) if n.t in BUILTIN and "valueCategory" in n.js]


def types_for(ast, g, siblings=None):
    """Candidate types for a replaceExpr group; siblings: all replaceExpr groups of the same range, outermost first."""
    ns = expr_nodes(ast, g.s, g.e)
    c = classes(g)
    if c == "lv":
        return sorted({n.t for n in ns if n.lv})
    rs = [n for n in ns if not n.lv]
    if siblings is not None:
        sib = [x for x in siblings if classes(x) != "lv"]
        if len(sib) == len(rs) and [classes(x) in ("any", node_class(n)) for x, n in zip(sib, rs)].count(False) == 0:
            return [rs[sib.index(g)].t]
    ts = sorted({n.t for n in rs if c in ("any", node_class(n))})
    return ts


def edits(ast, g, action, lang, text, siblings=None):
    """Replacement texts (bytes) for [g.s, g.e): a list of acceptable readings."""
    T = lambda s, e: text[s:e].decode("latin-1")
    cxx = lang == "cxx"
    if g.s is None or g.e is None or g.e <= g.s:
        raise Unmodelled("no range")
    E = T(g.s, g.e)
    out = []
    if g.kind == "removeStmt":
        return ["\n;", "if (0) { %s; }" % E]
    if g.kind == "replaceExpr":
        ts = types_for(ast, g, siblings)
        if not ts:
            raise Unmodelled("no node for expr")
        for t in ts:
            if action in CONSTS:
                c = CONSTS[action]
                if action in ("ReplaceWithTrue", "ReplaceWithFalse") and t not in ("bool", "_Bool"):
                    continue
                out.append("((%s)%s)" % (t, c) if cxx else "((void)(%s), (%s)%s)" % (E, t, c))
            elif action in INS:
                out.append("((%s)%s((%s)(%s)))" % (t, INS[action], t, E))
            elif action in ("InsertPreInc", "InsertPreDec"):
                o = "++" if action == "InsertPreInc" else "--"
                out.append("(%s(%s))" % (o, E) if cxx else "(*({ __typeof__(%s)* h_p = &(%s); %s*h_p; h_p; }))" % (E, E, o))
            else:
                raise Unmodelled("action " + action)
        if not out:
            raise Unmodelled("no type matches")
        return out
    if g.kind == "replaceBinaryOperator":
        op = BINOPS.get(g.op)
        ns = [n for n in ast.at(g.s, g.e) if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op == op and len(n.kids) == 2]
        if not ns:
            raise Unmodelled("no binary node")
        ls, rs = g.parts["lhs"], g.parts["rhs"]
        l, r = T(*ls), T(*rs)
        seen = set()
        for n in ns:
            L, R = n.kids[0].t, n.kids[1].t
            t = n.t
            key = (L, R, t)
            if key in seen:
                continue
            seen.add(key)
            a = action[len("ReplaceWith"):]
            if g.op in ASSIGN:
                if a not in ASSIGN:
                    raise Unmodelled(action)
                out.append("((%s) %s (%s)(%s))" % (l, BINOPS[a], R, r))
                continue
            if not cxx and g.op in ("LAnd", "LOr"):
                v = "1" if g.op == "LAnd" else "0"
                o = op
                if a in ("LAnd", "LOr"):
                    out.append("((%s) %s (%s))" % (l, BINOPS[a], r))
                elif a == "LHS":
                    out.append("((%s) %s ((void)(%s), %s))" % (l, o, r, v))
                elif a == "RHS":
                    out.append("(((void)(%s), %s) %s (%s))" % (l, v, o, r))
                else:
                    raise Unmodelled(action)
                continue
            if a == "LHS":
                out.append("((%s)(%s)(%s))" % (t, L, l) if cxx else None)
                if not cxx:
                    out.pop()
                    out.append("({ %s h_l = (%s)(%s); (void)(%s); (%s)h_l; })" % (L, L, l, r, t))
            elif a == "RHS":
                out.append("((%s)(%s)(%s))" % (t, R, r) if cxx else "((void)(%s), (%s)(%s)(%s))" % (l, t, R, r))
            elif a in BINOPS and a not in ASSIGN:
                out.append("((%s)((%s)(%s) %s (%s)(%s)))" % (t, L, l, BINOPS[a], R, r))
            else:
                raise Unmodelled(action)
        return out
    if g.kind == "replaceUnaryOperator":
        op, post = UNOPS[g.op]
        ns = [n for n in ast.at(g.s, g.e) if n.k == "UnaryOperator" and n.op == op and bool(n.postfix) == post and n.kids]
        if not ns:
            raise Unmodelled("no unary node")
        o = T(*g.parts["operand"])
        a = action[len("ReplaceWith"):]
        seen = set()
        for n in ns:
            S, t = n.kids[0].t, n.t
            if (S, t) in seen:
                continue
            seen.add((S, t))
            if a == "Operand":
                if g.op in ("PreInc", "PreDec", "PostInc", "PostDec"):
                    out.append("(%s)" % o if cxx and n.lv else "((%s)(%s))" % (t, o))
                else:
                    out.append("((%s)(%s)(%s))" % (t, S, o))
            elif a in UNOPS:
                oo, pp = UNOPS[a]
                if oo in ("++", "--"):
                    x = "((%s)%s)" % (o, oo) if pp else "(%s(%s))" % (oo, o)
                    out.append(x if n.lv and cxx else "((%s)%s)" % (t, x))
                else:
                    out.append("((%s)%s((%s)(%s)))" % (t, oo, S, o))
            else:
                raise Unmodelled(action)
        return out
    raise Unmodelled(g.kind)


def apply_edit(text, g, repl):
    return text[:g.s] + repl.encode("latin-1") + text[g.e:]
