"""Which mutants a source should have with optimisations off: a model over clang's own AST of the source.

expect(ast) walks the AST and yields, for every place it can judge, the expected groups (kind, operator, range, actions). Areas the dump does not
describe well enough are returned as zones, in which nothing is judged."""
from .cast import BUILTIN, FLOATT, UNS
from .refmut import BINOPS, UNOPS

OPS = {v: k for k, v in BINOPS.items()}
ARITH = ["Add", "Div", "Mul", "Rem", "Sub"]
ASSIGN = ["AddAssign", "AndAssign", "Assign", "DivAssign", "MulAssign", "OrAssign", "RemAssign", "ShlAssign", "ShrAssign", "SubAssign", "XorAssign"]
BITS, LOGIC, REL, SHIFT = ["And", "Or", "Xor"], ["LAnd", "LOr"], ["EQ", "NE", "GE", "GT", "LE", "LT"], ["Shl", "Shr"]
NOFLOAT = {"Rem", "AndAssign", "OrAssign", "RemAssign", "ShlAssign", "ShrAssign", "XorAssign"}
BOOL = ("bool", "_Bool")
UN = {("++", True): "PostInc", ("--", True): "PostDec", ("++", False): "PreInc", ("--", False): "PreDec", ("-", False): "Minus", ("~", False): "Not", ("!", False): "LNot"}

FUNCTION = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")
# nodes whose inside is not judged: the dump and the traversal differ, or the place is special
OPAQUE = ("DesignatedInitExpr", "PseudoObjectExpr", "CXXRewrittenBinaryOperator", "RequiresExpr", "ConceptSpecializationExpr",
          "PackExpansionExpr", "CXXInheritedCtorInitExpr", "CXXParenListInitExpr", "GCCAsmStmt", "MSAsmStmt", "CoroutineBodyStmt",
          "ArrayInitLoopExpr", "DecompositionDecl", "ChooseExpr", "BlockExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultInitExpr", "ConvertVectorExpr",
          "ShuffleVectorExpr", "UnresolvedLookupExpr", "CXXDependentScopeMemberExpr", "CXXUnresolvedConstructExpr", "CXXDefaultArgExpr", "SourceLocExpr", "TypeTraitExpr", "ImplicitValueInitExpr")
# compile-time contexts: nothing inside is ever mutated
CONST = ("ConstantExpr", "CXXNoexceptExpr", "UserDefinedLiteral", "StaticAssertDecl", "EnumDecl", "ParmVarDecl", "TemplateArgument")
CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr")

CONSTARGS = ("__builtin_frame_address", "__builtin_return_address", "__builtin_object_size", "__builtin_dynamic_object_size", "__builtin_prefetch", "__builtin_assume_aligned",
             "__builtin_constant_p", "__builtin_expect_with_probability")


def binary_actions(n, lang):
    op = OPS.get(n.op)
    fl = n.kids[0].t in FLOATT or n.kids[1].t in FLOATT
    for c in (ARITH, ASSIGN, BITS, LOGIC, REL, SHIFT):
        if op in c:
            r = [x for x in c if x != op]
            break
    else:
        return None
    if op in LOGIC:
        r += ["EQ", "NE"] if lang == "cxx" else []
    if op in ("EQ", "NE") and n.kids[0].t in BOOL:
        r += LOGIC
    r = [x for x in r if not (fl and x in NOFLOAT)]
    if op not in ASSIGN:
        r += ["LHS", "RHS"]
    return {"ReplaceWith" + x for x in r}


def unary_actions(n):
    op = UN.get((n.op, bool(n.postfix)))
    if op is None:
        return None
    sub = n.kids[0]
    r = []
    if op in ("PreInc", "PreDec", "PostInc", "PostDec"):
        r.append({"PreInc": "PreDec", "PreDec": "PreInc", "PostInc": "PostDec", "PostDec": "PostInc"}[op])
    if not n.lv:
        r += ["Not", "Minus", "LNot"]
    r = [x for x in r if x != op and not (x == "Not" and sub.t in FLOATT)]
    return {"ReplaceWith" + x for x in r + ["Operand"]}


def expr_actions(n):
    if n.lv:
        return {"InsertPreInc", "InsertPreDec"}
    if n.t in BOOL:
        return {"InsertLNot", "ReplaceWithTrue", "ReplaceWithFalse"}
    if n.t in FLOATT:
        return {"InsertMinus", "ReplaceWithZeroFloat", "ReplaceWithOneFloat", "ReplaceWithMinusOneFloat"}
    r = {"InsertLNot", "InsertNot", "ReplaceWithZeroInt", "ReplaceWithOneInt"}
    if n.t not in UNS:
        r |= {"InsertMinus", "ReplaceWithMinusOneInt"}
    return r


class Model:
    def __init__(self, ast, lang, text):
        self.ast, self.lang, self.text = ast, lang, text
        self.exp = []           # (kind, op, s, e, frozenset(actions))
        self.none = []          # ranges in which nothing may be mutated
        self.zones = []         # ranges not judged
        self.judged = 0
        self.varlocs, self.bare = set(), set()
        self.register, self.bitfields = set(), set()
        for n in ast.nodes:
            if n.k == "FieldDecl" and n.js.get("isBitfield"):
                self.bitfields.add(n.js.get("id"))
            if n.k == "VarDecl" or n.k == "DecompositionDecl":
                l = n.js.get("loc", {})
                l = l.get("expansionLoc", l)
                if "offset" in l:
                    self.varlocs.add(l["offset"])
                if n.js.get("storageClass") == "register":
                    self.register.add(n.js.get("id"))
            elif n.k == "ParmVarDecl" and n.js.get("storageClass") == "register":
                self.register.add(n.js.get("id"))
        for n in ast.nodes:
            if n.par is None:
                self.decl(n, False)

    # infn: directly in a function, with only variables in between
    def decl(self, n, infn):
        if n.js.get("isImplicit") or n.js.get("explicitlyDefaulted"):
            return
        if n.k in CONST:
            self.forbid(n)
            return
        if n.k in OPAQUE or n.macro:          # a declaration that comes from a macro, perhaps in part
            self.zone(n)
            return
        if n.k in FUNCTION:
            if n.js.get("constexpr") or n.js.get("consteval") or n.js.get("immediate"):
                self.forbid(n)
                return
            for c in n.kids:
                if c.k == "CXXCtorInitializer":
                    self.kids(c, True)
                elif c.k == "ParmVarDecl":
                    self.forbid(c)
                elif c.k.endswith("Stmt"):
                    self.stmt(c, True)
            return
        if n.k == "VarDecl":
            attrs = {c.k for c in n.kids}
            if n.js.get("constexpr") or "ConstInitAttr" in attrs or (self.lang == "c" and n.js.get("storageClass") == "static" and infn):
                self.forbid(n)
                return
            if not infn:
                # a variable outside functions: only lambdas in its initialiser contain functions, which are not looked into here
                self.forbid(n) if not self.has(n, ("LambdaExpr", "StmtExpr", "BlockExpr")) else self.zone(n)
                return
            for c in n.kids:
                if "valueCategory" in c.js:
                    self.stmt(c, infn)
            return
        if n.k == "FieldDecl":
            self.forbid(n) if not self.has(n, ("LambdaExpr",)) else self.zone(n)
            return
        for c in n.kids:
            if c.k.endswith("Decl"):
                self.decl(c, False if n.k != "DeclStmt" else infn)

    def kids(self, n, infn):
        for c in n.kids:
            if c.k.endswith("Decl"):
                self.decl(c, infn)
            else:
                self.stmt(c, infn)

    def variable(self, n):
        """Does the expression mention a variable (so that it cannot be a null pointer constant)?"""
        return (n.k == "DeclRefExpr" and n.js.get("referencedDecl", {}).get("kind") in ("VarDecl", "ParmVarDecl")) or any(self.variable(c) for c in n.kids)

    def has(self, n, ks):
        st = list(n.kids)
        while st:
            x = st.pop()
            if x.k in ks:
                return True
            st += x.kids
        return False

    def forbid(self, n):
        if n.s is not None and not n.macro:
            self.none.append((n.s, n.e, n.k))

    def zone(self, n):
        if n.s is not None:
            self.zones.append((n.s, n.e))
        else:
            for c in n.kids:
                self.zone(c)

    def stmt(self, n, infn):
        k = n.k
        if k in CONST:
            self.forbid(n)
            return
        if k in OPAQUE or k.startswith(("OMP", "ObjC", "SEH")):
            self.zone(n)
            return
        if k in CASTS and "decltype" in str(n.js.get("type", {}).get("qualType", "")):
            self.zone(n)
            return
        if k == "CompoundStmt":
            value = [c for c in n.kids if c.k != "NullStmt"][-1:] if n.par is not None and n.par.k == "StmtExpr" else []
            for c in n.kids:
                t = c
                while t.k in ("CaseStmt", "DefaultStmt") and t.kids:
                    if t.k == "CaseStmt":
                        for x in t.kids[:-1]:
                            self.forbid(x)
                    t = t.kids[-1]
                self.stmt(t, infn)
                if c in value and "valueCategory" in t.js:
                    continue            # the value of a statement expression
                if t.k not in ("NullStmt", "DeclStmt", "LabelStmt") and t.s is not None:
                    self.removal(t)
            return
        if k == "DeclStmt":
            for c in n.kids:
                self.decl(c, infn)
            return
        if k in ("CaseStmt", "DefaultStmt"):
            for x in n.kids[:-1]:
                self.forbid(x)
            if n.kids:
                self.stmt(n.kids[-1], infn)
            return
        if k == "IfStmt" and n.js.get("isConstexpr"):
            c = [x for x in n.kids if "valueCategory" in x.js]
            if c:
                self.forbid(c[0])
            for x in n.kids:
                if x is not (c[0] if c else None):
                    self.decl(x, infn) if x.k.endswith("Decl") else self.stmt(x, infn)
            return
        if k == "CXXForRangeStmt":
            # range initialiser and body; the loop variable's initialiser is implicit
            for c in n.kids[:-1]:
                if c.k == "DeclStmt" and c.kids and str(c.kids[0].js.get("name", "")).startswith("__range"):
                    for x in c.kids[0].kids:
                        self.stmt(x, infn)
                    break
                self.stmt(c, infn)
            if n.kids and not n.kids[-1].k.endswith("Decl"):
                self.stmt(n.kids[-1], infn)
            return
        if k == "LambdaExpr":
            b = [c for c in n.kids if c.k == "CompoundStmt"]
            m = [c for r in n.kids if r.k == "CXXRecordDecl" for c in r.kids if c.k == "CXXMethodDecl"]
            for c in n.kids:
                if c.k not in ("CompoundStmt", "CXXRecordDecl"):
                    self.zone(c)
            for f in m:
                for c in f.kids:
                    if c.k == "ParmVarDecl":
                        self.forbid(c)
            if b:
                self.stmt(b[-1], infn)
            return
        if k == "InitListExpr":
            if n.s is not None and (b"..." in self.text[n.s:n.e] or len({(c.s, c.e) for c in n.kids if c.s is not None}) < len([c for c in n.kids if c.s is not None])):
                self.zone(n)            # GNU array ranges
                return
            if self.lang == "cxx" and n.t in BUILTIN:
                # T x{v}: whether the conversion of v is looked at depends on how clang represents the list
                for c in n.kids:
                    while c.k == "ImplicitCastExpr" and len(c.kids) == 1:
                        self.skipnode(c)
                        c = c.kids[0]
                    self.skipnode(c)
                    self.stmt(c, infn)
                return
            for c in n.kids:
                if self.lang == "cxx":
                    # braced lists are looked at as written, without the conversions of their elements
                    while len(c.kids) == 1 and (c.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") or
                                                (c.k == "CXXConstructExpr" and (c.s, c.e) == (c.kids[0].s, c.kids[0].e))):
                        c = c.kids[0]
                    self.bare.add(c.idx)
                self.stmt(c, infn)
            return
        if k == "AttributedStmt":
            for c in n.kids:
                if c.k.endswith("Attr") or any(x.k == "MustTailAttr" for x in n.kids):
                    self.forbid(c)
                else:
                    self.stmt(c, infn)
            return
        if "valueCategory" in n.js:
            self.expr(n, infn)
            if k == "CXXNewExpr":
                if n.js.get("isArray") and n.kids:
                    self.forbid(n.kids[0])
                    for c in n.kids[1:]:
                        self.stmt(c, infn)
                    return
            if k == "UnaryExprOrTypeTraitExpr":
                for c in n.kids:
                    self.forbid(c)
                return
            if k == "BinaryConditionalOperator" and len(n.kids) > 2:
                self.stmt(n.kids[0], infn)
                self.stmt(n.kids[-1], infn)
                return
            if k == "CallExpr" and n.kids and self.callee(n) in CONSTARGS:
                for c in n.kids[1:]:
                    self.zone(c)
                return
        self.kids(n, infn)

    def callee(self, n):
        c = n.kids[0]
        while c.kids:
            c = c.kids[0]
        return str((c.js.get("referencedDecl") or {}).get("name"))

    def removal(self, t):
        if t.macro:
            self.skipnode(t)
            return
        self.judged += 1
        self.exp.append(("removeStmt", None, t.s, t.e, frozenset(["Remove"]), t))

    # ---- one expression node
    def doubtful(self, n):
        """Places that are left alone for reasons this model does not reproduce (lookup, lifetimes, null pointers, conditions that declare variables)."""
        if n.s is None or n.e is None or n.e <= n.s or n.macro:
            return True
        if n.s in self.varlocs or self.text[n.s:n.s + 2].startswith((b"{", b"<%")):
            return True
        if self.lang == "cxx":
            if n.k in ("MaterializeTemporaryExpr",) or (n.k.endswith(("CallExpr", "MemberExpr")) and self.has(n, ("MaterializeTemporaryExpr",))):
                return True
            # a reference into a temporary object (or possibly so)
            if (n.js.get("valueCategory") == "lvalue" or n.k in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator")) and self.has(n, ("MaterializeTemporaryExpr",)):
                return True
            p = n.par
            while p is not None and "valueCategory" in p.js and p.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
                if p.k == "MaterializeTemporaryExpr":
                    return True
                p = p.par
            if p is not None and p.js.get("adl"):
                return True
            if p is not None and p.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and self.has(n, ("DeclRefExpr",)) and n.k == "ImplicitCastExpr":
                return True
        if n.k in CASTS and "decltype" in str(n.js.get("type", {}).get("qualType", "")):
            return True
        p = n.par
        while p is not None and p.k == "ParenExpr":
            p = p.par
        if p is not None and p.k in CASTS and not self.variable(n) and ("*" in p.t or p.t in ("nullptr_t", "std::nullptr_t")):
            return True
        return False

    def special(self, n):
        """Does this lvalue refer to a bit-field or to an element of a vector?"""
        if n.k == "MemberExpr":
            return n.js.get("referencedMemberDecl") in self.bitfields
        if n.k == "ParenExpr" or (n.k == "UnaryOperator" and n.op in ("++", "--", "__extension__")):
            return any(self.special(c) for c in n.kids)
        if n.k == "CompoundAssignOperator" or (n.k == "BinaryOperator" and n.op == "="):
            return self.special(n.kids[0])
        if n.k == "BinaryOperator" and n.op == ",":
            return self.special(n.kids[1])
        if n.k == "ConditionalOperator":
            return any(self.special(c) for c in n.kids[1:])
        if n.k == "ExtVectorElementExpr":
            return True
        if n.k == "ArraySubscriptExpr":
            return any("vector" in c.t for c in n.kids)
        return False

    def reg(self, n):
        """Is this (part of) a register variable?"""
        st = [n]
        while st:
            x = st.pop()
            r = x.js.get("referencedDecl")
            if r and (r.get("id") in self.register):
                return True
            st += x.kids
        return False

    def expr(self, n, infn):
        if not infn:
            self.forbid(n)
            return
        if n.t not in BUILTIN:
            return
        if self.doubtful(n):
            self.skipnode(n)
            return
        if n.k == "UnaryOperator" and n.kids and n.kids[0].t in BUILTIN and n.kids[0].s is not None and (n.op, bool(n.postfix)) in UN:
            sub = n.kids[0]
            inc = n.op in ("++", "--")
            if sub.macro or (inc and self.lang == "c" and self.reg(sub)):
                self.skipnode(n)
            elif not (inc and self.special(sub)):
                self.add("replaceUnaryOperator", UN[(n.op, bool(n.postfix))], n, unary_actions(n))
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and len(n.kids) == 2 and n.op in OPS and all(x.t in BUILTIN and x.s is not None for x in n.kids):
            a, b = n.kids
            asg = OPS[n.op] in ASSIGN
            if a.macro or b.macro or (asg and self.lang == "c" and self.reg(a)):
                self.skipnode(n)
            elif not (asg and self.special(a)):
                self.add("replaceBinaryOperator", OPS[n.op], n, binary_actions(n, self.lang))
        if n.lv:
            p = n.par
            if "const" in n.quals or n.t in BOOL or self.special(n):
                return
            if p is None or p.k != "ImplicitCastExpr" or p.lv:
                return
            if self.lang == "c" and self.reg(n):
                self.skipnode(n)
                return
        self.add("replaceExpr", None, n, expr_actions(n))

    def skipnode(self, n):
        if n.s is not None:
            self.zones.append((n.s, n.e, "node"))

    def add(self, kind, op, n, acts):
        if acts is None:
            self.skipnode(n)
            return
        self.judged += 1
        self.exp.append((kind, op, n.s, n.e, frozenset(acts), n))


def compare(ast, lang, text, fi, macros):
    """(places judged, description of the first disagreement or None)"""
    m = Model(ast, lang, text)
    zs = [(s, e) for s, e, *k in m.zones if not k]
    exact = {(s, e) for s, e, *k in m.zones if k}

    def unjudged(s, e):
        return (s, e) in exact or any(a <= s and e <= b for a, b in zs)
    exp, got = {}, {}
    for kind, op, s, e, acts, n in m.exp:
        exp.setdefault((kind, s, e), []).append((op, acts, n))
    for g in fi.groups:
        got.setdefault((g.kind, g.s, g.e), []).append((g.op, frozenset(a for a, _ in g.insts)))
    show = lambda s, e: text[s:e][:90].decode("utf-8", "replace").replace("\n", " ")
    judged = 0
    for (kind, s, e), xs in exp.items():
        if unjudged(s, e) and (kind != "removeStmt" or all(x[2].macro for x in xs)):
            continue
        if macros and macros & words(text[s:e]):
            continue
        judged += len(xs)
        a = sorted((str(o), sorted(x)) for o, x, _ in xs)
        b = sorted((str(o) if o and kind in ("replaceUnaryOperator", "replaceBinaryOperator") else "None", sorted(x)) for o, x in got.get((kind, s, e), []))
        if a != b:
            return judged, "%s of `%s` (offset %d): expected %s, got %s" % (kind, show(s, e), s, a, b or "nothing")
    for (kind, s, e) in got:
        if (kind, s, e) in exp or unjudged(s, e) or (macros and macros & words(text[s:e])):
            continue
        for a, b, k in m.none:
            if a <= s and e <= b:
                return judged, "%s of `%s` (offset %d) lies in a place where nothing may be mutated (%s `%s`)" % (kind, show(s, e), s, k, show(a, b))
        if ast.at(s, e) and kind != "removeStmt" and any(n.t in BUILTIN and "valueCategory" in n.js for n in ast.at(s, e)):
            return judged, "%s of `%s` (offset %d) is not expected: %s" % (kind, show(s, e), s, [sorted(x) for _, x in got[(kind, s, e)]])
    return judged, None


def words(b):
    import re
    return set(re.findall(rb"[\w$\x80-\xff]+", b))
