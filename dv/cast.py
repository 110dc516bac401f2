"""Independent view of a unit: clang's own AST (JSON dump of the unmodified source)."""
import json, re
from . import common

BUILTIN = {"bool", "_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
           "long long", "unsigned long long", "__int128", "unsigned __int128", "wchar_t", "char8_t", "char16_t", "char32_t", "float", "double",
           "long double", "_Float16", "__bf16", "__float128", "half"}
FLOATT = {"float", "double", "long double", "_Float16", "__bf16", "__float128", "half"}
UNS = {"bool", "_Bool", "unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "unsigned __int128",
       "char8_t", "char16_t", "char32_t"}


class N:
    __slots__ = ("k", "t", "s", "e", "lv", "op", "kids", "par", "macro", "postfix", "js", "bf", "quals", "idx", "slot")

    def __repr__(self):
        return "<%s %s %s-%s %s>" % (self.k, self.t, self.s, self.e, self.op or "")


def strip_quals(q):
    quals = set()
    while True:
        for w in ("const ", "volatile ", "restrict ", "__restrict "):
            if q.startswith(w):
                quals.add(w.strip())
                q = q[len(w):]
                break
        else:
            break
    while True:
        for w in (" const", " volatile"):
            if q.endswith(w):
                quals.add(w.strip())
                q = q[:-len(w)]
                break
        else:
            break
    return q, quals


class Ast:
    def __init__(self, path, lang, flags=None):
        cmd = [common.CLANG if lang == "c" else common.CLANGXX, "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"]
        cmd += (flags if flags is not None else common.std_flags(lang)) + ["-fbracket-depth=2048", path]
        p = common.run(cmd)
        if p.rc:
            raise common.CheckError("ast dump failed for %s: %s" % (path, p.err[-600:]))
        self.text = common.read(path)
        self.nodes = []
        self.lang = lang
        js = json.loads(p.out)
        import sys
        sys.setrecursionlimit(20000)
        self.file = None
        for d in js.get("inner", []):
            self.decl_file(d)
            if self._infile(d, path):
                self.walk(d, None, 0)
        self.byrange = {}
        for n in self.nodes:
            if n.s is not None:
                self.byrange.setdefault((n.s, n.e), []).append(n)

    def decl_file(self, d):
        pass

    def _infile(self, d, path):
        loc = d.get("loc", {})
        if "spellingLoc" in loc:
            loc = loc["expansionLoc"]
        rb = d.get("range", {}).get("begin", {})
        if "expansionLoc" in rb:
            rb = rb["expansionLoc"]
        for x in (loc, rb):
            if "includedFrom" in x:
                return False
        if "offset" not in loc and "offset" not in rb:
            return False
        return True

    def point(self, p, end):
        if "expansionLoc" in p:
            x = p["expansionLoc"]
            if "includedFrom" in x or "offset" not in x:
                return None, True
            o = x["offset"]
            if not end:
                return o, True
            j = o + x.get("tokLen", 0)
            b = self.text
            k = j
            while k < len(b) and b[k:k + 1].isspace():
                k += 1
            if b[k:k + 1] == b"(" and self.fnlike(b[o:j]):
                k = match_paren(b, k)
                return k, True
            return j, True
        if "offset" not in p or "includedFrom" in p:
            return None, False
        return p["offset"] + (p.get("tokLen", 0) if end else 0), False

    def fnlike(self, name):
        return re.search(rb"#[ \t]*define[ \t]+" + re.escape(name) + rb"\(", self.text) is not None

    def walk(self, d, par, depth):
        k = d.get("kind")
        if k is None:
            if "associationKind" in d:          # _Generic associations
                for c in d.get("inner", []):
                    self.walk(c, par, depth + 1)
            return
        if k in ("ClassTemplateSpecializationDecl",) and par is not None and par.k == "ClassTemplateDecl":
            return
        n = N()
        n.k, n.par, n.op, n.kids, n.js = k, par, d.get("opcode"), [], d
        n.postfix = d.get("isPostfix", False)
        r = d.get("range", {})
        n.s, m1 = self.point(r.get("begin", {}), False)
        n.e, m2 = self.point(r.get("end", {}), True)
        if n.s is None or n.e is None:
            n.s = n.e = None
        n.macro = m1 or m2
        t = d.get("type", {})
        q = t.get("desugaredQualType", t.get("qualType", ""))
        n.t, n.quals = strip_quals(q)
        n.lv = d.get("valueCategory") == "lvalue"
        n.bf = d.get("objectKind") == "bitfield"
        n.idx = len(self.nodes)
        n.slot = None
        self.nodes.append(n)
        if par is not None:
            n.slot = len(par.kids)
            par.kids.append(n)
        first_fn = True
        for c in d.get("inner", []):
            if k == "FunctionTemplateDecl" and c.get("kind", "").endswith(("FunctionDecl", "MethodDecl", "ConstructorDecl", "ConversionDecl")):
                if not first_fn:
                    continue
                first_fn = False
            self.walk(c, n, depth + 1)
        for c in d.get("array_filler", [])[1:]:
            self.walk(c, n, depth + 1)

    def at(self, s, e):
        return self.byrange.get((s, e), [])


def match_paren(b, k):
    """Offset just after the parenthesis matching b[k] == '('; skips literals and comments."""
    d = 0
    n = len(b)
    while k < n:
        c = b[k:k + 1]
        if c == b"(":
            d += 1
        elif c == b")":
            d -= 1
            if d == 0:
                return k + 1
        elif c in b"\"'":
            q = c
            k += 1
            while k < n and b[k:k + 1] != q:
                if b[k:k + 1] == b"\\":
                    k += 1
                k += 1
        elif b[k:k + 2] == b"//":
            while k < n and b[k:k + 1] != b"\n":
                k += 1
        elif b[k:k + 2] == b"/*":
            k = b.find(b"*/", k + 2)
            if k < 0:
                return n
            k += 1
        k += 1
    return n


def is_builtin(n):
    return n.t in BUILTIN
