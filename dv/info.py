"""Reading mutation info files and mapping positions to byte offsets of the original source."""
import json

SNIP = b" ... [snip] ... "


class Src:
    """Original source with clang-style line/column <-> offset mapping."""

    def __init__(self, data):
        self.b = data
        self.starts = [0]
        i, n = 0, len(data)
        while i < n:
            c = data[i]
            if c == 10:
                self.starts.append(i + 1)
            elif c == 13:
                if i + 1 < n and data[i + 1] == 10:
                    i += 1
                self.starts.append(i + 1)
            i += 1

    def off(self, line, col):
        if line < 1 or line > len(self.starts) or col < 1:
            return None
        o = self.starts[line - 1] + col - 1
        return o if o <= len(self.b) else None

    def inside(self, p):
        """Does the position exist, rather than lie beyond the end of its line?"""
        l, c = p.get("line", 0), p.get("column", 0)
        if not (1 <= l <= len(self.starts) and c >= 1):
            return False
        end = self.starts[l] if l < len(self.starts) else len(self.b)
        return c - 1 <= len(self.b[self.starts[l - 1]:end].rstrip(b"\r\n"))

    def pos(self, p):
        return self.off(p.get("line", 0), p.get("column", 0))


class Group:
    __slots__ = ("kind", "op", "s", "e", "parts", "insts", "raw", "node", "depth", "order", "snips")

    def __repr__(self):
        return "<%s %s %s-%s %s>" % (self.kind, self.op, self.s, self.e, self.insts)


PARTS = {
    "replaceExpr": [("expr", "start", "end", "snippet")],
    "removeStmt": [("stmt", "start", "end", "snippet")],
    "replaceBinaryOperator": [("expr", "exprStart", "exprEnd", "exprSnippet"), ("lhs", "lhsStart", "lhsEnd", "lhsSnippet"),
                              ("rhs", "rhsStart", "rhsEnd", "rhsSnippet")],
    "replaceUnaryOperator": [("expr", "exprStart", "exprEnd", "exprSnippet"), ("operand", "operandStart", "operandEnd", "operandSnippet")],
}
ZERO_BIN, ZERO_UN = "Mul", "Minus"
ZERO_ACT = {}


class FileInfo:
    def __init__(self, fi, src):
        self.filename = fi.get("filename", "")
        self.src = src
        self.nodes = fi.get("mutationTree", fi.get("mutation_tree", []))
        self.groups = []
        self.problems = []
        seen = set()
        stack = [(0, 0)] if self.nodes else []
        self.parent = {}
        while stack:
            ni, depth = stack.pop()
            if ni in seen or ni >= len(self.nodes):
                self.problems.append("tree node %d visited twice or out of range" % ni)
                continue
            seen.add(ni)
            nd = self.nodes[ni]
            for g in nd.get("mutationGroups", []):
                self.groups.append(self.mk(g, ni, depth))
            for c in reversed(nd.get("children", [])):
                if c in self.parent:
                    self.problems.append("tree node %d has two parents" % c)
                self.parent[c] = ni
                stack.append((c, depth + 1))
        if len(seen) != len(self.nodes):
            self.problems.append("unreachable tree nodes")
        self.byid = {}
        for g in self.groups:
            for a, i in g.insts:
                self.byid.setdefault(i, []).append((g, a))

    def mk(self, g, ni, depth):
        r = Group()
        (kind, m), = g.items()
        r.kind, r.raw, r.node, r.depth = kind, m, ni, depth
        r.parts, r.snips = {}, {}
        for name, s, e, sn in PARTS[kind]:
            r.parts[name] = (self.src.pos(m.get(s, {})), self.src.pos(m.get(e, {})))
            r.snips[name] = m.get(sn, "")
        first = PARTS[kind][0][0]
        r.s, r.e = r.parts[first]
        if kind == "removeStmt":
            r.op = None
            r.insts = [("Remove", m.get("mutationId", 0))]
        else:
            r.op = m.get("operator")
            if r.op is None:
                r.op = {"replaceBinaryOperator": ENUM0["BinaryOperator"], "replaceUnaryOperator": ENUM0["UnaryOperator"]}.get(kind)
            r.insts = [(i.get("action", ENUM0[kind]), i.get("mutationId", 0)) for i in m.get("instances", [])]
        return r


# enum names with value 0 (omitted by protobuf JSON); filled from the .proto of /repo
ENUM0 = {}


def load_enums(repo):
    import glob, re, os
    txt = ""
    for p in glob.glob(os.path.join(repo, "src/libdredd/include/libdredd/protobufs/*.proto")):
        txt += open(p).read()
    for m in re.finditer(r"enum\s+(\w+)\s*\{(.*?)\}", txt, re.S):
        for n, v in re.findall(r"(\w+)\s*=\s*(\d+)\s*;", m.group(2)):
            if int(v) == 0:
                ENUM0[m.group(1)] = n
    for k, en in (("replaceExpr", "MutationReplaceExprAction"), ("replaceBinaryOperator", "MutationReplaceBinaryOperatorAction"),
                  ("replaceUnaryOperator", "MutationReplaceUnaryOperatorAction")):
        ENUM0[k] = ENUM0.get(en)


class Info:
    def __init__(self, text, srcs):
        """srcs: {filename: bytes} of the original sources."""
        if not ENUM0:
            from . import common
            load_enums(common.REPO)
        self.js = json.loads(text)
        self.files = []
        for fi in self.js.get("infoForFiles", []):
            fn = fi.get("filename", "")
            self.files.append(FileInfo(fi, Src(srcs[fn]) if fn in srcs else Src(b"")))
