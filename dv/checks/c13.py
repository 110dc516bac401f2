"""C13: the query script reports each mutant as recorded in the info file."""
import json, os, random, re, shutil, sys
from .. import common, engine, multi, info, layout
from ..common import pmap, write, read
from ..refmut import BINOPS, UNOPS

RULE = ("a case is one query (the largest id, one existing id, or one id that does not exist) of the info file of one generated invocation over one to five files; every id is queried (a sample of 400 at the quick tier); "
        "non-trivial: a query of an existing id; distinct by (invocation, id)")
CONST = {"ReplaceWithTrue": "true", "ReplaceWithFalse": "false", "ReplaceWithZeroInt": "0", "ReplaceWithOneInt": "1", "ReplaceWithMinusOneInt": "-1",
         "ReplaceWithZeroFloat": "0.0", "ReplaceWithOneFloat": "1.0", "ReplaceWithMinusOneFloat": "-1.0"}
INS = {"InsertLNot": "!", "InsertNot": "~", "InsertMinus": "-", "InsertPreInc": "++", "InsertPreDec": "--"}
SCRIPT = os.path.join(common.REPO, "scripts", "query_mutant_info.py")
LIMIT = 400 if common.TIER == "quick" else 5000
UNI = ["é", "日本", "ß", "\U0001f600", "ü"]


def text_of(b):
    return re.sub(r"\r\n|\r", "\n", b.decode("utf-8", "replace"))


def toks(s):
    """Significant tokens; comments and white space do not matter."""
    return [x for k, x in layout.tokens(s) if k not in ("ws", "nl", "lc", "bc")]


def single(s):
    return len(toks(s)) == 1


def forms(s):
    """Ways to write s as an operand."""
    t = toks(s)
    f = [["("] + t + [")"]]
    if len(t) == 1 or closed(t):
        f.append(t)
    return f


def closed(t):
    """One primary or postfix expression: needs no parentheses."""
    d = 0
    if not t or not re.match(r"[\w(\"'.]", t[0]):
        return False
    for i, x in enumerate(t):
        if x in "([":
            d += 1
        elif x in (")", "]"):
            d -= 1
            if d < 0 or (d == 0 and t[0] == "(" and i < len(t) - 1 and not re.match(r"[.\[]|->", t[i + 1])):
                return False
        elif d == 0 and i and not (x in (".", "->") or (re.match(r"\w", x) and t[i - 1] in (".", "->", "::")) or x == "::"):
            return False
    return d == 0


def expected(fi, data, g, a):
    """(original text, list of acceptable token lists of the replacement or None)."""
    orig = text_of(data[g.s:g.e])
    if g.kind == "removeStmt":
        return orig, None
    if g.kind == "replaceExpr":
        if a in CONST:
            return orig, [toks(CONST[a])]
        return orig, [toks(INS[a]) + f for f in forms(orig)]
    part = {k: text_of(data[s:e]) for k, (s, e) in g.parts.items()}
    n = a[len("ReplaceWith"):]
    if g.kind == "replaceUnaryOperator":
        if n == "Operand":
            return orig, forms(part["operand"]) + [toks(part["operand"])]
        op, post = UNOPS[n]
        return orig, [f + [op] if post else [op] + f for f in forms(part["operand"])]
    if n in ("LHS", "RHS"):
        p = part[n.lower()]
        return orig, forms(p) + [toks(p)]
    return orig, [l + [BINOPS[n]] + r for l in forms(part["lhs"]) for r in forms(part["rhs"])]


def ask(queries):
    r = common.run([sys.executable, os.path.join(common.HDIR, "qworker.py"), SCRIPT], inp="".join(json.dumps(q) + "\n" for q in queries), timeout=600)
    out = [json.loads(l) for l in r.out.splitlines()]
    if len(out) != len(queries):
        raise common.CheckError("query worker: " + (r.err or r.out)[-500:])
    return out


def cli(q):
    r = common.run([sys.executable, SCRIPT] + q)
    return [r.rc, r.out, r.err]


def section(out, head):
    i = out.find(head)
    if i < 0:
        return None
    return out[i + len(head):]


def judge_one(fi, name, data, i, got):
    rc, out, err = got
    if rc:
        return "query of mutant %d fails (%d): %s %s" % (i, rc, out[:100], err[-200:])
    g, a = fi.byid[i][0]
    orig, repl = expected(fi, data, g, a)
    head = out.split("\n", 1)[0]
    if name not in head:
        return "mutant %d is in %s but the answer says: %s" % (i, name, head)
    m = re.search(r"(\d+):(\d+)\s*-+\s*(\d+):(\d+)", head)
    raw = g.raw
    s, e = (raw["start"], raw["end"]) if "start" in raw else (raw["exprStart"], raw["exprEnd"])
    if not m or [int(x) for x in m.groups()] != [s["line"], s["column"], e["line"], e["column"]]:
        return "mutant %d is at %s:%s--%s:%s but the answer says: %s" % (i, s["line"], s["column"], e["line"], e["column"], head)
    body = out[len(head):]
    if g.kind == "removeStmt":
        if "emove" not in head:
            return "mutant %d removes a statement but the answer says: %s" % (i, head)
        if body.split(":\n", 1)[-1].strip() != orig.strip():
            return "mutant %d removes %r but the answer shows %r" % (i, orig[:80], body[-200:])
        return None
    if "eplace" not in head:
        return "mutant %d is a replacement but the answer says: %s" % (i, head)
    k = body.find("Replacement")
    if k < 0:
        return "the answer for mutant %d shows no replacement" % i
    shown = body[:k].split(":\n", 1)[-1].strip()
    if shown != orig.strip():
        return "mutant %d changes %r but the answer shows %r" % (i, orig[:120], shown[:120])
    new = toks(body[k:].split(":\n", 1)[-1])
    if new not in repl:
        return "mutant %d (%s %s) turns %r into %r, which is not one of %r" % (i, g.kind, a, orig[:80], " ".join(new)[:120], [" ".join(x)[:80] for x in repl[:2]])
    return None


def spice(rng, b, lang):
    """Puts multi-byte characters and odd bytes in front of code on the same line."""
    try:
        t = b.decode()
    except UnicodeDecodeError:
        return b
    if "\\\n" in t or "\r" in t or '"' in t.replace('"h.h"', "") or "'" in t or "/*" in t:
        return b
    out = []
    for l in t.split("\n"):
        if l.strip() and not l.lstrip().startswith("#") and rng.random() < 0.3:
            if rng.random() < 0.15:
                out.append(b"/* \xff\xe9 */ " + l.encode())
            else:
                out.append(("/* %s */ " % rng.choice(UNI) + l).encode())
        else:
            out.append(l.encode())
    return b"\n".join(out)


def run(inv, opts, sub, slash, sample=None, facts=None):
    """Instruments inv in a 'mutated' tree with the original beside it and asks everything. Returns a description or None."""
    root = common.newdir("q")
    mut, orig = os.path.join(root, "mutated"), os.path.join(root, "original code")
    ps = []
    for n, l, t in inv.files:
        for base in (mut, orig):
            d = os.path.join(base, sub)
            os.makedirs(d, exist_ok=True)
            p = write(os.path.join(d, n), t)
            if base == mut:
                ps.append(p)
    j = os.path.join(root, "info.json")
    r = common.dredd(ps, "c", opts, info=j, flags=inv.flags)
    if r.rc or not os.path.exists(j):
        return None
    srcs = {p: t for p, (_, _, t) in zip(ps, inv.files)}
    inf = info.Info(read(j).decode("utf-8"), srcs)
    where = {}
    for fi in inf.files:
        for i in fi.byid:
            where[i] = fi
    n = max(where) + 1 if where else 0
    pre = ["--path-prefix-replacement", mut + slash, orig + slash]
    ids = sorted(where)
    if len(ids) > LIMIT:
        ids = sorted(set(ids[:40] + ids[-40:] + random.Random(inv.seed).sample(ids, LIMIT - 80)))
    bogus = [n, n + 1, n + 1000, 2**31 - 1, -1]
    qs = [[j, "--largest-mutant-id"]] + [[j] + pre + ["--show-info-for-mutant", str(i)] for i in ids] + \
         [[j] + pre + ["--show-info-for-mutant", str(i)] for i in bogus] + [[j, "--show-info-for-mutant", str(i)] for i in bogus]
    ans = ask(qs)
    if facts is not None:
        facts["ids"], facts["bogus"] = len(ids), 2 * len(bogus)
    if ans[0][0] or ans[0][1].strip() != str(n - 1):
        return "the largest id is %d but the answer is %s %r (exit %d)" % (n - 1, ans[0][1].strip(), ans[0][2], ans[0][0])
    for i, got in zip(ids, ans[1:]):
        p = where[i].filename
        bad = judge_one(where[i], os.path.relpath(p, mut), srcs[p], i, got)
        if bad:
            return bad
    for i, got in zip(bogus + bogus, ans[1 + len(ids):]):
        if got[0] == 0 or re.search(r"\d+:\d+--\d+:\d+", got[1]):
            return "mutant %d does not exist but the query succeeds: %s" % (i, got[1][:100])
    # the same answers from separate processes
    R = random.Random(inv.seed)
    for k in R.sample(range(len(qs)), min(len(qs), 3)):
        x = cli(qs[k])
        if (x[0] != 0) != (ans[k][0] != 0) or x[1] != ans[k][1]:
            return "the script answers %s differently on its own: %r and %r" % (qs[k][1:], x[1][:80], ans[k][1][:80])
    shutil.rmtree(root, ignore_errors=True)
    return None


def pred_for(case, lang):
    return lambda _: run(multi.from_case(case), case["opts"], case["sub"], case["slash"])


def main():
    rep = common.Report("C13", RULE)
    for k in engine.rounds(rep):
        def one(i):
            s = engine.rseed(k, 13) * 1019 + i
            rng = random.Random(s)
            inv = multi.invocation(rng, s, 1, 4, size=0.5)
            if rng.random() < 0.5:
                inv.files = [(n, l, spice(rng, t, l)) for n, l, t in inv.files]
            opts = rng.choice([(), (), ("--no-mutation-opts",), ("--only-track-mutant-coverage",)])
            sub, slash = rng.choice(["", "src", "a/b c"]), rng.choice(["", "/"])
            f = {}
            return inv, opts, sub, slash, run(inv, opts, sub, slash, facts=f), f
        for inv, opts, sub, slash, bad, f in pmap(one, range(16)):
            n = f.get("ids", 0)
            rep.case(None, 1 + f.get("bogus", 0))
            for i in range(n):
                rep.case("%d/%s/%d" % (inv.seed, opts, i))
            rep.count("invocations")
            if n and not bad:
                rep.sample({"files": [(a, len(t)) for a, _, t in inv.files], "options": list(opts), "ids queried": n})
            if bad and len(rep.violations) < engine.MAXV:
                multi.report(rep, "query script", inv, lambda c: run(c, opts, sub, slash), "c13", dict(opts=list(opts), sub=sub, slash=slash))
    return rep.finish()
