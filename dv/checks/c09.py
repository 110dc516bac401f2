"""C09: output is deterministic and does not depend on unrelated options or files."""
import json, os, random, re
from .. import common, engine, multi, layout
from ..common import pmap, read
from .c05 import relabel, first_diff, BASES

RULE = ("a case is one relation checked on one invocation over one to five generated files: repeated run, without info file, with AST dump, with AST node types shown, "
        "relative paths, and each file alone against all together; non-trivial: at least one file was rewritten; distinct by (files, options, relation)")
RELS = ["again", "noinfo", "dump", "types", "relative", "alone", "reorder"]


def significant(b):
    t = b.decode("utf-8", "surrogateescape")
    return [x for k, x in layout.tokens(t) if k not in ("ws", "nl", "lc", "bc")]


TOK = re.compile(rb"\d+|[^\d]+")


def offset_only(a, b, off):
    """a (alone) and b (together) differ only in integers increased by off."""
    x, y = TOK.findall(a), TOK.findall(b)
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p != q and not (p.isdigit() and q.isdigit() and int(q) - int(p) == off):
            return False
    return True


def norm_ids(entry):
    """Sets the implicit 0 ids explicitly."""
    def walk(x):
        if isinstance(x, dict):
            if "removeStmt" in x:
                x["removeStmt"].setdefault("mutationId", 0)
            for i in x.get("instances", []):
                i.setdefault("mutationId", 0)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(entry)
    return entry


def add(entry, off):
    def walk(x):
        if isinstance(x, dict):
            if "mutationId" in x:
                x["mutationId"] += off
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(entry)
    return entry


def entries(text, ps):
    js = json.loads(relabel(text, ps)) if text else {}
    return {e.get("filename"): norm_ids(e) for e in js.get("infoForFiles", [])}


def fails(inv, opts, rel):
    r, out, t, ps = inv.run(opts)
    if r.rc:
        return None
    if rel in ("again", "noinfo", "dump"):
        extra = ("--dump-asts",) if rel == "dump" else ()
        r2, out2, t2, ps2 = inv.run(tuple(opts) + extra, info=rel != "noinfo")
        if r2.rc:
            return "dredd fails with %s" % (" ".join(extra) or rel)
        for n in out:
            if out[n] != out2[n]:
                return "%s is rewritten differently (%s)" % (n, rel)
        if rel != "noinfo" and relabel(t, ps) != relabel(t2, ps2):
            return "the info files differ (%s): %s" % (rel, first_diff(json.loads(relabel(t, ps)), json.loads(relabel(t2, ps2))))
        return None
    if rel == "types":
        r2, out2, t2, ps2 = inv.run(tuple(opts) + ("--show-ast-node-types",))
        if r2.rc:
            return "dredd fails with --show-ast-node-types"
        for n in out:
            if significant(out[n]) != significant(out2[n]):
                return "%s: --show-ast-node-types changes more than comments" % n
        if relabel(t, ps) != relabel(t2, ps2):
            return "--show-ast-node-types changes the info file"
        return None
    if rel == "relative":
        d, ps2 = inv.place()
        j = os.path.join(d, "info.json")
        r2 = common.dredd([n for n, _, _ in inv.files], "c", opts, info=j, flags=inv.flags, cwd=d)
        if r2.rc:
            return "dredd fails with relative paths"
        for p in ps2:
            if read(p) != out[os.path.basename(p)]:
                return "%s is rewritten differently when named by a relative path" % os.path.basename(p)
        return None
    full = entries(t, ps)
    if rel == "reorder":
        order = list(range(len(ps)))
        random.Random(inv.seed).shuffle(order)
        r2, out2, t2, ps2 = inv.run(opts, order)
        if r2.rc:
            return "dredd fails when the files are reordered"
        other = entries(t2, ps2)
        for i, p in enumerate(ps):
            n = os.path.basename(p)
            d = compare(n, full.get("FILE%d" % i), other.get("FILE%d" % i), out[n], out2[n])
            if d:
                return "order of files matters: " + d
        return None
    for i, p in enumerate(ps):
        n = os.path.basename(p)
        r2, out2, t2, ps2 = inv.run(opts, subset=[i])
        if r2.rc:
            return "dredd fails on %s alone" % n
        other = entries(t2, ps2)
        d = compare(n, other.get("FILE%d" % i), full.get("FILE%d" % i), out2[n], out[n])
        if d:
            return "processing together with other files matters: " + d
    return None


def ids_in(entry):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "mutationId" in x:
                out.append(x["mutationId"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(entry)
    return out


def compare(n, a, b, ta, tb):
    a = a if a and ids_in(a) else None
    b = b if b and ids_in(b) else None
    if (a is None) != (b is None):
        return "%s has mutants in only one of the runs" % n
    off = 0
    if a:
        off = min(ids_in(b)) - min(ids_in(a))
        a2 = add(json.loads(json.dumps(a)), off)
        if a2 != b:
            return "%s: mutants differ by more than an offset: %s" % (n, first_diff(a2, b))
    if not offset_only(ta, tb, off):
        return "%s: rewritten text differs by more than the id offset %d" % (n, off)
    return None


def pred_for(case, lang):
    return lambda _: fails(multi.from_case(case), case["opts"], case["rel"])


def main():
    rep = common.Report("C09", RULE)
    for k in engine.rounds(rep):
        def one(i):
            s = engine.rseed(k, 9) * 1013 + i
            rng = random.Random(s)
            inv = multi.invocation(rng, s, 1, 5)
            opts = rng.choice([(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--only-track-mutant-coverage", "--no-mutation-opts")])
            rel = RELS[i % len(RELS)]
            if rel in ("alone", "reorder") and len(inv.files) < 2:
                inv = multi.invocation(rng, s, 2, 5)
            r = inv.run(opts)
            nt = r[0].rc == 0 and any(r[1][f[0]] != f[2] for f in inv.files)
            return inv, opts, rel, fails(inv, opts, rel), nt
        for inv, opts, rel, bad, nt in pmap(one, range(56)):
            rep.case("%d/%s/%s" % (inv.seed, opts, rel) if nt else None)
            rep.count("relation " + rel)
            if nt and not bad:
                rep.sample({"files": [(f[0], len(f[2])) for f in inv.files], "options": list(opts), "relation": rel}, 7)
            if bad and len(rep.violations) < engine.MAXV:
                multi.report(rep, "determinism and independence", inv, lambda c: fails(c, opts, rel), "c09", dict(opts=list(opts), rel=rel))
    return rep.finish()
