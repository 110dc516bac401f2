"""C05: mutant ids are unique, gap-free and independent of the mode."""
import json, random
from .. import common, engine, multi, info
from ..common import pmap

RULE = ("a case is one invocation on one to six generated files in one option set, compared with its ids read from the info file and with the same invocation in "
        "coverage-tracking mode; non-trivial: at least two files with mutants; distinct by (files, options)")
BASES = [(), ("--no-mutation-opts",)]


def ids_of(text, inv, ps):
    return info.Info(text, {p: f[2] for p, f in zip(ps, inv.files)})


def relabel(text, ps):
    for i, p in enumerate(ps):
        text = text.replace(json.dumps(p)[1:-1], "FILE%d" % i)
    return text


def fails(inv, opts, order):
    r, out, t, ps = inv.run(opts, order)
    if r.rc:
        return None
    if order is not None:
        seq = [ps[i] for i in order]
    else:
        seq = ps
    try:
        inf = info.Info(t, {p: f[2] for p, f in zip(ps, inv.files)})
    except ValueError as e:
        return "info file is not valid JSON: %s" % e
    nxt = 0
    pos = -1
    for f in inf.files:
        if f.filename not in seq:
            return "info file names %s, which was not given" % f.filename
        k = seq.index(f.filename)
        if k <= pos:
            return "files appear out of order in the info file"
        pos = k
        ids = sorted(i for g in f.groups for _, i in g.insts)
        want = list(range(nxt, nxt + len(ids)))
        if ids != want:
            bad = [x for x, y in zip(ids, want) if x != y][:3]
            return "%s: ids are not %d..%d each once (first difference %s, %d ids)" % (f.filename.split("/")[-1], nxt, nxt + len(ids) - 1, bad, len(ids))
        nxt += len(ids)
    r2, out2, t2, ps2 = inv.run(tuple(opts) + ("--only-track-mutant-coverage",), order)
    if r2.rc:
        return None
    a, b = json.loads(relabel(t, ps)), json.loads(relabel(t2, ps2))
    if a != b:
        return "coverage-tracking mode describes different mutants or ids: " + first_diff(a, b)
    for n in out:
        if (out[n] != dict((f[0], f[2]) for f in inv.files)[n]) != (out2[n] != dict((f[0], f[2]) for f in inv.files)[n]):
            return "%s is rewritten in only one of the two modes" % n
    return None


def first_diff(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %r vs %r" % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_diff(a.get(k), b.get(k), path + "/" + k)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d vs %d entries" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, path + "/%d" % i)
    return "%s: %r vs %r" % (path, str(a)[:80], str(b)[:80])


def pred_for(case, lang):
    return lambda _: fails(multi.from_case(case), case["opts"], None)


def main():
    rep = common.Report("C05", RULE)
    for k in engine.rounds(rep):
        def one(i):
            s = engine.rseed(k, 5) * 1009 + i
            rng = random.Random(s)
            inv = multi.invocation(rng, s, 1, 6)
            opts = BASES[rng.random() < 0.5]
            order = list(range(len(inv.files)))
            if rng.random() < 0.5:
                rng.shuffle(order)
            inv.files = [inv.files[x] for x in order]
            return inv, opts, fails(inv, opts, None), inv.run(opts)[2].count('"filename"')
        for inv, opts, bad, nf in pmap(one, range(64)):
            rep.case("%d/%s" % (inv.seed, opts) if nf > 1 else None)
            rep.count("files", len(inv.files))
            if nf > 1:
                rep.sample({"files": [(f[0], len(f[2])) for f in inv.files], "options": list(opts), "files_with_mutants": nf})
            if bad and len(rep.violations) < engine.MAXV:
                multi.report(rep, "mutant ids", inv, lambda c: fails(c, opts, None), "c05", dict(opts=list(opts)))
    return rep.finish()
