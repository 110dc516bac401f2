"""C04: the enabled-mutation list enables exactly the ids it names."""
import os, random
from .. import common, batch, oracle, engine, refmut, variants, info
from ..common import pmap, run_jobs, write, read
from ..refmut import Unmodelled
from . import c03

RULE = ("a case is one list of ids given to one program. Chains: straight-line files of known length instrumented together, whose trace under any list is computed "
        "exactly from the info file; lists: generated programs under a list and under a reordered / repeated / foreign-id variant of it; combinations: generated "
        "programs under several mutants at disjoint places against the source with all the edits applied; non-trivial: at least two entries in the list and the "
        "list changes the behaviour; distinct by (program, list)")
VAR = "DREDD_ENABLED_MUTATION"


# ---------------------------------------------------------------- chains
BOUNDS = ["-fsanitize=bounds,shift", "-fsanitize-trap=bounds,shift"]  # an id that is looked up outside of the enabled set is a wrong answer by luck or not at all


def padded(rng, text, idx, lang, opts):
    """Adds removable statements without effect such that the number of mutants is next to a multiple of the word size."""
    d = common.newdir("cp")
    p = write(os.path.join(d, "p." + common.EXT[lang]), text)
    j = os.path.join(d, "p.json")
    if common.dredd([p], lang, opts, info=j, flags=["-w", "-I" + common.HDIR]).rc:
        return text
    n = read(j).count(b'"mutationId"')
    common.shutil.rmtree(d, ignore_errors=True)
    want = (n // 64 + 1) * 64 + rng.choice([-1, 0, 0, 1, 1, 2])
    # the added call of the padding function is one statement as well
    body = "".join("  p%d_n();\n" % idx for _ in range(want - n)) if want > n else ""
    head, tail = text.rsplit("  return c;\n", 1)
    ext = 'extern "C" ' if lang == "cxx" else ""
    at = head.rindex(ext + "long long u%d_entry" % idx)
    return head[:at] + "static void p%d_n(void) {}\n" % idx + head[at:] + body + "  return c;\n" + tail


def chain_text(rng, idx, n, lang):
    """n statements h_emit(k); spread over one to three functions."""
    ks = [rng.choice([2, 3, 5, 9, 40, 1000 + i, 7 + i]) for i in range(n)]
    nf = rng.choice([1, 1, 2, 3])
    cuts = sorted(rng.randrange(n + 1) for _ in range(nf - 1))
    out = ['#include "h.h"'] if rng.random() < 0.8 else ["%svoid h_emit(long long v);" % ("extern \"C\" " if lang == "cxx" else "")]
    parts = [ks[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    for j, p in enumerate(parts):
        out.append("static void s%d_%d(void) {" % (idx, j))
        out += ["  h_emit(%d);" % x for x in p]
        out.append("}")
    # calls through the static functions are removable statements as well
    ext = 'extern "C" ' if lang == "cxx" else ""
    out.append("%slong long u%d_entry(int a, unsigned b, long long c, double d) {" % (ext, idx))
    out += ["  s%d_%d();" % (idx, j) for j in range(nf)]
    out.append("  return c;")
    out.append("}")
    return "\n".join(out) + "\n"


def const_action(a, k):
    return {"InsertLNot": int(k == 0), "InsertNot": ~k, "InsertMinus": -k, "ReplaceWithZeroInt": 0, "ReplaceWithOneInt": 1,
            "ReplaceWithMinusOneInt": -1}.get(a)


def model(fi, data, enabled):
    """Expected trace (without the returned value) of a chain under a set of ids, or None if not determined by the model."""
    dead, repl = set(), {}
    for i in enabled:
        for g, a in fi.byid.get(i, []):
            if g.kind == "removeStmt":
                dead.add((g.s, g.e))
            elif g.kind == "replaceExpr":
                if (g.s, g.e) in repl:
                    return None
                repl[(g.s, g.e)] = a
            else:
                return None
    txt = data.decode()
    import re
    funs, cur = {}, None
    for m in re.finditer(r"s\d+_(\d+)\(void\) \{|entry\(|h_emit\((\d+)\)(?=;)|s\d+_(\d+)\(\)(?=;)|return (c)", txt):
        if m.group(1) is not None:
            cur = "s" + m.group(1)
            funs[cur] = []
        elif m.group(0) == "entry(":
            cur = "e"
            funs[cur] = []
        elif m.group(2) is not None:
            s = m.start()
            if any(x <= s < y for x, y in dead):
                continue
            k = int(m.group(2))
            r = repl.get((m.start(2), m.end(2)))
            if r is not None:
                k = const_action(r, k)
                if k is None:
                    return None
            funs[cur].append(k)
        elif m.group(3) is not None:
            if any(x <= m.start() < y for x, y in dead):
                continue
            funs[cur].append("s" + m.group(3))
        elif m.group(4):
            if any(x <= m.start() < y for x, y in dead) or (m.start(4), m.end(4)) in repl:
                return None
    t = []
    for x in funs["e"]:
        t += funs[x] if isinstance(x, str) else [x]
    return t


def norm(r):
    """Results up to the point where the step budget ran out (where exactly depends on the length of the list)."""
    out = []
    for x in r.ins:
        if x[0] == 3:
            out.append(3)
            break
        out.append(x)
    return out


def spell(rng, ids, foreign):
    """A list naming exactly these ids: shuffled, with repetitions and foreign ids."""
    xs = list(ids)
    st = rng.choice(["sorted", "rev", "shuf", "dup", "dupadj", "foreign", "all", "all"])
    if st == "sorted":
        xs.sort()
    elif st == "rev":
        xs.sort(reverse=True)
    if st in ("dup", "all"):
        xs += [rng.choice(xs) for _ in range(rng.randint(1, 4))] if xs else []
    if st in ("foreign", "all"):
        xs += [rng.choice(foreign) for _ in range(rng.randint(1, 5))]
    if st in ("shuf", "dup", "foreign", "all"):
        rng.shuffle(xs)
    if st == "dupadj":
        xs = [y for x in xs for y in [x] * rng.choice([1, 2, 3])]
    return ",".join(map(str, xs)), st


SIZES = [1, 2, 3, 7, 20, 31, 32, 33, 62, 63, 64, 65, 66, 96, 127, 128, 129, 130, 190, 192, 193, 256, 257, 300]


class ChainBatch:
    def __init__(self, rng, base):
        self.langs, self.srcs, self.names = [], [], []
        self.d = common.newdir("ch")
        nfile = rng.choice([1, 2, 3, 4])
        mix = rng.choice(["c", "cxx", "mix"])
        self.files = []
        self.opts = rng.choice([(), ("--no-mutation-opts",)])
        for j in range(nfile):
            lang = mix if mix != "mix" else rng.choice(["c", "cxx"])
            n = rng.choice(SIZES) if rng.random() < 0.75 else rng.randint(1, 140)
            t = chain_text(rng, base + j, n, lang)
            if rng.random() < 0.6:
                t = padded(rng, t, base + j, lang, self.opts)
            p = write(os.path.join(self.d, "f%d.%s" % (j, common.EXT[lang])), t)
            self.files.append((p, lang, t.encode(), "u%d_entry" % (base + j)))
        j = os.path.join(self.d, "i.json")
        r = common.dredd([f[0] for f in self.files], "c", self.opts, info=j, flags=["-w", "-I" + common.HDIR])
        self.ok = r.rc == 0
        self.info = None
        self.objs = []
        if not self.ok:
            return
        self.info = info.Info(read(j).decode(), {f[0]: f[2] for f in self.files})
        for p, lang, t, e in self.files:
            o = p + ".o"
            r = common.run([common.CLANG if lang == "c" else common.CLANGXX, "-w", "-O0", "-I" + common.HDIR] + BOUNDS + ["-c", p, "-o", o])
            if r.rc:
                self.ok = False
                return
            self.objs.append(o)
        self.fi = {f.filename: f for f in self.info.files}

    def all_ids(self):
        return [i for f in self.info.files for i in f.byid]

    def files_for_replay(self):
        return {os.path.basename(f[0]): f[2] for f in self.files}


def chain_lists(rng, cb, nl):
    """(ids, spelled list, style) for one batch."""
    ids = cb.all_ids()
    if not ids:
        return []
    top = max(ids)
    foreign = [top + 1, top + 2, top + 63, top + 64, top + 65, top + 128, 2147483647, 1000000, 65536 * 4, top + rng.randint(1, 5000)]
    out = []
    byf = [sorted(f.byid) for f in cb.info.files if f.byid]
    for _ in range(nl):
        pool = list(rng.choice(byf)) if rng.random() < 0.6 else list(ids)
        k = rng.choice([0, 1, 1, 2, 2, 3, 5, 8, 20, len(pool)])
        how = rng.random()
        if how < 0.3 and len(pool) > 64:
            s = rng.randrange(len(pool) - 64)
            pick = [pool[s], pool[s + 64]] if rng.random() < 0.6 else [pool[s], pool[s + 32] if s + 32 < len(pool) else pool[s]]
        elif how < 0.45:
            pick = [x for x in pool if (x - pool[0]) in (0, 1, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 255, 256)]
            pick = rng.sample(pick, rng.randint(1, len(pick)))
        elif how < 0.55:
            pick = [pool[0], pool[-1]]
        else:
            pick = rng.sample(pool, min(k, len(pool)))
        l, st = spell(rng, sorted(set(pick)), foreign)
        if l:
            out.append((frozenset(pick), l, st))
    return out


def chains(rep, seed, nb, nl):
    rngs = [random.Random(seed * 7919 + b) for b in range(nb)]
    cbs = pmap(lambda b: ChainBatch(rngs[b], b * 4), range(nb))
    objs, ents, where = [], [], {}
    for b, cb in enumerate(cbs):
        if not cb.ok:
            rep.count("chains_not_built")
            continue
        for j, f in enumerate(cb.files):
            where[(b, j)] = len(ents)
            ents.append(f[3])
            objs.append(cb.objs[j])
    exe = batch.link_units(objs, ents)
    jobs, meta = [], []
    for b, cb in enumerate(cbs):
        if not cb.ok:
            continue
        for ids, l, st in chain_lists(rngs[b], cb, nl):
            for j, f in enumerate(cb.files):
                fi = cb.fi.get(f[0])
                exp = model(fi, f[2], ids & set(fi.byid)) if fi else model(info.FileInfo({}, info.Src(f[2])), f[2], ())
                if exp is None:
                    continue
                meta.append((b, j, ids, l, st, exp))
                jobs.append((len(meta) - 1, where[(b, j)], {VAR: l}))
    res = run_jobs(exe, {w: [(1, 2, 77, 1.0)] for w in where.values()}, jobs, dump=True)
    for n, (b, j, ids, l, st, exp) in enumerate(meta):
        cb = cbs[b]
        f = cb.files[j]
        r = res[n]
        got = [int(x) for x in r.dump.split(",")] if r.dump else []
        want = exp + [77]
        mine = ids & set(cb.fi[f[0]].byid) if f[0] in cb.fi else set()
        rep.case("chain/%d/%d/%s" % (seed, b * 8 + j, l) if mine and "," in l else None)
        rep.count("chain_lists " + st)
        if mine and len(ids) > 1:
            rep.sample({"files": len(cb.files), "mutants_in_file": len(cb.fi[f[0]].byid), "list": l[:120], "style": st, "trace_length": len(want)}, 3)
        if got != want and len(rep.violations) < engine.MAXV:
            report_chain(rep, cb, j, l, ids)
    for cb in cbs:
        common.shutil.rmtree(cb.d, ignore_errors=True)


def chain_fails(files, langs, opts, j, l):
    """files: [(name, bytes)]: instruments them together and checks file j under list l."""
    d = common.newdir("cr")
    ps = [write(os.path.join(d, n), t) for n, t in files]
    jf = os.path.join(d, "i.json")
    if common.dredd(ps, "c", opts, info=jf, flags=["-w", "-I" + common.HDIR]).rc:
        return None
    inf = info.Info(read(jf).decode(), dict(zip(ps, [t for _, t in files])))
    fi = {f.filename: f for f in inf.files}.get(ps[j])
    ids = {int(x) for x in l.split(",") if x}
    exp = model(fi, files[j][1], ids & set(fi.byid)) if fi else model(info.FileInfo({}, info.Src(files[j][1])), files[j][1], ())
    if exp is None:
        return None
    o = ps[j] + ".o"
    if common.run([common.CLANG if langs[j] == "c" else common.CLANGXX, "-w", "-I" + common.HDIR] + BOUNDS + ["-c", ps[j], "-o", o]).rc:
        return None
    import re
    ent = re.search(rb"u\d+_entry", files[j][1]).group(0).decode()
    exe = batch.link_units([o], [ent])
    r = run_jobs(exe, {0: [(1, 2, 77, 1.0)]}, [(0, 0, {VAR: l})], dump=True)[0]
    got = [int(x) for x in r.dump.split(",")] if r.dump else []
    if got == exp + [77]:
        return None
    miss = [x for x in exp + [77] if x not in got][:8]
    return "%s=%s on %s (%d mutants): trace %s... expected %s... (signal %d)" % (VAR, l[:200], files[j][0], len(fi.byid) if fi else 0, got[:12], (exp + [77])[:12], r.sig)


def report_chain(rep, cb, j, l, ids):
    files = [(os.path.basename(f[0]), f[2]) for f in cb.files]
    langs = [f[1] for f in cb.files]
    d = chain_fails(files, langs, cb.opts, j, l)
    if not d:
        rep.count("unconfirmed")
        return
    xs = l.split(",")
    step = max(1, len(xs) // 2)
    tries = 0
    while step and tries < 60:
        i = 0
        while i < len(xs):
            t = xs[:i] + xs[i + step:]
            tries += 1
            r = chain_fails(files, langs, cb.opts, j, ",".join(t)) if t else None
            if r:
                xs, d = t, r
            else:
                i += step
        step //= 2
    fs = {n: t for n, t in files}
    fs["case.json"] = engine.case_json(kind="c04", what="chain", files=[n for n, _ in files], langs=langs, opts=list(cb.opts), j=j, list=",".join(xs))
    rep.violation("list of enabled ids not honoured: " + d, fs)


# ---------------------------------------------------------------- generated programs
def lists_on_units(rep, k, nu, nl):
    us = batch.make_units(engine.rseed(k, 4), nu, size=0.8)

    def prep(u):
        i = batch.instrument(u, c03.OPTS[(u.seed >> 3) & 1])
        if not i.ok() or not i.fileinfo() or not i.fileinfo().byid:
            return None
        o = i.path + ".o"
        if common.compile_obj(i.path, o, u.lang, common.COV, use_pch=True).rc:
            return None
        u.ast()
        return u, i, o
    ps = [x for x in pmap(prep, us) if x]
    exe = batch.link_units([x[2] for x in ps], [x[0].entry for x in ps])
    ins = {j: ps[j][0].inputs for j in range(len(ps))}
    rng = random.Random(engine.rseed(k, 44))
    jobs, meta, n = [], [], 0
    for j, (u, i, o) in enumerate(ps):
        ids = sorted(i.fileinfo().byid)
        foreign = [ids[-1] + 1, ids[-1] + 64, ids[-1] + rng.randint(1, 1000), 2000000000]
        for _ in range(nl):
            pick = sorted(set(rng.sample(ids, min(len(ids), rng.choice([1, 2, 2, 3, 4])))))
            base = ",".join(map(str, pick))
            l, st = spell(rng, pick, foreign)
            # the base list three times, with the environment padded differently, exposes behaviour that depends on addresses
            env = [{VAR: base}, {VAR: base, "PAD": "x" * 64}, {VAR: base, "PAD": "y" * 517}, {VAR: l}]
            jobs += [(n + q, j, e) for q, e in enumerate(env)]
            meta.append((n, j, pick, l, st))
            n += 4
        jobs.append((10**7 + j, j, {}))
    res = run_jobs(exe, ins, jobs)
    for n, j, pick, l, st in meta:
        u = ps[j][0]
        a, b, c, v = (res[n + q] for q in range(4))
        if not (norm(a) == norm(b) == norm(c)):
            rep.count("unstable_program")
            continue
        nt = "," in l and a.ins != res[10**7 + j].ins
        rep.case("%d/%s" % (u.seed, l) if nt else None)
        rep.count("unit_lists")
        if norm(a) != norm(v) and len(rep.violations) < engine.MAXV:
            base = ",".join(map(str, pick))
            case = dict(what="list", idx=u.idx, inputs=u.inputs, opts=list(ps[j][1].opts), base=base, list=l)
            if not pred_for(dict(kind="c04", **case), u.lang)(u.data()):
                rep.count("unconfirmed")
                continue
            rep.violation("list %s behaves differently from the equivalent list %s" % (l, base),
                          {"source." + common.EXT[u.lang]: u.data(),
                           "case.json": engine.case_json(kind="c04", lang=u.lang, source="source." + common.EXT[u.lang], **case)})
    combos(rep, k, ps, exe, ins, rng, 3 if common.TIER == "quick" else 6)
    for u in us:
        u.free()


def pick_disjoint(rng, u, i, fi, m):
    """Mutants at disjoint places, in different statements, that the model covers."""
    cand = [(g, a, mid) for g in fi.groups for a, mid in g.insts if a not in ("InsertPreInc", "InsertPreDec")]
    rng.shuffle(cand)
    out, used = [], []
    for g, a, mid in cand:
        r = variants.full_expr(u.ast(), g) if g.kind != "removeStmt" else (g.s, g.e)
        if r is None or r[0] is None or g.s is None:
            continue
        s, e = min(r[0], g.s), max(r[1], g.e)
        if any(s < y and x < e for x, y in used):
            continue
        try:
            es = refmut.edits(u.ast(), g, a, u.lang, u.data(), variants.siblings_of(fi).get((g.s, g.e)))
        except Unmodelled:
            continue
        used.append((s, e))
        out.append((g, a, mid, es[0]))
        if len(out) == m:
            break
    return out


def apply_all(data, picks):
    for g, a, mid, e in sorted(picks, key=lambda p: -p[0].s):
        data = refmut.apply_edit(data, g, e)
    return data


def combos(rep, k, ps, exe, ins, rng, per):
    work = []
    for j, (u, i, o) in enumerate(ps):
        fi = i.fileinfo()
        for q in range(per):
            p = pick_disjoint(rng, u, i, fi, rng.choice([2, 2, 3, 4, 6]))
            if len(p) > 1:
                work.append((j, p, q))

    def build(w):
        j, p, q = w
        u = ps[j][0]
        t, ent = variants.renamed(apply_all(u.data(), p), u, q)
        d = common.newdir("k")
        f = write(os.path.join(d, "k." + common.EXT[u.lang]), t)
        if common.compile_obj(f, f + ".o", u.lang, common.COV + common.UB).rc:
            return None
        return f + ".o", ent
    bs = pmap(build, work)
    idx = [w for w in range(len(work)) if bs[w]]
    if not idx:
        return
    vx = batch.link_units([bs[w][0] for w in idx], [bs[w][1] for w in idx])
    ref = run_jobs(vx, {n: ins[work[w][0]] for n, w in enumerate(idx)}, [(n, n, {}) for n in range(len(idx))])
    jobs = []
    for n, w in enumerate(idx):
        j, p, q = work[w]
        xs = [x[2] for x in p]
        rng.shuffle(xs)
        jobs.append((n, j, {VAR: ",".join(map(str, xs))}))
    jobs += [(10**7 + j, j, {}) for j in range(len(ps))]
    got = run_jobs(exe, ins, jobs)
    for n, w in enumerate(idx):
        j, p, q = work[w]
        u, i, o = ps[j]
        if batch.comparable(ref[n]) == 0:
            continue
        rep.case("%d/%s" % (u.seed, sorted(x[2] for x in p)) if got[n].ins != got[10**7 + j].ins else None)
        rep.count("combinations")
        if batch.differs(ref[n], got[n]) and len(rep.violations) < engine.MAXV:
            case = dict(what="combo", idx=u.idx, inputs=u.inputs, opts=list(i.opts), ids=[x[2] for x in p])
            d = pred_for(dict(kind="c04", **case), u.lang)(u.data())
            if not d:
                rep.count("combination_excused")
                continue
            # fewer mutants
            ids = list(case["ids"])
            for x in list(ids):
                if len(ids) > 2:
                    c2 = dict(case, ids=[y for y in ids if y != x])
                    d2 = pred_for(dict(kind="c04", **c2), u.lang)(u.data())
                    if d2:
                        ids, d, case = c2["ids"], d2, c2
            rep.violation("combination of mutants: " + d, {"source." + common.EXT[u.lang]: u.data(),
                          "case.json": engine.case_json(kind="c04", lang=u.lang, source="source." + common.EXT[u.lang], **case)})


def combo_fails(data, u, opts, ids):
    v = batch.Unit(u.idx, u.lang, data, None, u.inputs, 0)
    try:
        i = batch.instrument(v, opts)
        if not i.ok() or not i.fileinfo():
            return None
        fi = i.fileinfo()
        picks = []
        for mid in ids:
            if len(fi.byid.get(mid, [])) != 1:
                return None
            g, a = fi.byid[mid][0]
            try:
                es = refmut.edits(v.ast(), g, a, v.lang, data, variants.siblings_of(fi).get((g.s, g.e)))
            except Unmodelled:
                return None
            picks.append((g, a, mid, es[0]))
        # each mutant alone must do what its description says; otherwise it is C03's business (or outside the model)
        for p in picks:
            for t, env in ((apply_all(data, [p]), {VAR: str(p[2])}),):
                ref, _ = oracle.build_run(write(os.path.join(common.newdir("k"), "k." + common.EXT[u.lang]), t), u.lang, u.entry, u.inputs, common.COV + common.UB)
                got, _ = oracle.build_run(i.path, u.lang, u.entry, u.inputs, common.COV, env=env, use_pch=True)
                if ref is None or got is None or batch.comparable(ref) < len(u.inputs) or batch.differs(ref, got):
                    return None
        t = apply_all(data, picks)
        if oracle.trusted(t, u.lang, u.entry, u.inputs) is None:
            return None
        res = []
        for env in ({VAR: ",".join(map(str, ids))}, {VAR: ",".join(map(str, ids)), "PAD": "z" * 333}):
            got, _ = oracle.build_run(i.path, u.lang, u.entry, u.inputs, common.COV, env=env, use_pch=True, fuel=batch.BIGFUEL)
            res.append(got)
        ref, _ = oracle.build_run(write(os.path.join(common.newdir("k"), "k." + common.EXT[u.lang]), t), u.lang, u.entry, u.inputs, common.COV + common.UB)
        ds = [batch.differs(ref, g, batch.BIGFUEL) for g in res]
        if all(ds):
            return "ids %s together: %s" % (ids, ds[0])
        return None
    finally:
        v.free()


def list_fails(data, u, opts, base, l):
    v = batch.Unit(u.idx, u.lang, data, None, u.inputs, 0)
    i = batch.instrument(v, opts)
    if not i.ok():
        return None
    r = []
    for env in ({VAR: base}, {VAR: base, "PAD": "x" * 100}, {VAR: base, "PAD": "x" * 1000}, {VAR: l}, {VAR: l, "PAD": "x" * 100}, {VAR: l, "PAD": "q" * 777}):
        g, _ = oracle.build_run(i.path, u.lang, u.entry, u.inputs, common.COV, env=env, use_pch=True)
        if g is None:
            return None
        r.append(norm(g))
    if r[0] == r[1] == r[2] and r[3] == r[4] == r[5] and r[0] != r[3]:
        return "%s=%s and %s=%s behave differently" % (VAR, base, VAR, l)
    return None


def pred_for(case, lang):
    if case["what"] == "chain":
        import sys
        d = sys.argv[3] if len(sys.argv) > 3 else "."
        return lambda _: chain_fails([(n, read(os.path.join(d, n))) for n in case["files"]], case["langs"], case["opts"], case["j"], case["list"])
    u = batch.Unit(case["idx"], lang, b"", None, [tuple(x) for x in case["inputs"]], 0)
    if case["what"] == "list":
        return lambda t: list_fails(t, u, case["opts"], case["base"], case["list"])
    return lambda t: combo_fails(t, u, case["opts"], case["ids"])


def main():
    rep = common.Report("C04", RULE)
    q = common.TIER == "quick"
    for k in engine.rounds(rep):
        chains(rep, engine.rseed(k, 4), 24, 24 if q else 50)
        lists_on_units(rep, k, 24 if q else 40, 24 if q else 50)
    return rep.finish()
