"""C15: instrumented files combine into one program with ids acting per file."""
import os, random, re, shutil
from .. import common, engine, linkgen, batch
from ..common import pmap, run_jobs, read

RULE = ("a case is one run of one file's entry points inside a linked program of two to five instrumented files (C, C++ or both) under no, one or two enabled ids: "
        "a file that owns none of the ids must behave as in the original program, a file that owns one must behave as when it was instrumented alone with the corresponding id; "
        "non-trivial: an id is enabled that changes the behaviour of the file that owns it; distinct by (program, options, ids, file)")
EV, TV = "DREDD_ENABLED_MUTATION", "DREDD_MUTANT_TRACKING_FILE"
OPTS = [(), (), ("--no-mutation-opts",)]
DET = ["-ftrivial-auto-var-init=zero"]
SAN = common.UB[:2]


def symbols(o):
    """(symbols defined for others strongly, all defined symbols by binding)"""
    r = common.run(["nm", "--defined-only", o])
    strong, dredd = set(), set()
    for l in r.out.splitlines():
        f = l.split()
        if len(f) < 2:
            continue
        k, name = f[-2], f[-1]
        if k in "TDBRCGS":
            strong.add(name)
        if "dredd" in name and (k.isupper() or k in "uvw"):
            dredd.add((k, name))
    return strong, dredd


def entries(p):
    """[(entry, file)]"""
    return [("u%d_entry" % i, i) for i in range(len(p.files))] + [("u%d_own" % i, i) for i in range(len(p.files))]


def same(a, b):
    """None if the two results agree as far as both went, otherwise a description."""
    for i in range(min(len(a.ins), len(b.ins))):
        x, y = a.ins[i], b.ins[i]
        if x[0] != 1 or y[0] != 1:
            if x[0] != y[0] and 3 not in (x[0], y[0]) and 26 not in (a.sig, b.sig):
                return "input %d: status %d instead of %d (signal %d)" % (i, y[0], x[0], b.sig)
            return None
        if x != y:
            return "input %d: expected count/hash %s, got %s" % (i, x[1:], y[1:])
    return None


def link(objs, names):
    d = common.newdir("x")
    exe = os.path.join(d, "exe")
    r = common.link([common.driver_obj(), common.table(d, names)] + objs, exe, True, SAN)
    return (exe, None) if r.rc == 0 else (None, r.err[-600:])


def runs(p, exe, ins, jobs, dump=False):
    """Like run_jobs; where code runs before main, every run is a process of its own that starts with the variables set."""
    if not p.static:
        return run_jobs(exe, ins, jobs, dump=dump)
    d = common.newdir("jobs")

    def one(j):
        i, u, env = j
        q = common.write(os.path.join(d, "j%d" % i), "".join("I %d %d %d %d %r\n" % ((u,) + tuple(x)) for x in ins[u]) + "J %d %d %s\n" % (i, u, "\x01".join("%s=%s" % kv for kv in env.items())))
        r = common.run([exe, q] + (["dump"] if dump else []), env=env)
        return [(i, common.Result(l)) for l in r.out.splitlines() if l.startswith("R ")]
    out = dict(x for l in pmap(one, jobs) for x in l)
    shutil.rmtree(d, ignore_errors=True)
    return out


def prelude_place(p, i, out):
    """Is the prelude where the marker says, and is nothing before it touched?"""
    n, lang, t, mark = p.files[i]
    if out == t:
        return None
    if mark is not None:
        if out[:mark] != t[:mark]:
            return "%s: text before the declaration of __dredd_prelude_start was changed" % n
        if out[mark:mark + 40] == t[mark:mark + 40]:
            return "%s: the prelude was not put before the declaration of __dredd_prelude_start" % n
        if out[:mark].find(b"__dredd_enabled_mutation") >= 0:
            return "%s: prelude code before the declaration of __dredd_prelude_start" % n
    return None


def evaluate(p, opts, nid, rep=None, facts=None):
    """Runs everything about one program; returns a description of the first violation or None."""
    rng = random.Random(p.seed)
    # original
    d0, ps0 = p.place()
    ob = p.compile(d0, ps0, common.COV + SAN + DET)
    dirs = [d0]
    try:
        if any(e for _, e in ob):
            if facts is not None:
                facts["rejected"] = True
                facts["why"] = [e for _, e in ob if e][0]
            return None
        names = entries(p)
        ent = [e for e, _ in names] + ["u%d_cross" % p.crossed]
        x0, e = link([o for o, _ in ob], ent)
        if e:
            if facts is not None:
                facts["rejected"] = True
                facts["why"] = e
            return None
        ins = {k: p.inputs for k in range(len(ent))}
        base = runs(p, x0, ins, [(k, k, {}) for k in range(len(ent))])
        # all files in one invocation
        r, d1, ps1, inf = p.instrument(opts)
        dirs.append(d1)
        if r.rc or inf is None:
            return "dredd fails on the files together (%s)" % (r.err or r.out)[-200:]
        outs = [read(q) for q in ps1]
        for i in range(len(outs)):
            b = prelude_place(p, i, outs[i])
            if b:
                return b
        if read(os.path.join(d1, "shared.h")) != p.shared.encode():
            return "the shared header was changed"
        ob1 = p.compile(d1, ps1, common.COV + SAN + DET, pch=True)
        for i, (o, e) in enumerate(ob1):
            if e:
                return "%s does not compile after instrumentation: %s" % (p.files[i][0], e[:300])
            s0, _ = symbols(ob[i][0])
            s1, dr = symbols(o)
            if s0 != s1:
                return "%s: the set of symbols visible to other files changes: %s" % (p.files[i][0], sorted(s0 ^ s1)[:3])
            if dr:
                return "%s: instrumentation symbols visible to other files: %s" % (p.files[i][0], sorted(dr)[:3])
        objs = [o for o, _ in ob1]
        rng.shuffle(objs)
        x1, e = link(objs, ent)
        if e:
            return "the instrumented files do not link: %s" % e[:300]
        # ids of each file
        own = {}
        for f in inf.files:
            i = ps1.index(f.filename)
            for k in sorted(f.byid):
                own[k] = i
        starts = {}
        for k, i in sorted(own.items()):
            starts.setdefault(i, k)
        # each file alone, among the original others
        alone = {}
        for i in sorted(starts):
            r, d2, ps2, inf2 = p.instrument(opts, [i])
            dirs.append(d2)
            if r.rc or inf2 is None:
                continue
            (o, e), = p.compile(d2, ps2, common.COV + SAN + DET, pch=True, subset=[i])
            if e:
                return "%s does not compile when instrumented alone: %s" % (p.files[i][0], e[:300])
            x, e = link([o if j == i else ob[j][0] for j in range(len(ob))], ent)
            if e:
                return "%s, instrumented alone, does not link with the original others: %s" % (p.files[i][0], e[:300])
            alone[i] = x
        ids = sorted(own)
        edge = [k for k in ids if k in (starts[own[k]], starts[own[k]] + 1) or k + 1 not in own or own[k + 1] != own[k]]
        pick = sorted(set(edge + (rng.sample(ids, nid) if len(ids) > nid else ids)))
        conf = [()] + [(k,) for k in pick]
        if len(set(own.values())) > 1:
            for _ in range(nid // 3):
                a = rng.choice(ids)
                o = [k for k in ids if own[k] != own[a]]
                conf.append((a, rng.choice(o)))
        # what a file must do under a configuration: alone with its own ids, or as the original
        want, jobs1, meta = {}, [], []
        need = {i: set() for i in range(len(p.files))}
        for c in conf:
            for i in range(len(p.files)):
                mine = tuple(k - starts[i] for k in c if own[k] == i)
                if mine:
                    need[i].add(mine)
        for i, ss in need.items():
            if i not in alone:
                continue
            js, mm = [], []
            for s in sorted(ss):
                for k, (en, fi) in enumerate(names):
                    if fi == i:
                        js.append((len(js), k, {EV: ",".join(map(str, s))}))
                        mm.append((i, s, k))
            got = runs(p, alone[i], ins, js)
            for j, m in enumerate(mm):
                want[m] = got.get(j)
        for c in conf:
            for k, (en, i) in enumerate(names):
                jobs1.append((len(jobs1), k, {EV: ",".join(map(str, c))} if c else {}))
                meta.append((c, k, i))
            jobs1.append((len(jobs1), len(names), {EV: ",".join(map(str, c))} if c else {}))
            meta.append((c, len(names), None))
        got = runs(p, x1, ins, jobs1)
        gotd = None
        for j, (c, k, i) in enumerate(meta):
            g = got.get(j)
            if g is None:
                continue
            if i is None:
                if not c:
                    b = same(base[k], g)
                    if b:
                        return "with no mutant enabled, the files together behave differently: " + b
                continue
            mine = tuple(x - starts[i] for x in c if own[x] == i)
            w = want.get((i, mine, k)) if mine else base[k]
            if w is None:
                continue
            b = same(w, g)
            changed = any(want.get((o, tuple(x - starts[o] for x in c if own[x] == o), kk)) is not None and
                          same(base[kk], want[(o, tuple(x - starts[o] for x in c if own[x] == o), kk)])
                          for o in {own[x] for x in c} for kk in (k,) if names[kk][1] == o) if mine else bool(c)
            if rep is not None:
                rep.case("%d/%s/%s/%d" % (p.seed, opts, c, k) if changed else None)
            if b:
                if mine and unstable(p, opts, i, mine, k, w):
                    continue
                return "ids %s (%s) enabled: %s of %s %s: %s" % (
                    list(c), ", ".join("%d of %s" % (x - starts[own[x]], p.files[own[x]][0]) for x in c) or "none", ent[k], p.files[i][0],
                    "behaves differently from the file instrumented alone with ids %s" % list(mine) if mine else "no longer behaves as the original", b)
        # the entry that goes through all files: the part of every file that owns no enabled id stays
        js = [(n, len(names), {EV: str(c[0])}) for n, c in enumerate(conf) if len(c) == 1]
        cs = {n: c[0] for n, c in enumerate(conf) if len(c) == 1}
        one = {len(names): p.inputs[:1]}
        b0 = runs(p, x0, one, [(0, len(names), {})], dump=True).get(0)
        gd = runs(p, x1, one, js, dump=True)
        ref = parts(b0)
        for n, k in cs.items():
            g = parts(gd.get(n))
            if ref is None or g is None:
                continue
            for f, v in ref.items():
                if f != own[k] and f in g and g[f][:len(v)] != v and own[k] != p.crossed:
                    return "id %d of %s enabled: called from %s, the functions of %s give %s instead of %s" % (
                        k - starts[own[k]], p.files[own[k]][0], p.files[p.crossed][0], p.files[f][0], g[f], v)
        # coverage tracking
        b = tracking(p, opts, ent, names, ob, inf, dirs, rep)
        if b:
            return b
        if facts is not None:
            facts.update(ids=len(ids), configurations=len(conf))
        return None
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


def unstable(p, opts, i, mine, k, w):
    """Does the file, instrumented alone with these ids, itself depend on how it is built? Then its behaviour is undefined and says nothing."""
    r, d2, ps2, inf2 = p.instrument(opts, [i])
    d0, ps0 = p.place()
    try:
        ent = [e for e, _ in entries(p)] + ["u%d_cross" % p.crossed]
        for fl in (["-ftrivial-auto-var-init=pattern"], ["-O1"]):
            o1 = p.compile(d2, ps2, common.COV + SAN + fl, subset=[i])
            o0 = p.compile(d0, ps0, common.COV + SAN + fl)
            if o1[0][1] or any(e for _, e in o0):
                return True
            x, e = link([o1[0][0] if j == i else o0[j][0] for j in range(len(o0))][::-1], ent)
            if e:
                return True
            got = runs(p, x, {k: p.inputs}, [(0, k, {EV: ",".join(map(str, mine))})]).get(0)
            if got is None or same(w, got):
                return True
        return False
    finally:
        shutil.rmtree(d2, ignore_errors=True)
        shutil.rmtree(d0, ignore_errors=True)


def parts(r):
    """{file: values} of a dumped run of the crossing entry."""
    t = getattr(r, "dump", None) if r is not None else None
    if not t:
        return None
    out, cur = {}, None
    for v in map(int, t.split(",")):
        if 777000000 <= v < 777000016:
            cur = v - 777000000
            out[cur] = []
        elif cur is not None:
            out[cur].append(v)
    return out


def tracking(p, opts, ent, names, ob, inf, dirs, rep):
    r, d, ps, inft = p.instrument(tuple(opts) + ("--only-track-mutant-coverage",))
    dirs.append(d)
    if r.rc or inft is None:
        return "dredd fails on the files together in coverage-tracking mode (%s)" % (r.err or r.out)[-200:]
    for i, q in enumerate(ps):
        b = prelude_place(p, i, read(q))
        if b:
            return "coverage-tracking mode: " + b
    oc = p.compile(d, ps, common.COV + SAN + DET, pch=True)
    for i, (o, e) in enumerate(oc):
        if e:
            return "%s does not compile after instrumentation for coverage tracking: %s" % (p.files[i][0], e[:300])
        s0, _ = symbols(ob[i][0])
        s1, dr = symbols(o)
        if s0 != s1 or dr:
            return "%s: coverage tracking changes the symbols visible to other files: %s" % (p.files[i][0], sorted(s0 ^ s1)[:3] or sorted(dr)[:3])
    x, e = link([o for o, _ in oc], ent)
    if e:
        return "the files instrumented for coverage tracking do not link: %s" % e[:300]
    td = common.newdir("trk")
    dirs.append(td)
    got = runs(p, x, {k: p.inputs for k in range(len(names))}, [(k, k, {TV: os.path.join(td, "t%d" % k)}) for k in range(len(names))])
    init = set()
    if p.static:
        common.run([x, common.write(os.path.join(td, "empty"), "")], env={TV: os.path.join(td, "init")})
        if os.path.exists(os.path.join(td, "init")):
            init = {int(l) for l in read(os.path.join(td, "init")).split()}
    range_of = {}
    for f in inft.files:
        range_of[ps.index(f.filename)] = set(f.byid)
    for k, (en, i) in enumerate(names):
        q = os.path.join(td, "t%d" % k)
        if not os.path.exists(q):
            continue
        ids = [int(l) for l in read(q).split()]
        bad = [v for v in ids if v not in range_of.get(i, ()) and v not in init]
        if bad and got.get(k) is not None:
            return "running %s of %s records id %d as reached, which belongs to another file" % (en, p.files[i][0], bad[0])
        if len(ids) != len(set(ids)):
            return "running %s of %s records an id twice" % (en, p.files[i][0])
        if rep is not None:
            rep.case("%d/track/%d" % (p.seed, k) if ids else None)
    return None


def pred_for(case, lang):
    return lambda _: evaluate(load(case), case["opts"], case["nid"])


def load(case):
    import sys
    d = sys.argv[3]
    p = linkgen.Program(case["seed"], [(n, l, read(os.path.join(d, "f%d" % i)), m) for i, (n, l, m) in enumerate(case["names"])], read(os.path.join(d, "shared.h")).decode(),
                        [tuple(x) for x in case["inputs"]], case["cstd"])
    p.crossed, p.static = case["crossed"], case["static"]
    return p


def main():
    rep = common.Report("C15", RULE)
    common.dredd_bin()
    common.driver_obj()
    nid = 40 if common.TIER == "quick" else 150
    for k in engine.rounds(rep):
        def one(j):
            s = engine.rseed(k, 15) * 1013 + j
            p = linkgen.program(s)
            opts = OPTS[s % len(OPTS)]
            f = {}
            return p, opts, evaluate(p, opts, nid, rep, f), f
        for p, opts, bad, f in pmap(one, range(8)):
            rep.count("programs")
            rep.count("languages:" + "+".join(sorted({l for _, l, _, _ in p.files})))
            rep.count("files", len(p.files))
            rep.count("files_with_marker", sum(m is not None for *_, m in p.files))
            if f.get("rejected"):
                rep.count("rejected_programs")
                continue
            if not bad:
                rep.sample(dict(seed=p.seed, files=[(n, len(t), "marker" if m is not None else "") for n, _, t, m in p.files], options=list(opts), **f))
            if bad and len(rep.violations) < engine.MAXV:
                if not evaluate(p, opts, nid):
                    rep.count("unconfirmed")
                    continue
                fs = {"f%d" % i: t for i, (_, _, t, _) in enumerate(p.files)}
                fs["shared.h"] = p.shared
                fs["case.json"] = engine.case_json(kind="c15", opts=list(opts), nid=nid, seed=p.seed, names=[(n, l, m) for n, l, _, m in p.files], inputs=p.inputs,
                                                   cstd=p.cstd, crossed=p.crossed, static=p.static)
                rep.violation("linked program: " + bad, fs)
    return rep.finish()
