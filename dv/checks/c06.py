"""C06: coverage tracking reports exactly the mutants whose code was reached."""
import os, random, re
from .. import common, batch, oracle, engine, info
from ..common import pmap, run_jobs, write, read

RULE = ("a case is one generated program instrumented for coverage tracking (together with up to two other files) and run on one input set; the recorded ids are compared "
        "with probes placed in the original at every reported site, and unreported mutants are enabled in the regular instrumentation; non-trivial: some sites were "
        "reached and some were not; distinct by (program, options, inputs)")
OPTS = [(), ("--no-mutation-opts",)]
TV, EV = "DREDD_MUTANT_TRACKING_FILE", "DREDD_ENABLED_MUTATION"
JUMPY = re.compile(rb"\bthrow\b|longjmp|\bexit\s*\(|_Exit|abort\s*\(|\bgoto\b\s*\*")


class Probes:
    """The original with h_hit(k) at every site; sites whose probe does not compile are left out."""
    def __init__(self, data, fi):
        self.data = data
        self.sites = {}
        for g in fi.groups:
            if g.s is None or g.e is None:
                continue
            key = (g.s, g.e, g.kind == "removeStmt")
            self.sites.setdefault(key, []).append(g)
        self.keys = sorted(self.sites)
        self.live = set(range(len(self.keys)))

    def text(self):
        ev = []
        for k in self.live:
            s, e, st = self.keys[k]
            if st:
                ev.append((s, 1, -(10**9) - e, b"h_hit(%d); " % k))
            else:
                ev.append((s, 1, -e, b" (h_hit(%d), " % k))
                ev.append((e, 0, -s, b")"))
        ev.sort()
        out, pos, self.map = [], 0, []
        n = 0
        for o, _, _, t in ev:
            out.append(self.data[pos:o])
            n += o - pos
            pos = o
            out.append(t)
            self.map.append((n, len(t), o))
            n += len(t)
        out.append(self.data[pos:])
        return b"".join(out)

    def back(self, off):
        """Offset in the original for an offset in the probed text."""
        sh = 0
        for n, l, o in self.map:
            if n + l <= off:
                sh += l
            elif n <= off:
                return o
        return off - sh

    def build(self, u, k=0):
        """Compiles the probed text, dropping the probes of places that do not compile. Returns the object file or None."""
        d = common.newdir("p")
        p = os.path.join(d, "p." + common.EXT[u.lang])
        for _ in range(12):
            t = self.text()
            write(p, t)
            r = common.compile_obj(p, p + ".o", u.lang, common.COV + common.UB + ["-ferror-limit=0", "-fdiagnostics-absolute-paths"])
            if not r.rc:
                return p + ".o"
            sp = info.Src(t)
            dead = set()
            for m in re.finditer(re.escape(p) + r":(\d+):(\d+): (?:fatal )?error", r.err):
                o = sp.off(int(m.group(1)), int(m.group(2)))
                if o is None:
                    continue
                b = self.back(o)
                inn = [q for q in self.live if self.keys[q][0] <= b < max(self.keys[q][1], self.keys[q][0] + 1) and not self.keys[q][2]]
                dead |= set(inn) if inn else {q for q in self.live if self.keys[q][0] <= b <= self.keys[q][1]}
            if not dead:
                return None
            self.live -= dead
        return None


def read_ids(path):
    if not os.path.exists(path):
        return []
    t = read(path)
    if t and not t.endswith(b"\n"):
        return None
    xs = t.split(b"\n")[:-1]
    if any(not re.fullmatch(rb"\d+", x) for x in xs):
        return None
    return [int(x) for x in xs]


def in_reached_stmt(pr, k, hits):
    """Operands are evaluated in an unspecified order: when one of them is left by an exception or jump, others may have been evaluated or not. So an operand
    is only surely unreached if a statement around it is."""
    s, e, st = pr.keys[k]
    if st:
        return False
    around = [q for q in pr.live if pr.keys[q][2] and pr.keys[q][0] <= s and e <= pr.keys[q][1]]
    return not around or min(around, key=lambda q: pr.keys[q][1] - pr.keys[q][0]) in hits


def judge_ids(ids, fi, pr, hits, strict):
    """Compares recorded ids with the probes. Returns a description or None."""
    if ids is None:
        return "tracking file is malformed"
    if len(set(ids)) != len(ids):
        d = sorted(x for x in set(ids) if ids.count(x) > 1)[:5]
        return "ids recorded more than once in one process: %s" % d
    got = set(ids)
    alien = got - set(fi.byid)
    if alien:
        return "recorded ids that are no mutants of the executed file: %s" % sorted(alien)[:5]
    for k in pr.live:
        for g in pr.sites[pr.keys[k]]:
            mine = {i for _, i in g.insts}
            if k in hits:
                if strict and mine - got:
                    return "mutants %s of `%s` (%s) were reached but not recorded" % (sorted(mine - got)[:6], pr.data[g.s:g.e][:80].decode("utf-8", "replace"), g.kind)
            elif mine & got and (strict or not in_reached_stmt(pr, k, hits)):
                return "mutants %s of `%s` (%s) were recorded but not reached" % (sorted(mine & got)[:6], pr.data[g.s:g.e][:80].decode("utf-8", "replace"), g.kind)
    return None


def fails(data, u, opts, companions=()):
    """Full evaluation of one source."""
    v = batch.Unit(u.idx, u.lang, data, None, u.inputs, 0)
    try:
        r = track([v], opts, companions)
        if r is None:
            return None
        (i, fi, o), = r
        ref, _ = oracle.build_run(v.src(), u.lang, u.entry, u.inputs, common.COV + common.UB)
        if ref is None or not ref.ok():
            return None
        pr = Probes(data, fi)
        po = pr.build(v)
        d = common.newdir("tf")
        tf = os.path.join(d, "t")
        x = batch.link_units([o], [u.entry])
        got = run_jobs(x, {0: u.inputs}, [(0, 0, {TV: tf}), (1, 0, {TV: tf + "2"}), (2, 0, {TV: tf + "2"}), (3, 0, {})])
        for q in (0, 3):
            dd = batch.differs(ref, got[q])
            if dd:
                return None if not oracle.trusted(data, u.lang, u.entry, u.inputs) else "tracking build behaves differently (%s): %s" % ("file set" if q == 0 else "no file", dd)
        ids = read_ids(tf)
        two = read_ids(tf + "2")
        if ids is not None and (two is None or sorted(two) != sorted(ids + ids)):
            return "two processes writing to one file: %s ids instead of %d" % (len(two) if two is not None else "malformed", 2 * len(ids))
        if po is None:
            return None
        px = batch.link_units([po], [u.entry])
        h = run_jobs(px, {0: u.inputs}, [(0, 0, {})])[0]
        if not h.ok() or h.ins != ref.ins:
            return None
        return judge_ids(ids, fi, pr, h.hits, not JUMPY.search(data))
    finally:
        v.free()


def track(us, opts, companions=()):
    """Instruments units together in tracking mode; [(path, FileInfo, object)] or None."""
    d = common.newdir("tr")
    ps = []
    srcs = {}
    for n, (l, t) in enumerate(companions):
        p = write(os.path.join(d, "a%d.%s" % (n, common.EXT[l])), t)
        srcs[p] = t if isinstance(t, bytes) else t.encode()
        ps.append(p)
    mine = []
    for n, u in enumerate(us):
        p = write(os.path.join(d, "m%d.%s" % (n, common.EXT[u.lang])), u.data())
        srcs[p] = u.data()
        ps.append(p)
        mine.append(p)
    j = os.path.join(d, "i.json")
    r = common.dredd(ps, us[0].lang, tuple(opts) + ("--only-track-mutant-coverage",), info=j)
    if r.rc:
        return None
    inf = info.Info(read(j).decode("utf-8", "replace"), srcs)
    by = {f.filename: f for f in inf.files}
    out = []
    for p, u in zip(mine, us):
        o = p + ".o"
        if p not in by or common.compile_obj(p, o, u.lang, common.COV, use_pch=True).rc:
            return None
        out.append((p, by[p], o))
    return out


def pred_for(case, lang):
    u = batch.Unit(case["idx"], lang, b"", None, [tuple(x) for x in case["inputs"]], 0)
    comp = [(lang, "int dv_pad(int a) {\n  a = a + 1;\n  return a * 2;\n}\n")] if case.get("pad") else []
    if case["what"] == "unreported":
        return lambda t: unreported_fails(t, u, case["opts"])
    return lambda t: fails(t, u, case["opts"], comp)


def unreported_fails(data, u, opts, only=None):
    v = batch.Unit(u.idx, u.lang, data, None, u.inputs, 0)
    try:
        r = track([v], opts)
        i = batch.instrument(v, opts)
        if r is None or not i.ok():
            return None
        tf = os.path.join(common.newdir("tf"), "t")
        x = batch.link_units([r[0][2]], [u.entry])
        run_jobs(x, {0: u.inputs}, [(0, 0, {TV: tf})])
        ids = read_ids(tf)
        o = i.path + ".o"
        if ids is None or common.compile_obj(i.path, o, u.lang, common.COV, use_pch=True).rc:
            return None
        rest = sorted(set(i.fileinfo().byid) - set(ids)) if only is None else only
        x = batch.link_units([o], [u.entry])
        res = run_jobs(x, {0: u.inputs}, [(-1, 0, {})] + [(m, 0, {EV: str(m)}) for m in rest])
        bad = [m for m in rest if res[m].ins != res[-1].ins and 3 not in [y[0] for y in res[-1].ins]]
        if bad:
            again = run_jobs(x, {0: u.inputs}, [(-1, 0, {"PAD": "x" * 300})] + [(m, 0, {EV: str(m), "PAD": "x" * 400}) for m in bad[:20]])
            bad = [m for m in bad[:20] if again[m].ins != again[-1].ins and again[-1].ins == res[-1].ins]
            if bad and oracle.trusted(data, u.lang, u.entry, u.inputs):
                g, a = i.fileinfo().byid[bad[0]][0]
                return "mutant %d (%s %s of `%s`) was not recorded but changes the outcome when enabled" % (bad[0], g.kind, a, data[g.s:g.e][:80].decode("utf-8", "replace"))
        return None
    finally:
        v.free()


def unopenable(data, lang, opts):
    """Known finding: the tracking file cannot be opened."""
    u = batch.Unit(0, lang, data, None, [(3, 5, 7, 1.5)], 0)
    r = track([u], opts)
    ref, _ = oracle.build_run(u.src(), lang, u.entry, u.inputs, common.COV + common.UB)
    if r is None or ref is None:
        return None
    x = batch.link_units([r[0][2]], [u.entry])
    got = run_jobs(x, {0: u.inputs}, [(0, 0, {TV: "/nonexistent-dir/f"})])[0]
    return batch.differs(ref, got)


def main():
    rep = common.Report("C06", RULE)
    q = common.TIER == "quick"
    for k in engine.rounds(rep):
        us = batch.make_units(engine.rseed(k, 6), 48, size=0.8, ninputs=4)
        groups = []
        rng = random.Random(engine.rseed(k, 66))
        for lang in ("c", "cxx"):
            xs = [u for u in us if u.lang == lang]
            while xs:
                n = rng.choice([1, 1, 2, 3])
                groups.append((xs[:n], OPTS[rng.random() < 0.5]))
                xs = xs[n:]

        def prep(g):
            r = track(*g)
            if r is None:
                return []
            out = []
            for u, (p, fi, o) in zip(g[0], r):
                ro = p + ".ref.o"
                if batch.compile_ref(u, ro).rc:
                    continue
                pr = Probes(u.data(), fi)
                out.append((u, g[1], fi, o, ro, pr, pr.build(u)))
            return out
        ps = [x for y in pmap(prep, groups) for x in y]
        tx = batch.link_units([p[3] for p in ps], [p[0].entry for p in ps])
        rx = batch.link_units([p[4] for p in ps], [p[0].entry for p in ps])
        hp = [j for j in range(len(ps)) if ps[j][6]]
        hx = batch.link_units([ps[j][6] for j in hp], [ps[j][0].entry for j in hp])
        d = common.newdir("tf")
        # every program on all its inputs, and on the first input alone
        ins, jobs = {}, []
        for j, p in enumerate(ps):
            ins[j] = p[0].inputs
        one = {j: [rng.choice(p[0].inputs)] for j, p in enumerate(ps)}
        for tag, I in (("a", ins), ("s", one)):
            tr = run_jobs(tx, I, [(j, j, {TV: os.path.join(d, "%s%d" % (tag, j))}) for j in range(len(ps))])
            un = run_jobs(tx, I, [(j, j, {}) for j in range(len(ps))]) if tag == "a" else tr
            rf = run_jobs(rx, I, [(j, j, {}) for j in range(len(ps))])
            ht = run_jobs(hx, {n: I[j] for n, j in enumerate(hp)}, [(n, n, {}) for n in range(len(hp))])
            for j, p in enumerate(ps):
                u, opts, fi = p[0], p[1], p[2]
                bad = None
                if not rf[j].ok():
                    rep.count("original_not_comparable")
                    continue
                bad = batch.differs(rf[j], tr[j]) or batch.differs(rf[j], un[j])
                ids = read_ids(os.path.join(d, "%s%d" % (tag, j)))
                nt = None
                if not bad and j in hp:
                    h = ht[hp.index(j)]
                    if h.ok() and h.ins == rf[j].ins:
                        rep.count("probed_sites", len(p[5].live))
                        rep.count("unprobed_sites", len(p[5].keys) - len(p[5].live))
                        bad = judge_ids(ids, fi, p[5], h.hits, not JUMPY.search(u.data()))
                        if not bad and h.hits and p[5].live - h.hits:
                            nt = "%d/%s/%s" % (u.seed, opts, tag)
                            rep.sample({"program_seed": u.seed, "lang": u.lang, "options": list(opts), "sites": len(p[5].live), "reached": len(h.hits), "ids_recorded": len(ids)})
                rep.case(nt)
                if bad and len(rep.violations) < engine.MAXV:
                    case = dict(what="ids", idx=u.idx, inputs=I[j], opts=list(opts), pad=1)
                    if not engine.report_source(rep, "coverage tracking", u.data(), u.lang, pred_for(case, u.lang), "c06", case):
                        rep.count("mismatch_excused")
        # metamorphic: mutants not recorded do nothing
        sel = [p for p in ps if rng.random() < (0.35 if q else 0.7)]

        def unr(p):
            u, opts, fi = p[0], p[1], p[2]
            return p, unreported_fails(u.data(), u, opts)
        for p, bad in pmap(unr, sel):
            rep.count("programs_with_unreported_mutants_enabled")
            if bad and len(rep.violations) < engine.MAXV:
                u = p[0]
                case = dict(what="unreported", idx=u.idx, inputs=u.inputs, opts=list(p[1]))
                engine.report_source(rep, "coverage tracking", u.data(), u.lang, pred_for(case, u.lang), "c06", case)
        for u in us:
            u.free()
    return rep.finish()
