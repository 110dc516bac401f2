"""C10: only the listed, valid, mutable files are modified; failures are reported."""
import json, os, random, shutil, tempfile, threading
from .. import common, engine, batch, multi
from ..common import pmap, write, read
from .c04 import chain_text

RULE = ("a case is one dredd invocation over a generated directory tree (sources, headers with mutable inline code, textually included bodies, unlisted sources, broken, missing and "
        "mutant-free files) with a generated command line (order, repetition, path spelling, options, fixed flags or compilation database); non-trivial: at least one listed file was "
        "rewritten and at least one other file existed that had to stay as it was, or a name was repeated; distinct by seed")

HEADERS = {
    "c": "#ifndef {g}\n#define {g}\nstatic inline int {p}f(int a, int b) {{ int r = a * 3; if (a < b) r += b - 1; while (r > 100) r /= 2; return r; }}\n#define {p}M(x) ((x) + 1)\n#endif\n",
    "cxx": "#pragma once\ntemplate <class T> inline T {p}f(T a, T b) {{ T r = a * 3; if (a < b) r += b - 1; return r; }}\n"
           "inline int {p}g(int a) {{ return a++ + 2; }}\nstruct {p}S {{ int v = 3; int get(int k) const {{ return v * k + 1; }} }};\n#define {p}M(x) ((x) + 1)\n"}
BODY = "  int {p}w = {v} + 2;\n  {p}w *= 3;\n  if ({p}w > 4) {p}w--;\n"
NOMUT = multi.EMPTY + ["typedef int {p}t;\nextern {p}t {p}v;\n", "enum {p}e {{ {p}A = 1 + 2, {p}B = {p}A << 3 }};\n", "int {p}arr[3 * 4] = {{1 + 1, 2 * 2}};\n",
                       "void {p}f(int a, int b) {{ ; }}\n", "#if 0\nint {p}f(int a) {{ return a + 1; }}\n#endif\n", "// int f() {{ return 1 + 2; }}\n"]
NOMUT_CXX = ["constexpr int {p}f(int a) {{ return a + 1; }}\n", "constexpr int {p}k = 3 * 4;\nstatic_assert({p}k == 12);\n", "template <int N> struct {p}s {{ int v[N + 1]; }};\ntemplate struct {p}s<3>;\n",
             "namespace {p}n {{ class A; }}\nusing {p}u = {p}n::A;\n"]
BROKEN = ["int {p}b(int a) {{ return a + ; }}\n", "int {p}b(int a) {{ return undeclared_{p} + a; }}\n", "unknown_{p} v;\n", "#error broken\n", "#include \"no_such_{p}.h\"\n",
          "int {p}b(int a) {{ return a + 1;\n", "}}\n", "int {p}b(int a) {{ break; return a; }}\n", "int {p}b(int a) {{ goto nowhere; return a; }}\n", "#if 1\nint {p}z;\n",
          "int {p}d(int a) {{ return a; }}\nint {p}d(int a) {{ return a * 2; }}\n", "int {p}b(int a) {{ switch (a) {{ case 1: return 2; case 1: return 3; }} return 0; }}\n",
          "int {p}b(void) {{ const int k = 3; k = 4; return k; }}\n", "/* never closed\nint {p}q;\n", "int {p}b(int a) {{ return {p}b(a, 2, 3); }}\n", "_Static_assert(1 == 2, \"no\");\n",
          "int {p}b(int a) {{ struct {p}Inc v; return a; }}\n", "int {p}b(int a) {{ int *q = &(a + 1); return *q; }}\n", "int {p}b(int a) {{ return *a; }}\n", "int 3{p};\n",
          "int {p}b(int a) {{ return a +++++ a; }}\n", "#pragma clang diagnostic error \"-Wunused-variable\"\nint {p}b(int a) {{ int unused; return a + 1; }}\n"]
BROKEN_CXX = ["template <class T> int {p}t(T v) {{ return v.nope() + 1; }}\nint {p}u(int a) {{ return {p}t(a); }}\n", "struct {p}N {{ {p}N(const {p}N&) = delete; {p}N(); }};\n{p}N {p}m(const {p}N& a) {{ return a; }}\n",
              "static_assert(sizeof(int) == 3, \"no\");\n", "int {p}b(int a) {{ return static_cast<int*>(a) != 0; }}\n", "constexpr int {p}k(int a) {{ return a / 0; }}\nconstexpr int {p}l = {p}k(1);\n"]
WARNS = ["int {p}w(int a) {{ int unused = a + 1; return a * 2; }}\n", "int {p}w(unsigned a, int b) {{ if (a < b) return 1; return 2; }}\n", "#warning look here\nint {p}w(int a) {{ return a - 1; }}\n",
         "int {p}w(int a) {{ if (a = 3) return 1; return a + 2; }}\n", "static int {p}nouse(int a) {{ return a + 1; }}\n", "int {p}w(int a) {{ while (a > 0) a--; }}\n"]


class Case:
    def __init__(self):
        self.files = {}      # path -> bytes
        self.links = {}      # directory symlinks
        self.listed = []     # canonical paths, in command-line order, with repetition
        self.spell = []      # the spelling used for each
        self.flags, self.opts, self.info, self.db, self.cwd = [], [], True, None, ""
        self.ro = []         # directories dredd may not write to (it then runs as an unprivileged user)
        self.badinfo = None  # an info file that cannot be written
        self.must, self.mustnot = set(), set()
        self.seed = 0

    def dump(self):
        return dict(paths=sorted(self.files), links=self.links, listed=self.listed, spell=self.spell, flags=self.flags, opts=self.opts, info=self.info, db=self.db, cwd=self.cwd,
                    must=sorted(self.must), mustnot=sorted(self.mustnot), seed=self.seed, ro=self.ro, badinfo=self.badinfo)

    @staticmethod
    def load(j, files):
        c = Case()
        for k in ("links", "listed", "spell", "flags", "opts", "info", "db", "cwd", "seed"):
            setattr(c, k, j[k])
        c.ro, c.badinfo = j.get("ro", []), j.get("badinfo")
        c.must, c.mustnot, c.files = set(j["must"]), set(j["mustnot"]), files
        return c

    def place(self):
        root = common.newdir("tree")
        t = os.path.join(root, "t")
        for d in ("src", "src/sub", "inc", "other", "work"):
            os.makedirs(os.path.join(t, d), exist_ok=True)
        for p, b in self.files.items():
            q = os.path.join(t, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            write(q, b)
        if self.ro:
            os.chmod(root, 0o777)
            for d, ds, fs in os.walk(t):
                os.chmod(d, 0o555 if os.path.relpath(d, t) in self.ro else 0o777)
                for f in fs:
                    os.chmod(os.path.join(d, f), 0o644)
        for l, to in self.links.items():
            os.symlink(to, os.path.join(t, l))
        if self.db is not None:
            write(os.path.join(t, "compile_commands.json"), json.dumps([
                {"directory": os.path.join(t, e["dir"]), "file": self.dbname(t, e), "arguments": ["cc", "-c"] + self.allflags() + e["extra"] + [self.dbname(t, e)]} for e in self.db]))
        return root, t

    @staticmethod
    def dbname(t, e):
        return os.path.join(t, e["file"]) if e["abs"] else os.path.relpath(os.path.join(t, e["file"]), os.path.join(t, e["dir"]))

    def allflags(self):
        return list(self.flags) + ["-I" + common.HDIR, "-fbracket-depth=2048"]

    def valid(self, t, p):
        q = os.path.join(t, p)
        if not os.path.isfile(q):
            return False
        cxx = p.endswith(".cc")
        extra = []
        if self.db is not None:
            extra = [e for e in self.db if e["file"] == p][0]["extra"]
        return common.run([common.CLANGXX if cxx else common.CLANG, "-fsyntax-only"] + self.allflags() + extra + [q], cwd=t).rc == 0

    def execute(self, names, spell, t, root):
        j = os.path.join(root, "info.json")
        cmd = ([common.dredd_bin()] if not self.ro else unprivileged() + [public_dredd()]) + list(self.opts)
        if self.badinfo:
            cmd += ["--mutation-info-file", self.badinfo]
        elif self.info:
            cmd += ["--mutation-info-file", j]
        cwd = os.path.join(t, self.cwd)
        args = [s.replace("@", t) if s.startswith("@") else os.path.relpath(os.path.join(t, s), cwd) if s == n else s for n, s in zip(names, spell)]
        if self.db is not None:
            cmd += ["-p", t] + args
        else:
            cmd += args + ["--"] + self.allflags()
        r = common.run(cmd, cwd=cwd)
        return r, (read(j).decode("utf-8", "replace") if self.info and os.path.exists(j) else None)


def unprivileged():
    return ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"]


_public = {}
_lock = threading.Lock()


def public_dredd():
    """A copy of dredd that an unprivileged user can run; None if there is no way to run it as such a user."""
    with _lock:
        if "p" not in _public:
            d = common.newdir("pub")
            q = os.path.join(d, "dredd")
            shutil.copy(common.dredd_bin(), q)
            os.chmod(q, 0o755)
            os.makedirs(os.path.join(d, "w"))
            x = d
            while x.startswith("/tmp/") or x.startswith(tempfile.gettempdir() + "/"):
                os.chmod(x, os.stat(x).st_mode | 0o011 | 0o044)
                x = os.path.dirname(x)
            f = write(os.path.join(d, "w", "a.c"), b'#include <stdio.h>\n#include "h.h"\nint f(int a) { return a + 1; }\n')
            os.chmod(os.path.dirname(f), 0o777)
            r = common.run(unprivileged() + [q, "--mutation-info-file", os.path.join(d, "w", "i.json"), f, "--", "-w", "-I" + common.HDIR])
            _public["p"] = q if r.rc == 0 and b"__dredd" in read(f) else None
    return _public["p"]


def snapshot(t):
    out = {}
    for d, ds, fs in os.walk(t):
        for x in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, x)
            out[os.path.relpath(p, t)] = ("link", os.readlink(p)) if os.path.islink(p) else ("file", read(p))
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), t) + "/"] = ("dir", "")
    return out


def spelled(rng, c, p):
    """A spelling of canonical path p, valid from c.cwd."""
    k = rng.random()
    if k < 0.35:
        return p
    if k < 0.55:
        return "@/" + p
    d, b = os.path.split(p)
    if k < 0.65:
        return "@/" + d + "//" + b
    if k < 0.75:
        return "@/" + d + "/./" + b
    if k < 0.9 or not c.links:
        return "@/" + d + "/../" + d + "/" + b if "/" not in d else "@/" + d + "/../sub/" + b
    if d == "src":
        return "@/lnk/" + b
    return "@/./" + p


def make(seed):
    rng = random.Random(seed)
    c = Case()
    c.seed = seed
    langs = rng.choice([["c"], ["cxx"], ["c", "cxx"]])
    c.opts = list(rng.choice([(), (), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--no-mutation-opts", "--only-track-mutant-coverage")]))
    c.info = rng.random() < 0.7
    c.flags = rng.choice([["-w"], ["-w"], ["-Wall", "-Wextra"], ["-Wall", "-Werror"], ["-w", "-ferror-limit=1"], ["-w", "-DEXTRA=1"]])
    c.cwd = rng.choice(["", "", "src", "work"])
    if rng.random() < 0.5:
        c.links["lnk"] = "src"
    hs = {l: [] for l in langs}
    for l in langs:
        for k in range(rng.choice([0, 1, 1, 2])):
            p = "inc/h%d_%s.%s" % (k, l, rng.choice(["h", "hpp"]) if l == "cxx" else "h")
            c.files[p] = HEADERS[l].format(g="G%d_%s" % (k, l), p="h%d%s_" % (k, l)).encode()
            hs[l].append((p, "h%d%s_" % (k, l)))
    names = []
    n = rng.choice([1, 2, 3, 3, 4, 5, 6])
    for j in range(n):
        l = rng.choice(langs)
        d = rng.choice(["src", "src", "src/sub"])
        stem = rng.choice(["f%d" % j, "f%d" % j, "main", "a b%d" % j, "x.y%d" % j, "Ünï%d" % j])
        p = "%s/%s.%s" % (d, stem, common.EXT[l])
        if p in names:
            p = "%s/g%d.%s" % (d, j, common.EXT[l])
        pre = "z%d_" % j
        kind = rng.choices(["good", "nomut", "broken", "brokeninc", "missing", "warn", "include", "hdronly"], [40, 14, 14, 4, 3, 6, 8, 5])[0]
        names.append(p)
        inc = "".join('#include "%s"\n' % os.path.relpath(h, d) for h, _ in hs[l] if rng.random() < 0.6)
        good = chain_text(rng, j, rng.choice([1, 2, 7]), l) if rng.random() < 0.5 else batch.make_units(seed * 7 + j, 1, langs=(l,), base=j, size=0.4)[0].text
        good = good if isinstance(good, bytes) else good.encode("utf-8", "surrogateescape")
        if kind == "good":
            c.files[p] = inc.encode() + good
            c.must.add(p)
        elif kind == "nomut":
            c.files[p] = rng.choice(NOMUT + (NOMUT_CXX if l == "cxx" else [])).format(p=pre).encode()
            c.mustnot.add(p)
        elif kind == "hdronly":
            c.files[p] = (inc + "int %sd;\n" % pre).encode()
            c.mustnot.add(p)
        elif kind == "warn":
            c.files[p] = inc.encode() + rng.choice(WARNS).format(p=pre).encode()
            c.must.add(p)
        elif kind == "broken":
            b = rng.choice(BROKEN + (BROKEN_CXX if l == "cxx" else [])).format(p=pre).encode()
            k = rng.random()
            c.files[p] = b if k < 0.3 else good + b if k < 0.8 else b + good
        elif kind == "brokeninc":
            b = rng.choice(BROKEN).format(p=pre)
            c.files["inc/bad%d.h" % j] = b.encode()
            c.files[p] = ('#include "%s"\n' % os.path.relpath("inc/bad%d.h" % j, d)).encode() + good
        elif kind == "include":
            q = rng.choice(["src/body%d.inc" % j, "other/body%d.%s" % (j, common.EXT[l])])
            c.files[q] = BODY.format(p=pre, v="a").encode() if q.endswith(".inc") else b"static int %sin(int a) { return a * 2 + 1; }\n" % pre.encode()
            if q.endswith(".inc"):
                c.files[p] = ("int %sk(int a) {\n#include \"%s\"\n  return a + %sw;\n}\n" % (pre, os.path.relpath(q, d), pre)).encode()
                c.must.add(p)
            else:
                mut = rng.random() < 0.6
                c.files[p] = ('#include "%s"\n' % os.path.relpath(q, d) + ("int %sk(int a) { return %sin(a) - 1; }\n" % (pre, pre) if mut else "int %sk;\n" % pre)).encode()
                (c.must if mut else c.mustnot).add(p)
    # unlisted sources beside the listed ones
    for j in range(rng.choice([0, 1, 2])):
        p = "src/unlisted%d.%s" % (j, rng.choice(["c", "cc"]))
        c.files[p] = b"int q%d(int a) { a += 3; return a * 2; }\n" % j
    if rng.random() < 0.3:
        c.files["src/f0.c.orig"] = b"int q(int a) { return a + 1; }\n"
    listed = list(names)
    rng.shuffle(listed)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        listed.insert(rng.randrange(len(listed) + 1), rng.choice(listed))
    c.listed = listed
    c.spell = [spelled(rng, c, p) for p in listed]
    if rng.random() < 0.12:
        c.badinfo, c.info = rng.choice(["/nonexistent-dir/i.json", "/dev/full", "."]), False
    if rng.random() < 0.15 and public_dredd():
        c.ro = rng.choice([["src/sub"], ["src"], ["src/sub", "other"]])
        c.badinfo = None
    if rng.random() < 0.3:
        c.db = []
        # clang's tooling library caches files by name, so relative names of headers, or equal ones of sources, from several directories are confused
        alone = all(p in names or b"#include" not in b for p, b in c.files.items()) and not any(b'#include "..' in b or b'#include "body' in b for b in c.files.values())
        one = rng.random() < 0.5
        for p in names:
            e = {"file": p, "dir": "" if one else rng.choice(["", os.path.dirname(p), "work"]), "abs": rng.random() < 0.4 or not (one or alone) or os.path.basename(p).startswith("main."), "extra": []}
            c.db.append(e)
            if rng.random() < 0.25:
                c.db.append(dict(e, extra=["-DAGAIN=1"]))
        # naming a file by another spelling is not something a compilation database supports
        c.spell = [p if rng.random() < 0.5 else "@/" + p for p in listed]
    return c


def would_change(c, p):
    c2 = Case.load(dict(c.dump(), cwd="", ro=[], badinfo=None, db=c.db and [dict(e, dir="", abs=True) for e in c.db if e["file"] == p][:1]), c.files)
    root, t = c2.place()
    b = snapshot(t).get(p)
    c2.execute([p], ["@/" + p], t, root)
    a = snapshot(t).get(p)
    shutil.rmtree(root, ignore_errors=True)
    return a != b


def judge(c, facts=None):
    root, t = c.place()
    before = snapshot(t)
    uniq = list(dict.fromkeys(c.listed))
    ok = {p: c.valid(t, p) for p in uniq}
    # a file that would be rewritten, in a directory where dredd may not write
    for p in uniq:
        if ok[p] and os.path.dirname(p) in c.ro and (p in c.must or would_change(c, p)):
            ok[p] = False
    r, info = c.execute(c.listed, c.spell, t, root)
    after = snapshot(t)
    if facts is not None:
        facts["changed"] = [p for p in uniq if after.get(p) != before.get(p)]
        facts["bad"] = [p for p in uniq if not ok[p]]
        facts["repeated"] = len(c.listed) != len(uniq)
    extra = sorted(set(os.listdir(root)) - {"t", "info.json"})
    text = r.out + r.err
    if r.timeout:
        return "dredd does not terminate"
    if r.rc not in (0, 1):
        return "dredd ends abnormally (%d)" % r.rc
    new = sorted(set(after) - set(before)) + extra
    gone = sorted(set(before) - set(after))
    if new or gone:
        return "files appeared or disappeared: %s %s" % (new[:3], gone[:3])
    for p in before:
        if p not in uniq and before[p] != after[p]:
            return "%s is not on the command line but was modified" % p
    for p in uniq:
        if not ok[p]:
            if p in before and before[p] != after[p]:
                return "%s does not compile or cannot be written but was modified" % p
            nm = os.path.basename(p)
            if nm not in text:
                return "%s does not compile, exist or cannot be written but is not named in the output" % p
            if p in before:
                tail = text[text.rfind("following files were not mutated"):] if "following files were not mutated" in text else ""
                if nm not in tail:
                    return "%s does not compile or cannot be written but is missing from the list of files that were not mutated" % p
        else:
            tail = text[text.rfind("following files were not mutated"):].splitlines()[1:] if "following files were not mutated" in text else []
            if any(os.path.normpath(os.path.join(t, l.strip())) == os.path.join(t, p) for l in tail if l.startswith("  /")):
                return "%s compiles but is listed as not mutated" % p
    if c.badinfo and r.rc == 0:
        return "exit status 0 although the info file %s cannot be written" % c.badinfo
    if not c.badinfo and all(ok.values()) != (r.rc == 0):
        return "exit status %d although %s" % (r.rc, "every file compiles" if all(ok.values()) else "not every file compiles or can be written")
    for p in uniq:
        if ok[p]:
            ch = before[p] != after[p]
            if p in c.must and not ch:
                return "%s compiles and has mutable code but was not instrumented" % p
            if p in c.mustnot and ch:
                return "%s has nothing to mutate but was modified" % p
    # the reference: the valid files only, each named once
    good = [p for p in uniq if ok[p]]
    if c.info:
        if info is None:
            return "no mutation info file was written"
        try:
            es = json.loads(info).get("infoForFiles", [])
        except ValueError:
            return "the mutation info file is not valid JSON"
        ch = [p for p in good if before[p] != after[p]]
        if [os.path.basename(e["filename"]) for e in es] != [os.path.basename(p) for p in ch]:
            return "the info file describes %s but the files instrumented are %s" % ([e["filename"] for e in es], ch)
    if good:
        c2 = Case.load(dict(c.dump(), cwd="", ro=[], badinfo=None), c.files)
        if c.db is not None:
            seen = set()
            c2.db = [dict(e, dir="", abs=True) for e in c.db if not (e["file"] in seen or seen.add(e["file"]))]
        root2, t2 = c2.place()
        r2, info2 = c2.execute(good, ["@/" + p for p in good], t2, root2)
        if r2.rc:
            return "dredd fails (%d) on the files that compile" % r2.rc
        after2 = snapshot(t2)
        for p in good:
            if after[p] != after2[p]:
                return "%s is not instrumented as it is when only the %d valid files are named, once each" % (p, len(good))
        if c.info:
            a, b = (json.loads(x).get("infoForFiles", []) for x in (info, info2))
            for x in a + b:
                x["filename"] = os.path.basename(x["filename"])
            if a != b:
                return "the info file is not the one for the valid files only, once each"
        shutil.rmtree(root2, ignore_errors=True)
    shutil.rmtree(root, ignore_errors=True)
    return None


def category(bad):
    return " ".join(w for w in bad.split() if "/" not in w and not w[-1:].isdigit())[:40]


def shrink(c, budget, first):
    import time
    end = time.time() + budget

    def attempt(d, files=None):
        c2 = Case.load(d, files if files is not None else c.files)
        try:
            b = judge(c2)
            return c2 if b and category(b) == category(first) else None
        except (common.CheckError, OSError, IndexError):
            return None
    changed = True
    while changed and time.time() < end:
        changed = False
        base = c.dump()
        for i in range(len(c.listed)):
            d = dict(base, listed=c.listed[:i] + c.listed[i + 1:], spell=c.spell[:i] + c.spell[i + 1:])
            if d["listed"]:
                x = attempt(d)
                if x:
                    c, changed = x, True
                    break
        if changed:
            continue
        for p in list(c.files):
            if p not in c.listed:
                fs = dict(c.files)
                del fs[p]
                x = attempt(base, fs)
                if x:
                    c, changed = x, True
                    break
        for d in (dict(base, db=None), dict(base, opts=[]), dict(base, ro=[]), dict(base, badinfo=None), dict(base, cwd=""), dict(base, info=False), dict(base, flags=["-w"]), dict(base, links={}), dict(base, spell=list(c.listed))):
            if d != base and time.time() < end:
                x = attempt(d)
                if x:
                    c, changed = x, True
                    break
    for p in list(c.files):
        if c.ro:
            continue
        if p in c.must or p in c.mustnot:
            # known to be mutable (or not) only as generated
            if "was not instrumented" in first or "nothing to mutate" in first:
                continue
            c.must.discard(p)
            c.mustnot.discard(p)
        lines = c.files[p].splitlines(True)
        step = len(lines) // 2
        while step >= 1 and time.time() < end:
            i = 0
            while i < len(lines) and time.time() < end:
                cand = lines[:i] + lines[i + step:]
                x = attempt(c.dump(), dict(c.files, **{p: b"".join(cand)}))
                if x:
                    c, lines = x, cand
                else:
                    i += step
            step //= 2
    return c


def report(rep, c):
    bad = judge(c)
    if not bad:
        rep.count("unconfirmed")
        return
    c = shrink(c, 40 if common.TIER == "quick" else 100, bad)
    bad = judge(c) or bad
    fs = {"tree_%d" % i: c.files[p] for i, p in enumerate(sorted(c.files))}
    fs["case.json"] = engine.case_json(kind="c10", **c.dump())
    rep.violation("files and failures: %s (files %s, order %s)" % (bad, sorted(c.files), c.spell), fs)


def pred_for(case, lang):
    import sys
    files = {p: read(os.path.join(sys.argv[3], "tree_%d" % i)) for i, p in enumerate(case["paths"])}
    return lambda _: judge(Case.load(case, files))


def main():
    rep = common.Report("C10", RULE)
    for k in engine.rounds(rep):
        def one(i):
            c = make(engine.rseed(k, 10) * 1021 + i)
            facts = {}
            return c, judge(c, facts), facts
        for c, bad, f in pmap(one, range(96)):
            nt = f["changed"] and (f["repeated"] or set(c.files) - set(f["changed"]))
            rep.case(c.seed if nt else None)
            rep.count("listed files", len(set(c.listed)))
            rep.count("files rewritten", len(f["changed"]))
            rep.count("files that do not compile", len(f["bad"]))
            rep.count("invocations with repeated names", int(f["repeated"]))
            rep.count("invocations through a compilation database", int(c.db is not None))
            if nt and f["bad"]:
                rep.sample({"files": {p: len(b) for p, b in c.files.items()}, "command line": c.spell, "flags": c.flags, "options": c.opts, "rewritten": f["changed"], "failing": f["bad"]})
            if bad and len(rep.violations) < engine.MAXV:
                report(rep, c)
    return rep.finish()
