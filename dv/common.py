"""Building dredd from /repo, running compilers and instrumented programs, evidence and reporting."""
import atexit, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
CACHE = os.environ.get("DV_CACHE", os.path.join(ROOT, ".cache"))
HDIR = os.path.join(ROOT, "dv")
CLANG, CLANGXX = "/usr/bin/clang-17", "/usr/bin/clang++-17"
NPROC = os.cpu_count() or 4
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

BASE = ["-w", "-O0", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing", "-ftrivial-auto-var-init=zero",
        "-fbracket-depth=2048"]
COV = ["-fsanitize-coverage=trace-pc"]
UB = ["-fsanitize=shift-exponent,integer-divide-by-zero,bounds,float-cast-overflow,return,null,unreachable,bool,enum,alignment,array-bounds,vla-bound,nonnull-attribute",
      "-fsanitize-trap=all", "-DH_REF"]
STD = {"c": "-std=gnu11", "cxx": "-std=c++20"}
EXT = {"c": "c", "cxx": "cc"}


class CheckError(Exception):
    """The check itself could not run (never reported as a violation)."""


_scratch = None
_slock = threading.Lock()


def scratch():
    global _scratch
    with _slock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="dv-")
            if not os.environ.get("DV_KEEP"):
                atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_ctr = 0
_lock = threading.Lock()


def newdir(tag="d"):
    global _ctr
    with _lock:
        _ctr += 1
        n = _ctr
    d = os.path.join(scratch(), "%s%d" % (tag, n))
    os.makedirs(d)
    return d


class Proc:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, timeout=120, cwd=None, env=None, inp=None, text=True):
    e = dict(os.environ)
    e.pop("DREDD_ENABLED_MUTATION", None)
    e.pop("DREDD_MUTANT_TRACKING_FILE", None)
    if env:
        e.update(env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    except OSError as ex:
        raise CheckError("cannot run %s: %s" % (cmd[0], ex))
    try:
        o, er = p.communicate(inp.encode() if isinstance(inp, str) else inp, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        to = True
    if text:
        o, er = o.decode("utf-8", "replace"), er.decode("utf-8", "replace")
    return Proc(p.returncode, o, er, to)


def pmap(f, xs, n=None):
    xs = list(xs)
    if not xs:
        return []
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(f, xs))


# ---------------------------------------------------------------- dredd
def tree_hash():
    h = hashlib.sha256()
    paths = []
    for sub in ("src", "third_party", "CMakeLists.txt"):
        p = os.path.join(REPO, sub)
        if os.path.isfile(p):
            paths.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                if d.startswith(os.path.join(REPO, "third_party")) and not f.endswith((".txt", ".cmake")):
                    continue
                paths.append(os.path.join(d, f))
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


_dredd = None


def dredd_bin():
    """Builds dredd from the current working tree of /repo (cached by content)."""
    global _dredd
    if _dredd:
        return _dredd
    key = tree_hash()
    os.makedirs(CACHE, exist_ok=True)
    bd = os.path.join(CACHE, "dredd-" + key)
    exe = os.path.join(bd, "dredd")
    if not os.path.exists(exe):
        # keep the cache small
        old = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith("dredd-")), key=os.path.getmtime)
        for o in old[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="b-", dir=CACHE)
        try:
            cfg = ["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=", "-DCMAKE_C_COMPILER=" + CLANG,
                   "-DCMAKE_CXX_COMPILER=" + CLANGXX, "-DCMAKE_CXX_FLAGS=-O0 -g0 -w", "-DDREDD_CLANG_LLVM_DIR=/usr/lib/llvm-17",
                   "-DCMAKE_PROJECT_dredd_INCLUDE=/opt/vp/system-deps.cmake", "-DDREDD_WARNINGS_AS_ERRORS=OFF",
                   "-DDREDD_WARNINGS_EXTRA=OFF", "-DDREDD_BUILD_TESTING=OFF"]
            p = run(cfg, timeout=300)
            if p.rc:
                raise CheckError("cmake failed: " + (p.out + p.err)[-2000:])
            p = run(["ninja", "-C", tmp, "dredd"], timeout=800)
            if p.rc:
                raise CheckError("dredd does not build: " + (p.out + p.err)[-3000:])
            fin = tempfile.mkdtemp(prefix="f-", dir=CACHE)
            shutil.move(os.path.join(tmp, "src", "dredd", "dredd"), os.path.join(fin, "dredd"))
            try:
                os.rename(fin, bd)
            except OSError:
                shutil.rmtree(fin, ignore_errors=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(exe):
        raise CheckError("no dredd binary")
    _dredd = exe
    return exe


def std_flags(lang):
    return [STD[lang], "-I" + HDIR]


def dredd(files, lang="c", opts=(), info=None, flags=None, cwd=None, timeout=120):
    """Runs dredd in place on the given files."""
    cmd = [dredd_bin()] + list(opts)
    if info:
        cmd += ["--mutation-info-file", info]
    cmd += list(files) + ["--"] + (flags if flags is not None else std_flags(lang) + ["-w", "-fbracket-depth=2048"])
    return run(cmd, timeout=timeout, cwd=cwd)


# ---------------------------------------------------------------- compiling
_pch = {}
_pchlock = threading.Lock()
PCH_HEADERS = ["atomic", "cinttypes", "cstddef", "fstream", "functional", "sstream", "string", "initializer_list"]


def pch(extra=()):
    key = tuple(extra)
    with _pchlock:
        if key not in _pch:
            d = newdir("pch")
            h = os.path.join(d, "p.hh")
            with open(h, "w") as f:
                for x in PCH_HEADERS:
                    f.write("#include <%s>\n" % x)
            p = run([CLANGXX, "-x", "c++-header", STD["cxx"]] + BASE + list(extra) + [h, "-o", h + ".pch"])
            if p.rc:
                raise CheckError("pch: " + p.err[-500:])
            _pch[key] = h + ".pch"
    return _pch[key]


def compile_obj(src, obj, lang, flags=(), use_pch=False, timeout=300):
    cmd = [CLANG if lang == "c" else CLANGXX, STD[lang], "-I" + HDIR] + BASE + list(flags)
    if use_pch and lang == "cxx":
        cmd += ["-include-pch", pch()]
    return run(cmd + ["-c", src, "-o", obj], timeout=timeout)


_driver = None


def driver_obj():
    global _driver
    with _pchlock:
        if _driver is None:
            d = newdir("drv")
            o = os.path.join(d, "driver.o")
            p = run([CLANG, "-O1", "-w", "-c", os.path.join(HDIR, "driver.c"), "-o", o])
            if p.rc:
                raise CheckError("driver: " + p.err)
            _driver = o
    return _driver


def write(path, text):
    mode = "wb" if isinstance(text, bytes) else "w"
    with open(path, mode) as f:
        f.write(text)
    return path


def read(path):
    with open(path, "rb") as f:
        return f.read()


def table(d, names):
    s = "".join("long long %s(int, unsigned, long long, double);\n" % n for n in names)
    s += "typedef long long (*h_entry_t)(int, unsigned, long long, double);\nh_entry_t h_units[] = {%s};\nint h_nunits = %d;\n" % (", ".join(names) or "0", len(names))
    p = write(os.path.join(d, "tab.c"), s)
    o = os.path.join(d, "tab.o")
    r = run([CLANG, "-w", "-O0", "-c", p, "-o", o])
    if r.rc:
        raise CheckError("table: " + r.err[-500:])
    return o


def link(objs, exe, cxx=True, flags=()):
    return run([CLANGXX if cxx else CLANG] + list(flags) + list(objs) + ["-o", exe, "-lpthread", "-lm"])


class Result:
    """Outcome of one job: list of (status, n, hash) per input, plus signal/exit code."""
    __slots__ = ("sig", "code", "ins", "hits", "fuel", "dump", "obs")

    def __init__(self, line):
        t = line.split()
        self.sig, self.code = int(t[2]), int(t[3])
        self.ins, self.hits, self.fuel, self.dump = [], set(), [], None
        self.obs = []
        for x in t[4:]:
            if x[0] == "H":
                self.hits = set(int(y) for y in x[1:].split(","))
            elif x[0] == "O":
                self.obs = [tuple(map(int, y.split("="))) for y in x[1:].split(",")]
            elif x[0] == "D":
                self.dump = x[1:]
            else:
                a = x.split(":")
                self.ins.append((int(a[0]), int(a[1]), a[2]))
                self.fuel.append(int(a[3]))

    def ok(self):
        return self.sig == 0 and self.code == 0 and all(x[0] == 1 for x in self.ins)


def run_jobs(exe, inputs, jobs, timeout=600, shards=NPROC, fuel=None, dump=False):
    """inputs: {unit: [(a,b,c,d)]}; jobs: [(id, unit, {env})]. Returns {id: Result}."""
    d = newdir("jobs")
    head = "".join("I %d %d %d %d %r\n" % ((u,) + tuple(x)) for u, xs in inputs.items() for x in xs)
    n = max(1, min(shards, (len(jobs) + 3) // 4))
    out = {}

    def one(k):
        js = jobs[k::n]
        p = write(os.path.join(d, "j%d" % k), head + "".join(
            "J %d %d %s\n" % (i, u, "\x01".join("%s=%s" % kv for kv in env.items())) for i, u, env in js))
        r = run([exe, p] + (["dump"] if dump else []), timeout=timeout, env={"H_FUEL": str(fuel)} if fuel else None)
        res = {}
        for l in r.out.splitlines():
            if l.startswith("R "):
                res[int(l.split()[1])] = Result(l)
        return res
    for res in pmap(one, range(n)):
        out.update(res)
    shutil.rmtree(d, ignore_errors=True)
    return out


def make_inputs(rng, n=6):
    def i32():
        return rng.choice([0, 1, -1, 2, 3, 7, rng.randint(-20, 20), rng.randint(-2**31, 2**31 - 1), 2**31 - 1, -2**31])

    def one():
        return (i32(), i32() & 0xffffffff, rng.choice([i32(), rng.randint(-2**62, 2**62), 0, 5]),
                rng.choice([0.0, 1.0, -1.0, 0.5, 2.25, 7.75, -3.5, float(rng.randint(-50, 50))]))
    xs = [(3, 5, 7, 1.5)]
    while len(xs) < n:
        xs.append(one())
    return xs


# ---------------------------------------------------------------- reporting
def budget():
    """Seconds of exploration for this tier."""
    v = os.environ.get("DV_BUDGET")
    if v:
        return float(v)
    return 60.0 if TIER == "quick" else 420.0


class Report:
    def __init__(self, prop, rule, level="exploration"):
        self.prop, self.rule, self.level = prop, rule, level
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.cov = {}
        self.violations = []
        self.assumptions = []
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "open"]
        self.known_hit = {}

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def case(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.nontrivial.add(key if isinstance(key, (str, int)) else hash(key))

    def sample(self, s, maxn=4):
        if len(self.samples) < maxn:
            self.samples.append(s)

    def violation(self, what, files, note=""):
        """files: {name: text}. Writes a replay directory and records the violation."""
        d = os.path.join(ROOT, "replays", "%s-%d" % (self.prop, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, t in files.items():
            write(os.path.join(d, n), t)
        write(os.path.join(d, "README.txt"), "property %s\nseed %d tier %s\n\n%s\n%s\n" % (self.prop, SEED, TIER, what, note))
        self.violations.append((what, d))
        sys.stderr.write("violation: %s\n" % what)

    def finish(self):
        self.cov["known_findings"] = {}
        for k in self.known:
            d = reproduces(k)
            self.cov["known_findings"][k.get("repro", "?")] = d or "no longer reproduces"
            if d:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.nontrivial), rule=self.rule, samples=self.samples or ["none"])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, d in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(d, ROOT)))
            print("  " + what.replace("\n", "\n  ")[:1500])
        sys.stdout.flush()
        return 1 if self.violations else 0


def reproduces(k):
    """Does a listed open finding still fail? (Its reproducer is run against the current tree.)"""
    from . import oracle
    p = os.path.join(ROOT, k["repro"])
    lang = "c" if p.endswith(".c") else "cxx"
    if k["oracle"] == "behaviour":
        return oracle.behaviour_failure(read(p), lang, "u0_entry", [(3, 5, 7, 1.5), (1, 2, 3, 4.0)], k["opts"], k.get("env"))
    if k["oracle"] == "validity":
        return oracle.validity_failure(read(p), lang, k["opts"], k.get("dialect", ()))
    if k["oracle"] == "fopen":
        from .checks import c06
        return c06.unopenable(read(p), lang, k["opts"])
    if k["oracle"] == "strtok_threads":
        from .checks import c11
        return c11.strtok_shared(read(p), lang, k["opts"])
    if k["oracle"] == "constants":
        from .checks import c12
        return c12.evaluate(read(p), lang, 0, tuple(k["opts"]))
    raise CheckError("unknown oracle " + k["oracle"])


def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out
