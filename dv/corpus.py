"""Recombinations of the repository's own sample inputs (test/single_file, examples): layout, literal, operator and statement edits."""
import glob, os, random, re
from . import common, batch, layout

_files = None


def files():
    global _files
    if _files is None:
        fs = []
        for ext, lang in (("c", "c"), ("cc", "cxx")):
            for p in sorted(glob.glob(os.path.join(common.REPO, "test", "single_file", "*." + ext))):
                b = common.read(p)
                if lang == "cxx" and re.search(rb"#\s*include\s*<(vector|string|map|iostream|algorithm|sstream|set|optional|functional|regex|memory)>", b):
                    continue
                fs.append((os.path.basename(p), lang, b.decode("utf-8", "replace")))
        ok = common.pmap(lambda f: common.run([common.CLANG if f[1] == "c" else common.CLANGXX, common.STD[f[1]], "-w", "-fsyntax-only",
                                               "-x", "c" if f[1] == "c" else "c++", "-"], inp=f[2]).rc == 0, fs)
        _files = [f for f, o in zip(fs, ok) if o]
    return _files


SWAP = [["+", "-", "*"], ["&", "|", "^"], ["<", ">", "<=", ">=", "==", "!="], ["&&", "||"], ["+=", "-=", "*="], ["&=", "|=", "^="], ["++", "--"]]


def mutate(text, rng):
    ts = layout.tokens(text)
    for _ in range(rng.choice([0, 1, 2, 4])):
        idx = rng.randrange(len(ts))
        k, t = ts[idx]
        if k == "num" and re.fullmatch(r"\d+", t):
            ts[idx] = (k, rng.choice(["0", "1", "2", "3", "7", "0x1F", "10u", "5L", "1"]))
        elif k == "op":
            for g in SWAP:
                if t in g:
                    ts[idx] = (k, rng.choice(g))
        elif k == "id" and t in ("int", "unsigned", "long", "float", "double", "char", "short", "bool"):
            ts[idx] = (k, rng.choice(["int", "unsigned", "long", "float", "double", "char", "short", "unsigned char", "long long"]))
    return "".join(t for _, t in ts)


def units(seed, n):
    fs = files()
    out = []
    if not fs:
        return out
    for i in range(n):
        s = seed * 1000003 + 500000 + i
        rng = random.Random(s)
        name, lang, text = rng.choice(fs)
        text = mutate(text, rng)
        st = layout.pick_style(rng)
        if st:
            text = layout.relayout(text, rng, lang, st)
        out.append(batch.Unit(i, lang, text, {"corpus:" + name} | {"layout:" + x for x in st}, None, s))
    ok = common.pmap(lambda u: common.run([common.CLANG if u.lang == "c" else common.CLANGXX, common.STD[u.lang], "-w", "-fsyntax-only",
                                           "-x", "c" if u.lang == "c" else "c++", "-"], inp=u.data()).rc == 0, out)
    return [u for u, o in zip(out, ok) if o]
