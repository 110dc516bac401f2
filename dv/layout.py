"""Rewrites the layout of generated sources without changing their token sequence: spacing, comments, line ends, alternative tokens, splices."""
import re

TOK = re.compile(r'''
 (?P<nl>\r?\n)|(?P<ws>[ \t\v\f]+|\\\n)|(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)
|(?P<raw>(?:u8|u|U|L)?R"(?P<d>[^()\\\s]*)\(.*?\)(?P=d)"\w*)
|(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*"\w*)|(?P<chr>(?:u8|u|U|L)?'(?:\\.|[^'\\\n])+'\w*)
|(?P<id>(?:[^\W\d]|\$)[\w$]*)|(?P<num>\.?\d(?:[eEpP][+-]|'?[\w.])*)
|(?P<op><=>|<<=|>>=|\.\.\.|->\*|\+\+|--|->|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|::|\#\#|\.\*|.)
''', re.X | re.S)

ALT = {"&&": "and", "||": "or", "!": "not", "&": "bitand", "|": "bitor", "^": "xor", "~": "compl", "&=": "and_eq", "|=": "or_eq", "^=": "xor_eq",
       "!=": "not_eq"}
DIG = {"{": "<%", "}": "%>"}


def tokens(text):
    """[(kind, text)]; preprocessor directives are one token of kind 'pp'."""
    out, i, bol = [], 0, True
    n = len(text)
    while i < n:
        if bol and text[i] in " \t#":
            m = re.compile(r"[ \t]*#(?:\\\r?\n|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|//(?:\\\r?\n|[^\n])*|/\*.*?\*/|[^\n])*", re.S).match(text, i)
            if m:
                out.append(("pp", m.group()))
                i = m.end()
                bol = False
                continue
        m = TOK.match(text, i)
        k = m.lastgroup if m.lastgroup != "d" else "raw"
        out.append((k, m.group()))
        bol = k == "nl" or (bol and k == "ws")
        i = m.end()
    return out


def can_join(a, b):
    """May tokens a and b be written without whitespace between them?"""
    (ka, ta), (kb, tb) = a, b
    if "pp" in (ka, kb):
        return False
    lits = ("str", "chr", "raw", "num")
    word = ("id",) + lits
    if ka in word and kb in word:
        return False
    if ka == "op" and kb == "op":
        safe = set("(){}[];,?")
        if ta in safe or tb in safe:
            return not (ta == "[" and tb == "[") and not (ta == "]" and tb == "]")
        return False
    if ka == "num" and tb[0] in "+-.":
        return False
    if kb == "num" and ta in ("+", "-", "."):
        return ta != "." and not tb.startswith(".")
    return ta not in ("#", "##") and tb not in ("#", "##")


COMMENTS = ["/**/", "/* c */", "/* a; b } */", "/* \u00e9\u4e2d */", "/* // */"]


def relayout(text, rng, lang, style):
    """style: set of 'tight', 'loose', 'crlf', 'nofinal', 'alt', 'dig', 'splice'."""
    ts = tokens(text)
    alt = "alt" in style and lang == "cxx"
    out = []
    # group into significant tokens with the gap before each
    sig = []
    gap = ""
    for k, t in ts:
        if k in ("ws", "nl", "lc", "bc"):
            gap += t
        else:
            sig.append([gap, k, t])
            gap = ""
    tail = gap
    prev = None
    for g, k, t in sig:
        if k == "op":
            if alt and t in ALT and rng.random() < .35:
                t = ALT[t]
                k2 = "id"
            elif "dig" in style and t in DIG and rng.random() < .3:
                t, k2 = DIG[t], "op"
            else:
                k2 = k
            if "splice" in style and k2 == "op" and len(t) > 1 and t not in ("->", "<%", "%>") and rng.random() < .2:
                t = t[0] + "\\\n" + t[1:]
        else:
            k2 = k
        cur = (k2, t)
        if prev is not None and (prev[0] == "pp" or k == "pp"):
            pass                                    # directives keep their lines
        elif prev is not None:
            if g and not g.strip() and "tight" in style and can_join(prev[:2], cur) and rng.random() < .8:
                g = ""
            elif "loose" in style and rng.random() < .25:
                g += rng.choice([" ", "\t", "\n", "  \n  ", " // x\n", "\n\n"] + [" %s " % c for c in COMMENTS])
            elif "splice" in style and g and rng.random() < .05:
                g += "\\\n"
            if not g and (k2 != k or prev[2]) and not can_join(prev[:2], cur):
                g = " "                             # a respelled token must not merge with its neighbour
        out.append(g + t)
        prev = (k2, t, k2 != k)
    s = "".join(out) + tail
    if "crlf" in style:
        s = s.replace("\r\n", "\n").replace("\n", "\r\n")
    if "nofinal" in style:
        s = s.rstrip("\r\n\t ")
    return s


def pick_style(rng):
    r = rng.random()
    if r < .35:
        return set()
    st = set()
    if r < .65:
        st.add("tight")
    elif r < .85:
        st.add("loose")
    for s, p in (("crlf", .12), ("nofinal", .15), ("alt", .25), ("dig", .08), ("splice", .12)):
        if rng.random() < p:
            st.add(s)
    return st


UNARY = {"-", "+", "!", "~", "++", "--", "not", "compl", "*", "&", "bitand"}


def operand(sig, q, b):
    """End of the macro argument starting at q: one name or number, or a bracketed range without commas at its top level."""
    if sig[q][1] in ("id", "num"):
        return q + 1
    if sig[q][2] != "(":
        return q
    d, z = 0, q
    while z < b:
        d += (sig[z][2] == "(") - (sig[z][2] == ")")
        if sig[z][1] == "pp":
            return q
        z += 1
        if not d:
            return z
    return q


def macroize(text, rng, n):
    """Replaces n token ranges by object-like macros that are defined at the top. The token sequence after preprocessing stays the same. Ranges do not begin
    with an operator that may be unary, nor end with ++ or -- (a known finding), and stay clear of macro calls and directives."""
    ts = tokens(text)
    fnlike = set(re.findall(r"#\s*define\s+(\w+)\(", text))
    sig, gap = [], ""
    for k, t in ts:
        if k in ("ws", "nl", "lc", "bc"):
            gap += t
        else:
            sig.append([gap, k, t])
            gap = ""
    tail = gap
    # depth of calls of function-like macros
    blocked = [False] * len(sig)
    i = 0
    while i < len(sig):
        if sig[i][1] == "id" and sig[i][2] in fnlike and i + 1 < len(sig) and sig[i + 1][2] == "(":
            d, j = 0, i + 1
            while j < len(sig):
                d += (sig[j][2] == "(") - (sig[j][2] == ")")
                if not d:
                    break
                j += 1
            for q in range(i, min(j + 1, len(sig))):
                blocked[q] = True
            i = j + 1
        else:
            blocked[i] = sig[i][1] == "pp"
            i += 1
    depth, inside = 0, set()
    for i, s in enumerate(sig):
        if depth:
            inside.add(i)
        depth += (s[2] in ("{", "<%")) - (s[2] in ("}", "%>"))
    starts = [i for i in range(len(sig)) if i in inside and not blocked[i]]
    if not starts:
        return text
    used, defs = set(), []
    logical = [i for i in starts if sig[i][2] in ("&&", "||", "else", "return", "do")]
    for k in range(n):
        a = rng.choice(starts)
        b = min(len(sig), a + rng.choice([1, 1, 2, 2, 3, 4, 6, 9]))
        if logical and rng.random() < .12:
            a = rng.choice(logical)
            b = a + 1
        r = range(a, b)
        if any(blocked[q] or q in used or q not in inside for q in r) or sig[a][2] in UNARY or sig[b - 1][2] in ("++", "--"):
            continue
        if sig[a][2] in ("#", "##") or any(sig[q][2] in ("#", "##", "__LINE__", "case", "default", "asm", "DVPRE") for q in r):
            continue
        name = "DVM%d%s" % (k, rng.choice(["", "_", "x", "Z", "$", "\u00e9"]))
        parts, args = [], []
        want = rng.choice([0, 0, 0, 1, 1, 2]) if b - a > 1 else 0
        q = a
        while q < b:
            e = q
            if want and rng.random() < .5 and sig[q][2] not in UNARY:
                e = operand(sig, q, b)
            sp = " " if sig[q][0].replace("\\\n", "") and q > a else ""
            if e > q and not (q == a and e == b):
                args.append("".join((" " if sig[z][0].replace("\\\n", "") and z > q else "") + sig[z][2] for z in range(q, e)))
                parts.append((sp or (" " if q > a and sig[q - 1][1] in ("id", "num") else "")) + "p%d_" % len(args))
                if e < b and sig[e][1] in ("id", "num", "str", "chr", "raw"):
                    parts[-1] += " "
                want -= 1
                q = e
                continue
            parts.append(sp + sig[q][2].replace("\\\n", ""))
            q += 1
        use = name
        if args:
            use, name = "%s(%s)" % (name, ", ".join(args)), "%s(%s)" % (name, ", ".join("p%d_" % (z + 1) for z in range(len(args))))
        defs.append("#define %s %s\n" % (name, "".join(parts)))
        used.update(r)
        used.add(a - 1)
        used.add(b)
        sig[a][1], sig[a][2] = "id", use
        # an identifier character must not follow or precede directly
        if a and not sig[a][0] and sig[a - 1][1] in ("id", "num", "str", "chr", "raw"):
            sig[a][0] = " "
        if b < len(sig) and not sig[b][0] and sig[b][1] in ("id", "num", "str", "chr", "raw"):
            sig[b][0] = " "
        elif b < len(sig) and not args and sig[b][0].isspace() and "\n" not in sig[b][0] and sig[b][1] not in ("id", "num", "str", "chr", "raw", "pp") and rng.random() < .5:
            sig[b][0] = ""
        for q in range(a + 1, b):
            sig[q] = ["", "gone", ""]
    out = "".join(g + t for g, k, t in sig) + tail
    if not defs:
        return text
    m = re.match(r"(?:#include[^\n]*\n)*", out)
    return out[:m.end()] + "".join(defs) + out[m.end():]
