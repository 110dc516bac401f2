"""Shrinking of failing sources: removal of line chunks, then replacement of syntax subtrees by their parts."""
import os, time
from . import common, cast


def _par(cands, pred, deadline):
    """First (in order) candidate that satisfies pred, evaluated NPROC at a time."""
    n = common.NPROC
    for i in range(0, len(cands), n):
        if time.time() > deadline:
            return None
        part = cands[i:i + n]
        rs = common.pmap(lambda c: _safe(pred, c), part)
        for c, r in zip(part, rs):
            if r:
                return c
    return None


def _safe(pred, c):
    try:
        return bool(pred(c))
    except common.CheckError:
        return False
    except Exception:
        return False


def lines(data, pred, deadline):
    ls = data.split(b"\n")
    size = max(1, len(ls) // 2)
    while True:
        progress = False
        i = 0
        while i < len(ls):
            if time.time() > deadline:
                return b"\n".join(ls)
            starts = [i + k * size for k in range(common.NPROC) if i + k * size < len(ls)]
            cands = [ls[:s] + ls[s + size:] for s in starts]
            rs = common.pmap(lambda c: _safe(pred, b"\n".join(c)), cands)
            hit = next((k for k, r in enumerate(rs) if r), None)
            if hit is None:
                i = starts[-1] + size
            else:
                ls = cands[hit]
                i = starts[hit]
                progress = True
        if size == 1 and not progress:
            return b"\n".join(ls)
        if not progress or size > 1:
            size = max(1, size // 2)


def braces(data, pred, deadline):
    """Removes `{ ... }` style statement groups spanning lines (head line to its closing line)."""
    while time.time() < deadline:
        ls = data.split(b"\n")
        cands = []
        for i, l in enumerate(ls):
            d = l.count(b"{") - l.count(b"}")
            if d <= 0:
                continue
            for j in range(i + 1, len(ls)):
                d += ls[j].count(b"{") - ls[j].count(b"}")
                if d <= 0:
                    cands.append(b"\n".join(ls[:i] + ls[j + 1:]))
                    if j > i + 1:
                        cands.append(b"\n".join(ls[:i] + ls[i + 1:j] + ls[j + 1:]))
                    break
        cands.sort(key=len)
        c = _par(cands, pred, deadline)
        if c is None:
            return data
        data = c
    return data


def subtrees(data, pred, lang, deadline):
    while time.time() < deadline:
        d = common.newdir("s")
        p = common.write(os.path.join(d, "s." + common.EXT[lang]), data)
        try:
            a = cast.Ast(p, lang)
        except Exception:
            return data
        seen, cands = set(), []
        for n in a.nodes:
            if n.s is None or n.e is None or n.e <= n.s or n.macro:
                continue
            subs = [b"1"] if "valueCategory" in n.js else []
            if n.k.endswith("Stmt") or "valueCategory" in n.js:
                for k in n.kids:
                    if k.s is not None and k.e is not None and k.s >= n.s and k.e <= n.e and k.e - k.s < n.e - n.s and k.e > k.s and not k.macro:
                        subs.append(data[k.s:k.e])
            for t in subs:
                key = (n.s, n.e, t)
                if key in seen or len(t) >= n.e - n.s:
                    continue
                seen.add(key)
                cands.append(data[:n.s] + t + data[n.e:])
        cands.sort(key=len)
        c = _par(cands, pred, deadline)
        if c is None:
            return data
        data = c
    return data


def shrink(data, pred, lang, seconds=60):
    """pred(bytes) -> True while the failure persists. Returns the smallest failing source found."""
    end = time.time() + seconds
    if not _safe(pred, data):
        return data
    while time.time() < end:
        n = len(data)
        data = braces(data, pred, end)
        data = lines(data, pred, end)
        data = subtrees(data, pred, lang, end)
        if len(data) >= n:
            break
    return data
