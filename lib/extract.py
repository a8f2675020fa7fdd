"""Strings for extraction, and recorded extractions against spec/Extract.tla."""
import random, re
import vp, rx


def ast(n):
    """the parsed expression as spec/Match.tla reads it"""
    t = n["t"]
    if t == "cls":
        return {"t": "cls", "r": n["r"]}
    if t in ("cat", "alt"):
        return {"t": t, "xs": [ast(x) for x in n["xs"]]}
    if t == "cap":
        return ast(n["x"])
    if t in ("star", "plus", "opt"):
        return {"t": t, "x": ast(n["x"]), "g": n["g"]}
    if t == "atom":
        return {"t": t, "x": ast(n["x"])}
    if t in ("ahead", "behind"):
        return {"t": t, "x": ast(n["x"]), "neg": n["neg"]}
    if t == "border":
        return {"t": t, "r": n["r"], "neg": n["neg"]}
    if t == "car":
        return {"t": "bot"}
    if t == "dol":
        return {"t": "eot"}
    return {"t": "eps"}


def nice(rng, rs):
    lo, hi = rng.choice(rs)
    c = [x for x in (97, 98, 99, 48, 120, 32, 60, 64) if lo <= x <= hi]
    if c and rng.random() < 0.7:
        return rng.choice(c)
    x = rng.choice([lo, hi, rng.randint(lo, min(hi, lo + 20))])
    return x if not 0xD800 <= x <= 0xDFFF else 97


def word(rng, n, depth=0):
    """a random word of the expression"""
    t = n["t"]
    if t == "cls":
        return [nice(rng, n["r"])]
    if t == "cat":
        return [c for x in n["xs"] for c in word(rng, x, depth)]
    if t == "alt":
        return word(rng, rng.choice(n["xs"]), depth)
    if t == "opt":
        return word(rng, n["x"], depth) if rng.random() < 0.5 else []
    if t in ("star", "plus"):
        k = rng.choice([0, 1, 1, 2, 3]) if t == "star" else rng.choice([1, 1, 2, 3])
        return [c for _ in range(k) for c in word(rng, n["x"], depth + 1)]
    if t == "atom":
        return word(rng, n["x"], depth)
    return []


def stretch(rng, w, most):
    """the word with one of its characters repeated many times"""
    i = rng.randrange(len(w))
    return w[:i] + w[i:i + 1] * rng.randint(8, most) + w[i + 1:]


def letters(n, out):
    if n["t"] == "cls":
        for lo, hi in n["r"][:3]:
            out.add(lo if not (lo < 97 <= hi) else 97)
    for x in n.get("xs", []):
        letters(x, out)
    if "x" in n:
        letters(n["x"], out)


# what texts may begin or end with: byte order mark, zero, spaces of all kinds, line ends, joiners
ODD = [[0xFEFF], [0], [32], [9], [13, 10], [10], [0x200B], [0xA0], [0x2028], [0x85], [0x301], [0x1F600], [0xFFFD], [0xFEFF, 0xFEFF], [0, 0]]


def strings(rng, parts, n, maxlen=16):
    """matches, near-matches, several matches in a row, and noise"""
    al = set()
    for p in parts:
        letters(p["ast"], al)
    al = sorted(a for a in al if a)[:12] + [98, 0xE9]
    out = {()}
    for _ in range(n * 4):
        w = [c for p in parts for c in word(rng, p["ast"])]
        k = rng.randrange(9)
        if k == 8:
            w = [x ^ 32 if 65 <= x & ~32 <= 90 and rng.random() < 0.4 else x for x in w]
        if k == 1:
            w = [rng.choice(al) for _ in range(rng.randint(1, 3))] + w
        elif k == 2:
            w = w + [rng.choice(al) for _ in range(rng.randint(1, 3))]
        elif k == 3:
            w = w + [c for p in parts for c in word(rng, p["ast"])]
        elif k == 4 and w:
            i = rng.randrange(len(w))
            w = w[:i] + w[i + 1:] + ([rng.choice(al)] if rng.random() < 0.5 else []) + w
        elif k == 5 and w:
            i = rng.randrange(len(w))
            w = w[:i] + [rng.choice(al)] + w[i:]
        elif k == 6:
            w = [rng.choice(al) for _ in range(rng.randint(1, 8))]
        elif k == 7 and w:
            i = rng.randrange(len(w))
            w = w[:i]
        if rng.random() < 0.12:
            w = rng.choice(ODD) + w if rng.random() < 0.6 else w + rng.choice(ODD)
        if w and rng.random() < 0.05:
            w = stretch(rng, w[:maxlen], 2 * maxlen)
        if len(w) <= 3 * maxlen:
            out.add(tuple(w))
        if len(out) >= n:
            break
    return sorted(out)


def reads(n, xs):
    """does the expression read one of the characters?"""
    return n["t"] == "behind" or any(lo <= x <= hi for x in xs for lo, hi in n.get("r", [])) or any(reads(x, xs) for x in n.get("xs", [])) or ("x" in n and reads(n["x"], xs))


def deep(n, d=0):
    """are there repetitions within repetitions?"""
    d += n["t"] in ("star", "plus")
    return d > 1 or any(deep(x, d) for x in n.get("xs", [])) or ("x" in n and deep(n["x"], d))


def far(rng, parts, w, big=0):
    """what is found lies hundreds of bytes, or more bytes than 16 bits count, behind the beginning (or fewer if they can be read, which takes long)"""
    if any(reads(p["ast"], [0xE9, 0x2603, 0x1F600, 0x7E]) for p in parts):
        return [rng.choice([0xE9, 0x2603, 0x1F600, 0x7E]) for _ in range(rng.randint(20, 90))] + w
    if big:
        return [0x1F600] * (rng.randint(16390, 16500) if big > 1 else rng.randint(700, 2200)) + w
    return [rng.choice([0xE9, 0x2603, 0x1F600, 0x7E]) for _ in range(rng.randint(140, rng.choice([320, 1500])))] + w


def nullable(n):
    t = n["t"]
    if t == "cls":
        return False
    if t == "cat":
        return all(map(nullable, n["xs"]))
    if t == "alt":
        return any(map(nullable, n["xs"]))
    return nullable(n["x"]) if t in ("plus", "cap", "atom") else True


def empty_rounds(n):
    """does the expression repeat something that can read nothing?"""
    return n["t"] in ("star", "plus") and nullable(n["x"]) or any(map(empty_rounds, n.get("xs", []))) or "x" in n and empty_rounds(n["x"])


def definition(d):
    return [{"pub": p, "ast": ast(rx.parse(r, True))} for p, r in d]


def inner_flags(d):
    """does a part set flags within a group, where the library lets them out of it?"""
    return any(re.search(r"\([^()]*\(\?[a-zA-Z-]+\)", r) for _, r in d)


def judge(c, data, runs, what, chunk=20000):
    bad, lib, flags = set(), [], []
    for base in range(0, len(runs), chunk):
        rs = runs[base:base + chunk]
        used = sorted({r["d"] for r in rs})
        num = {d: i + 1 for i, d in enumerate(used)}
        q = c.tlc("Extract", data=[data[d] for d in used], more={"RUNS": [dict(r, d=num[r["d"]]) for r in rs]}, cont=True)
        c.traces += len(rs)
        for name, last, blk in q.get("bad", []):
            if name == "LibraryRight" and vp.known(c.pid, "regex-crate"):
                r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
                (flags if data[r["d"]].get("flags") and vp.known(c.pid, "group-flags") else lib).append(rs[int(re.search(r"run = (\d+)", last).group(1)) - 1])
                continue
            r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
            if r["d"] in bad:
                continue
            bad.add(r["d"])
            c.violation("%s %s: %s is false for the string %r: public %s, all %s" %
                        (what, data[r["d"]]["txt"], name, "".join(map(chr, r["s"]))[-400:], r["pub"], r["all"]), blk[-200000:])
        if not q["ok"] and not q.get("bad"):
            c.violation("%s: %s" % (what, q["trace"][:300]), q["trace"])
    if flags:
        r = min(flags, key=lambda r: (len(r["s"]), r["s"]))
        c.known_finding("group-flags: the regex library lets flags set within a group out of it in %d of the runs, such as %s for %s in %r" %
                        (len(flags), r["lib"], data[r["d"]]["txt"], "".join(map(chr, r["s"]))))
    if lib:
        r = min(lib, key=lambda r: (len(r["s"]), r["s"]))
        c.known_finding("regex-crate: the regex library itself returns a match that is not the leftmost one in %d of the runs, such as %s for %s in %r" %
                        (len(lib), r["lib"], data[r["d"]]["txt"], "".join(map(chr, r["s"]))))
    return bad


def flat(v):
    """one result of the harness"""
    t = v.get("t", {"s": "none"})
    return {"s": v["s"], "v": v.get("v", []), "ts": t["s"], "t": t.get("v", [])}
