"""C11: the circuits shipped in the circom package, and the circuits compiled from the shipped definitions, against the published definitions."""
import os, sys, random, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, published, scan

COMMON = "common/"
BAD = [255, 256, 257, 256 + 97, 511, 512, 1 << 16, 1 << 32, 1 << 62, -2, -158, -159, -255, -256]


def camel(n):
    return "".join(x.capitalize() for x in n.split("_")) + "Regex"


def run(c):
    rng = random.Random(vp.SEED + 11)
    k = 5 if vp.THOROUGH else 1
    names = ["body_hash", "email_addr", "email_domain", "from_all", "message_id", "subject_all", "timestamp", "to_all", "reversed_bracket"]
    # shipped without a definition of its own: the regular expression in its comment; it is also the only one that does not look at the range of its input
    alone = "reversed_email_addr_with_name"
    names.append(alone)
    defs = [published.REVERSED.get(n) or published.DEFS[n] for n in names]
    dom = scan.scannable(defs)
    assert len(dom) == len(defs)
    recs = [dict(scan.record(d, D, True), txt=n) for n, (d, D) in zip(names, dom)]
    gr = scan.graphs(c, recs)
    shipped, compiled = [], []
    for n, (d, D), g in zip(names, dom, gr):
        g.finish(scan.initial(g))
        ms = scan.messages(rng, g, 46, 300 * k)
        toks = [t.encode() for t in published.TOKENS.get(n, ["<", ">", "a", "é", "\n", "x>"])]
        for _ in range(300 * k):
            w = b"".join(rng.choice(toks) if rng.random() < 0.7 else bytes(g.match or []) for _ in range(rng.randint(1, 7)))
            ms.append(tuple(w[:60]))
        for _ in range(12 * k):
            # a character of a match many times
            w = list(rng.choice([x for x in ms if x] + [g.match] * len(ms)))
            i = rng.randrange(len(w))
            ms.append(tuple(w[:i] + w[i:i + 1] * rng.randint(8, 30) + w[i + 1:] + [rng.choice(w)]))
        ms = [w for w in dict.fromkeys(ms)]
        pl = scan.plan(rng, g, ms, cap=500 * k)
        # every byte that goes on or begins a match in every configuration, and the bytes next to them
        every = [list(g.access[x]) + [b] + (g.comp[to] if to in g.comp else g.match or []) for x in sorted(g.access)
                 for kind, lo, hi, to in sorted(g.out[x]) 
                 for b in (range(lo, hi + 1) if kind in "cbr" or vp.THOROUGH else sorted({lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)}))]
        pl.append({"n": max(map(len, every)) + 1, "msgs": every})
        if n != alone:
            # elements that are not bytes below 255
            wrong = []
            for w in rng.sample(ms, 30 * k) + [tuple(g.match)] * (6 * k):
                z = list(w) + [0]
                z[rng.randrange(len(z))] = rng.choice(BAD)
                wrong.append(z)
            for i in range(len(g.match) + 1):
                for b in (255, 256):
                    wrong.append(list(g.match)[:i] + [b] + list(g.match)[i:])
                    wrong.append((list(g.match) + [0])[:i] + [b] + list(g.match)[i + 1:])
                if i < len(g.match):
                    wrong.append(list(g.match)[:i] + [g.match[i] + 256] + list(g.match)[i + 1:])
            pl.append({"n": max(map(len, wrong)), "msgs": wrong})
        shipped.append({"k": "shipped", "file": COMMON + n + "_regex.circom", "tname": camel(n), "runs": pl})
        if n == alone:
            compiled.append(None)
            continue
        cfg = json.load(open(os.path.join(vp.REPO, "packages/circom/circuits", COMMON, n + ".json")))
        ps = [{"is_public": p.get("is_public", p.get("isPublic")), "regex_def": p.get("regex_def", p.get("regexDef"))} for p in cfg["parts"]]
        compiled.append({"k": "compile", "mode": "dec", "parts": ps, "gs": True, "want": ["c"], "runs": [dict(r, msgs=r["msgs"][::4]) for r in pl]})
    # split, so that the work is shared
    for what, jobs in (("the shipped circuit", shipped), ("the circuit compiled from the shipped definition", compiled)):
        split, own = [], []
        for i, j in enumerate(jobs):
            if j is None:
                continue
            for r in j["runs"]:
                for b in range(0, len(r["msgs"]), 100):
                    split.append(dict(j, runs=[{"n": r["n"], "msgs": r["msgs"][b:b + 100]}]))
                    own.append(i)
        res = c.run_jobs(split)
        for i, r in zip(own, res):
            if "c" in r and r["c"]["s"] != "ok":
                c.violation("%s %s is not compiled: %s" % (what, names[i], r["c"].get("m")), json.dumps(r["c"]))
        data, runs = scan.collect([recs[i] for i in own], res, c, what)
        for r in runs:
            r["d"] = own[r["d"] - 1] + 1
        scan.judge(c, recs, runs, "Scanner", what)
        c.cov[what.replace(" ", "_") + "_runs"] = len(runs)
        c.cov[what.replace(" ", "_") + "_matches"] = {n: sum(r["o"] == 1 for r in runs if r["d"] == i + 1) for i, n in enumerate(names)}
    pipes(c, rng, k, names, recs, gr)


# circuits made of others: stages (definition, read from right to left, source), the stage that has to match, the result
PIPES = [
    ("email_addr_with_name", [("reversed_bracket", True, 0)], 0, 1, 1),
    ("from_addr", [("from_all", False, 0), ("reversed_bracket", True, 1), ("email_addr", False, 1)], 1, 2, 3),
    ("to_addr", [("to_all", False, 0), ("reversed_bracket", True, 1), ("email_addr", False, 1)], 1, 2, 3),
]
WORDS = ["%s:", "\r\n", "Al ", "<", ">", "a@b.c", "x", "\"<q> w\" ", "é", "\n", "\0"]


def pipes(c, rng, k, names, recs, gr):
    data = [{"parts": r["parts"]} for r in recs]
    q = c.tlc("Words", data=[{"tokens": len(WORDS) - 3, "len": 3 if k == 1 else 4}])
    words = [[int(x) - 1 for x in re.findall(r"\d+", p)][1:] for p in q["prints"]]
    jobs, own = [], []
    for i, (n, stages, must, first, second) in enumerate(PIPES):
        f = n.split("_")[0]
        head = must and (f + ":").encode()
        ms = set()
        for w in words:
            t = "".join(WORDS[x] for x in w).replace("%s", f).encode()
            ms |= {t, (head or b"") + t + b"\r\n"} if head else {t}
        for _ in range(400 * k):
            t = "".join(rng.choice(WORDS) for _ in range(rng.randint(2, 9))).replace("%s", f).encode()
            if head and rng.random() < 0.8:
                t = rng.choice([b"", b"", b"to:z\r\n", b"x"]) + head + t + rng.choice([b"\r\n", b"\r\n", b"<", b">\r\n"]) + rng.choice([b"", b"", b"from:u@v\r\n"])
            ms.add(t[:48])
        ms = sorted(ms)
        by = {}
        for j, t in enumerate(ms):
            size = (8, 16, 24, 33, 50)[next(x for x, s in enumerate((8, 16, 24, 33, 50)) if len(t) <= s)] if j % 3 else max(1, len(t))
            by.setdefault(size, []).append(list(t))
            if j % 40 == 0 and t:
                z = list(t)
                z[rng.randrange(len(z))] = rng.choice([255, 256, 97 + 256, -3])
                by.setdefault(size, []).append(z)
        for size, w in sorted(by.items()):
            for b in range(0, len(w), 60):
                jobs.append({"k": "shipped", "file": COMMON + n + "_regex.circom", "tname": camel(n), "runs": [{"n": size, "msgs": w[b:b + 60]}]})
                own.append(i)
    res = c.run_jobs(jobs)
    _, runs = scan.collect([{"parts": [], "end": False, "npub": 1, "txt": PIPES[i][0], "reveals": True} for i in own], res, c, "the shipped circuit")
    for r in runs:
        r["p"] = own[r.pop("d") - 1] + 1
    pp = [{"stages": [{"d": names.index(d) + 1, "rev": rev, "src": src} for d, rev, src in st], "must": m, "first": a, "second": b} for _, st, m, a, b in PIPES]
    seen = set()
    for base in range(0, len(runs), 20000):
        rs = runs[base:base + 20000]
        q = c.tlc("Pipe", data=data, more={"PIPES": pp, "RUNS": rs}, cont=True)
        c.traces += len(rs)
        for name, last, blk in q.get("bad", []):
            r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
            if (name, r["p"]) not in seen:
                seen.add((name, r["p"]))
                c.violation("the shipped circuit %s: %s is false for %r at size %d: %s, %s %s" %
                            (PIPES[r["p"] - 1][0], name, bytes(b % 256 for b in r["m"]).rstrip(b"\0"), len(r["m"]), r["s"], r["o"], r["r"]), blk)
    c.cov["pipeline_runs"] = {PIPES[i][0]: [sum(r["p"] == i + 1 for r in runs), sum(r["p"] == i + 1 and r["o"] == 1 for r in runs)] for i in range(len(PIPES))}


vp.main("C11", run)
