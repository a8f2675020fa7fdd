"""C15: raw mode reveals exactly the chosen transitions."""
import os, sys, random, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan
import automata as au

MORE = ["1=(a|b) (2=(b|c)+ )+d", "(a|b)c+(d|e)", "a(b|c)*d", "(ab)+c", "a+b+c+", "x[0-9]+y[0-9]+z", "ab$", "a[bc]+$", "x(a|b)+y$", "é(a|b)末",
        "(a|bc)(d|ef)(g|hi)j", "k[!-~]{3} ", "aab", "abab", "a(ba)*c", "<[^<>]+>", "[a-z]+@[a-z]+;", "(from|to):[^\r\n]+\r\n", "(0|1)(0|1)(0|1)2", "(ab|cd){20}x", "[ab]{3}c{70}d", "(a{9}b|c{9}d)+e", "x([a-f][0-9]){12}y$"]


def sets(rng, edges):
    """sets of transitions to reveal: single ones, all, random ones, overlapping ones"""
    e = sorted(edges)
    out = [[[x] for x in e[:6]], [e], [au.sample(rng, e, max(1, len(e) // 2)), au.sample(rng, e, max(1, len(e) // 2))]]
    out.append([[rng.choice(e)] for _ in range(rng.randint(1, 3))])
    p = [[], [], []]
    for x in e:
        p[rng.randrange(3)].append(x)
    out.append([x for x in p if x])
    # one set several times, the same pair several times in a set, more sets than one digit counts
    s = au.sample(rng, e, 2)
    out.append([s, s + s, [rng.choice(e)], s])
    if rng.random() < 0.3:
        out.append([[rng.choice(e)] for _ in range(rng.randint(11, 13))])
    # pairs of states with no transition between them reveal nothing
    n = max(max(x) for x in e) + 1
    no = [(a, b) for a in range(n) for b in range(1, n) if (a, b) not in edges]
    if no:
        out.append([[rng.choice(no)], [rng.choice(no), rng.choice(e)]])
    return out


def run(c):
    rng = random.Random(vp.SEED + 15)
    k = 6 if vp.THOROUGH else 1
    rs = MORE + au.sample(rng, corpus.RAW, 110 * k) + corpus.random_regexes(rng, 90 * k)
    defs = [[(False, r)] for r in rs]
    dom, recs, gr, mss = scan.prepare(c, defs, True, rng, 10, 60)
    tab = c.run_jobs([{"k": "compile", "mode": "raw", "raw": d[0][1], "trans": None, "gs": False, "want": ["h"]} for d, D in dom])
    jobs, base = [], []
    for (d, D), rec, g, ms, r in zip(dom, recs, gr, mss, tab):
        txt = "raw %r" % d[0][1]
        if r["h"]["s"] != "ok":
            c.violation("not compiled: %s: %s" % (txt, r["h"].get("m")), json.dumps(r))
            continue
        f, a, m, dl, dup = vp.delta(r["t"])
        edges = {(q, t) for q in range(len(dl)) for t in dl[q] if t >= 0}
        pl = scan.plan(rng, g, ms, cap=36 * (1 if k == 1 else 2), sizes=D["end"])
        for ss in sets(rng, edges) + [None]:
            jobs.append({"k": "compile", "mode": "raw", "raw": d[0][1], "trans": None if ss is None else [[list(x) for x in s] for s in ss],
                         "gs": rng.choice([True, None]), "want": ["c"], "runs": pl})
            base.append({"delta": dl, "accept": a, "sets": [] if ss is None else [[list(x) for x in s] for s in ss], "end": D["end"], "reveals": True,
                         "npub": 0, "parts": [], "txt": "%s with the transitions %s" % (txt, ss)})
    res = c.run_jobs(jobs)
    ok = []
    for b, r in zip(base, res):
        if r["c"]["s"] != "ok":
            c.violation("not compiled: %s: %s" % (b["txt"], r["c"].get("m")), json.dumps(r))
        else:
            ok.append((b, r))
    data, runs = scan.collect([b for b, _ in ok], [r for _, r in ok], c, "the circuit of")
    for x, (b, _) in zip(data, ok):
        x.update(delta=b["delta"], accept=b["accept"], sets=b["sets"])
        x.pop("parts")
    scan.judge(c, data, runs, "TableScan", "the circuit of", module="TableScan")
    c.cov.update(expressions=len(dom), circuits=len(data), runs=len(runs), runs_that_match=sum(r["o"] == 1 for r in runs),
                 runs_that_reveal=sum(any(any(x) for x in r["r"]) for r in runs))
    for r in runs[:: max(1, len(runs) // 8)][:8]:
        c.samples.append("%s on %r: out %s, %s" % (data[r["d"] - 1]["txt"], bytes(r["m"]), r["o"], r["r"]))


vp.main("C15", run)
