"""C06: padding is inert, zero bytes never match, elements that are not bytes below 255 are rejected."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan
import automata as au

BAD = [255, 256, 257, 300, 256 + 97, 256 + 98, 511, 512, 512 + 97, 1 << 16, (1 << 16) + 97, 1 << 32, 1 << 62,
       -2, -97, -128, -157, -158, -159, -255, -256, -257, -300, -(1 << 40)]


def run(c):
    rng = random.Random(vp.SEED + 6)
    k = 6 if vp.THOROUGH else 1
    defs = au.sample(rng, corpus.DEC, 40 if k == 1 else 1000) + au.sample(rng, corpus.REVEAL + corpus.ANCHORED, 40 if k == 1 else 1000) + \
        [[(False, r)] for r in au.sample(rng, corpus.RAW, 40 * k)] + corpus.small_defs(rng, 60 * k) + corpus.small_anchored(rng, 50 * k)
    dom, recs, gr, mss = scan.prepare(c, defs, True, rng, 10, 60)
    jobs, minus = [], []
    for (d, D), rec, g, ms in zip(dom, recs, gr, mss):
        # sizes: the same messages, exactly fitting and with more and more padding
        few = au.sample(rng, ms, 16 * k)
        runs = {}
        for w in few:
            for extra in (0, 1, 2, 3, 5, 9, 17):
                if len(w) + extra:
                    runs.setdefault(len(w) + extra, []).append(list(w))
        if len(jobs) % 12 == 0:
            for w in au.sample(rng, [w for w in ms if w], 3):
                for extra in (260, 1030):
                    runs.setdefault(len(w) + extra, []).append(list(w))
        # zero bytes inside
        for w in au.sample(rng, [w for w in ms if w], 12 * k):
            i = rng.randrange(len(w) + 1)
            for z in (list(w[:i]) + [0] + list(w[i:]), list(w[:max(0, i - 1)]) + [0] + list(w[i:])):
                if z:
                    runs.setdefault(len(z), []).append(z)
                    runs.setdefault(len(z) + 2, []).append([0] + z)
                    runs.setdefault(len(z) + 4, []).append(z + [0] + list(g.match or []) if len(g.match or []) < 4 else z)
        # elements that are not bytes below 255, at every position of a few messages
        mm = []
        whole = sorted({tuple(g.match or (98,)), tuple(rng.choice([w for w in ms if w] or [(98,)])), (98,)})
        for w in whole:
            w = list(w)[:6]
            n = len(w) + 1
            for i in range(n):
                full = w + [0]
                for v in au.sample(rng, BAD, 12 if not vp.THOROUGH else 99) + [255, 256]:
                    runs.setdefault(n, []).append(full[:i] + [v] + full[i + 1:])
                mm.append((n, full[:i] + [-1] + full[i + 1:]))
        jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": True, "want": ["c"],
                     "runs": [{"n": n, "msgs": ws} for n, ws in sorted(runs.items())]})
        mr = {}
        for n, w in mm:
            mr.setdefault(n, []).append(w)
        minus.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": True, "want": ["c"],
                      "runs": [{"n": n, "msgs": ws} for n, ws in sorted(mr.items())]})
    for js, cfg, known in ((jobs, "Scanner", False), (minus, "ScannerMinus", True)):
        res = c.run_jobs(js)
        ok = []
        for rec, r in zip(recs, res):
            if r["c"]["s"] != "ok":
                if not known:
                    c.violation("not compiled: %s: %s" % (rec["txt"], r["c"].get("m")), str(r["c"]))
            else:
                ok.append((rec, r))
        data, runs = scan.collect([x for x, _ in ok], [x for _, x in ok], c, "the circuit of")
        if known:
            sat = sum(r["s"] == "sat" for r in runs)
            c.cov["runs_with_minus_one"] = len(runs)
            if sat and not vp.known("C06", "minus-one"):
                cfg = "Scanner"
            elif sat:
                c.known_finding("minus-one: the element p-1 (-1) passes the range check of every message byte (%d circuit runs); "
                                "it takes no transition" % sat)
        else:
            c.cov.update(circuits=len(data), runs=len(runs), runs_unsatisfiable=sum(r["s"] == "unsat" for r in runs),
                         runs_that_match=sum(r["o"] == 1 for r in runs))
            for r in runs[:: max(1, len(runs) // 8)][:8]:
                c.samples.append("%s on %s: %s %s" % (data[r["d"] - 1]["txt"], r["m"], r["s"], r["o"]))
        scan.judge(c, data, runs, cfg, "the circuit of")


vp.main("C06", run)
