"""C10: what extraction returns and what the circuit reveals."""
import os, sys, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan, extract as ex
import automata as au


def borders(c, recs, chunk=300):
    """the numbers (0-based) of definitions with a byte that two parts could read, and of those with a byte on which two attempts compete"""
    out = {"read": set(), "search": set()}
    for base in range(0, len(recs), chunk):
        q = c.tlc("Borders", data=[{"parts": r["parts"]} for r in recs[base:base + chunk]])
        if not q["ok"]:
            raise SystemExit("the specification's own theorems fail: " + q["trace"][:2000])
        for p in set(q["prints"]):
            mode, d = p.split("|")
            out[mode].add(base + int(d) - 1)
    return out


def run(c):
    rng = random.Random(vp.SEED + 10)
    k = 8 if vp.THOROUGH else 1
    defs = corpus.EXTRACT + corpus.DEC + corpus.REVEAL + corpus.ANCHORED + corpus.small_defs(rng, 130 * k) + corpus.small_anchored(rng, 60 * k) + \
        corpus.random_defs(rng, 70 * k) + au.sample(rng, corpus.extract_defs(rng, 120 * k), 120 * k)
    ok = []
    for d in defs:
        try:
            # README, limitation 2: the part with ^ is not public
            if any(p for p, _ in d) and not (d[0][0] and rx.has(rx.parse(d[0][1]), ("car",))) and not ex.inner_flags(d) and not any(ex.empty_rounds(p["ast"]) for p in ex.definition(d)):
                rx.definition(d)
                ok.append(d)
        except rx.RxError:
            pass
    dom, recs, gr, mss = scan.prepare(c, ok, True, rng, 10, 60 * min(k, 3))
    amb = borders(c, recs)
    jobs, xs = [], []
    for (d, D), rec, g, ms in zip(dom, recs, gr, mss):
        ss = ["".join(map(chr, s)).encode() for s in ex.strings(rng, ex.definition(d), 40 * min(k, 3))]
        for w in ms:
            try:
                bytes(w).decode()
                ss.append(bytes(w))
            except UnicodeDecodeError:
                pass
        ss = [w for w in dict.fromkeys(ss) if 0 not in w and len(w) < 40]
        ss = ss[:40] + au.sample(rng, ss[40:], 80)
        runs = {}
        for w in ss:
            runs.setdefault(len(w) + rng.choice([0, 1, 3]) if w else 1, []).append(list(w))
        jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": True, "want": ["c"], "runs": [{"n": n, "msgs": ws} for n, ws in sorted(runs.items())]})
        xs.append({"k": "extract", "parts": vp.parts_json(d), "inputs": [bytes(w).decode() for n in sorted(runs) for w in runs[n]]})
    res = c.run_jobs(jobs)
    exr = c.run_jobs(xs)
    data, runs = [], []
    for i, (rec, j, r, x) in enumerate(zip(recs, jobs, res, exr)):
        if r["c"]["s"] != "ok":
            c.violation("not compiled: %s: %s" % (rec["txt"], r["c"].get("m")), str(r["c"]))
            continue
        data.append({"parts": rec["parts"], "end": rec["end"], "npub": rec["npub"], "txt": rec["txt"], "det": i not in amb["read"]})
        outs = iter(x["outs"])
        for g in r["runs"]:
            for m, o in zip(g["msgs"], g["outs"]):
                e = next(outs)["pub"]
                if "e" in o:
                    c.violation("the circuit of %s cannot be evaluated: %s" % (rec["txt"], o["e"]), str([m, o]))
                    continue
                runs.append({"d": len(data), "m": m, "n": g["n"], "s": "unsat" if "u" in o else "sat", "o": o.get("o", -1), "r": o.get("r", []),
                             "ok": e["s"] == "ok", "v": e.get("v", [])})
    bad, decided = set(), 0
    for base in range(0, len(runs), 40000):
        rs = runs[base:base + 40000]
        q = c.tlc("Agree", data=data, more={"RUNS": rs}, cont=True)
        c.traces += len(rs)
        decided += len(q["prints"])
        for name, last, blk in q.get("bad", []):
            r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
            if r["d"] not in bad:
                bad.add(r["d"])
                c.violation("%s: %s is false for %r: the circuit of size %d says %s, %s, extraction %s" %
                            (data[r["d"] - 1]["txt"], name, bytes(r["m"]), r["n"], r["o"], r["r"], r["v"] if r["ok"] else "fails"), blk)
        if not q["ok"] and not q.get("bad"):
            c.violation(q["trace"][:300], q["trace"])
    c.cov.update(definitions=len(data), with_unambiguous_borders=sum(d["det"] for d in data), attempts_never_compete=len(recs) - len(amb["search"] | amb["read"]),
                 runs=len(runs), runs_with_one_match=decided, runs_where_extraction_finds_nothing=sum(not r["ok"] for r in runs))
    for r in runs[:: max(1, len(runs) // 8)][:8]:
        c.samples.append("%s on %r: circuit %s, extraction %s" % (data[r["d"] - 1]["txt"], bytes(r["m"]), r["o"], r["v"] if r["ok"] else "nothing"))


if __name__ == "__main__":
    vp.main("C10", run)
