"""C08: the halo2 tables: their form, the places where public parts begin and end, and the circuit as the same automaton."""
import os, sys, random, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, rx, corpus, scan
import automata as au
import c02


def run(c):
    rng = random.Random(vp.SEED + 8)
    k = 6 if vp.THOROUGH else 1
    # every transition, and the boundaries of every public part, for byte strings of every length
    c02.run(c, bounds=True)
    # form of the files; the circuit against the tables
    defs = au.sample(rng, corpus.DEC + corpus.REVEAL, 90 * k) + au.sample(rng, corpus.ANCHORED, 25 * k) + corpus.small_defs(rng, 90 * k) + \
        corpus.small_anchored(rng, 50 * k) + corpus.random_defs(rng, 60 * k)
    dom, recs, gr, mss = scan.prepare(c, defs, True, rng, 10, 60)
    jobs = []
    for (d, D), g, ms in zip(dom, gr, mss):
        jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": True, "want": ["h", "c"],
                     "runs": scan.plan(rng, g, ms, cap=70)})
    n = len(jobs)
    for d, D in dom[::3]:
        jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": False, "want": ["h"]})
    big = corpus.HUGE + [[(True, "x{260}"), (False, "-"), (True, "[!-~]{30}"), (False, "\n")], [(False, "k=")] + [(i % 2 == 0, "%c{1,%d}" % (97 + i, 3 + i)) for i in range(20)] + [(False, ";")]]
    meta = [(vp.show(d), D["npub"]) for d, D in dom]
    meta += meta[::3]
    for d in big:
        for gs in (True, False):
            jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": gs, "want": ["h"]})
            meta.append((vp.show(d), sum(p for p, _ in d)))
    res = c.run_jobs(jobs)
    tabs, ok = [], []
    for i, (j, r) in enumerate(zip(jobs, res)):
        txt, npub = meta[i]
        if r["h"]["s"] != "ok" or (i < n and r["c"]["s"] != "ok"):
            c.violation("not compiled: %s" % txt, json.dumps(r)[:2000])
        elif "bad" in r["t"]:
            c.violation("a table of %s is not made of numbers: %s" % (txt, r["t"]["bad"]), json.dumps(r)[:2000])
        else:
            tabs.append({"all": r["t"]["all"], "subs": r["t"]["subs"], "files": r["t"]["files"], "gs": j["gs"], "npub": npub, "txt": txt})
            if i < n:
                ok.append((recs[i], r))
    q = c.tlc("Tables", data=tabs, cont=True)
    c.traces += len(tabs)
    seen = set()
    for name, last, blk in q.get("bad", []):
        t = tabs[int(re.search(r"tab = (\d+)", last).group(1)) - 1]
        if t["txt"] not in seen:
            seen.add(t["txt"])
            why = re.search(r'wrong = "(.*)"', last).group(1) or name
            c.violation("the tables of %s: %s" % (t["txt"], why), blk)
    if not q["ok"] and not q.get("bad"):
        c.violation(q["trace"][:300], q["trace"])
    if seen:
        return
    data, runs = scan.collect([x for x, _ in ok], [x for _, x in ok], c, "the circuit of")
    for x, (rec, r) in zip(data, ok):
        f, a, m, dl, dup = vp.delta(r["t"])
        x.update(delta=dl, accept=a, sets=[s["edges"] for s in vp.subs(r["t"])])
        x.pop("parts")
    scan.judge(c, data, runs, "TableScan", "circuit and tables differ for", module="TableScan")
    c.cov.update(table_files_read=len(tabs), circuit_runs_against_tables=len(runs))


vp.main("C08", run)
