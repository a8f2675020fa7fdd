"""C07: every circuit the compiler writes is well formed and fixes every signal."""
import os, sys, random, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan, auto
import automata as au


def supported(d):
    """README, limitation 4: no transitions to the initial state"""
    try:
        ps = rx.definition(d)["parts"]
        return not auto.Dfa(ps[0]["ast"]).loops and not all(auto.Dfa(p["ast"]).nul for p in ps)
    except ValueError:
        return False


def run(c):
    rng = random.Random(vp.SEED + 7)
    k = 8 if vp.THOROUGH else 1
    jobs, meta = [], []
    defs = corpus.DEC + corpus.REVEAL + corpus.ANCHORED + corpus.small_defs(rng, 150 * k) + corpus.small_anchored(rng, 60 * k) + \
        corpus.random_defs(rng, 60 * k) + [[(True, r)] for r in au.sample(rng, corpus.RAW, 40 * k)]
    defs = [d for d in defs if supported(d)]
    for i, d in enumerate(defs):
        for gs in ((True, False) if i % 3 == 0 else (True,)):
            jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": gs, "want": ["c"],
                         "elab": [1, 2, 3, 4, 7, 16, 33], "events": rng.choice([1, 1, 2, 2, 3, 4])})
            meta.append((vp.show(d) + (" with substrings" if gs else ""), sum(1 for p, _ in d if p) if gs else 0))
    for r in au.sample(rng, corpus.RAW, 45 * k) + corpus.random_regexes(rng, 25 * k):
        if not supported([(False, r)]):
            continue
        for gs in (True, False, None):
            jobs.append({"k": "compile", "mode": "raw", "raw": r, "trans": None, "gs": gs, "want": ["c"],
                         "elab": [1, 2, 5, 12], "events": rng.choice([1, 2])})
            meta.append(("raw %r" % r, 0))
    # the circuits shipped with the package
    for f in sorted(os.listdir(os.path.join(vp.REPO, "packages/circom/circuits/common"))):
        if f.endswith(".circom"):
            name = "".join(x.capitalize() for x in f[:-7].split("_"))
            for n in (1, 2) if k == 1 else (1, 2, 3, 5):
                jobs.append({"k": "shipped", "file": "common/" + f, "tname": name, "elab": [n] if n > 1 else [1, 2, 3, 7, 20], "events": n})
                meta.append(("shipped %s" % f, 1))
    # messages, also of elements that are not bytes, for signals that are computed and not constrained to what is computed
    for j in jobs:
        n = j["elab"][-1] if len(j["elab"]) == 1 else 3
        pick = lambda: rng.choice([97, 98, 48, 10, 13, 0, 254, 255, 256, 300, 353, -2, -159, rng.randrange(256)])
        j["runs"] = [{"n": n, "msgs": [[pick() for _ in range(rng.choice((n, n, 1)))] for _ in range(12)]}]
    res = c.run_jobs(jobs)
    data, refused = [], 0
    for (txt, npub), j, r in zip(meta, jobs, res):
        if "c" in r and r["c"]["s"] != "ok":
            refused += 1
            continue
        bad = False
        for wf in r.get("wf", []):
            if "err" in wf:
                bad = True
                c.violation("the circuit of %s is not well formed at size %s: %s" % (txt, wf["n"], wf["err"]), json.dumps(wf))
                break
        if bad or not r.get("wf"):
            if not r.get("wf"):
                c.violation("the circuit of %s cannot be read" % txt, json.dumps(r)[:3000])
            continue
        forced = sum("f" in o for g in r["runs"] for o in g["outs"])
        for o in [o for g in r["runs"] for o in g["outs"] if "e" in o][:1]:
            c.violation("the circuit of %s cannot be evaluated: %s" % (txt, o["e"]), json.dumps(o))
        for wf in r["wf"]:
            iface = sorted([["in"] + x for x in wf["ins"]] + [["out"] + x for x in wf["outs"]])
            want = sorted([["in", "msg", wf["n"]], ["out", "out", 1]] + [["out", "reveal%d" % q, wf["n"]] for q in range(npub)])
            ev = r["events"] if wf["n"] == j["events"] else []
            data.append({"txt": "%s at size %d" % (txt, wf["n"]), "ev": ev, "nsig": wf["sigs"] if ev else 0, "iface": iface, "want": want,
                         "forced": forced if wf["n"] == j["runs"][0]["n"] else 0})
    n = 0
    seen = set()
    CH = 400
    # the first few alone: a defect in what all circuits share shows there, and traces are long
    for base, size in [(0, 60)] + [(b, CH * 4) for b in range(60, len(data), CH * 4)]:
        if seen:
            break
        ds = data[base:base + size]
        q = c.tlc("Constrain", data=ds, cont=True)
        for name, last, blk in q.get("bad", []):
            d = ds[int(re.search(r"cir = (\d+)", last).group(1)) - 1]
            if d["txt"] in seen:
                continue
            seen.add(d["txt"])
            m = re.search(r'wrong = "(.*)"', last)
            why = m.group(1) if m and m.group(1) else name
            c.violation("the circuit of %s: %s" % (d["txt"], why), blk)
        if not q["ok"] and not q.get("bad"):
            c.violation(q["trace"][:300], q["trace"])
    c.traces += len(data)
    c.cov.update(circuits=len(jobs) - refused, refused=refused, layouts=len(data), events=sum(len(d["ev"]) for d in data))
    c.samples += ["%s: %d events" % (d["txt"], len(d["ev"])) for d in data[:: max(1, len(data) // 8)]]


vp.main("C07", run)
