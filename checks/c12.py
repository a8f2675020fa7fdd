"""C12: every built-in extractor, native and JavaScript, against the specification of extraction with its published definition."""
import os, sys, random, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, published, js
import extract as ex


def run(c):
    rng = random.Random(vp.SEED + 12)
    k = 6 if vp.THOROUGH else 1
    names = sorted(published.DEFS)
    # every sequence of a few words, from TLC
    q = c.tlc("Words", data=[{"tokens": len(published.TOKENS[n]), "len": (5 if k > 1 else 4) if len(published.TOKENS[n]) < 8 else 4} for n in names])
    seqs = {n: [] for n in names}
    for p in q["prints"]:
        v = [int(x) for x in re.findall(r"\d+", p)]
        seqs[names[v[0] - 1]].append(v[1:])
    data, runs, jobs, jcalls, meta = [], [], [], [], []
    for d, n in enumerate(names):
        tk = published.TOKENS[n]
        D = ex.definition(published.DEFS[n])
        data.append({"parts": D, "txt": n})
        ss = {"".join(tk[i - 1] for i in w) for w in seqs[n]}
        alltk = sorted({t for x in published.TOKENS.values() for t in x})
        for _ in range(250 * k):
            # longer ones: words of the definition between others, several fields in any order
            w = []
            for _ in range(rng.randint(1, 5)):
                z = rng.random()
                if z < 0.4:
                    w.append("".join(chr(x) for p in D for x in ex.word(rng, p["ast"])))
                elif z < 0.8:
                    w += rng.sample(tk, rng.randint(1, 4))
                else:
                    w.append(rng.choice(alltk))
            x = "".join(w)
            if rng.random() < 0.3 and x:
                i = rng.randrange(len(x))
                x = x[:i] + rng.choice(["", "\r\n", ";", "<", "@"]) + x[i + 1:]
            if rng.random() < 0.15:
                o = "".join(map(chr, rng.choice(ex.ODD)))
                x = o + x[:66] if rng.random() < 0.6 else x[:66] + o
            ss.add(x[:70])
        for _ in range(60 * k):
            # one character, or a short stretch, repeated many times within a match
            x = [x for p in D for x in ex.word(rng, p["ast"])]
            y = "".join(map(chr, ex.stretch(rng, x, 70)))
            i = rng.randrange(len(x))
            z = "".join(map(chr, x[:i] + x[i:i + rng.randint(2, 5)] * rng.randint(2, 15) + x[i:]))
            ss |= {y[:150], z[:150], y[:150] + rng.choice(alltk)}
        for _ in range(8 * k):
            # very long fields: a character of what is extracted, many times
            ws = [(p["pub"], "".join(map(chr, ex.word(rng, p["ast"])))) for p in D]
            x = "".join(w for _, w in ws)
            at = [i for i, pub in enumerate(pub for pub, w in ws for _ in w) if pub]
            i = rng.choice(at or range(len(x)))
            ss.add(x[:i] + x[i:i + 1] * rng.randint(130, 330 if rng.random() < 0.8 else 1100) + x[i:])
        # far behind the beginning
        for z in range(6 * k):
            w = [x for p in D for x in ex.word(rng, p["ast"])]
            if w[0] in (10, 13) or not n.startswith("email"):
                w = [13, 10] + w
            ss.add("".join(map(chr, ex.far(rng, D, w, 0 if z > 1 else 2 if z and (d + vp.SEED) % 4 == 0 else 1))))
        ss = sorted(ss)
        jobs.append({"k": "extract", "builtin": n, "inputs": ss})
        jobs.append({"k": "extract", "parts": vp.parts_json(published.DEFS[n]), "inputs": ss})
        few = [s for i, s in enumerate(ss) if k > 1 or i % 3 == vp.SEED % 3]
        jcalls += [{"f": published.JSNAME[n], "a": [s]} for s in few]
        meta += [(d, s) for s in few]
    # split the work of the harness
    split = [dict(j, inputs=j["inputs"][i:i + 300]) for j in jobs for i in range(0, len(j["inputs"]), 300)]
    res = iter(c.run_jobs(split))
    lib = {}
    built = []
    for i, j in enumerate(jobs):
        o = []
        while len(o) < len(j["inputs"]):
            o += next(res)["outs"]
        for s, x in zip(j["inputs"], o):
            if "builtin" in j:
                built.append((i // 2, s, x))
            else:
                lib[i // 2, s] = x["lib"]
    none = {"s": "none", "v": [], "ts": "none", "t": []}

    def add(d, s, r):
        runs.append({"d": d, "s": [ord(x) for x in s], "pub": r, "all": none, "has": [True, False, False, False], "lib": lib[d, s]})
    for d, s, x in built:
        add(d, s, ex.flat(x))
    ex.judge(c, data, runs, "built-in extractor")
    n1 = len(runs)
    runs.clear()
    for (d, s), x in zip(meta, js.calls(c, "apis", jcalls)):
        add(d, s, ex.flat(x))
    ex.judge(c, data, runs, "built-in extractor of the JavaScript package")
    c.cov.update(extractors=len(names), native_runs=n1, javascript_runs=len(runs),
                 strings_that_match={n: sum(1 for d, s, x in built if names[d] == n and x["s"] == "ok") for n in names})
    for d, s, x in built[:: max(1, len(built) // 10)][:10]:
        c.samples.append("%s on %r: %s" % (names[d], s, x.get("v", "no match")))


vp.main("C12", run)
