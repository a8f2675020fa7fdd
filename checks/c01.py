"""C01: a single expression compiles to the automaton of its language, byte for byte."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus
import automata as au


def run(c):
    rng = random.Random(vp.SEED)
    size = 6 if vp.THOROUGH else 5
    gen = au.gen_regexes(c, size, 3) + (au.gen_regexes(c, 5, 4) if vp.THOROUGH else au.gen_regexes(c, 4, 4))
    if not vp.THOROUGH:
        gen = au.sample(rng, gen, 1200)
    cases = [(s, au.number(a), "text") for s, a in gen]
    for s in corpus.RAW + ["".join(r for _, r in d) for d in corpus.LARGE] + corpus.random_regexes(rng, 1500 if vp.THOROUGH else 250):
        cases.append((s, rx.definition([(False, s)])["parts"][0]["ast"], "corpus"))
    cases += [(s, rx.definition([(False, s)])["parts"][0]["ast"], "edges") for s in corpus.edges(rng)]
    jobs = []
    for s, a, k in cases:
        jobs.append({"k": "compile", "mode": "raw", "raw": s, "trans": None, "gs": False, "want": ["h"]})
        if k == "corpus":
            jobs.append({"k": "compile", "mode": "dec", "parts": vp.parts_json([(False, s)]), "gs": False, "want": ["h"]})
    res = c.run_jobs(jobs)
    data, refused, nref = [], [], 0
    by = []
    for (s, a, k) in cases:
        for mode in (("raw", "decomposed") if k == "corpus" else ("raw",)):
            by.append((s, a, mode))
    for (s, a, mode), r in zip(by, res):
        h = r["h"]
        asts = [{"pub": False, "k": -1, "ast": a}]
        txt = "%s %r" % (mode, s)
        if h["s"] == "ok":
            if "bad" in r["t"]:
                c.violation("malformed table for %s: %s" % (txt, r["t"]["bad"]), str(r))
                continue
            data.append(au.record(None, asts, dict(r["t"], subs=[]), txt=txt))
        elif au.is_accept_refusal(h):
            nref += 1
            if au.ascii_only(a):
                refused.append({"parts": asts, "txt": txt, "msg": h["m"]})
        else:
            c.violation("not compiled: %s: %s" % (txt, h["m"]), str(h))

    au.judge(c, data, "the automaton of")
    au.judge_refusals(c, refused)
    # JavaScript gets the automaton also when it has several accepting states
    several = sorted({s for (s, a, mode), r in zip(by, res) if au.is_accept_refusal(r["h"])})
    some = au.sample(rng, several, 500 if not vp.THOROUGH else 5000) + au.sample(rng, corpus.RAW, 60)
    au.judge_js(c, [([(i % 2 == 0, s)], rx.definition([(i % 2 == 0, s)])) for i, s in enumerate(some)], "the automaton in JavaScript of")
    c.cov.update(expressions=len(cases), tables=len(data), refusals=nref, refusals_judged=len(refused))
    c.samples += [d["txt"] for d in data[:: max(1, len(data) // 8)]]


vp.main("C01", run)
