"""C09: extraction returns the parts of the preferred leftmost match."""
import os, sys, random, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, js
import extract as ex


# inputs on which the regex library errs (KNOWN_FINDINGS.md)
FLAGS = [[(False, "((?i)a)b"), (True, "c")], [(True, "(x(?i)a|b)+c"), (True, "d")]]
MISTAKEN = {vp.show([(True, "(\\)éa)?"), (True, "a")]): [")éaa", "b)éaa"], vp.show(FLAGS[0]): ["aBc", "ABc"], vp.show(FLAGS[1]): ["xaCd", "xaBcd", "xacd", "bCd"]}


def fancy(rng, n):
    """small definitions with look-around, atomic groups and possessive repetition here and there"""
    A = ["a", "b", "ab", "[ab]", "(a|b)", "(?:ab|a)", "(a|ab)", "c", "é", "(?:é|b)a", "."]
    Q = ["", "", "", "?", "+", "*", "+?", "*?", "?+", "++", "*+", "{1,2}", "{1,2}+"]
    L = ["(?=%s)", "(?!%s)", "(?<=%s)", "(?<!%s)", "(?>%s)"]

    def part(r):
        s = ""
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.35:
                k = rng.choice(L)
                s += k % (rng.choice(["a", "b", "[ab]", "é", "(a|b)", "ab"]) if "<" in k else rng.choice(A) + rng.choice(Q))
            elif rng.random() < 0.08:
                s += rng.choice(["\\b", "\\B"])
            else:
                s += rng.choice(A) + rng.choice(Q)
        return s
    return [[(rng.random() < 0.6, part(r)) for r in range(rng.randint(1, 4))] for _ in range(n)]


def run(c):
    rng = random.Random(vp.SEED + 9)
    k = 8 if vp.THOROUGH else 1
    defs = corpus.EXTRACT + [[(True, "(\\)éa)?"), (True, "a")]] + corpus.FANCY + fancy(rng, 90 * k) + corpus.DEC + corpus.REVEAL + corpus.ANCHORED + corpus.small_defs(rng, 120 * k) + corpus.small_anchored(rng, 50 * k) + \
        FLAGS + corpus.extract_defs(rng, 250 * k) + corpus.random_defs(rng, 60 * k) + [[(True, r)] for r in corpus.random_regexes(rng, 40 * k)]
    data, jobs, strs, skipped = [], [], [], 0
    for d in defs:
        try:
            D = ex.definition(d)
        except rx.RxError:
            continue
        if any(ex.empty_rounds(p["ast"]) for p in D):
            skipped += 1
            continue
        ss = sorted(set(ex.strings(rng, D, 40 if k == 1 else 90)) | {tuple(map(ord, x)) for x in MISTAKEN.get(vp.show(d), [])})
        if len(data) % 16 == 0:
            w = [x for p in D for x in ex.word(rng, p["ast"])]
            ss += [tuple(ex.far(rng, D, w)), tuple(ex.far(rng, D, w, 1)), tuple(ex.far(rng, D, ex.stretch(rng, w, 24 if any(ex.deep(p["ast"]) for p in D) else 150) if w else w))]
            if len(data) % 160 == 0:
                ss.append(tuple(ex.far(rng, D, w, 2)))
        data.append({"parts": D, "txt": vp.show(d), "flags": ex.inner_flags(d)})
        strs.append(ss)
        jobs.append({"k": "extract", "parts": vp.parts_json(d), "inputs": ["".join(map(chr, s)) for s in ss]})
    res = c.run_jobs(jobs)
    runs = []
    for i, (ss, r) in enumerate(zip(strs, res)):
        for s, o in zip(ss, r["outs"]):
            runs.append({"d": i, "s": list(s), "pub": ex.flat(o["pub"]), "all": ex.flat(o["all"]), "has": [True] * 4, "lib": o["lib"]})
    ex.judge(c, data, runs, "extraction with")
    # the same from JavaScript, the definition given as an object or as text, with both spellings of its fields
    jc, meta = [], []
    for i in range(vp.SEED % 5, len(data), 5 if k == 1 else 1):
        for q, (s, o) in enumerate(list(zip(strs[i], res[i]["outs"]))[:: 3 if k == 1 else 1]):
            cfg = {"parts": [{"isPublic": p["is_public"], "regexDef": p["regex_def"]} for p in jobs[i]["parts"]] if q % 2 else jobs[i]["parts"]}
            if q % 3 == 0:
                cfg = json.dumps(cfg)
            for priv in (False, True):
                jc += [{"f": "extractSubstrIdxes", "a": ["".join(map(chr, s)), cfg, priv]}, {"f": "extractSubstr", "a": ["".join(map(chr, s)), cfg, priv]}]
            meta.append((i, s, o["lib"]))
    rs = iter(js.calls(c, "apis", jc))
    jruns = []
    for i, s, l in meta:
        pair = []
        for _ in range(2):
            a, b = next(rs), next(rs)
            pair.append({"s": a["s"], "v": a.get("v", []), "ts": b["s"], "t": [list(x.encode()) for x in b.get("v", [])]})
        jruns.append({"d": i, "s": list(s), "pub": pair[0], "all": pair[1], "has": [True] * 4, "lib": l})
    ex.judge(c, data, jruns, "extraction from JavaScript with")
    c.cov.update(javascript_runs=len(jruns))
    c.cov.update(definitions=len(data), strings=len(runs), definitions_skipped_for_empty_rounds=skipped, strings_that_match=sum(r["pub"]["s"] == "ok" for r in runs))
    for r in runs[:: max(1, len(runs) // 8)][:8]:
        c.samples.append("%s on %r: %s" % (data[r["d"]]["txt"], "".join(map(chr, r["s"])), r["all"]["v"]))


vp.main("C09", run)
