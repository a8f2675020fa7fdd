"""C13: requests that cannot be met fail cleanly."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, front
from front import D

H, P = False, True


def J(*parts):
    return json.dumps({"parts": [{"is_public": p, "regex_def": r} for p, r in parts]}).encode()


BAD = ["(", ")", "a)", "(a", "[a", "*a", "a|*b", "a{2,1}", "a{3", "(?=a)b", "(?!a)b", "(?<=a)b", r"(a)\1", r"\p{Foo}", "(?P<n>a)(?P<n>b)", "[z-a]",
       r"\x{110000}", "(?z)a", "a\\", r"\xZZ", r"\8", "(?", "(?P<a", "[a-\\d]", r"\i", "(?>a)", "(?#c)a", "(?u"]
NOTJSON = [b"", b"{", b"null", b"5", b"{}", b"[]", b'{"parts":{}}', b'{"parts":null}', b'{"parts":[{"regex_def":"a"}]}', b'{"parts":[{"is_public":true}]}',
           b'{"parts":[{"is_public":"yes","regex_def":"a"}]}', b'{"parts":[{"is_public":true,"regex_def":5}]}', J((H, "ab"))[:-2], J((H, "ab")) + b"x",
           b'{"parts":[{"is_public":true,"regex_def":"\xff"}]}', b'{"parts":["a"]}', b'{"parts":[{"is_public":1,"regex_def":"a"}]}', b"missing"]
TRANS = ['{"transitions":[[[0,7]]]}', '{"transitions":[[[9,1]]]}', '{"transitions":[[[1,2],[77,2]]]}', '{"transitions":[[]]}', '{"transitions":[[[0,1]],[]]}', '{"transitions":[[[-1,1]]]}', '{"transitions":[[[0]]]}',
         '{"transitions":[[[0,1,2]]]}', '{"transitions":{}}', '{}', '{"transitions":[[[0.5,1]]]}', '', '{"transitions":[[0,1]]}', '{"transitions":[[[0,18446744073709551615]]]}',
         '{"transitions":[[[0,18446744073709551616]]]}', '{"transitions":[[["0","1"]]]}']
ANCHORS = [[(H, "a$"), (P, "b")], [(H, "a"), (P, "^b")], [(H, "a"), (P, "(b$)")], [(H, "(a|^b)c")], [(H, "ab|^c")], [(H, "a^b")], [(H, "^a^b")], [(H, "a$b")], [(H, "a$|b")],
           [(H, "$"), (P, "a")], [(H, "a"), (H, "b^"), (P, "c")], [(H, "(x|^)a(y|^)b")], [(H, "((a|^)b)c")], [(H, "x(a|^)b")], [(H, "a$$")], [(H, r"\Aab")], [(H, r"ab\z")], [(H, r"\bab")],
           [(H, "^a|b"), (P, "c")], [(H, "(a|^)b|d"), (P, "c")], [(H, "(a|^)|b")], [(H, "a"), (P, "b|c$")], [(P, "b|c$")], [(H, "(b|c)d|(e)$")], [(H, ".?(a|^)b")], [(H, "|.(?:|^)"), (P, "b")],
           [(H, "((a|^)b?)c")], [(H, "(a|^)?b")], [(H, "(a|^){2}b")], [(H, "(^a?|b)c")], [(H, "(^?|b)c")],
           [(H, "[^a]$b")], [(H, "[]]b"), (P, "^c")], [(H, "[^]]"), (P, "$c")], [(H, "[^a]"), (P, "b(c$)")], [(H, "[\\]]^c")], [(H, "[a\\]$]$c")],
           [(H, "x"), (P, "(?m)ab$")], [(H, "x"), (P, "ab(?im)$")], [(H, "(?m)^ab")], [(P, "x"), (H, "(?s-i)[b(?-m)]+(?m)(?i)(c|d)$")]]


def definitions():
    ds = [D([(H, "a"), (P, "[b-z]+"), (H, "!")], faults=True),
          D([(P, "a"), (H, "-"), (P, "b"), (H, "-"), (P, "c+"), (H, "d$")], faults=True),
          D(raw="1=(a|b) (2=(b|c)+ )+d", trans=[[[2, 3]], [[6, 7], [7, 7]], [[8, 9]]], faults=True),
          D(raw="ab+c", faults=True),
          D([(H, "(\r\n|^)from:"), (P, "[^\r\n]+"), (H, "\r\n")]), D([(P, "[à-ü]+"), (H, "!")]), D([(P, "(^|x)ab"), (H, "c")]), D([(H, "^"), (P, "[a-z]+"), (H, "$")]),
          D([(H, r"\^a\$"), (P, "[$^]+"), (H, r"\$")]), D([(P, "(?P<n>a)b"), (H, "c")]), D([(H, "a"), (P, "b?"), (H, "c")]), D(raw="[a-z]{40}"), D(raw="a\nb"), D(raw="-a"), D(raw="*/x".replace("*", r"\*")),
          D(raw="ab$"), D(raw="(?m)a(?-m)b$"), D(raw="(?-m:a)((?m)b)$"), D([(H, "a"), (P, "(?:mb|[(?m)]c)$")] , accepts=1), D(raw="(?m)ab"), D(raw=r"[^\n]!"), D(raw="a\"b\\\\c"), D([(H, "//"), (P, "[a-z]+"), (H, r"\*/")])]
    for b in BAD:
        ds.append(D(raw=b, syntax=False))
        ds.append(D([(H, "x"), (P, b), (H, "y")], syntax=False))
        ds.append(D([(P, b)], syntax=False))
    for t in NOTJSON:
        ds.append(D([(H, "ab")], given=False, text="missing" if t == b"missing" else t))
    ds.append(D([], text=b'{"parts":[]}'))
    for t in TRANS:
        ds.append(D(raw="ab", trans=[], given=False, text=t.encode()))
    ds.append(D(raw="ab", trans=[], given=False, text="missing"))
    ds.append(D(raw="ab", trans=[], text=b'{"transitions":[]}'))
    for a in ANCHORS:
        ds.append(D(a, anchors=False))
    for a in ("^ab", "(ab$)", "a$b", "(x|^)ab", "a^", "$a", "ab$c|d", r"\Aa", r"a\b", "^", "a|^b", "(a|b$)", "(?m)ab$", "a(?Um)b+$", "(?-m)(?m)a$", "(?m)[(?-m)]a$"):
        ds.append(D(raw=a, anchors=False))
    for a in ("a|ab", "ab?", "a(b(c)?)?", "a|bc*", "(a|ab)(c|bcd)?"):
        ds += [D(raw=a, accepts=2), D([(H, "x"), (P, a)], accepts=2), D([(P, "x"), (H, a + "$")] if "|" not in a else [(P, "x"), (H, "(%s)$" % a)], accepts=2)]
    for a in (r"[^\s\S]", r"a[^\s\S]", r"[a&&b]c"):
        ds += [D(raw=a, accepts=0), D([(H, "x"), (P, a)], accepts=0), D([(P, a), (H, "x")], accepts=0), D([(P, "y"), (H, a), (H, "x")], accepts=0)]
    for a in ("", "a{0}", "()", "(|)"):
        ds += [D(raw=a, moves=False), D([(H, a)], moves=False), D([(P, a)], moves=False, silent=True), D([(H, "a"), (P, a), (H, "b")], silent=True), D([(P, "a"), (H, a), (P, "b")])]
    for a in ("b*", "(bc)*", "(bc|d)*"):
        ds += [D(raw=a, moves=False), D([(H, a)], moves=False), D([(P, a)], moves=False, silent=True), D([(P, a), (H, "a")], silent=True), D([(H, a), (P, "a")])]
    ds += [D(raw="b*a", trans=[[[0, 0]]], silent=True), D(raw="b*ac", trans=[[[0, 1]], [[0, 0], [0, 1]]], silent=True)]
    for a in ("a)|(b", ")(", "a)b(c", "x)|(?:"):
        ds += [D(raw=a, syntax=False), D([(H, "x"), (P, a)], syntax=False), D([(P, a), (H, "x")], syntax=False)]
    for a in ([], ["foo"], ["raw"], ["decomposed"], ["raw", "-r"], ["decomposed", "-d"], ["decomposed", "-d", "@/in/d1a.json", "-g", "maybe", "-h", "@/h1"], ["raw", "-r", "a", "--nope", "-h", "@/h1"],
              ["-r", "a", "-h", "@/h1"], ["raw", "-r", "a", "b", "-h", "@/h1"], ["raw", "-r", "a", "-r", "b", "-h", "@/h1"], ["decomposed", "-r", "a", "-h", "@/h1"], ["raw", "-d", "@/in/d1a.json", "-h", "@/h1"],
              ["raw", "-r", "a", "-g", "-h", "@/h1"], ["raw", "-r", "a", "-t", "A", "-t", "B", "-c", "@/c1.circom"], ["decomposed", "-d", "@/in/d1a.json", "-c"]):
        ds.append(D(raw=a, mode="args", given=False))
    for a in (["--help"], ["raw", "--help"], ["decomposed", "--help"], ["--version"], ["help"], ["help", "raw"]):
        ds.append(D(raw=a, mode="args"))
    return ds


TOKENS = ["a", "b", "(", ")", "[", "]", "^", "$", "\\", "*", "+", "?", "|", "{", "2}", ",", "-", ".", "é", "(?:", "[^", "|^)", "x", "\n"]


def words(c, rng):
    """texts from all short words of regex tokens: nothing panics, and what is compiled is well formed"""
    n = 3 if not vp.THOROUGH else 4
    q = c.tlc("Words", data=[{"tokens": len(TOKENS), "len": 3}])
    ws = ["".join(TOKENS[int(x) - 1] for x in re.findall(r"\d+", p)[1:]) for p in q["prints"]]
    for _ in range(2500 if n == 3 else 60000):
        ws.append("".join(rng.choice(TOKENS) for _ in range(rng.randint(4, 9))))
    ws = list(dict.fromkeys(ws))
    jobs, own = [], []
    for k, w in enumerate(ws):
        kinds = ["raw", "one", "first", "last"] if vp.THOROUGH else [("raw", "one", "first", "last")[(k + x) % 4] for x in (0, 1)]
        for kind in kinds:
            if kind == "raw":
                jobs.append({"k": "compile", "mode": "raw", "raw": w, "trans": None, "gs": k % 2 == 0, "want": ["h", "c"], "elab": [2]})
            else:
                ps = {"one": [(P, w)], "first": [(P, w), (H, "b")], "last": [(H, "a"), (P, w)]}[kind]
                jobs.append({"k": "compile", "mode": "dec", "parts": [{"is_public": p, "regex_def": r} for p, r in ps], "gs": k % 3 > 0, "want": ["h", "c", "l"], "elab": [2]})
            own.append((w, kind))
    res = c.run_jobs(jobs)
    data = [{"out": [r[x]["s"] for x in ("h", "c", "l") if x in r], "wf": all("err" not in w for w in r.get("wf", []))} for r in res]
    xs = [{"k": "extract", "parts": [{"is_public": i % 2 == 0, "regex_def": w} for i, w in enumerate(g)], "inputs": ["", "ab", "é\nax"]} for g in [[a] for a in ws[::2]] + list(zip(ws[::3], ws[1::3]))]
    ex = c.run_jobs(xs)
    data += [{"out": [o[x]["s"] for o in r["outs"] for x in ("pub", "all")] + [o[x]["t"]["s"] for o in r["outs"] for x in ("pub", "all")], "wf": True} for r in ex]
    what = ["compiling %r (%s)" % o for o in own] + ["extracting with %r" % [p["regex_def"] for p in x["parts"]] for x in xs]
    q = c.tlc("Outcomes", data=data, cont=True)
    c.traces += len(data)
    for name, last, blk in q.get("bad", []):
        i = int(re.search(r"at = (\d+)", last).group(1)) - 1
        c.violation("%s: %s is false: %s" % (what[i], name, (res + ex)[i] if i < len(own) else ex[i - len(own)]), blk)
    c.cov.update(words=len(ws), compiled=len(own), accepted=sum(r.get("c", {}).get("s") == "ok" for r in res), extractions=len(xs))


def run(c):
    rng = random.Random(vp.SEED + 13)
    defs = definitions()
    bin = vp.build_cli()
    root = os.path.join(c.scratch, "w")
    os.makedirs(root)
    outs = front.outputs(c, defs, bin, root)
    ps = [{"kind": k, "dir": d, "k": i} for k, d, i, _ in front.paths(defs)]
    os_ = [{k: o[k] for k in ("kind", "d", "t", "gs", "k", "id", "size")} for o in outs]
    q = c.tlc("FrontOne", more={"DEFS": [d["f"] for d in defs], "PATHS": ps, "OUTPUTS": os_})
    cases = [json.loads(p) for p in dict.fromkeys(q["prints"])]
    c.log("%d definitions, %d requests" % (len(defs), len(cases)))
    plain = [x for x in cases if x["how"] == "none" and x["quota"] < 0]
    other = [x for x in cases if x["how"] != "none" or x["quota"] >= 0]
    cap = (3000, 2200) if not vp.THOROUGH else (10 ** 6, 10 ** 6)
    rng.shuffle(plain)
    rng.shuffle(other)
    cases = plain[:cap[0]] + other[:cap[1]]
    # requests that share a process or need none can share a directory
    hists, quota, bad, group = [], [], [], {}
    for x in cases:
        r = x["req"]
        if x["how"] == "none" and x["quota"] < 0:
            g = group.setdefault(r["front"] if r["front"] in ("js", "dfa") else "x", [])
            g.append(r)
            if len(g) < 12:
                continue
            hists.append(list(g))
            g.clear()
        else:
            hists.append([r])
        quota.append(x["quota"])
        bad.append([(x["how"], x["at"], x["bad"])] if x["how"] != "none" else [])
    for g in group.values():
        if g:
            hists.append(g)
            quota.append(-1)
            bad.append([])
    runs = front.histories(c, defs, hists, bin, outs, root, quota, bad)
    c.log("carried out")
    front.judge(c, defs, runs, outs, "a request")
    st = [s for r in runs for s in r["steps"]]
    c.cov.update(definitions=len(defs), requests=len(st), succeeded=sum(s["s"] == "ok" for s in st), faults=len([x for x in cases if x["how"] != "none"]),
                 quotas=len([x for x in cases if x["quota"] >= 0]))
    words(c, rng)


vp.main("C13", run)
