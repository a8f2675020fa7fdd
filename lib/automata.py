"""Compiled tables against definitions: used by the checks of single expressions, joins and tables."""
import json, re, random
import vp, rx


def number(a):
    return rx.number(a)


def gen_regexes(c, size, leaves):
    """Every expression of up to `size` tokens, from spec/DefGen.tla."""
    q = c.tlc("DefGen", extra_env={"SIZE": size, "LEAVES": leaves})
    out = []
    for p in q["prints"]:
        j = json.loads(p)
        out.append((j["s"], j["a"]))
    return out


def record(parts, asts, tab, accept=None, bounds=False, txt=""):
    """asts: the definition as the specification reads it (list of {"pub","k","ast"})."""
    f, a, m, dl, dup = vp.delta(tab)
    return {"parts": asts, "delta": dl, "dup": dup, "accept": a, "subs": vp.subs(tab), "bounds": bounds, "txt": txt,
            "first": f, "max": m}


def from_js(v):
    """the answer of genRegexAndDfa in the form of the tables"""
    v = json.loads(v)
    st = v["dfa"]["states"]
    if [s["state_id"] for s in st] != list(range(len(st))) or any(s["state_type"] not in ("", "accept") for s in st):
        raise ValueError("the states are not numbered in order, or of an unknown kind")
    rows = [[0], [i for i, s in enumerate(st) if s["state_type"] == "accept"], [len(st) - 1]]
    for i, s in enumerate(st):
        for to, bs in s["transitions"].items():
            if not 0 <= int(to) < len(st) or any(not 0 <= b <= 255 for b in bs):
                raise ValueError("a transition to state %s on %s" % (to, bs))
            rows += [[i, int(to), b] for b in bs]
    sub, bound = v["substrings"]["substring_ranges"], v["substrings"]["substring_boundaries"]
    if bound is None or len(bound) != len(sub):
        raise ValueError("no boundaries, or not as many as public parts")
    return {"all": rows, "subs": [list(b) + e for e, b in zip(sub, bound)], "end": v["has_end_anchor"]}


def judge_js(c, defs, what, domain=True):
    """the automata that JavaScript gets for [(definition, its parsed form)], also those with several accepting states"""
    import js, auto
    res = js.calls(c, "compiler", [{"f": "genRegexAndDfa", "a": [{"parts": vp.parts_json(d)}]} for d, _ in defs])
    data = []
    for (d, D), r in zip(defs, res):
        txt = vp.show(d)
        if r["s"] != "ok":
            c.violation("%s %s: none: %s" % (what, txt, r.get("m")), str(r)[:2000])
            continue
        try:
            tab = from_js(r["v"])
        except (ValueError, KeyError, TypeError, IndexError) as e:
            c.violation("%s %s: malformed: %s" % (what, txt, e), str(r)[:2000])
            continue
        if len(tab["subs"]) != D["npub"] or tab["end"] != D["end"]:
            c.violation("%s %s: %d public parts, end anchor %s" % (what, txt, len(tab["subs"]), tab["end"]), str(r)[:2000])
            continue
        data.append(record(d, D["parts"], tab, bounds=not auto.Dfa(D["parts"][0]["ast"]).loops, txt=txt))
    judge(c, data, what)
    c.cov["javascript_automata"] = c.cov.get("javascript_automata", 0) + len(data)
    c.cov["javascript_automata_with_several_accepting_states"] = c.cov.get("javascript_automata_with_several_accepting_states", 0) + sum(len(x["accept"]) > 1 for x in data)


def judge(c, data, what, timeout=800):
    """Runs spec/Automaton.tla; one violation per definition."""
    q = c.tlc("Automaton", data=data, cont=True, timeout=timeout)
    c.traces += len(data)
    seen = set()
    for n, last, blk in q.get("bad", []):
        m = re.search(r"def = (\d+)", last)
        d = int(m.group(1))
        if d in seen:
            continue
        seen.add(d)
        word = [int(x) for x in re.findall(r"byte = (-?\d+)", blk)]
        word = bytes(x for x in word if x >= 0)
        why = re.search(r'bad = "(.*)"', last).group(1) or n
        c.violation("%s %s: %s, after the bytes %r" % (what, data[d - 1]["txt"], why, word), blk)
    if not q["ok"] and not seen:
        c.violation("%s: %s" % (what, q["trace"][:300]), q["trace"])
    return seen


def judge_refusals(c, data):
    if not data:
        return
    q = c.tlc("Reject", data=data, cont=True)
    c.traces += len(data)
    seen = set()
    for n, last, blk in q.get("bad", []):
        d = int(re.search(r"def = (\d+)", last).group(1))
        if d not in seen:
            seen.add(d)
            c.violation("refused although it has one accepting state: %s (%s)" % (data[d - 1]["txt"], data[d - 1]["msg"]), blk)


def is_accept_refusal(st):
    return st["s"] == "err" and ("Accept" in st["m"] or "accepted state" in st["m"])


def ascii_only(a):
    if a["t"] == "cls":
        return a["r"][-1][1] < 128
    return all(ascii_only(x) for x in a.get("xs", [])) and ("x" not in a or ascii_only(a["x"]))


def sample(rng, xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]


def compile_defs(c, defs, gs=True, want=("h",), **kw):
    """compile jobs for a list of decomposed definitions"""
    jobs = []
    for d in defs:
        j = {"k": "compile", "mode": "dec", "parts": vp.parts_json(d), "gs": gs, "want": list(want)}
        j.update(kw)
        jobs.append(j)
    return c.run_jobs(jobs)


def in_domain(defs, accepts=False):
    """[(definition, its parsed form)] for those the documentation supports; accepts: or would, but for their accepting states"""
    import auto
    out = []
    for d in defs:
        try:
            D = rx.definition(d)
        except rx.RxError:
            if accepts:
                continue
            raise
        try:
            ok, why = auto.domain(D)
        except ValueError:
            ok, why = False, ""
        if ok or (accepts and why == "several accepting states"):
            out.append((d, D))
    return out
