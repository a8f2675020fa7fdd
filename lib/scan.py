"""Messages that take every transition of the scanner specification, run in the real circuits."""
import collections, itertools, json, random, re
import vp, rx, auto
import automata as au


BIG = 1 << 30      # TLC's integers end at 2^31; larger values only have to be out of range


class G:
    """the scanner graph of one definition, as printed by TLC from spec/Graph.tla"""

    def __init__(self):
        self.out = collections.defaultdict(list)     # conf -> [(kind, lo, hi, to)]
        self.acc = set()
        self.part = {}
        self.init = None

    def finish(self, init):
        self.init = init
        # shortest access word of every configuration, and shortest completion
        self.access = {init: []}
        q = collections.deque([init])
        while q:
            x = q.popleft()
            for kind, lo, hi, to in sorted(self.out[x], key=lambda e: (e[1], e[2])):
                if to not in self.access:
                    self.access[to] = self.access[x] + [self.nice(lo, hi)]
                    q.append(to)
        self.comp = {x: [] for x in self.acc}
        changed = True
        while changed:
            changed = False
            for x in list(self.out):
                for kind, lo, hi, to in self.out[x]:
                    if kind == "c" and to in self.comp:
                        w = [self.nice(lo, hi)] + self.comp[to]
                        if x not in self.comp or len(w) < len(self.comp[x]):
                            self.comp[x] = w
                            changed = True
        # a whole match from idle
        self.match = None
        for x, es in self.out.items():
            for kind, lo, hi, to in es:
                if kind in "br" and to in self.comp:
                    w = [self.nice(lo, hi)] + self.comp[to]
                    if self.match is None or len(w) < len(self.match):
                        self.match = w

    def nice(self, lo, hi):
        for b in (98, 110, 48, 66, 46):
            if lo <= b <= hi:
                return b
        return lo

    def reps(self):
        r = set()
        for es in self.out.values():
            for kind, lo, hi, to in es:
                r.add(self.nice(lo, hi))
        return sorted(r)


def graphs(c, recs, chunk=120):
    """recs: [{"parts":..}] -> list of G"""
    gs = [G() for _ in recs]
    init = {}
    for base in range(0, len(recs), chunk):
        q = c.tlc("Graph", data=[{"parts": r["parts"]} for r in recs[base:base + chunk]])
        for p in set(q["prints"]):
            d, fr, kind, lo, hi, to, acc, part = p.split("|")
            g = gs[base + int(d) - 1]
            g.out[fr].append((kind, int(lo), int(hi), to))
            if acc == "1":
                g.acc.add(to)
            g.part[to] = int(part)
    return gs


IDLE = "<<0, {}>>"


def initial(g):
    """the configuration after the start marker: the one no other reaches, or idle"""
    tos = {to for es in g.out.values() for _, _, _, to in es}
    only = [x for x in g.out if x not in tos]
    return only[0] if only else IDLE


def messages(rng, g, maxlen, budget, allbytes=False):
    """words over bytes 1..254, at most maxlen long"""
    out = []

    def add(w):
        w = list(w)
        if len(w) <= maxlen:
            out.append(tuple(w))
    add([])
    # a match after, or overlapping with, the beginning of another one
    m = g.match or []
    if m:
        for j in sorted({1, len(m) // 2, len(m) - 1} | {rng.randrange(len(m)) for _ in range(3)}):
            add(m[:j] + m)
            add(m[:j] + m[rng.randrange(len(m)):] + m)
    for x in sorted(g.access):
        pre = g.access[x]
        add(pre)
        for kind, lo, hi, to in sorted(g.out[x]):
            bs = {lo, hi}
            if hi - lo > 1:
                bs.add(rng.randint(lo, hi))
            if allbytes and kind != "i":
                bs |= set(range(lo, hi + 1))
            for b in sorted(bs):
                w = pre + [b]
                if to in g.comp:
                    w = w + g.comp[to]
                    add(w)
                    if b == lo:
                        add(w + [g.nice(1, 254)])
                        add(w + (g.match or []))
                elif to in g.access:
                    add(w + (g.match or []))
                    if b == lo:
                        add(w)
    # every word over one byte per class, as long as there are few
    reps = g.reps()
    L = 1
    while len(reps) ** (L + 1) <= budget and L < maxlen and L < 7:
        L += 1
    if len(reps) ** L <= budget:
        for n in range(1, L + 1):
            for w in itertools.product(reps, repeat=n):
                out.append(w)
    # random walks that prefer to go on
    for _ in range(budget // 8):
        x, w = g.init, []
        n = rng.randint(1, maxlen)
        while len(w) < n:
            es = g.out[x]
            pool = [e for e in es if e[0] == "c"] if rng.random() < 0.75 else es
            if not pool:
                pool = [e for e in es if e[0] in "br"] or es
            kind, lo, hi, to = rng.choice(pool)
            w.append(rng.randint(lo, hi))
            x = to
        add(w)
    seen, res = set(), []
    for w in out:
        if w not in seen:
            seen.add(w)
            res.append(w)
    return res


def plan(rng, g, msgs, sizes=False, cap=400):
    """[{n, msgs}]: most messages with padding, some exactly filling the circuit"""
    if len(msgs) > cap:
        keep = msgs[:cap // 2] + rng.sample(msgs[cap // 2:], cap - cap // 2)
    else:
        keep = msgs
    m = max([len(w) for w in keep] + [1])
    runs = collections.defaultdict(list)
    small = sorted({len(w) for w in keep if len(w) > 0})
    mids = set()
    if small:
        mids.add(small[len(small) // 2])
        mids.add(small[0])
    for w in keep:
        runs[m + 1].append(list(w))
    for w in keep:
        if sizes:
            if len(w) and rng.random() < 0.7:
                runs[len(w)].append(list(w))
        elif len(w) == m or len(w) in mids:
            runs[len(w)].append(list(w))
    return [{"n": n, "msgs": ws[:cap]} for n, ws in sorted(runs.items()) if n > 0]


def crowd(rng, g):
    """one long message with as many matches as it takes to run out of a byte, and one long walk through the automaton"""
    m = tuple(g.match or ())
    if not m or 0 in m:
        return []
    out = []
    if len(m) <= 3:
        out.append(list(m * (260 + rng.randrange(20))))
    w = []
    while len(w) < 300:
        w += list(rng.choice([m, m, m[:rng.randrange(len(m)) + 1], m[rng.randrange(len(m)):]]))
    out.append(w)
    return [{"n": len(w) + rng.randrange(2), "msgs": [w]} for w in out]


def collect(recs, results, c, what, cont=True):
    """turn harness results into the runs of spec/Scanner.tla"""
    data, runs = [], []
    for rec, r in zip(recs, results):
        data.append({k: rec[k] for k in ("parts", "end", "npub", "txt", "reveals")})
        for wf in r.get("wf", []):
            if "err" in wf:
                c.violation("%s %s: the circuit does not elaborate at size %s: %s" % (what, rec["txt"], wf["n"], wf["err"]), json.dumps(wf))
        for g in r.get("runs", []):
            for m, o in zip(g["msgs"], g["outs"]):
                full = [max(-BIG, min(BIG, v)) for v in m] + [0] * (g["n"] - len(m))
                if "e" in o:
                    c.violation("%s %s: the circuit cannot be evaluated: %s" % (what, rec["txt"], o["e"]), json.dumps([m, o]))
                elif "u" in o:
                    runs.append({"d": len(data), "m": full, "s": "unsat", "o": -1, "r": []})
                else:
                    runs.append({"d": len(data), "m": full, "s": "sat", "o": o["o"], "r": o["r"]})
    return data, runs


def judge(c, data, runs, cfg, what, chunk=40000, module="Scanner"):
    bad = set()
    for base in range(0, len(runs), chunk):
        rs = runs[base:base + chunk]
        used = sorted({r["d"] for r in rs})
        num = {d: i + 1 for i, d in enumerate(used)}
        q = c.tlc(module, cfg=cfg, data=[data[d - 1] for d in used], more={"RUNS": [dict(r, d=num[r["d"]]) for r in rs]}, cont=True)
        c.traces += len(rs)
        for name, last, blk in q.get("bad", []):
            r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
            if r["d"] in bad:
                continue
            bad.add(r["d"])
            end = max([i + 1 for i, b in enumerate(r["m"]) if b != 0] + [0])
            c.violation("%s %s: %s is false for the message %r in a circuit of size %d: the circuit says %s, %s" %
                        (what, data[r["d"] - 1]["txt"], name, bytes(b % 256 for b in r["m"][:end]), len(r["m"]), r["o"] if r["s"] == "sat" else "unsatisfiable", r["r"]), blk)
        if not q["ok"] and not q.get("bad"):
            c.violation("%s: %s" % (what, q["trace"][:300]), q["trace"])
    return bad


def scannable(defs):
    """definitions in the documented domain of circuits (also the first part must not return to its start)"""
    out = []
    for d in defs:
        D = rx.definition(d)
        try:
            ok = auto.domain(D)[0]
        except ValueError:
            ok = False
        if not ok:
            continue
        first = auto.Dfa(D["parts"][0]["ast"])
        if first.loops:
            continue
        if all(auto.Dfa(p["ast"]).nul for p in D["parts"]):
            continue
        out.append((d, D))
    return out


def record(d, D, gs):
    return {"parts": D["parts"], "end": D["end"], "npub": D["npub"], "txt": vp.show(d), "reveals": gs}


def prepare(c, defs, gs, rng, maxlen, budget):
    """scannable definitions with their records, graphs and messages"""
    dom = scannable(defs)
    recs = [record(d, D, gs) for d, D in dom]
    gr = graphs(c, recs)
    ms = []
    for g in gr:
        g.finish(initial(g))
        ml = max(maxlen, min(26, 2 + max([len(x) for x in g.access.values()] + [0]) + max([len(x) for x in g.comp.values()] + [0]) +
                             len(g.match or [])))
        ms.append(messages(rng, g, ml, budget))
    return dom, recs, gr, ms


def check(c, defs, cfg, what, gs, rng, maxlen=12, budget=120, cap=160, allbytes=False, mode="dec", sizes=False, crowds=0):
    dom = scannable(defs)
    recs = [record(d, D, gs) for d, D in dom]
    gr = graphs(c, recs)
    jobs = []
    if crowds:
        crowds = set(rng.sample(range(len(dom)), min(crowds, len(dom))))
    for x, ((d, D), g) in enumerate(zip(dom, gr)):
        g.finish(initial(g))
        ml = max(maxlen, min(26, 2 + max([len(x) for x in g.access.values()] + [0]) + max([len(x) for x in g.comp.values()] + [0]) +
                             len(g.match or [])))
        ms = messages(rng, g, ml, budget, allbytes)
        if sizes:       # zero bytes inside do not begin the padding
            for w in au.sample(rng, [w for w in ms if w], budget // 4):
                i = rng.randrange(len(w) + 1)
                ms.insert(0, w[:i] + (0,) * rng.choice([1, 1, 2]) + w[i:])
        jobs.append({"k": "compile", "mode": mode, "parts": vp.parts_json(d), "gs": gs, "want": ["c"],
                     "runs": plan(rng, g, ms, sizes=sizes, cap=cap) + (crowd(rng, g) if crowds and x in crowds else [])})
    res = c.run_jobs(jobs)
    ok_recs, ok_res = [], []
    for rec, r in zip(recs, res):
        if r["c"]["s"] != "ok":
            c.violation("%s %s: not compiled: %s" % (what, rec["txt"], r["c"].get("m")), json.dumps(r["c"]))
        else:
            ok_recs.append(rec)
            ok_res.append(r)
    data, runs = collect(ok_recs, ok_res, c, what)
    judge(c, data, runs, cfg, what)
    c.cov.setdefault("circuits", 0)
    c.cov.setdefault("runs", 0)
    c.cov.setdefault("runs_that_match", 0)
    c.cov["circuits"] += len(ok_recs)
    c.cov["runs"] += len(runs)
    c.cov["runs_that_match"] += sum(r["o"] == 1 for r in runs)
    c.cov["graph_transitions_covered"] = c.cov.get("graph_transitions_covered", 0) + sum(len(es) for g in gr for es in g.out.values())
    for r in runs[:: max(1, len(runs) // 6)][:6]:
        c.samples.append("%s on %r: out %s" % (data[r["d"] - 1]["txt"], bytes(b % 256 for b in r["m"]), r["o"]))
    return data, runs
