"""C17: the shipped helper templates, at every width, against the specification of what they compute."""
import os, sys, random, json, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp

TEXT = '''pragma circom 2.1.5;
include "@zk-email/zk-regex-circom/circuits/regex_helpers.circom";
template W(n) {
    signal input msg[n];
    signal output out;
    component c = %s;
%s
    out <== c.out;
}
'''
EACH = "    for (var i = 0; i < n; i++) { c.in[i] <== msg[i]; }"
GATES = {"MultiOR": ("MultiOR(n)", EACH), "MultiNOR": ("MultiNOR(n)", EACH), "ORAnd": ("ORAnd()", EACH),
         "IsNotZeroAcc": ("IsNotZeroAcc()", "    c.acc <== msg[0];\n    c.in <== msg[1];")}


def run(c):
    rng = random.Random(vp.SEED + 17)
    k = 6 if vp.THOROUGH else 1
    # all inputs of the narrow ones, from TLC
    most = 10 if k == 1 else 13
    q = c.tlc("Words", data=[{"tokens": 2, "len": most}])
    words = [w for w in ([int(x) - 1 for x in re.findall(r"\d+", p)][1:] for p in q["prints"]) if w]
    jobs = []
    for h in sorted(GATES):
        by = {}
        if h.startswith("Multi"):
            for w in words:
                by.setdefault(len(w), []).append(w)
            for n in list(range(most + 1, 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513] + [rng.randint(40, 600) for _ in range(6 * k)]:
                ws = by.setdefault(n, [])
                ws += [[0] * n, [1] * n]
                for i in sorted({0, 1, n - 1, n // 2} | {rng.randrange(n) for _ in range(6 * k)}):
                    ws += [[int(j == i) for j in range(n)], [int(j != i) for j in range(n)], [int(j >= i) for j in range(n)], [int(j < i) for j in range(n)]]
                ws += [[int(rng.random() < p) for _ in range(n)] for p in (0.02, 0.2, 0.5, 0.9)]
        elif h == "ORAnd":
            by[3] = [w for w in words if len(w) == 3]
        else:
            # a counter: any element, and any element to look at
            v = sorted(set(range(-3, 4)) | {254, 255, 256, 1000, 65535, 999998} | {rng.randint(0, 10 ** 6 - 2) for _ in range(20 * k)})
            by[2] = [[a, b] for a in v for b in v + [1 << 20, 1 << 30, 2 ** 31 - 1]]
        t, wire = GATES[h]
        for n, ws in sorted(by.items()):
            for b in range(0, len(ws), 400):
                jobs.append((h, {"k": "shipped", "text": TEXT % (t, wire), "tname": "W", "elab": [n], "events": n if b == 0 else None, "runs": [{"n": n, "msgs": ws[b:b + 400]}]}))
    res = c.run_jobs([j for _, j in jobs])
    runs, data = [], []
    for (h, j), r in zip(jobs, res):
        n = j["elab"][0]
        for wf in r.get("wf", []):
            if "err" in wf:
                c.violation("%s at width %d is not well formed: %s" % (h, n, wf["err"]), json.dumps(wf))
        forced = 0
        for g in r.get("runs", []):
            for m, o in zip(g["msgs"], g["outs"]):
                if "e" in o:
                    c.violation("%s at width %d cannot be evaluated: %s" % (h, n, o["e"]), json.dumps(o))
                    break
                forced += "f" in o
                runs.append({"h": h, "m": m, "s": "unsat" if "u" in o else "ok", "o": o.get("o", 0)})
        if j["events"] and r.get("events") and n <= 40:
            data.append({"txt": "%s at width %d" % (h, n), "ev": r["events"], "nsig": r["wf"][0]["sigs"], "forced": forced,
                         "iface": [], "want": []})
    seen = set()
    for base in range(0, len(runs), 20000):
        rs = runs[base:base + 20000]
        q = c.tlc("Gates", more={"RUNS": rs}, cont=True)
        c.traces += len(rs)
        for name, last, blk in q.get("bad", []):
            r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
            if (name, r["h"]) not in seen:
                seen.add((name, r["h"]))
                c.violation("%s of %s inputs %s: %s is false: %s %s" % (r["h"], len(r["m"]), r["m"][:40], name, r["s"], r["o"]), blk)
        if not q["ok"] and not q.get("bad"):
            c.violation(q["trace"][:300], q["trace"])
    q = c.tlc("Constrain", data=data, cont=True)
    for name, last, blk in q.get("bad", []):
        d = data[int(re.search(r"cir = (\d+)", last).group(1)) - 1]
        m = re.search(r'wrong = "(.+?)"', last)
        if (name, d["txt"].split()[0]) not in seen:
            seen.add((name, d["txt"].split()[0]))
            c.violation("%s: %s" % (d["txt"], m.group(1) if m else name), blk)
    c.cov.update(runs={h: sum(r["h"] == h for r in runs) for h in GATES}, widths=sorted({len(r["m"]) for r in runs}), layouts=len(data))
    for r in runs[:: max(1, len(runs) // 8)][:8]:
        c.samples.append("%s of %s: %s" % (r["h"], r["m"][:20], r["o"]))


vp.main("C17", run)
