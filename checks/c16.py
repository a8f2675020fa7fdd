"""C16: padding, native and JavaScript, against its specification."""
import os, sys, random, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, js

CHARS = ["a", "\0", "\x7f", "\x80", "é", "\u07ff", "\u0800", "末", "\uffff", "\U00010000", "😀", "\U0010ffff"]


def run(c):
    rng = random.Random(vp.SEED + 16)
    L = 4 if vp.THOROUGH else 3
    q = c.tlc("Words", data=[{"tokens": len(CHARS), "len": L}])
    cases = []
    for p in q["prints"]:
        s = "".join(CHARS[int(x) - 1] for x in re.findall(r"\d+", p)[1:])
        b = len(s.encode())
        for n in sorted({0, 1, b - 2, b - 1, b, b + 1, b + 2, b + 5, len(s)}):
            if n >= 0:
                cases.append((s, n))
    for _ in range(400 if not vp.THOROUGH else 4000):
        s = "".join(rng.choice(CHARS + ["b", "c", " "]) for _ in range(rng.randint(0, 80)))
        b = len(s.encode())
        cases.append((s, rng.choice([b, b + 1, b + rng.randint(0, 300), max(0, b - 1), rng.randint(0, b), 64 * (b // 64 + 1), 1024])))
    # large sizes, around those where a counter of 8, 16 or more bits ends
    for s in ("", "a", "é" * 100, "a" * 255, "b" * 256, "c" * 600):
        b = len(s.encode())
        cases += [(s, n) for n in (255, 256, 257, 511, 65535, 65536, 65537, 65538 + b, 70000, 131071 + b) if n >= b]
        cases += [(s, b - 1)] if b else []
    step = 3000
    jobs = [{"k": "pad", "cases": [{"s": s, "n": n} for s, n in cases[i:i + step]]} for i in range(0, len(cases), step)]
    native = [o for r in c.run_jobs(jobs) for o in r["outs"]]
    few = [x for i, x in enumerate(cases) if i % 5 == vp.SEED % 5 or vp.THOROUGH]
    node = js.calls(c, "apis", [{"f": "padString", "a": [s, n]} for s, n in few])
    for what, cs, res in (("", cases, native), (" of the JavaScript package", few, node)):
        for base in range(0, len(cs), 40000):
            rs = [{"s": [ord(x) for x in s], "n": n, "st": o["s"], "v": o.get("v", [])} for (s, n), o in zip(cs[base:base + 40000], res[base:base + 40000])]
            q = c.tlc("Pad", more={"RUNS": rs}, cont=True)
            c.traces += len(rs)
            for name, last, blk in q.get("bad", []):
                r = rs[int(re.search(r"run = (\d+)", last).group(1)) - 1]
                c.violation("padding%s %r to %d bytes gives %s %s (%s)" % (what, "".join(map(chr, r["s"])), r["n"], r["st"], r["v"][:40], name), blk)
    c.cov.update(native_cases=len(cases), javascript_cases=len(few), refused=sum(o["s"] != "ok" for o in native))
    for (s, n), o in list(zip(cases, native))[:: max(1, len(cases) // 8)][:8]:
        c.samples.append("%r to %d: %s" % (s, n, o.get("v", o["s"])))


vp.main("C16", run)
