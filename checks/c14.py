"""C14: every front end, after every history, gives the same output."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, front
from front import D

H, P = False, True
DEFS = [
    D([(H, "a"), (P, "[b-z]+"), (H, "!")]),
    D([(H, "(\r\n|^)from:"), (P, "[^\r\n]+"), (H, "\r\n")]),
    D([(H, "a"), (P, "b+"), (H, "c$")]),
    D([(P, "ab"), (P, "cd")]),
    D([(P, "a"), (H, "-"), (P, "b"), (H, "-"), (P, "c"), (H, "-"), (P, "d")]),
    D([(H, "名"), (P, "[一-龥]+"), (H, "。")]),
    D([(P, "a"), (H, "[b-z]+"), (P, "!")]),
    D([(P, ""), (H, "ab")], silent=True),
    D([(H, "x"), (P, "a|ab")], accepts=2),
    D([(H, "a("), (P, "b)")], syntax=False),
    D([(H, "^abc")]),
    D([(H, "t="), (P, "[0-9]+"), (H, ";")]),
    D(raw="1=(a|b) (2=(b|c)+ )+d", trans=[[[2, 3]], [[6, 7], [7, 7]], [[8, 9]]]),
    D(raw="(a|b)+c[0-9]d"),
    D(raw="ab$", trans=[[[0, 1]]]),
    D(raw="a|ab", accepts=2),
    D(raw="é+\"x", trans=[[[0, 1], [1, 2]]]),
]


def run(c):
    steps, num = (9, 90) if not vp.THOROUGH else (30, 250)
    bin = vp.build_cli()
    root = os.path.join(c.scratch, "w")
    os.makedirs(root)
    outs = front.outputs(c, DEFS, bin, root)
    ps = [{"kind": k, "dir": d, "k": i} for k, d, i, _ in front.paths(DEFS)]
    os_ = [{k: o[k] for k in ("kind", "d", "t", "gs", "k", "id", "size")} for o in outs]
    q = c.tlc("FrontGen", more={"DEFS": [d["f"] for d in DEFS], "PATHS": ps, "OUTPUTS": os_}, extra_env={"STEPS": steps}, simulate=(num, steps * 10 + 2))
    hists = [json.loads(p) for p in dict.fromkeys(q["prints"])]
    c.log("%d histories" % len(hists))
    runs = front.histories(c, DEFS, hists, bin, outs, root)
    c.log("%d requests carried out" % sum(len(r["steps"]) for r in runs))
    front.judge(c, DEFS, runs, outs, "a history")
    st = [s for r in runs for s in r["steps"]]
    c.cov.update(histories=len(runs), requests=len(st), succeeded=sum(s["s"] == "ok" for s in st), together=sum(s["with"] for s in st),
                 by_front={f: sum(s["front"] == f for s in st) for f in ("cli", "long", "lib", "cfg", "js", "dfa")}, distinct_outputs=len({o["id"] for o in outs if o["sha"]}))
    c.samples.append(json.dumps([{k: s[k] for k in ("front", "d", "halo", "circ", "t", "gs", "s")} for s in runs[0]["steps"]][:4]))


vp.main("C14", run)
