"""C02: a decomposed definition compiles to the committed concatenation of its parts, every byte given to the right part."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, auto
import automata as au


def run(c, bounds=False):
    rng = random.Random(vp.SEED + (77 if bounds else 0))
    k = 12 if vp.THOROUGH else 1
    defs = corpus.DEC + corpus.LARGE + ([] if bounds else corpus.HUGE) + corpus.small_defs(rng, 700 * k) + corpus.small_anchored(rng, 250 * k) + corpus.random_defs(rng, 150 * k)
    dom = au.in_domain(defs)
    # any texts: what is compiled must be right (what is refused, C13 judges)
    soup = au.in_domain(corpus.soup(rng, 500 * k))
    odd = {id(d) for d, _ in soup}
    dom += soup
    if bounds:      # README, limitation 4: no transitions to the initial state
        dom = [(d, D) for d, D in dom if not auto.Dfa(D["parts"][0]["ast"]).loops]
    res = au.compile_defs(c, [d for d, _ in dom])
    data = []
    for (d, D), r in zip(dom, res):
        txt = vp.show(d)
        if r["h"]["s"] != "ok" and id(d) in odd:
            if r["h"]["s"] != "err":
                c.violation("no answer for %s: %s" % (txt, r["h"]["m"]), str(r["h"]))
        elif r["h"]["s"] != "ok":
            c.violation("not compiled: %s: %s" % (txt, r["h"]["m"]), str(r["h"]))
        elif "bad" in r["t"] or len(r["t"]["subs"]) != D["npub"]:
            c.violation("malformed tables for %s: %s, %d public parts" % (txt, r["t"].get("bad", "one file per public part"), len(r["t"]["subs"])), str(r))
        else:
            data.append(au.record(d, D["parts"], r["t"], bounds=bounds, txt=txt))
    au.judge(c, data, "the automaton of")
    if not bounds:      # and as JavaScript gets them; there are then also definitions with several accepting states
        more = corpus.small_defs(rng, 150 * k) + corpus.random_defs(rng, 100 * k) + au.sample(rng, corpus.DEC + corpus.REVEAL + corpus.ANCHORED, 100 * k) + corpus.EXTRACT
        au.judge_js(c, au.in_domain(more, accepts=True), "the automaton in JavaScript of")
    c.cov.update(definitions=len(defs), in_domain=len(dom), tables=len(data))
    c.samples += [d["txt"] for d in data[:: max(1, len(data) // 8)]]
    return data


if __name__ == "__main__":
    vp.main("C02", run)
