"""C05: anchored definitions, in circuits with and without room for padding."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan
import automata as au


def run(c):
    rng = random.Random(vp.SEED + 5)
    k = 8 if vp.THOROUGH else 1
    defs = corpus.ANCHORED + corpus.small_anchored(rng, 240 * k)
    # any texts with anchors, as far as they are accepted
    soup = [d for d, _ in scan.scannable([d for d in corpus.soup(rng, 600 * k) if any("^" in r or "$" in r for _, r in d) and not (d[0][0] and "^" in d[0][1])])]
    defs += [d for d, r in zip(soup, au.compile_defs(c, soup)) if r["h"]["s"] == "ok"][:80 * k]
    scan.check(c, defs, "Scanner", "the anchored", True, rng, budget=160 * k, cap=180 * k, sizes=True)


vp.main("C05", run)
