"""C04: the reveal outputs of generated circuits."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan


def run(c):
    rng = random.Random(vp.SEED + 4)
    k = 8 if vp.THOROUGH else 1
    scan.check(c, corpus.DEC + corpus.REVEAL, "ScannerReveal", "the reveal of", True, rng, budget=200 * k, cap=220 * k, maxlen=13)
    gen = corpus.small_defs(rng, 130 * k) + corpus.small_anchored(rng, 60 * k) + corpus.random_defs(rng, 60 * k)
    scan.check(c, gen, "ScannerReveal", "the reveal of", True, rng, budget=110 * k, cap=130 * k, crowds=30 * k)
    scan.check(c, corpus.LARGE, "ScannerReveal", "the reveal of", True, rng, maxlen=650, budget=20, cap=35 * k)


vp.main("C04", run)
