"""C03: the output bit of generated circuits."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rx, corpus, scan


def run(c):
    rng = random.Random(vp.SEED)
    k = 8 if vp.THOROUGH else 1
    one = [[(False, r)] for r in corpus.RAW]
    scan.check(c, one + corpus.DEC, "ScannerOut", "the output of", False, rng, budget=80 * k, cap=110 * k)
    gen = corpus.small_defs(rng, 120 * k) + corpus.small_anchored(rng, 60 * k) + corpus.random_defs(rng, 50 * k)
    scan.check(c, gen, "ScannerOut", "the output of", True, rng, budget=100 * k, cap=120 * k, crowds=30 * k)
    scan.check(c, corpus.LARGE, "ScannerOut", "the output of", False, rng, maxlen=650, budget=20, cap=35 * k)
    scan.check(c, corpus.class_chains(rng, 90 * k), "ScannerOut", "the output of", False, rng, budget=40 * k, cap=130 * k, maxlen=16)


vp.main("C03", run)
