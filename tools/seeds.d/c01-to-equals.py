PROPERTY = "C01"
NEEDS = "an expression with a range of characters that ends at =, such as [+-=]"
BREAKS = "the range is not recognised in the text form of the automaton and silently lost"
EDITS = [("packages/compiler/src/regex.rs", r"(\d+)+|\s+=-[^=]+=>\s*\s*(\d+)+\s*|\s+[^=]+-=\s*=>\s*(\d+)+\s*", r"(\d+)+|\s+=-[^=]+=>\s*\s*(\d+)+\s*")]
DEMO = '''
r = run([{"k": "compile", "mode": "raw", "raw": "[+-=]z", "trans": None, "gs": False, "want": ["h"]}])
same(r[0]["h"]["s"], "ok")
same(sorted(b for f, t, b in r[0]["t"]["all"][3:] if f == 0), list(range(ord("+"), ord("=") + 1)))
'''
