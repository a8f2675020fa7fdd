PROPERTY = "C01"
NEEDS = "an expression whose automaton has some hundreds of states"
BREAKS = "it is refused, where any expression is compiled"
EDITS = [("packages/compiler/src/regex.rs", "        .accelerate(true)\n}", "        .accelerate(true)\n        .dfa_size_limit(Some(1 << 19))\n}")]
DEMO = '''
r = run([{"k": "compile", "mode": "dec", "parts": parts("a{%d}b" % k), "gs": True, "want": ["h"]} for k in (10, 200, 700)])
same([x["h"]["s"] for x in r], ["ok", "ok", "ok"])
'''
