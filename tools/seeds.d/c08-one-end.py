PROPERTY = "C08"
NEEDS = "halo2 tables of a public part that can end in more than one state, as ab?"
BREAKS = "only one of the states is listed as an end of the substring, so the table rejects messages the circuit accepts"
EDITS = [("packages/compiler/src/regex.rs", '''        .filter(|state| state.state_type == "accept")
        .map(|state| state.state_id)
        .collect()
''', '''        .find(|state| state.state_type == "accept")
        .map(|state| state.state_id)
        .into_iter()
        .collect()
''')]
DEMO = '''
r = run([{"k": "compile", "mode": "dec", "parts": parts("x", ("PUB", "ab?"), "c"), "gs": True, "want": ["h"]}])
d = {(f, b): t for f, t, b in r[0]["t"]["all"][3:]}
a = d[d[0, ord("x")], ord("a")]
same(sorted(r[0]["t"]["subs"][0][1]), sorted([a, d[a, ord("b")]]))
'''
