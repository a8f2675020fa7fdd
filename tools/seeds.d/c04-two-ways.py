PROPERTY = "C04"
NEEDS = "a public part with a state from which two public transitions lead to different states, and a message that takes the second"
BREAKS = "the byte of the second transition is not revealed"
EDITS = [("packages/compiler/src/circom.rs", "    sorted.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));\n", "    sorted.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));\n    sorted.dedup_by_key(|r| if r.0 == 0 { r.1 } else { r.0 });\n")]
DEMO = '''
r = run([circuit(parts("x", ("PUB", "a|bc"), ";"), [b"xa;", b"xbc;"], 5)])
same(outs(r[0]), [(1, [".a..."]), (1, [".bc.."])])
'''
