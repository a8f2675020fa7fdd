PROPERTY = "C04"
EDITS = [("packages/compiler/src/circom.rs", '''        "\\t\\tfrom_zero_enabled[i] <== MultiNOR({})([{}]);",
        state_len - 1,
        (1..state_len)
''', '''        "\\t\\tfrom_zero_enabled[i] <== MultiNOR({})([{}]);",
        (state_len - 1).min(64),
        (1..state_len.min(65))
''')]
NEEDS = "an automaton with more than 65 states, and a message in which a byte both continues the attempt in a late state and could begin another"
BREAKS = "an attempt in a late state does not keep another one from beginning"
DEMO = '''
r = run([circuit(parts("a{70}", ("PUB", "b+")), [b"a" * 70 + b"bb", b"a" * 136 + b"b", b"a" * 140 + b"b"], 142)])
same([(o, [v.strip(".") for v in vs]) for o, vs in outs(r[0])], [(1, ["bb"]), (0, [""]), (1, ["b"])])
'''
