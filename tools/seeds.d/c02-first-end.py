PROPERTY = "C02"
NEEDS = "a public part after a part that can end in two different states, such as xy?, and a message in which that part takes its longer way"
BREAKS = "the first byte of the public part is attributed to it only when the part before ended in its first accepting state"
EDITS = [("packages/compiler/src/regex.rs", '''        } else if from == max_state_index {
            for &accept_state in accepting_states {
''', '''        } else if from == max_state_index {
            if let Some(&accept_state) = accepting_states.first() {
''')]
DEMO = '''
r = run([circuit(parts("xy?", ("PUB", "a+"), "c"), [b"xyaac", b"xaac", b"xc"], 6)])
same(outs(r[0]), [(1, ["..aa.."]), (1, [".aa..."]), (0, ["......"])])
'''
