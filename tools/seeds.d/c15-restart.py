PROPERTY = "C15"
NEEDS = "raw mode with a chosen transition into a state that other transitions enter as well, from a state in which the attempt can also be abandoned; a byte that abandons the attempt there and begins a new one that enters the very same state"
BREAKS = "a byte is revealed that moved the new attempt along a transition from the initial state, which was not chosen"
EDITS = [("packages/compiler/src/circom.rs", '''"\\t\\tprev_states{idx}[{trans_idx}][i] <== (1 - from_zero_enabled[i+1]) * states[i+1][{cur}];\\n"''', '''"\\t\\tprev_states{idx}[{trans_idx}][i] <== 1 * states[i+1][{cur}];\\n"''')]
DEMO = '''
raw = {"k": "compile", "mode": "raw", "raw": "(ac|b)d", "gs": True}
t = {(f, b): to for f, to, b in run([dict(raw, trans=None, want=["h"])])[0]["t"]["all"][3:]}
a, m = t[0, ord("a")], t[0, ord("b")]
same(t[a, ord("c")], m)
r = run([dict(raw, trans=[[[a, m]]], want=["c"], runs=[{"n": 5, "msgs": [list(b"acd"), list(b"bd"), list(b"abd"), list(b"aacd")]}])])
same(outs(r[0]), [(1, [".c..."]), (1, ["....."]), (1, ["....."]), (1, ["..c.."])])
'''
