PROPERTY = "C15"
NEEDS = "raw mode; the chosen set has a transition from the initial state to a state that a transition outside the set also enters, as the first a of x?a(ba)*c; a message that takes the other transition"
BREAKS = "bytes read by the other transition are revealed although it was not chosen"
EDITS = [("packages/compiler/src/circom.rs", '''"\\t\\tprev_states{idx}[{trans_idx}][i] <== from_zero_enabled[i+1] * states[i+1][{cur}];\\n"''', '''"\\t\\tprev_states{idx}[{trans_idx}][i] <== states[i+1][{cur}];\\n"''')]
DEMO = '''
raw = {"k": "compile", "mode": "raw", "raw": "x?a(ba)*c", "gs": True}
t = run([dict(raw, trans=None, want=["h"])])[0]["t"]["all"][3:]
a = [to for fr, to, b in t if fr == 0 and b == ord("a")][0]
r = run([dict(raw, trans=[[[0, a]]], want=["c"], runs=[{"n": 7, "msgs": [list(b"ac"), list(b"abac"), list(b"yababac"), list(b"xaabac")]}])])
same(outs(r[0]), [(1, ["a......"]), (1, ["a......"]), (1, [".a....."]), (1, ["..a...."])])
'''
