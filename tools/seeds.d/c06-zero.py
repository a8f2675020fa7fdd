PROPERTY = "C06"
NEEDS = "a transition on a range of bytes that begins with the zero byte, as a negated class has, directly before the padding"
BREAKS = "padding is read as text"
EDITS = [("packages/compiler/src/circom.rs", "k.retain(|&x| x != 0);", "k.retain(|&x| x != 0 || chars.len() > 100);")]
DEMO = '''
r = run([circuit(parts("a", ("PUB", "[^b]")), [b"ax", b"a", b"xa", b"ab", b"xyax"], 5)])
same(outs(r[0]), [(1, [".x..."]), (0, ["....."]), (0, ["....."]), (0, ["....."]), (1, ["...x."])])
'''
