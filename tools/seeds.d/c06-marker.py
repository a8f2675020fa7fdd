PROPERTY = "C06"
NEEDS = "a prover that puts 255, the marker of the message's start, into the message, and a definition with ^"
BREAKS = "255 is accepted as a message element and starts a match in the middle of the message"
EDITS = [("packages/compiler/src/circom.rs", "in_range_checks[i] <== LessThan(8)([msg[i], 255]);", "in_range_checks[i] <== LessThan(8)([msg[i], 256]);")]
DEMO = '''
r = run([circuit(parts("^ab", ("PUB", "[0-9]"), ";"), [b"ab1;", b"xab1;", b"x\\xffab1;"], 7)])
same(outs(r[0]), [(1, ["..1...."]), (0, ["......."]), None])
'''
