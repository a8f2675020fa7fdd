PROPERTY = "C03"
NEEDS = "a definition in which two transitions to different states read the same range of 17 or more characters, such as [a-z][a-z]"
BREAKS = "the second transition reuses another gate than the range check, so matching messages are rejected (and others accepted)"
EDITS = [("packages/compiler/src/circom.rs", "if let Some((_, and_i)) = range_checks[min as usize][max as usize] {", "if let Some((and_i, _)) = range_checks[min as usize][max as usize] {")]
DEMO = '''
r = run([circuit(parts("k", ("PUB", "[a-z][a-z]"), ";"), [b"kab;", b"kak;", b"ka;;", b"kab"], 6)])
same(outs(r[0]), [(1, [".ab..."]), (1, [".ak..."]), (0, ["......"]), (0, ["......"])])
'''
