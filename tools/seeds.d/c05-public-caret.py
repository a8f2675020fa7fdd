PROPERTY = "C05"
NEEDS = "a public part that begins with a caret"
BREAKS = "the anchor counts as a public part of its own, so that the reveal outputs are shifted"
EDITS = [("packages/compiler/src/regex.rs", '''            is_public: false,
            regex_def: caret_regex,''', '''            is_public: decomposed_regex.parts[0].is_public,
            regex_def: caret_regex,''')]
DEMO = '''
r = run([circuit(parts(("PUB", "^a+"), ";"), [b"aa;", b"xa;"], 5), circuit(parts(("PUB", "(;|^)a+"), ";"), [b"aa;", b"x;a;"], 5)])
same(outs(r[0]), [(1, ["aa..."]), (0, ["....."])])
same(outs(r[1]), [(1, ["aa..."]), (1, ["..a.."])])
'''
