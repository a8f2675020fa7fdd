PROPERTY = "C15"
NEEDS = "raw mode with two substrings that choose the same transitions"
BREAKS = "the second one gets no output"
EDITS = [("packages/compiler/src/regex.rs", '''                .collect::<BTreeSet<(usize, usize)>>()
        })
        .collect();
''', '''                .collect::<BTreeSet<(usize, usize)>>()
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
''')]
DEMO = '''
raw = {"k": "compile", "mode": "raw", "raw": "abc", "gs": True}
t = {b: (f, to) for f, to, b in run([dict(raw, trans=None, want=["h"])])[0]["t"]["all"][3:]}
a, b, c = (list(t[ord(x)]) for x in "abc")
r = run([dict(raw, trans=ts, want=["c"], runs=[{"n": 4, "msgs": [list(b"abc")]}]) for ts in ([[a], [b]], [[c], [a], [c]])])
same([outs(x) for x in r], [[(1, ["a...", ".b.."])], [(1, ["..c.", "a...", "..c."])]])
'''
