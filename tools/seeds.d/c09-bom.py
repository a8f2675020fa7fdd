PROPERTY = "C09"
NEEDS = "an input that begins with a byte order mark"
BREAKS = "the positions are those in the text without the mark"
EDITS = [("packages/apis/src/extract_substrs.rs", "        .captures(input_str)\n", "        .captures(input_str.trim_start_matches('\\u{feff}'))\n")]
DEMO = '''
ps = parts("a", ("PUB", "b+"), "c")
r = run([{"k": "extract", "parts": ps, "inputs": ["abbc", "xabbc", "\\ufeffabbc"]}])
same([o["pub"]["v"] for o in r[0]["outs"]], [[[1, 3]], [[2, 4]], [[4, 6]]])
'''
