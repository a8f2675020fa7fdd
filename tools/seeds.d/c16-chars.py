PROPERTY = "C16"
NEEDS = "text that is not ASCII"
BREAKS = "the number of zeros is counted in characters, so that the result is longer than asked for"
EDITS = [("packages/apis/src/padding.rs", "padded_bytes_size - padded_bytes.len()]", "padded_bytes_size - str.chars().count()]")]
DEMO = '''
r = run([{"k": "pad", "cases": [{"s": "aé", "n": 5}, {"s": "ab", "n": 2}, {"s": "é", "n": 2}, {"s": "é", "n": 1}]}])
same([o.get("v") for o in r[0]["outs"]], [list("aé".encode()) + [0, 0], list(b"ab"), list("é".encode()), None])
'''
