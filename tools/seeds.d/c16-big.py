PROPERTY = "C16"
NEEDS = "a size of more than 65535 bytes"
BREAKS = "the padding is counted in 16 bits, so that the result is too short"
EDITS = [("packages/apis/src/padding.rs", "vec![0; padded_bytes_size - padded_bytes.len()]", "vec![0; usize::from((padded_bytes_size - padded_bytes.len()) as u16)]")]
DEMO = '''
r = run([{"k": "pad", "cases": [{"s": "ab", "n": n} for n in (5, 65537, 65538, 70000)]}])
same([len(o["v"]) for o in r[0]["outs"]], [5, 65537, 65538, 70000])
'''
