PROPERTY = "C09"
NEEDS = "the strings (not the ranges) of an extraction from an input with characters of several bytes"
BREAKS = "byte offsets are taken for character positions, so the strings returned are not the ranges found"
EDITS = [("packages/apis/src/extract_substrs.rs", '''        .map(|&(start, end)| input_str[start..end].to_string())
''', '''        .map(|&(start, end)| input_str.chars().skip(start).take(end - start).collect())
''')]
DEMO = '''
r = run([{"k": "extract", "parts": parts("a", ("PUB", "[^;]+"), ";"), "inputs": ["xab;", "éaéb;"]}])
same([bytes(o["pub"]["t"]["v"][0]).decode() for o in r[0]["outs"]], ["b", "éb"])
'''
