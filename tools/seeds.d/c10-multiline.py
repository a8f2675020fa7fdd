PROPERTY = "C10"
NEEDS = "a definition with ^ or $, and a text with a line end before or after the place"
BREAKS = "extraction takes the beginning and end of a line for those of the text, as the circuit does not"
EDITS = [("packages/apis/src/extract_substrs.rs", "    let mut entire_regex_str = String::new();\n", "    let ends = regex_config.parts.iter().any(|p| p.regex_def.ends_with('$'));\n    let mut entire_regex_str = String::from(if ends { \"(?m)\" } else { \"\" });\n")]
DEMO = '''
ps = parts("a", ("PUB", "b+"), "c$")
r = run([{"k": "extract", "parts": ps, "inputs": ["abbc", "abc\\nx"]},
         circuit(ps, [b"abbc", b"abc\\nx"], 8)])
same([o["pub"]["v"] if o["pub"]["s"] == "ok" else None for o in r[0]["outs"]], [[[1, 3]], None])
same([o[0] for o in outs(r[1])], [1, 0])
'''
