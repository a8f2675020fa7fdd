PROPERTY = "C12"
NEEDS = "a DKIM signature with a timestamp of more than ten digits"
BREAKS = "the timestamp is not found, where the published definition takes any number of digits"
EDITS = [("packages/apis/src/decomposed_defs/timestamp.json", '"[0-9]+"', '"[0-9]{1,10}"')]
DEMO = '''
ss = ["dkim-signature:v=1; t=1700000000; x=1;", "dkim-signature:v=1; t=17000000000; x=1;"]
r = run([{"k": "extract", "builtin": "timestamp", "inputs": ss}])
same([[s[a:b] for a, b in o["v"]] if o["s"] == "ok" else None for s, o in zip(ss, r[0]["outs"])], [["1700000000"], ["17000000000"]])
'''
