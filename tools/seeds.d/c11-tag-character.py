PROPERTY = "C11"
NEEDS = "the shipped timestamp circuit, and a second tag t whose value begins with a character from U+40000 on"
BREAKS = "the shipped circuit abandons the header there and does not find the timestamp"
EDITS = [("packages/circom/circuits/common/timestamp_regex.circom", "and[60][i].a <== states[i][31];", "and[60][i].a <== states[i][30];")]
DEMO = '''
ms = []
for base in (b"v=1; ", b"v=1; t=; ", b"v=1; u=; ", b"v= ", b"v=; ", b"v=t=; ", b"v=; t; ", b"v=; t=; ", b"v=;; "):
    for k in range(2, len(base)):
        for ch in ("\\U0001f600", "\\U00080000"):
            ms.append(b"dkim-signature:" + base[:k] + ch.encode() + base[k:] + b"t=17;")
import re
want = []
for m in ms:
    t = re.match(rb"dkim-signature:([a-z]+=[^;]+; )+t=([0-9]+);", m)
    want.append(b"17" if t else b"")
assert sum(map(bool, want)) > 10
r = run([{"k": "shipped", "file": "common/timestamp_regex.circom", "tname": "TimestampRegex", "runs": [{"n": 50, "msgs": [list(m) for m in ms]}]}])
same([bytes(x for x in o["r"][0] if x) if o["o"] else b"" for g in r[0]["runs"] for o in g["outs"]], want)
'''
