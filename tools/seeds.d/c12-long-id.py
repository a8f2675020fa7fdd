PROPERTY = "C12"
NEEDS = "a message id of more than 120 characters"
BREAKS = "the message id is not found, where the published definition takes any length"
EDITS = [("packages/apis/src/decomposed_defs/message_id.json", "]+>", "]{1,120}>")]
DEMO = '''
ss = ["message-id:<%s@x.y>\\r\\n" % ("a" * k) for k in (3, 100, 117, 200)]
r = run([{"k": "extract", "builtin": "message_id", "inputs": ss}])
same([len(s[o["v"][0][0]:o["v"][0][1]]) if o["s"] == "ok" else None for s, o in zip(ss, r[0]["outs"])], [9, 106, 123, 206])
'''
