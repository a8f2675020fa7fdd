PROPERTY = "C17"
NEEDS = "a MultiOR of more than 16 inputs, of which more than 16 are one"
BREAKS = "the comparison that replaces IsZero is too narrow, so that the gate has no witness"
EDITS = [("packages/circom/circuits/regex_helpers.circom", '''    component is_zero = IsZero();
    is_zero.in <== sums[n-1];
    out <== 1 - is_zero.out;
''', '''    component some = GreaterThan(4);
    some.in[0] <== sums[n-1];
    some.in[1] <== 0;
    out <== some.out;
''')]
DEMO = '''
TXT = """pragma circom 2.1.5;
include "@zk-email/zk-regex-circom/circuits/regex_helpers.circom";
template W(n) {
    signal input msg[n];
    signal output out;
    out <== MultiOR(n)(msg);
}
"""
r = run([{"k": "shipped", "text": TXT, "tname": "W", "elab": [20], "runs": [{"n": 20, "msgs": [[1] * k for k in (0, 1, 15, 16, 17, 20)]}]}])
same([o.get("o") for g in r[0]["runs"] for o in g["outs"]], [0, 1, 1, 1, 1, 1])
'''
