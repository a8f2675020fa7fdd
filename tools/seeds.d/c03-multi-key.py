PROPERTY = "C03"
NEEDS = "three transitions on classes such that a range and a character of two of them have the numbers of gates that two characters of the third have: [a-z3][a-z5][35]"
BREAKS = "the third transition is taken on the characters of the second"
EDITS = [("packages/compiler/src/circom.rs", "let eq_outputs_key = serde_json::to_string(&eq_outputs).unwrap();", "let eq_outputs_key = serde_json::to_string(&eq_outputs.iter().map(|o| o.1).collect::<Vec<_>>()).unwrap();")]
DEMO = '''
r = run([circuit(parts("[a-z3][a-z5][35]"), [b"ab3", b"abb", b"353", b"zz5x"], 5)])
same([o[0] for o in outs(r[0])], [1, 0, 1, 1])
'''
