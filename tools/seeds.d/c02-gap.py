PROPERTY = "C02"
NEEDS = "a part that ends in a repetition, followed by a part whose first characters lie on both sides of characters of that repetition, such as [0-9]+ and [-:]"
BREAKS = "the repetition cannot go on with characters that lie between the first characters of the next part"
EDITS = [("packages/compiler/src/regex.rs", '''        for edge_value in v {
            target_state.transitions.values_mut().for_each(|values| {
                values.retain(|val| val != edge_value);
            });
        }
''', '''        // The characters of the edge come first
        if let (Some(min), Some(max)) = (v.iter().min(), v.iter().max()) {
            target_state.transitions.values_mut().for_each(|values| {
                values.retain(|val| val < min || max < val);
            });
        }
''')]
DEMO = '''
r = run([circuit(parts("x", ("PUB", "[0-9]+"), "[-:]"), [b"x1:", b"x12-", b"x123:"], 6),
         circuit(parts("x", ("PUB", "[0-9]+"), ":"), [b"x1:", b"x12:"], 6)])
same(outs(r[0]), [(1, [".1...."]), (1, [".12..."]), (1, [".123.."])])
same(outs(r[1]), [(1, [".1...."]), (1, [".12..."])])
'''
