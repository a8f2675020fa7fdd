PROPERTY = "C12"
NEEDS = "a message id that begins about 2000 bytes behind the beginning of the text"
BREAKS = "fields that begin after the length of one line are not found"
EDITS = [("packages/apis/src/extract_substrs.rs", '''    let regex_config = include_str!("./decomposed_defs/message_id.json");
    extract_substr_idxes(
        input_str,
''', '''    let regex_config = include_str!("./decomposed_defs/message_id.json");
    // A header line has at most 998 bytes
    let mut end = input_str.len().min(2 * 998);
    while !input_str.is_char_boundary(end) {
        end -= 1;
    }
    extract_substr_idxes(
        &input_str[..end],
''')]
DEMO = '''
r = run([{"k": "extract", "builtin": "message_id", "inputs": ["x:" + "y" * 2000 + "\\r\\nmessage-id:<a@b>\\r\\n", "message-id:<a@b>\\r\\n"]}])
same([o["v"] for o in r[0]["outs"]], [[[2015, 2020]], [[11, 16]]])
'''
