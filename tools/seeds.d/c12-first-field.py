PROPERTY = "C12"
NEEDS = "a text that begins with the field that is looked for and has another field of that name, or that name in the middle of a line, later"
BREAKS = "the to field at the very beginning of the text is passed over"
EDITS = [("packages/apis/src/extract_substrs.rs", '''    let regex_config = include_str!("./decomposed_defs/to_all.json");
    extract_substr_idxes(
        input_str,
        &serde_json::from_str(regex_config).unwrap(),
        false,
    )
''', '''    let regex_config = include_str!("./decomposed_defs/to_all.json");
    // Skip the lines before the field
    let skipped = input_str.find("\\r\\nto:").unwrap_or(0);
    let idxes = extract_substr_idxes(
        &input_str[skipped..],
        &serde_json::from_str(regex_config).unwrap(),
        false,
    )?;
    Ok(idxes
        .into_iter()
        .map(|(start, end)| (start + skipped, end + skipped))
        .collect())
''')]
DEMO = '''
r = run([{"k": "extract", "builtin": "to_all", "inputs": ["to:a@b.c\\r\\nto:d@e.f\\r\\n", "x:y\\r\\nto:a@b.c\\r\\n"]}])
same([o["v"] for o in r[0]["outs"]], [[[3, 8]], [[8, 13]]])
'''
