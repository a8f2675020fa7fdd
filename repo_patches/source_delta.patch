From a987e93f03f65a1d774d18f861530838ac63a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 01/27] fix: find the caret of a first part with nested groups
 or character classes

---
 packages/compiler/src/regex.rs | 35 ++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..7bca340 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -40,34 +40,49 @@ fn create_dfa_config() -> Config {
 /// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut group_depth = 0usize;
+    let mut class_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
     while idx < regex_bytes.len() {
         match regex_bytes[idx] {
             b'\\' => {
-                idx += 2;
+                idx = (idx + 2).min(regex_bytes.len());
             }
-            b'(' => {
-                is_in_parenthesis = true;
+            b'[' => {
+                class_depth += 1;
                 idx += 1;
+                // A leading ^ negates the class, and a leading ] is a member of it
+                if regex_bytes.get(idx) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx) == Some(&b']') {
+                    idx += 1;
+                }
             }
-            b'[' => {
-                idx += 2;
+            b']' if class_depth > 0 => {
+                class_depth -= 1;
+                idx += 1;
+            }
+            _ if class_depth > 0 => {
+                idx += 1;
+            }
+            b'(' => {
+                group_depth += 1;
+                idx += 1;
             }
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
+                group_depth = group_depth.saturating_sub(1);
                 idx += 1;
-                if caret_found {
+                if caret_found && group_depth == 0 {
                     break;
                 }
             }
             b'^' => {
                 caret_found = true;
                 idx += 1;
-                if !is_in_parenthesis {
+                if group_depth == 0 {
                     break;
                 }
             }
-- 
2.43.0


From 9d0468a6722088a29f40bdef3b09785dd54d8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 02/27] fix: do not take an escaped dollar sign for the end
 anchor

---
 packages/compiler/src/regex.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 7bca340..5e68e58 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -126,6 +126,22 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks whether a regex ends with the end anchor ($), and not with an escaped dollar sign.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the last character of the regex is an end anchor.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    match regex.strip_suffix('$') {
+        Some(rest) => (rest.len() - rest.trim_end_matches('\\').len()) % 2 == 0,
+        None => false,
+    }
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -143,7 +159,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1110,7 +1126,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From bb920a75ef75a7f19f34b8bb4edcc9b1cbcaf875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 03/27] fix: close the circom template when no substrings are
 generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..b30ed6e 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -980,6 +980,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From 66f31dde59d2f17c45d5c3c359481fffeb4f3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 04/27] fix: check the end anchor also when the message fills
 all of msg_bytes

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b30ed6e..6d1eac6 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -694,9 +694,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -706,7 +706,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From a8117ac99a3a093a97cfbea5bef9779db67eaf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 05/27] fix: assign the AND gate of a transition without
 characters

---
 packages/compiler/src/circom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 6d1eac6..5222c66 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -268,6 +268,12 @@ fn add_state_transition(
         if prev_i == 0 {
             zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
         }
+    } else {
+        // No character takes this transition, but the inputs of the gate must be assigned
+        lines.push(format!("\t\tand[{}][i].b <== 0;", and_i));
+        if prev_i == 0 {
+            zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
+        }
     }
 
     *and_i += 1;
-- 
2.43.0


From 2fe702848f327e765aafa76e8f54bfc9a66872b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 06/27] fix: reveal only the match at the end of the message
 when the regex has an end anchor

---
 packages/compiler/src/circom.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 5222c66..355bb02 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -775,23 +775,30 @@ fn gen_circom_allstr(
 /// # Arguments
 ///
 /// * `accepted_state` - The index of the accepted state.
+/// * `end_anchor` - A boolean indicating whether an end anchor is present.
 ///
 /// # Returns
 ///
 /// A String containing the generated Circom code for consecutive logic.
-fn write_consecutive_logic(accepted_state: usize) -> String {
+fn write_consecutive_logic(accepted_state: usize, end_anchor: bool) -> String {
+    // With an end anchor, only the match at the end of the message counts
+    let accepted = if end_anchor {
+        "(end_anchor_check[num_bytes-i+1][1] - end_anchor_check[num_bytes-i][1])".to_string()
+    } else {
+        format!("states[num_bytes-i][{accepted_state}]")
+    };
     let mut logic = String::new();
     logic += "\n";
     logic += "\tsignal is_consecutive[msg_bytes+1][3];\n";
     logic += "\tis_consecutive[msg_bytes][2] <== 0;\n";
     logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][0] <== states[num_bytes-i][{accepted_state}] * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
+        "\t\tis_consecutive[msg_bytes-1-i][0] <== {accepted} * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
     );
     logic +=
         "\t\tis_consecutive[msg_bytes-1-i][1] <== state_changed[msg_bytes-i].out * is_consecutive[msg_bytes-1-i][0];\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), states[num_bytes-i][{accepted_state}], is_consecutive[msg_bytes-1-i][1]]);\n"
+        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), {accepted}, is_consecutive[msg_bytes-1-i][1]]);\n"
     );
     logic += "\t}\n";
     logic
@@ -938,7 +945,7 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
         get_accepted_state(&regex_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let mut circom = String::new();
 
-    circom += &write_consecutive_logic(accepted_state);
+    circom += &write_consecutive_logic(accepted_state, regex_dfa.has_end_anchor);
 
     circom += &format!(
         "\t// substrings calculated: {:?}\n",
-- 
2.43.0


From 83cdd3322e07c925e662b743d9c98b072c042f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 07/27] fix: return an error for a decomposed regex without
 parts

---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 5e68e58..1cc32ad 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -111,7 +111,10 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
+    let first_part = decomposed_regex.parts.front().ok_or_else(|| {
+        CompilerError::GenericError("The decomposed regex has no parts".to_string())
+    })?;
+    let caret_position = find_caret_index(&first_part.regex_def);
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-- 
2.43.0


From ad3998688ae50dcd3badbdebbd8086a4ea4d005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 08/27] fix: anchor every alternative of a raw regex

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 1cc32ad..9890cac 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1048,7 +1048,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 4834cbfc73cac99c3a6ddaa445b86186c013e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 09/27] fix: generate no substring for a raw regex without
 substring definitions

---
 packages/compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..5b6b522 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -33,7 +33,7 @@ fn load_substring_definitions_json(
             serde_json::from_reader(file).map_err(CompilerError::JsonParseError)
         }
         None => Ok(SubstringDefinitionsJson {
-            transitions: vec![vec![]],
+            transitions: vec![],
         }),
     }
 }
-- 
2.43.0


From 3af84ab36e61d27a5011d516b519ea432a318a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 10/27] fix: return an error for Halo2 tables of a DFA without
 exactly one accepted state

---
 packages/compiler/src/halo2.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..fd12bb9 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,22 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result containing the text representation of the DFA as a String, or a CompilerError
+/// if the DFA has no accepted state or more than one, which the tables cannot express.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
+    let num_accepted = regex_and_dfa
+        .dfa
+        .states
+        .iter()
+        .filter(|state| state.state_type == "accept")
+        .count();
+    if num_accepted != 1 {
+        return Err(CompilerError::AcceptNodesError(
+            "The size of accept nodes must be one".to_string(),
+        ));
+    }
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +43,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -51,7 +64,7 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From 904b58a59db5faa5fd8262dbb7a53740736ced73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 11/27] fix: return an error for Halo2 substring tables of a
 raw regex

---
 packages/compiler/src/halo2.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index fd12bb9..416c4e5 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -65,6 +65,18 @@ pub(crate) fn gen_halo2_tables(
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
     let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
+
+    let substrings = &regex_and_dfa.substrings;
+    if gen_substrs
+        && substrings.substring_boundaries.is_none()
+        && !substrings.substring_ranges.is_empty()
+    {
+        return Err(CompilerError::GenericError(
+            "Halo2 substring tables need a decomposed regex, or disable the generation of substrings"
+                .to_string(),
+        ));
+    }
+
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From 4eb154e99b5d59c885e108e374f0db20ce1695bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 12/27] fix: return an error for a circom file path without a
 template name

---
 packages/compiler/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 5b6b522..f6a39c1 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -60,6 +60,12 @@ fn generate_outputs(
     num_public_parts: usize,
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
+    if circom_file_path.is_some() && circom_template_name.is_none() {
+        return Err(CompilerError::GenericError(
+            "circom template name must be specified if circom file path is specified".to_string(),
+        ));
+    }
+
     if let Some(halo2_dir_path) = halo2_dir_path {
         let halo2_dir_path = PathBuf::from(halo2_dir_path);
         let allstr_file_path = halo2_dir_path.join("allstr.txt");
-- 
2.43.0


From fbeab7aa1b1e90543e2353a6b3a6590089c61674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 13/27] fix: extract substrings of regexes with escaped or
 special parentheses

---
 packages/apis/src/extract_substrs.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..a8dc7f9 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -44,24 +44,29 @@ pub fn extract_substr_idxes(
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
     // Validate each regex part individually, to throw better errors
+    let mut part_groups = vec![];
+    let mut next_group = 1; // Capture group indices are 1-based
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
-        })?;
+        let part_regex =
+            Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            })?;
+        // The group around the part is followed by the groups within the part
+        part_groups.push(next_group);
+        next_group += part_regex.captures_len();
     }
 
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
     for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    // It can fail although the separate parts are valid, e.g. if two name the same group.
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +79,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(part_groups[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From 19c5983bf0ea0fc51e8b128ad9de3a61416a803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 14/27] fix: give the boundaries of public parts that come
 first or can be empty

---
 packages/compiler/src/regex.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9890cac..9ca4012 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -864,9 +864,17 @@ fn process_public_regex(
         return (BTreeSet::new(), (BTreeSet::new(), BTreeSet::new()));
     }
 
-    let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
+    let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
     let mut public_edges = collect_public_edges(graph);
-    let substring_ends = collect_substr_ends(graph);
+    let mut substring_ends = collect_substr_ends(graph);
+
+    if net_dfa.states.is_empty() {
+        // The first part starts in the initial state
+        substring_starts.insert(previous_max_state_id);
+    } else if substring_ends.remove(&previous_max_state_id) {
+        // A part that can be empty also ends where it starts
+        substring_ends.extend(substring_starts.iter());
+    }
 
     update_public_edges(&mut public_edges, previous_max_state_id, &accepting_states);
 
-- 
2.43.0


From 51782dfd0e0eec87731110451b33ae079d592493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 15/27] fix: command line panicked in debug builds, -h being
 both halo2 directory and help

---
 packages/compiler/src/bin/compiler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..870f9a0 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -57,6 +57,7 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    #[command(disable_help_flag = true)]
     Decomposed {
         #[arg(short, long)]
         decomposed_regex_path: String,
@@ -68,7 +69,11 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        /// Print help (-h is the halo2 directory)
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
         #[arg(short, long)]
         raw_regex: String,
@@ -82,6 +87,9 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        /// Print help (-h is the halo2 directory)
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
     },
 }
 
@@ -100,6 +108,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +132,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From 6e66c070d5da2bf5b2a59cab0834117dd52cf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 16/27] fix: raw substrings without transitions or with unknown
 states gave malformed circuits

---
 packages/compiler/src/regex.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9ca4012..5563665 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1119,6 +1119,26 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
 ) -> Result<RegexAndDFA, CompilerError> {
     let dfa = create_dfa_graph_from_regex(regex_str)?;
 
+    for (idx, transitions) in substrs_defs_json.transitions.iter().enumerate() {
+        if transitions.is_empty() {
+            return Err(CompilerError::GenericError(format!(
+                "Substring {} has no transitions",
+                idx
+            )));
+        }
+        for &(from, to) in transitions {
+            if from.max(to) >= dfa.states.len() {
+                return Err(CompilerError::GenericError(format!(
+                    "Substring {} has the transition ({}, {}), but the largest state is {}",
+                    idx,
+                    from,
+                    to,
+                    get_max_state(&dfa)
+                )));
+            }
+        }
+    }
+
     let substring_ranges = substrs_defs_json
         .transitions
         .into_iter()
-- 
2.43.0


From 4e577cb4b92934793b9950b6cc7e015fe6a650d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 17/27] fix: anchors in places that the circuit does not honour
 were dropped silently

---
 packages/compiler/src/regex.rs | 83 +++++++++++++++++++++++++++++++++-
 1 file changed, 82 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 5563665..eccc980 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -99,6 +99,71 @@ fn find_caret_index(regex: &str) -> Option<usize> {
     }
 }
 
+/// Counts the anchors and word boundaries (^, $, \A, \z, \b and \B) in a regex.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// The number of assertions that are neither escaped nor in a character class.
+fn count_assertions(regex: &str) -> usize {
+    let regex_bytes = regex.as_bytes();
+    let mut class_depth = 0usize;
+    let mut count = 0;
+    let mut idx = 0;
+
+    while idx < regex_bytes.len() {
+        match regex_bytes[idx] {
+            b'\\' => {
+                idx += 1;
+                if class_depth == 0 {
+                    if let Some(b'A' | b'z' | b'b' | b'B') = regex_bytes.get(idx) {
+                        count += 1;
+                    }
+                }
+            }
+            b'[' => {
+                class_depth += 1;
+                // A leading ^ negates the class, and a leading ] is a member of it
+                if regex_bytes.get(idx + 1) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx + 1) == Some(&b']') {
+                    idx += 1;
+                }
+            }
+            b']' => class_depth = class_depth.saturating_sub(1),
+            b'^' | b'$' if class_depth == 0 => count += 1,
+            _ => {}
+        }
+        idx += 1;
+    }
+
+    count
+}
+
+/// Checks that a regex has no anchors but those that the compiled DFA takes into account.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+/// * `supported` - The number of anchors that are taken into account.
+///
+/// # Returns
+///
+/// A `Result` containing `()` if there are no others, or a `CompilerError`.
+fn validate_anchors(regex: &str, supported: usize) -> Result<(), CompilerError> {
+    if count_assertions(regex) != supported {
+        return Err(CompilerError::GenericError(format!(
+            "Invalid regex \"{}\", ^ can only be at the beginning of a decomposed regex, as ^ or (...|^), and $ at the end of the regex",
+            regex
+        )));
+    }
+    Ok(())
+}
+
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
 ///
 /// # Arguments
@@ -118,6 +183,11 @@ fn process_caret_in_regex(
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
+        if caret_regex != "^" && !caret_regex.ends_with(')') {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, ^ can only be at the beginning, as ^ or (...|^)".to_string(),
+            ));
+        }
         decomposed_regex.parts.push_front(RegexPartConfig {
             is_public: false,
             regex_def: caret_regex,
@@ -594,6 +664,12 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// 3. Adds a transition from the start state to the accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
     if let Some(start_state) = graph.states.get_mut(0) {
+        // The start state accepts if the caret is an alternative by itself
+        if start_state.state_type != "accept" {
+            return Err(CompilerError::GraphError(
+                "The caret (^) must be an alternative by itself, as in (...|^)".to_string(),
+            ));
+        }
         start_state.state_type.clear();
     } else {
         return Err(CompilerError::GraphError(
@@ -989,6 +1065,8 @@ pub(crate) fn get_regex_and_dfa(
 
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
+        let has_caret = i == 0 && caret_position.is_some();
+        validate_anchors(&regex.regex_def, has_caret as usize + end_anchor as usize)?;
 
         let dfa = DFA::builder()
             .configure(config.clone())
@@ -1117,6 +1195,9 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
+    let has_end_anchor = ends_with_end_anchor(regex_str);
+    validate_anchors(regex_str, has_end_anchor as usize)?;
+
     let dfa = create_dfa_graph_from_regex(regex_str)?;
 
     for (idx, transitions) in substrs_defs_json.transitions.iter().enumerate() {
@@ -1157,7 +1238,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: ends_with_end_anchor(regex_str),
+        has_end_anchor,
         substrings,
     })
 }
-- 
2.43.0


From ad9b1aa64dfc5de15223d41c9b533768e47fa93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 18/27] fix: errors on writing halo2 substring tables were
 ignored

---
 packages/compiler/src/halo2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 416c4e5..9749c9a 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -115,6 +115,8 @@ pub(crate) fn gen_halo2_tables(
         for &(cur, next) in &sorted_defs {
             writeln!(writer, "{} {}", cur, next)?;
         }
+
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 4ead43bd1ec8937efd07b92e72127167133021a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 19/27] fix: definitions or substrings that read no byte gave
 malformed circuits

---
 packages/compiler/src/circom.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 355bb02..463e4cf 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -734,7 +734,9 @@ fn generate_accept_logic(
 ///
 /// # Returns
 ///
-/// A String containing the complete Circom circuit code.
+/// A Result containing the complete Circom circuit code as a String.
+///
+/// Returns error if there are no transitions to other states.
 fn gen_circom_allstr(
     dfa_graph: &DFAGraph,
     template_name: &str,
@@ -743,6 +745,13 @@ fn gen_circom_allstr(
 ) -> Result<String, CompilerError> {
     let state_len = dfa_graph.states.len();
 
+    // Without any state but the first one, there is nothing to constrain
+    if state_len < 2 {
+        return Err(CompilerError::AcceptNodesError(
+            "The regex must not match the empty string".to_string(),
+        ));
+    }
+
     let (rev_graph, accept_nodes) = build_reverse_graph(state_len, dfa_graph)?;
 
     let (eq_i, lt_i, and_i, multi_or_i, lines) =
@@ -953,6 +962,12 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
     );
 
     for (idx, ranges) in regex_dfa.substrings.substring_ranges.iter().enumerate() {
+        if ranges.is_empty() {
+            return Err(CompilerError::GenericError(format!(
+                "Substring {} has no transitions",
+                idx
+            )));
+        }
         circom += &write_substr_logic(idx, &ranges.iter().copied().collect::<Vec<_>>());
     }
 
@@ -980,23 +995,21 @@ pub(crate) fn gen_circom_template(
     template_name: &str,
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let circom = gen_circom_allstr(
+    let mut circom = gen_circom_allstr(
         &regex_and_dfa.dfa,
         template_name,
         &regex_and_dfa.regex_pattern,
         regex_and_dfa.has_end_anchor,
     )?;
 
-    let mut file = File::create(circom_path)?;
-    file.write_all(circom.as_bytes())?;
-
     if gen_substrs {
-        let substrs = add_substrs_constraints(regex_and_dfa)?;
-        file.write_all(substrs.as_bytes())?;
+        circom += &add_substrs_constraints(regex_and_dfa)?;
     } else {
-        file.write_all(b"\n}")?;
+        circom += "\n}";
     }
 
+    let mut file = File::create(circom_path)?;
+    file.write_all(circom.as_bytes())?;
     file.flush()?;
     Ok(())
 }
-- 
2.43.0


From 72552995901b6f660029f8f1bc038309a59d65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 20/27] fix: a part that matches nothing panicked or was
 skipped

---
 packages/compiler/src/regex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index eccc980..d894e19 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1080,6 +1080,11 @@ pub(crate) fn get_regex_and_dfa(
 
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
+        // A part that matches nothing must not be skipped
+        if get_accepted_state(&dfa_graph).is_none() {
+            return Err(CompilerError::NoAcceptedState);
+        }
+
         let max_state_index = net_dfa_graph
             .states
             .iter()
-- 
2.43.0


From 5f40ca7ee304706bcdbf97c85ffe9f68664c3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 21/27] fix: text with unbalanced parentheses was accepted or
 panicked

---
 packages/compiler/src/regex.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d894e19..3f0dcf3 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -7,9 +7,12 @@ use crate::{
     DecomposedRegexConfig,
 };
 use regex::Regex;
-use regex_automata::dfa::{
-    dense::{Config, DFA},
-    StartKind,
+use regex_automata::{
+    dfa::{
+        dense::{Config, DFA},
+        StartKind,
+    },
+    util::syntax,
 };
 use std::{
     collections::{BTreeMap, BTreeSet, VecDeque},
@@ -144,6 +147,22 @@ fn count_assertions(regex: &str) -> usize {
     count
 }
 
+/// Checks that a regex is well-formed by itself, and not only as a group of a larger regex.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A `Result` containing `()` if the regex is well-formed, or a `CompilerError`.
+fn validate_syntax(regex: &str) -> Result<(), CompilerError> {
+    syntax::parse(regex).map_err(|err| {
+        CompilerError::ParseError(format!("Invalid regex \"{}\": {}", regex, err))
+    })?;
+    Ok(())
+}
+
 /// Checks that a regex has no anchors but those that the compiled DFA takes into account.
 ///
 /// # Arguments
@@ -1064,6 +1083,7 @@ pub(crate) fn get_regex_and_dfa(
     let mut end_anchor = false;
 
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
+        validate_syntax(&regex.regex_def)?;
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
         let has_caret = i == 0 && caret_position.is_some();
         validate_anchors(&regex.regex_def, has_caret as usize + end_anchor as usize)?;
@@ -1200,6 +1220,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
+    validate_syntax(regex_str)?;
     let has_end_anchor = ends_with_end_anchor(regex_str);
     validate_anchors(regex_str, has_end_anchor as usize)?;
 
-- 
2.43.0


From a9551db016fdfc622743cf644ae35249935ba0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 22/27] fix: circuits that read a signal that is never assigned
 were generated

---
 packages/compiler/src/circom.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 463e4cf..4f19710 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -690,6 +690,13 @@ fn generate_accept_logic(
 
     let accept_node = *accept_nodes.iter().next().unwrap();
 
+    // The first state is active everywhere, so that nothing tells where a match ends
+    if accept_node == 0 {
+        return Err(CompilerError::AcceptNodesError(
+            "The accept node must not be the initial state".to_string(),
+        ));
+    }
+
     accept_lines.push("".to_string());
     accept_lines.push("\tcomponent is_accepted = MultiOR(num_bytes+1);".to_string());
     accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
@@ -968,6 +975,13 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
                 idx
             )));
         }
+        // There is no signal for the first state after the last byte
+        if ranges.iter().any(|&(_, next)| next == 0) {
+            return Err(CompilerError::GenericError(format!(
+                "Substring {} has a transition to the initial state",
+                idx
+            )));
+        }
         circom += &write_substr_logic(idx, &ranges.iter().copied().collect::<Vec<_>>());
     }
 
-- 
2.43.0


From 7b06e7fbf60a9d8e9ec9319dcaf46409324272a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 23/27] fix: flags set in a part reached later parts in
 extraction

---
 packages/apis/src/extract_substrs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index a8dc7f9..925d9b3 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -61,7 +61,12 @@ pub fn extract_substr_idxes(
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
     for (_, part) in regex_config.parts.iter().enumerate() {
-        entire_regex_str += &format!("({})", part.regex_def);
+        entire_regex_str += &if part.regex_def.contains("(?") {
+            // The inner group keeps flags that the part sets, like (?i), from reaching later parts
+            format!("((?u:{}))", part.regex_def)
+        } else {
+            format!("({})", part.regex_def)
+        };
     }
 
     // Compile the entire regex
-- 
2.43.0


From 9b0289fe18d0a3b08993163ff8271e5ce1345e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 24/27] fix: with an end anchor, a zero byte inside the message
 moved its end

---
 packages/compiler/src/circom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 4f19710..ab029cd 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -475,8 +475,11 @@ fn generate_state_transition_logic(
     lines.push("\t\tstates[i][0] <== 1;".to_string());
 
     if end_anchor {
+        // The padding starts after the last byte that is not zero
+        lines.push("\t\tis_not_padding[i] <== IsNotZeroAcc()(0, in[i]);".to_string());
         lines.push(
-            "\t\tpadding_start[i+1] <== IsNotZeroAcc()(padding_start[i], in[i]);".to_string(),
+            "\t\tpadding_start[i+1] <== padding_start[i] + is_not_padding[i] * (i + 1 - padding_start[i]);"
+                .to_string(),
         );
     }
 
@@ -627,6 +630,7 @@ fn generate_declarations(
 
     if end_anchor {
         declarations.extend([
+            "\tsignal is_not_padding[num_bytes];".to_string(),
             "\tsignal padding_start[num_bytes+1];".to_string(),
             "\tpadding_start[0] <== 0;".to_string(),
         ]);
-- 
2.43.0


From 4af7b48e57a29d67a24b78c5887aeb2828dc46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 25/27] fix: the caret's alternatives could continue after it,
 or were lost

---
 packages/compiler/src/regex.rs | 79 ++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 3f0dcf3..ee7c9b8 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -671,6 +671,7 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// # Arguments
 ///
 /// * `graph` - A mutable reference to the DFAGraph to be modified.
+/// * `can_be_empty` - Whether an alternative other than the caret matches the empty string.
 ///
 /// # Returns
 ///
@@ -678,38 +679,59 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 ///
 /// # Function Behavior
 ///
-/// 1. Clears the state type of the start state.
-/// 2. Finds the accept state in the graph.
-/// 3. Adds a transition from the start state to the accept state with byte value 255.
-fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
-    if let Some(start_state) = graph.states.get_mut(0) {
-        // The start state accepts if the caret is an alternative by itself
-        if start_state.state_type != "accept" {
-            return Err(CompilerError::GraphError(
-                "The caret (^) must be an alternative by itself, as in (...|^)".to_string(),
-            ));
-        }
-        start_state.state_type.clear();
-    } else {
+/// 1. Moves the transitions to the start state to a copy of it, which stays accepting.
+/// 2. Clears the state type of the start state, unless another alternative is empty.
+/// 3. Finds the accept state where no alternative goes on, or adds one.
+/// 4. Adds a transition from the start state to that state with byte value 255.
+fn modify_graph_for_caret(graph: &mut DFAGraph, can_be_empty: bool) -> Result<(), CompilerError> {
+    let start_copy_id = graph.states.len();
+    let start_state = graph
+        .states
+        .first()
+        .ok_or_else(|| CompilerError::GraphError("Start state not found".to_string()))?;
+    // The start state accepts if the caret is an alternative by itself
+    if start_state.state_type != "accept" {
         return Err(CompilerError::GraphError(
-            "Start state not found".to_string(),
+            "The caret (^) must be an alternative by itself, as in (...|^)".to_string(),
         ));
     }
 
-    let accepted_state = graph
+    if graph.states.iter().any(|state| state.transitions.contains_key(&0)) {
+        let mut start_copy = start_state.clone();
+        start_copy.state_id = start_copy_id;
+        graph.states.push(start_copy);
+        for state in &mut graph.states {
+            if let Some(chars) = state.transitions.remove(&0) {
+                state.transitions.insert(start_copy_id, chars);
+            }
+        }
+    }
+    if !can_be_empty {
+        graph.states[0].state_type.clear();
+    }
+
+    // Other alternatives must not be continued after the caret
+    let accepted_state_id = graph
         .states
         .iter()
-        .find(|state| state.state_type == "accept")
-        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
-        .clone();
-
-    if let Some(start_state) = graph.states.get_mut(0) {
-        start_state
-            .transitions
-            .entry(accepted_state.state_id)
-            .or_insert_with(BTreeSet::new)
-            .insert(255u8);
-    }
+        .skip(1)
+        .find(|state| state.state_type == "accept" && state.transitions.is_empty())
+        .map(|state| state.state_id);
+    let accepted_state_id = accepted_state_id.unwrap_or_else(|| {
+        let state_id = graph.states.len();
+        graph.states.push(DFAStateNode {
+            state_type: "accept".to_string(),
+            state_id,
+            transitions: BTreeMap::new(),
+        });
+        state_id
+    });
+
+    graph.states[0]
+        .transitions
+        .entry(accepted_state_id)
+        .or_insert_with(BTreeSet::new)
+        .insert(255u8);
 
     Ok(())
 }
@@ -766,7 +788,10 @@ fn handle_caret_regex(
         if regex.regex_def == "^" {
             *graph = create_simple_caret_graph();
         } else {
-            modify_graph_for_caret(graph)?;
+            // Behind a character, the caret does not match
+            let can_be_empty =
+                Regex::new(&format!("^a(?:{})$", regex.regex_def))?.is_match("a");
+            modify_graph_for_caret(graph, can_be_empty)?;
         }
     }
     Ok(())
-- 
2.43.0


From 816c5329f2001f492f21491a9cda1b1badd935e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 26/27] fix: alternatives around an anchor were anchored
 together or lost

---
 packages/compiler/src/regex.rs | 115 ++++++++++++++++++++++++++++++++-
 1 file changed, 114 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ee7c9b8..b20ddf7 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -147,6 +147,106 @@ fn count_assertions(regex: &str) -> usize {
     count
 }
 
+/// Finds the bytes of a regex that are neither escaped nor in a character class.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// The index of each byte, the byte, and how many groups are open after it.
+fn find_unescaped_bytes(regex: &str) -> Vec<(usize, u8, usize)> {
+    let regex_bytes = regex.as_bytes();
+    let mut group_depth = 0usize;
+    let mut class_depth = 0usize;
+    let mut found = vec![];
+    let mut idx = 0;
+
+    while idx < regex_bytes.len() {
+        let byte = regex_bytes[idx];
+        match byte {
+            b'\\' => idx += 1,
+            b'[' => {
+                class_depth += 1;
+                // A leading ^ negates the class, and a leading ] is a member of it
+                if regex_bytes.get(idx + 1) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx + 1) == Some(&b']') {
+                    idx += 1;
+                }
+            }
+            b']' => class_depth = class_depth.saturating_sub(1),
+            _ if class_depth > 0 => {}
+            _ => {
+                if byte == b'(' {
+                    group_depth += 1;
+                } else if byte == b')' {
+                    group_depth = group_depth.saturating_sub(1);
+                }
+                found.push((idx, byte, group_depth));
+            }
+        }
+        idx += 1;
+    }
+
+    found
+}
+
+/// Splits a regex at each | that is not in a group.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// The alternatives of the regex.
+fn split_alternatives(regex: &str) -> Vec<&str> {
+    let mut alternatives = vec![];
+    let mut start = 0;
+    for (idx, byte, group_depth) in find_unescaped_bytes(regex) {
+        if byte == b'|' && group_depth == 0 {
+            alternatives.push(&regex[start..idx]);
+            start = idx + 1;
+        }
+    }
+    alternatives.push(&regex[start..]);
+    alternatives
+}
+
+/// Checks whether a regex is a caret (^), or a group of which the caret is an alternative by itself.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the regex is ^ or (...|^), and has no other anchors.
+fn is_caret_alternative(regex: &str) -> bool {
+    if regex == "^" {
+        return true;
+    }
+    let group_end = find_unescaped_bytes(regex)
+        .into_iter()
+        .find(|&(_, _, group_depth)| group_depth == 0);
+    if !regex.starts_with('(') || group_end != Some((regex.len() - 1, b')', 0)) {
+        return false;
+    }
+    let mut content = &regex[1..regex.len() - 1];
+    if content.starts_with('?') {
+        // Flags or a name
+        let head_len = content.find(|c| c == ':' || c == '>').unwrap_or(0);
+        content = &content[head_len + 1..];
+    }
+    let (anchored, others): (Vec<&str>, Vec<&str>) = split_alternatives(content)
+        .into_iter()
+        .partition(|alternative| is_caret_alternative(alternative));
+    !anchored.is_empty() && others.iter().all(|other| count_assertions(other) == 0)
+}
+
 /// Checks that a regex is well-formed by itself, and not only as a group of a larger regex.
 ///
 /// # Arguments
@@ -202,11 +302,17 @@ fn process_caret_in_regex(
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-        if caret_regex != "^" && !caret_regex.ends_with(')') {
+        if !is_caret_alternative(&caret_regex) {
             return Err(CompilerError::GenericError(
                 "Invalid regex, ^ can only be at the beginning, as ^ or (...|^)".to_string(),
             ));
         }
+        if split_alternatives(&decomposed_regex.parts[0].regex_def[index..]).len() > 1 {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, the alternatives next to ^ must be in a group, as in ^(...|...)"
+                    .to_string(),
+            ));
+        }
         decomposed_regex.parts.push_front(RegexPartConfig {
             is_public: false,
             regex_def: caret_regex,
@@ -259,6 +365,13 @@ fn validate_end_anchor(
         ));
     }
 
+    if ends_with_dollar && split_alternatives(&regex.regex_def).len() > 1 {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, the alternatives next to $ must be in a group, as in (...|...)$"
+                .to_string(),
+        ));
+    }
+
     Ok(is_last_part && ends_with_dollar)
 }
 
-- 
2.43.0


From 56bf4b51d8752ef75ba8a5ed3e8dc2b51212898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 27/27] fix: refuse a multi-line end anchor instead of
 compiling it as the end of the message

With the flag m, $ matches at the end of every line, but (?m)ab$ was
compiled as if it had no flag.
---
 packages/compiler/src/regex.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index b20ddf7..d7aabd2 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -263,6 +263,34 @@ fn validate_syntax(regex: &str) -> Result<(), CompilerError> {
     Ok(())
 }
 
+/// Checks whether flags such as (?m) make the end anchor match at the end of every line.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// Whether the multi-line flag is set outside of all groups.
+fn is_multi_line(regex: &str) -> bool {
+    let mut multi_line = false;
+
+    for (idx, byte, depth) in find_unescaped_bytes(regex) {
+        if byte != b'(' || depth != 1 {
+            continue;
+        }
+        let group = regex[idx + 1..].split(')').next().unwrap_or("");
+        if let Some(flags) = group.strip_prefix('?') {
+            let (set, unset) = flags.split_once('-').unwrap_or((flags, ""));
+            if !flags.contains(|c: char| c != '-' && !c.is_ascii_alphabetic()) {
+                multi_line = (multi_line || set.contains('m')) && !unset.contains('m');
+            }
+        }
+    }
+
+    multi_line
+}
+
 /// Checks that a regex has no anchors but those that the compiled DFA takes into account.
 ///
 /// # Arguments
@@ -280,6 +308,12 @@ fn validate_anchors(regex: &str, supported: usize) -> Result<(), CompilerError>
             regex
         )));
     }
+    if supported > 0 && is_multi_line(regex) {
+        return Err(CompilerError::GenericError(format!(
+            "Invalid regex \"{}\", ^ and $ stand for the ends of the message, not of its lines",
+            regex
+        )));
+    }
     Ok(())
 }
 
-- 
2.43.0

