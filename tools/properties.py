"""Writes /verif/properties.jsonl."""
import json, os
C = "packages/compiler/src/"
A = "packages/apis/src/"
K = "packages/circom/circuits/"


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": state or [], "observe_at": observe or [], "hook_needed": None}}


PROPS = [
 p("C01", "A single regex compiles to exactly its language",
   "For every supported regular expression, the compiled automaton reads a byte string and accepts it exactly when the UTF-8 encoding of a string in the expression's language is read. "
   "Whatever the syntax (escapes, classes, ranges that begin or end at punctuation, counted repetition, non-ASCII text), no byte is gained or lost, and no supported expression is refused. "
   "The same holds of the automaton that JavaScript is given, which may have several accepting states.",
   ["programs", "inputs"], "every expression of the supported dialect; every byte string of any length",
   "One test compares a couple of hundred fixed expressions with a handful of strings; a wrong byte on one edge of one automaton needs exactly the right expression and string.",
   [C + "regex.rs"],
   [("text form of the automaton is parsed back (states, ranges, special characters)", C + "regex.rs: parse_states, parse_transition, process_state_edges, parse_char"),
    ("end-of-input states folded into accepting states, states renumbered", C + "regex.rs: handle_eoi_transitions, sort_and_rename_states, convert_dfa_to_graph")],
   observe=["tables written by gen_from_raw / gen_from_decomposed with a halo2 directory", "the JSON that genRegexAndDfa returns"]),
 p("C02", "A decomposed definition compiles to the joined language, bytes to parts",
   "For every decomposed definition in the documented domain, the compiled automaton accepts exactly the concatenation of the languages of its parts (a part ends as soon as the next byte can begin a later part), "
   "and every byte read belongs to the k-th public substring exactly when the k-th public part read it. "
   "The same holds of the automaton that JavaScript is given, which may have several accepting states.",
   ["programs", "inputs"], "every sequence of public and private parts, nullable parts and shared first bytes included; every byte string",
   "The tests compile about twenty definitions and never inspect which transitions were marked public; joins of nullable, overlapping or adjacent public parts are hardly reached.",
   [C + "regex.rs"],
   [("automata joined at accepting states, conflicting transitions dropped", C + "regex.rs: add_dfa, merge_edges, process_accept_state"),
    ("public transitions renamed when parts are joined", C + "regex.rs: process_public_regex, update_public_edges, rename_states")],
   observe=["allstr.txt and substr_k.txt", "the JSON that genRegexAndDfa returns"]),
 p("C03", "The circuit's output bit says whether the scan found a match",
   "For every supported definition, size and message, the generated circuit is satisfiable and its output is 1 exactly when reading the message from left to right, starting an attempt whenever none is running, completes a match; "
   "otherwise it is 0. In particular an output of 1 implies that the message contains a match.",
   ["programs", "inputs"], "every supported definition, every message size, every message of bytes 0..254",
   "The circuit tests need circom and cannot run here; they try a few messages per definition. Constraint generation has many special cases (range checks from 17 characters on, shared gates, states entered from the start).",
   [C + "circom.rs", K + "regex_helpers.circom"],
   [("state transition constraints", C + "circom.rs: generate_state_transition_logic and helpers"),
    ("acceptance", C + "circom.rs: generate_accept_logic"), ("gates", K + "regex_helpers.circom")],
   observe=["output signal out of the generated template"]),
 p("C04", "Exactly the public bytes of matches are revealed",
   "For every supported definition and message, the k-th reveal output holds the message byte at every position that the k-th public part read in an attempt that completed a match, and 0 everywhere else; "
   "bytes of private parts, of abandoned attempts and of text outside matches are never revealed.",
   ["programs", "inputs"], "every supported definition with public parts, every message size and message, several and back-to-back matches included",
   "Needs particular messages: a failed attempt next to a match, a match restarted inside text, two adjacent matches, a public part that is last. The tests have one or two per definition.",
   [C + "circom.rs"],
   [("consecutive-match logic", C + "circom.rs: write_consecutive_logic"), ("reveal logic", C + "circom.rs: write_prev_states, write_is_substr, write_is_reveal_and_reveal")],
   observe=["output signals reveal0, reveal1, ..."]),
 p("C05", "Anchors bind matches to the ends of the message",
   "A definition that begins with ^ matches only at the first byte (and one with (x|^) there or after x), and one that ends with $ matches and reveals only where the match ends with the last byte of the message before the zero padding, also when the message fills the circuit; "
   "escaped anchors and anchors in classes are ordinary characters.",
   ["programs", "inputs"], "every supported anchored definition, every message of non-zero bytes and padding length, none included",
   "Off-by-one errors at the two ends show only at particular lengths; the tests use one circuit size per definition and always leave padding.",
   [C + "regex.rs", C + "circom.rs"],
   [("split of the first part at ^", C + "regex.rs: find_caret_index, process_caret_in_regex, modify_graph_for_caret"),
    ("detection of $", C + "regex.rs: ends_with_end_anchor, validate_end_anchor"), ("end of message found by counting non-zero bytes", C + "circom.rs: generate_accept_logic, IsNotZeroAcc")]),
 p("C06", "Padding is inert and out-of-range input is rejected",
   "Appending zero padding or choosing a larger circuit never changes the output bit or the revealed bytes of a message, a zero byte never takes part in a match, and a circuit given an input element that is not a byte below 255 has no satisfying witness, so that the marker of the message's start cannot be forged.",
   ["programs", "inputs"], "every definition, message, circuit size and position; every out-of-range value tried at every position",
   "Tests fix one size per circuit and never offer an invalid element.",
   [C + "circom.rs", A + "padding.rs"],
   [("range check of every message byte", C + "circom.rs: generate_declarations"), ("zero bytes removed from transitions", C + "circom.rs: generate_state_transition_logic")]),
 p("C07", "Generated circuits are well formed and leave the prover no freedom",
   "Every circuit the compiler generates elaborates at every size: every signal and component input is assigned exactly once before use, constraints are at most quadratic, and every signal is determined by constraints from the message, so that one message has one witness and one output.",
   ["programs", "configurations"], "every definition the compiler accepts, with and without substrings, at every size",
   "The text of the circuit is never checked for under-constrained signals; an honest prover's tests pass even if a constraint is missing.",
   [C + "circom.rs", K + "regex_helpers.circom"],
   [("emission of the template", C + "circom.rs: gen_circom_allstr, add_substrs_constraints, gen_circom_template"), ("helpers", K + "regex_helpers.circom")]),
 p("C08", "Halo2 tables describe the same matcher",
   "The tables written for halo2 list initial state, the one accepting state and the largest state, every transition exactly once and deterministically, and for every public part its transitions and exactly the states where it may begin and end; "
   "the circom circuit of the same definition is the same automaton.",
   ["programs"], "every supported definition",
   "No test reads the tables.",
   [C + "halo2.rs", C + "regex.rs"],
   [("table text", C + "halo2.rs"), ("boundaries", C + "regex.rs: collect_accepting_states, collect_substr_ends, process_public_regex")]),
 p("C09", "Extraction returns the parts of the leftmost match",
   "For every definition and input string, extraction returns for each public part (for each part when private ones are asked for) the byte range it takes in the leftmost match that backtracking with greedy and lazy preferences finds first; ranges lie on character boundaries, are adjacent in order, and the strings returned are exactly those ranges. "
   "(Repetitions whose body can match the empty string, and back references, which are not regular, are outside the statement.) Groups and parentheses inside a part, of whatever kind, never shift the ranges, and an input without a match gives an error.",
   ["programs", "inputs"], "every definition (groups, alternations, escapes, nullable parts, look-around, atomic groups, possessive repetition) and every string",
   "The tests use nine definitions and one input each.",
   [A + "extract_substrs.rs"], [("one regex with a group per part", A + "extract_substrs.rs: extract_substr_idxes, extract_substr")]),
 p("C10", "Extraction and circuit agree on what is public",
   "For every supported definition whose parts have unambiguous borders (no byte can be read by two of them) and every message with exactly one match, into which no earlier attempt runs, the bytes the circuit reveals for the k-th public part are exactly the bytes of the k-th range extraction returns, and a message without a match makes the circuit output 0 and extraction fail.",
   ["programs", "inputs"], "every such definition and message",
   "Only the circuit tests compare the two, for a few messages, and they cannot run without circom.",
   [A + "extract_substrs.rs", C + "circom.rs", C + "regex.rs"],
   [("two independent implementations of a definition", "extract_substr_idxes and gen_circom_template")]),
 p("C11", "Shipped circuits implement their definitions",
   "Every circuit shipped in the circom package accepts and reveals exactly what the published definition of the same name means, for every message; compiling the shipped definition gives a circuit with the same behaviour.",
   ["inputs", "configurations"], "every shipped circuit, every message, several sizes",
   "Tests run each circuit on a few e-mail headers and need circom.",
   [K + "common/", A + "decomposed_defs/"], [("committed generated circuits", K + "common/*.circom"), ("definitions", K + "common/*.json")]),
 p("C12", "Built-in extractors follow their published definitions",
   "Every built-in extractor (addresses, domains, from, to, subject, body hash, timestamp, message id) returns for every input exactly what general extraction with the published definition returns, and header fields are only taken at the beginning of a line.",
   ["inputs"], "every input string, header fields in any order, look-alike fields included",
   "One or two headers per extractor.",
   [A + "extract_substrs.rs", A + "decomposed_defs/", A + "wasm.rs"], [("definition embedded in each extractor", A + "extract_substrs.rs: extract_*_idxes")]),
 p("C13", "Requests that cannot be met fail cleanly",
   "Every request either succeeds, writing every output asked for completely, or ends with a failing status and an error message: the command line and the library never panic, the JavaScript functions throw, success is never reported without its outputs (a full disk, a directory in a file's place, a file-size limit), and what is compiled is well formed. Unsupported definitions are refused, never compiled to something else, and leave existing files as they were: several accepting states, anchors in unsupported places, a part that matches nothing, invalid or unbalanced syntax, no parts, malformed JSON, transitions between unknown states, circuits that would match or reveal the empty text, a circuit path without a template name.",
   ["inputs", "configurations", "fault_sequences"], "every combination of command, options, definition (supported, unsupported or malformed) and file-system fault",
   "Tests only compile valid definitions.",
   [C + "lib.rs", C + "bin/compiler.rs", C + "regex.rs", C + "halo2.rs", C + "circom.rs"],
   [("error propagation", C + "lib.rs: gen_from_decomposed, gen_from_raw, generate_outputs"), ("exit status", C + "bin/compiler.rs: process_decomposed, process_raw")]),
 p("C14", "Every front end gives the same output, every time",
   "The command line, the library entry points and a run after any history of other runs in the same directory produce byte-identical files for the same definition and options; a run writes only the files it was asked for, reads its definition only, and its output is a function of its arguments alone, also when two runs overlap. Without the option, substrings are generated for raw definitions and not for decomposed ones.",
   ["histories", "configurations"], "every sequence of compile commands over a shared output directory, every front end",
   "No test runs the command line or two compilations in a row.",
   [C + "lib.rs", C + "bin/compiler.rs", C + "circom.rs"], [("defaults for substring generation", C + "lib.rs"), ("argument handling", C + "bin/compiler.rs")]),
 p("C15", "Raw mode reveals exactly the chosen transitions",
   "For a raw expression with chosen transition sets, the k-th reveal output holds a message byte exactly when that byte moved an attempt that completed a match along a transition of the k-th set, for every set of transitions of the automaton; without sets nothing is revealed.",
   ["programs", "inputs"], "every supported expression, every choice of transitions of its automaton, every message",
   "No test uses raw mode.",
   [C + "lib.rs", C + "regex.rs", C + "circom.rs"], [("transition sets taken from a file", C + "lib.rs: load_substring_definitions_json; " + C + "regex.rs: create_regex_and_dfa_from_str_and_defs")]),
 p("C16", "Padding helper keeps every byte or fails",
   "Padding a string to n bytes returns exactly n bytes: the UTF-8 encoding of the string followed by zeros; a string that does not fit is never truncated.",
   ["inputs"], "every string and every size", "Used only as a helper for tests that need circom.",
   [A + "padding.rs", A + "wasm.rs"], [("pad_string", A + "padding.rs")]),
p("C17", "Helper templates compute their functions at every width",
  "For every width and every assignment of bits, the shipped MultiOR is 1 exactly when some input is 1, MultiNOR exactly when none is, ORAnd exactly when the third and one of the first two are; IsNotZeroAcc adds one to its accumulator exactly when its input is not zero; each is satisfiable for each input and leaves the prover one output.",
  ["inputs"], "every width, every input", "Only used inside circuits, at the widths that those have.",
  ["packages/circom/circuits/regex_helpers.circom"], [("MultiOR, MultiNOR, ORAnd, IsNotZeroAcc", "packages/circom/circuits/regex_helpers.circom")]),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
