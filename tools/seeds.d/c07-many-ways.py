PROPERTY = "C07"
NEEDS = "a state with more than six ways in from states other than the first"
BREAKS = "the state's signal is assigned without a constraint, so that the prover chooses it"
EDITS = [("packages/compiler/src/circom.rs", '''    lines.push(format!(
        "\\t\\t{state_var}[i+1][{i}] <== multi_or[{multi_or_i}][i].out;"
    ));
}
''', '''    let arrow = if outputs.len() > 6 { "<--" } else { "<==" };
    lines.push(format!(
        "\\t\\t{state_var}[i+1][{i}] {arrow} multi_or[{multi_or_i}][i].out;"
    ));
}
''')]
DEMO = '''
# what the circuit computes must be constrained
import re
with tempfile.TemporaryDirectory() as t:
    with open(t + "/d.json", "w") as f:
        json.dump({"parts": parts("x(a1|b2|c3|d4|e5|f6|g7|h8)y")}, f)
    p = subprocess.run(["cargo", "run", "--offline", "-q", "-p", "zk-regex-compiler", "--bin", "zk-regex", "--", "decomposed", "-d", t + "/d.json", "-c", t + "/d.circom",
                        "-t", "D", "-g", "true"], cwd="/repo", env=dict(os.environ, CARGO_TARGET_DIR=t + "/target"))
    same(p.returncode, 0)
    text = open(t + "/d.circom").read()
    for l in re.findall(r"^.* <-- .*$", text, re.M):
        name = l.split("<--")[0].strip()
        if not [x for x in re.findall(r"^.*===.*$", text, re.M) if name in x]:
            print("not constrained:", l)
            sys.exit(1)
'''
