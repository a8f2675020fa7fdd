PROPERTY = "C07"
NEEDS = "a prover who does not use the generated witness calculator, but sets a signal that is assigned and not constrained"
BREAKS = "the result of the range check of every message element is an unconstrained hint, so that elements of 255 and above are accepted"
EDITS = [("packages/compiler/src/circom.rs", '"\\t\\tin_range_checks[i] <== LessThan(8)([msg[i], 255]);".to_string(),', '"\\t\\tin_range_checks[i] <-- LessThan(8)([msg[i], 255]);".to_string(),')]
DEMO = '''
# every signal that a constraint mentions or that is computed must be determined: no assignment without a constraint
import re
with tempfile.TemporaryDirectory() as t:
    r = run([circuit(parts("ab", ("PUB", "[0-9]"), ";"), [b"ab1;", b"xab1;"], 7)])
    same(outs(r[0]), [(1, ["..1...."]), (1, ["...1..."])])
    with open(t + "/d.json", "w") as f:
        json.dump({"parts": parts("ab", ("PUB", "[0-9]"), ";")}, f)
    p = subprocess.run(["cargo", "run", "--offline", "-q", "-p", "zk-regex-compiler", "--bin", "zk-regex", "--", "decomposed", "-d", t + "/d.json", "-c", t + "/d.circom",
                        "-t", "D", "-g", "true"], cwd="/repo", env=dict(os.environ, CARGO_TARGET_DIR=t + "/target"))
    same(p.returncode, 0)
    text = open(t + "/d.circom").read()
    for name in re.findall(r"(\\w+)\\S* <-- ", text):
        # what is only computed must be constrained by an equation of its own that is not a constant
        if not [l for l in re.findall(r"^.*===.*$", text, re.M) if name in l and re.sub(r"[0-9]", "", l.split("===")[1]).strip(" ;")]:
            print("not constrained:", name)
            sys.exit(1)
'''
