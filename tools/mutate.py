"""Mutation analysis (not part of any check): `mutate.py list` prints mutants, `mutate.py run N SEED WORKERS OUT` samples N, and runs the checks on each that builds and passes the tests.

Works on copies of /repo and /verif in a namespace of its own (see seeds.py)."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO, VERIF = "/repo", "/verif"
FILES = ["packages/compiler/src/circom.rs", "packages/compiler/src/regex.rs", "packages/compiler/src/halo2.rs", "packages/compiler/src/lib.rs",
         "packages/compiler/src/bin/compiler.rs", "packages/compiler/src/wasm.rs", "packages/compiler/src/structs.rs",
         "packages/apis/src/extract_substrs.rs", "packages/apis/src/padding.rs", "packages/apis/src/wasm.rs",
         "packages/circom/circuits/regex_helpers.circom"]
ORDER = {"circom.rs": "C03 C05 C15 C04 C06 C07 C08 C13 C14 C11 C10", "regex.rs": "C08 C02 C01 C03 C05 C13 C04 C15 C14 C06 C07 C10",
         "halo2.rs": "C08 C14 C13", "lib.rs": "C14 C13 C08 C15", "compiler.rs": "C14 C13", "compiler/src/wasm.rs": "C14 C13", "structs.rs": "C14 C13",
         "extract_substrs.rs": "C09 C12 C10 C13", "padding.rs": "C16", "apis/src/wasm.rs": "C12 C09 C16 C13", "regex_helpers.circom": "C03 C05 C04 C07 C11 C06"}


def order(f):
    return max(((k, v) for k, v in ORDER.items() if f.endswith(k)), key=lambda x: len(x[0]))[1].split()


SUBS = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" + 1", ""), (" + 1", " + 2"),
        ("+1]", "]"), ("-1]", "]"), ("+2]", "+1]"), (" - 1", ""), (" - ", " + "), (" + ", " - "), (" * ", " + "), ("true", "false"), ("false", "true"), ("0", "1"), ("1", "0"), ("1", "2"),
        ("is_some()", "is_none()"), ("is_empty()", "len() > 1"), (".max()", ".min()"), ("..=", ".."), (".push(", ".insert(0, "), ("<==", "<--"),
        ("continue;", "break;"), (".first()", ".last()"), (".find(", ".rfind("), ("push_front", "push_back"), (".retain(|", ".retain(|_| true || |"), ("filter(", "skip_while("),
        ("?;", ".ok();"), ("MultiOR", "MultiNOR"), ("AND()", "OR()"), ("255", "254"), ("num_bytes", "msg_bytes"), ("msg_bytes", "num_bytes"), ("states_tmp", "states"),
        ("unwrap_or(false)", "unwrap_or(true)"), ("unwrap_or(true)", "unwrap_or(false)"), ("from", "to"), ("starts", "ends"), ("lt_i", "eq_i"), ("break;", ""), ("!", "")]


def mutants():
    out = []
    for f in FILES:
        ls = open(os.path.join(REPO, f)).read().split("\n")
        skip = False
        for i, l in enumerate(ls):
            s = l.strip()
            if s.startswith("#[cfg(test)]") or s.startswith("mod dfa_test"):
                skip = True
            if skip or not s or s.startswith("//") or s.startswith("use ") or s.startswith("#[") or s.startswith("pub fn") or s.startswith("fn ") or s.startswith("pub(crate) fn"):
                continue
            for a, b in SUBS:
                for m in re.finditer(re.escape(a), l):
                    if a[0].isalnum() and (l[m.start() - 1:m.start()].isalnum() or l[m.end():m.end() + 1].isalnum() or l[m.end():m.end() + 1] == "_" or l[m.start() - 1:m.start()] == "_"):
                        continue
                    if a == "!" and l[m.end():m.end() + 1] in "(\"=[":
                        continue
                    out.append((f, i, l, l[:m.start()] + b + l[m.end():]))
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("return") and s.count("(") == s.count(")"):
                out.append((f, i, l, ""))
    return sorted(set(out))


def one(mu):
    """in the namespace"""
    f, i, old, new = mu
    p = os.path.join(REPO, f)
    t = open(p).read()
    ls = t.split("\n")
    assert ls[i] == old
    ls[i] = new
    r = {"f": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
    q = lambda cmd, to=1800, **k: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to, errors="replace", **k)
    try:
        open(p, "w").write("\n".join(ls))
        if q(["bash", "/opt/vp/build.sh"]).returncode:
            return dict(r, end="build")
        q(["bash", "/opt/vp/test.sh", "/mnt/test.json"])
        bad = json.load(open("/mnt/test.json"))["failed"]
        if bad or len(json.load(open("/mnt/test.json"))["passed"]) < 25:
            return dict(r, end="tests")
        for c in order(f):
            t0 = time.time()
            try:
                x = q(["python3", "/verif/checks/%s.py" % c.lower()], 1500, cwd=VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            except subprocess.TimeoutExpired:
                return dict(r, end="timeout " + c)
            if x.returncode != 0:
                v = [l for l in x.stdout.splitlines() if "VIOLATED:" in l]
                return dict(r, end="%s %d" % (c, x.returncode), why=(v[0] if v else x.stdout[-300:])[:300])
        return dict(r, end="SURVIVED")
    finally:
        open(p, "w").write(t)


def worker(k, todo, out):
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", REPO, tmp + "/repo"])
        subprocess.run(["cp", "-a", VERIF, tmp + "/verif"])
        os.makedirs(tmp + "/mnt")
        json.dump(todo, open(tmp + "/mnt/todo.json", "w"))
        script = "".join("mount --bind %s/%s %s && " % (tmp, x, y) for x, y in (("mnt", "/mnt"), ("repo", "/repo"), ("verif", "/verif")))
        with open(out + ".%d" % k, "a") as f:
            subprocess.run(["unshare", "-Urm", "bash", "-c", script + "exec python3 /verif/tools/mutate.py inside"], stdout=f)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants()
        for m in ms:
            print(m[0].split("/")[-1], m[1] + 1, "|", m[2].strip(), "|", m[3].strip())
    elif sys.argv[1] == "inside":
        for m in json.load(open("/mnt/todo.json")):
            print(json.dumps(one(m)), flush=True)
    else:
        n, seed, w, out = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
        ms = mutants()
        if len(sys.argv) > 6:
            ms = [m for m in ms if sys.argv[6] in m[0]]
        rng = random.Random(seed)
        ms = rng.sample(ms, min(n, len(ms)))
        from threading import Thread
        ts = [Thread(target=worker, args=(k, ms[k::w], out)) for k in range(w)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
