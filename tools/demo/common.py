import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))


def run(jobs):
    """jobs in, results out (see zkh/src/main.rs)"""
    with tempfile.TemporaryDirectory() as t:
        shutil.copytree(os.path.join(HERE, "zkh"), os.path.join(t, "zkh"))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(t, "target"))
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(t, "zkh"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout)
            sys.exit(3)
        for k, j in enumerate(jobs):
            j["id"] = k
        with open(os.path.join(t, "jobs"), "w") as f:
            f.write("".join(json.dumps(j) + "\n" for j in jobs))
        os.makedirs(os.path.join(t, "s"))
        subprocess.run([os.path.join(t, "target", "debug", "zkh"), t + "/jobs", t + "/res", t + "/s"], check=True)
        return [json.loads(l) for l in open(t + "/res")]


def parts(*ps):
    """("PUB", regex) or regex"""
    return [{"is_public": True, "regex_def": p[1]} if isinstance(p, tuple) else {"is_public": False, "regex_def": p} for p in ps]


def circuit(ps, msgs, n):
    return {"k": "compile", "mode": "dec", "parts": ps, "gs": True, "want": ["c"], "runs": [{"n": n, "msgs": [list(m) for m in msgs]}]}


def outs(r):
    """[(out, [revealed bytes as text, a dot for zero])] of a circuit job, None if there is no witness"""
    if r["c"]["s"] != "ok":
        return r["c"]
    if any("err" in w for w in r["wf"]):
        return r["wf"]
    return [None if "u" in o else (o["o"], ["".join(chr(x) if x else "." for x in v) for v in o["r"]]) for g in r["runs"] for o in g["outs"]]


def same(got, want):
    if got != want:
        print("expected", want)
        print("got     ", got)
        sys.exit(1)
