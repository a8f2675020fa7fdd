"""Planted bugs: `seeds.py make ID` writes /verif/seeded/ID from tools/seeds.d/ID.py, `verify ID...` confirms it and runs the check.

tools/seeds.d/ID.py defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], and DEMO (the text of expect.py) or SH (the text of demo.sh)."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


def git(*a):
    return subprocess.run(["git", "-C", REPO] + list(a), stdout=subprocess.PIPE, text=True, check=True).stdout


def load(i):
    ns = {}
    exec(open(os.path.join(HERE, "seeds.d", i + ".py")).read(), ns)
    return ns


def make(i):
    s = load(i)
    d = os.path.join(VERIF, "seeded", i)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        subprocess.run(["git", "clone", "-q", REPO, tmp], check=True)
        for f, old, new in s["EDITS"]:
            p = os.path.join(tmp, f)
            t = open(p, newline="").read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w", newline="").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w", newline="").write(
            subprocess.run(["git", "-C", tmp, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout)
    if "SH" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["SH"].lstrip())
    else:
        shutil.copy(os.path.join(HERE, "demo", "demo.sh"), d)
        shutil.copy(os.path.join(HERE, "demo", "common.py"), d)
        open(os.path.join(d, "expect.py"), "w").write("from common import *\n" + s["DEMO"])
        z = os.path.join(d, "zkh", "src")
        os.makedirs(z, exist_ok=True)
        for f in ("Cargo.lock", "src/main.rs", "src/circom.rs"):
            shutil.copy(os.path.join(VERIF, "harness", f), os.path.join(d, "zkh", f))
        t = open(os.path.join(VERIF, "harness", "Cargo.toml")).read()
        open(os.path.join(d, "zkh", "Cargo.toml"), "w").write(t[:t.index("[profile.dev.package.zkh]")])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, timeout=900, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **k)


def inside(i, checks):
    """run in a namespace in which /repo and /verif are copies"""
    s = load(i)
    d = "/mnt/" + i
    r = {"id": i, "property": s["PROPERTY"]}
    demo = lambda: sh(["bash", d + "/demo.sh"], cwd=REPO, timeout=600)
    r["demo_clean"] = demo().returncode
    git("apply", os.path.join(d, "patch.diff"))
    b = sh(["bash", "/opt/vp/build.sh"], timeout=1800)
    r["build"] = b.returncode
    out = "/mnt/test.json"
    sh(["bash", "/opt/vp/test.sh", out])
    t = json.load(open(out))
    r["tests"] = "%d passed, %s failed" % (len(t["passed"]), t["failed"])
    dm = demo()
    r["demo_patched"] = dm.returncode
    r["demo_says"] = dm.stdout[-300:]
    for c in checks or [s["PROPERTY"]]:
        t0 = time.time()
        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        q = sh(["python3", os.path.join(VERIF, "checks", c.lower() + ".py")], cwd=VERIF, env=e, timeout=3000)
        v = [l for l in q.stdout.splitlines() if "VIOLATED" in l or l.startswith("VIOLATION")]
        r[c] = "exit %d, %ds, %s" % (q.returncode, time.time() - t0, v[:2] if q.returncode in (0, 1) else q.stdout[-300:])
    return r


def verify(arg):
    i, *cs = arg.split(":")
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(["cp", "-a", REPO, tmp + "/repo"])
        sh(["cp", "-a", VERIF, tmp + "/verif"])
        os.makedirs(tmp + "/seed")
        shutil.move(tmp + "/verif/seeded/" + i, tmp + "/seed/" + i)
        # /repo and /verif keep their names for the build, the checks and the demonstration
        script = "".join("mount --bind %s/%s %s && " % (tmp, x, y) for x, y in (("seed", "/mnt"), ("repo", "/repo"), ("verif", "/verif")))
        script += "exec python3 /verif/tools/seeds.py inside " + arg
        p = sh(["unshare", "-Urm", "bash", "-c", script], timeout=7200)
        return p.stdout
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "make":
        for i in ids:
            make(i)
    elif what == "inside":
        i, *cs = ids[0].split(":")
        print(json.dumps(inside(i, cs and cs[0].split(",")), indent=1), flush=True)
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            for o in ex.map(verify, ids):
                print(o, flush=True)
