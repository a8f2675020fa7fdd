"""Shared driver code: build the harness from /repo's working tree, run jobs in it, run TLC, report."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "lib"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
T0 = time.time()
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"),
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""),
             RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", NO_COLOR="1", CARGO_INCREMENTAL="1", RUSTFLAGS="-Awarnings")
    for k in ("CARGO_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


class BuildFailed(Exception):
    pass


def cargo(args, cwd, target):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo"] + args + ["--offline"], cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-6000:]))


def build_harness():
    t = os.path.join(VERIF, "harness", "target")
    cargo(["build"], os.path.join(VERIF, "harness"), t)
    return os.path.join(t, "debug", "zkh")


def build_cli():
    t = os.path.join(VERIF, "harness", "target", "cli")
    args = ["build", "-p", "zk-regex-compiler", "--bins"]
    for p in ("regex-automata", "regex-syntax"):
        args += ["--config", "profile.dev.package.%s.opt-level=2" % p]
    cargo(args, REPO, t)
    return os.path.join(t, "debug", "zk-regex")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.states = self.transitions = self.traces = 0
        self.samples, self.cov, self.violations, self.known = [], {}, [], []
        self.assumptions = []
        self.bin = None
        self.n = 0

    # ---- running the code
    def run_jobs(self, jobs):
        if self.bin is None:
            t = time.time()
            self.bin = build_harness()
            self.log("built the harness in %.1fs" % (time.time() - t))
        self.n += 1
        a, b, s = (os.path.join(self.scratch, "%s%d" % (x, self.n)) for x in ("jobs", "res", "s"))
        for k, j in enumerate(jobs):
            j["id"] = k
        with open(a, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        os.makedirs(s)
        t = time.time()
        try:
            p = subprocess.run([self.bin, a, b, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=700, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("the harness did not end")
        if p.returncode != 0:
            raise ToolError("harness exit %s:\n%s" % (p.returncode, p.stdout[-4000:]))
        self.log("%d jobs in %.1fs" % (len(jobs), time.time() - t))
        with open(b) as f:
            return [json.loads(l) for l in f]

    # ---- TLC
    def tlc(self, module, cfg=None, data=None, extra_env=None, simulate=None, workers=8, timeout=800, heap="6g",
            cont=False, more=None):
        """Runs TLC on spec/<module>.tla. Returns dict(ok, states, distinct, out, trace, prints)."""
        self.n += 1
        e = env()
        if data is not None:
            p = os.path.join(self.scratch, "data%d.ndjson" % self.n)
            with open(p, "w") as f:
                for r in data:
                    f.write(json.dumps(r) + "\n")
            e["DATA"] = p
        for name, rs in (more or {}).items():
            p = os.path.join(self.scratch, "%s%d.ndjson" % (name.lower(), self.n))
            with open(p, "w") as f:
                for r in rs:
                    f.write(json.dumps(r) + "\n")
            e[name] = p
        for k, v in (extra_env or {}).items():
            e[k] = str(v)
        meta = os.path.join(self.scratch, "tlc%d" % self.n)
        tmp = os.path.join(self.scratch, "tmp%d" % self.n)
        os.makedirs(tmp)
        cp = TLAJAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"
        import glob
        cp = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp", cp, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-checkpoint", "0",
               "-config", os.path.join(VERIF, "spec", (cfg or module) + ".cfg")]
        if cont:
            cmd += ["-continue"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED)]
        cmd += [os.path.join(VERIF, "spec", module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               cwd=tmp, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        out = p.stdout
        r = {"out": out, "rc": p.returncode, "trace": "", "prints": []}
        for l in out.splitlines():
            if l.startswith("@@"):
                r["prints"].append(l[2:])
            elif l.startswith('"@@'):
                r["prints"].append(json.loads(l)[2:])
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if not m:
            m = re.findall(r"Progress: (\d[\d,]*) states checked, ()", out)
        g = int(m[-1][0].replace(",", "")) if m else 0
        dd = int(m[-1][1].replace(",", "") or 0) if m else 0
        r["generated"], r["distinct"] = g, dd
        if p.returncode in (12, 13) or re.search(r"Error: (Invariant|Action property) ", out):
            i = out.find("Error: ")
            r["trace"] = out[i:i + 20000]
            # every violated behaviour: (invariant, last state as text)
            r["bad"] = []
            for blk in re.split(r"(?=Error: (?:Invariant|Action property) )", out)[1:]:
                name = re.match(r"Error: \w+(?: property)? (\w+)", blk).group(1)
                sts = re.split(r"\nState \d+: ", blk)
                last = sts[-1].split("\n\n")[0] if len(sts) > 1 else blk
                r["bad"].append((name, last, blk[:8000]))
            r["ok"] = False
        elif p.returncode == 0 or (simulate and "Error:" not in out):
            r["ok"] = True
        else:
            raise ToolError("TLC rc=%d on %s:\n%s" % (p.returncode, module, out[-5000:]))
        self.states += dd
        self.transitions += g
        self.log("TLC %s: %d states, %d transitions, %s, %.1fs" % (cfg or module, dd, g, "ok" if r["ok"] else "VIOLATED",
                                                              time.time() - t))
        return r

    # ---- reporting
    def log(self, s):
        print("[%s %.0fs] %s" % (self.pid, time.time() - T0, s), flush=True)

    def violation(self, what, detail):
        d = os.path.join(VERIF, "out")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(what.encode()).hexdigest()[:8]
        path = os.path.join(d, "%s-%s.txt" % (self.pid, h))
        with open(path, "w") as f:
            f.write(what + "\n\n" + detail + "\n")
        if (what, path) in self.violations:
            return
        self.violations.append((what, path))
        if len(self.violations) <= 15:
            self.log("VIOLATED: " + what[:500])

    def known_finding(self, what):
        self.known.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": dict(self.cov, states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples[:12] or ["none"]),
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for w, p in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        self.log("states=%d transitions=%d traces=%d violations=%d" % (self.states, self.transitions, self.traces,
                                                                 len(self.violations)))
        sys.exit(1 if self.violations else 0)


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        c.finish()
    except ToolError as e:
        print("ERROR of the check itself: %s" % e, flush=True)
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.exit(2)


def parts_json(parts):
    return [{"is_public": p, "regex_def": r} for p, r in parts]


def show(parts):
    return " + ".join(("PUB " if p else "") + repr(r) for p, r in parts)


def delta(tab):
    """The rows of allstr.txt as delta[q][b] (-1: none), first/accept/max, and duplicates."""
    rows = tab["all"]
    first, acc, mx = rows[0][0], rows[1], rows[2][0]
    n = max([mx] + [max(r[0], r[1]) for r in rows[3:]]) + 1
    dl = [[-1] * 256 for _ in range(n)]
    dup = []
    for f, t, b in rows[3:]:
        if dl[f][b] not in (-1, t):
            dup.append([f, t, b])
        dl[f][b] = t
    return first, acc, mx, dl, dup


def subs(tab):
    out = []
    for s in tab["subs"]:
        out.append({"starts": s[0], "ends": s[1], "edges": s[2:]})
    return out


def known(pid, key):
    """is the finding listed in KNOWN_FINDINGS.md?"""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.md")) as f:
        return any(re.match(r"- known: property=%s %s\b" % (pid, re.escape(key)), l) for l in f)
